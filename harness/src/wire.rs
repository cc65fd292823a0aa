//! Cases sent to another target and outcomes sent back.
//!
//! The target is emulated by an interpreter, in which generating inputs and
//! computing expectations would take most of the time. So cases are generated
//! here, run there, and judged here.

use crate::engine::*;
use crate::tape::Tape;
use crate::z::Z;
use std::collections::HashSet;
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};

/// Room for any number: 1024 bits and a sign.
const WIDTH: usize = 136;

fn put_case(out: &mut Vec<u8>, k: usize, args: &Args) {
    out.extend((k as u32).to_le_bytes());
    out.extend((args.len() as u32).to_le_bytes());
    for a in args {
        match a {
            Arg::Z(z) => {
                out.push(0);
                out.extend(z.to_le(WIDTH));
            }
            Arg::S(s) => {
                out.push(1);
                out.extend((s.len() as u32).to_le_bytes());
                out.extend(s.as_bytes());
            }
            Arg::Raw(_) => unreachable!(),
        }
    }
}

struct Reader<'a>(&'a [u8]);
impl<'a> Reader<'a> {
    fn take(&mut self, n: usize) -> Option<&'a [u8]> {
        if self.0.len() < n {
            return None;
        }
        let (a, b) = self.0.split_at(n);
        self.0 = b;
        Some(a)
    }
    fn num(&mut self) -> Option<usize> {
        Some(u32::from_le_bytes(self.take(4)?.try_into().expect("four bytes")) as usize)
    }
    fn text(&mut self) -> Option<&'a [u8]> {
        let n = self.num()?;
        self.take(n)
    }
}

fn put(out: &mut Vec<u8>, r: &R) {
    match r {
        R::Raw(b, signed) => {
            out.push(if *signed { 1 } else { 0 });
            out.extend((b.len() as u32).to_le_bytes());
            out.extend_from_slice(b);
        }
        R::Z(z) => {
            out.push(1);
            out.extend((WIDTH as u32).to_le_bytes());
            out.extend(z.to_le(WIDTH));
        }
        R::B(b) => out.push(2 + *b as u8),
        R::S(s) => {
            out.push(4);
            out.extend((s.len() as u32).to_le_bytes());
            out.extend_from_slice(s.as_bytes());
        }
        R::None => out.push(5),
        R::Some(r) => {
            out.push(6);
            put(out, r);
        }
        R::Err => out.push(7),
        R::T(v) => {
            out.push(8);
            out.extend((v.len() as u32).to_le_bytes());
            v.iter().for_each(|r| put(out, r));
        }
        R::Panic => out.push(9),
        R::Any(_) | R::Free => unreachable!(),
    }
}

fn get(i: &mut Reader) -> Option<R> {
    Some(match i.take(1)?[0] {
        s @ 0..=1 => R::Z(Z::from_le(i.text()?, s == 1)),
        b @ 2..=3 => R::B(b == 3),
        4 => R::S(String::from_utf8_lossy(i.text()?).to_string()),
        5 => R::None,
        6 => R::some(get(i)?),
        7 => R::Err,
        8 => R::T((0..i.num()?).map(|_| get(i)).collect::<Option<_>>()?),
        9 => R::Panic,
        _ => return None,
    })
}

/// Run the cases of a file. Each outcome is written at once: should the process
/// end early, the first one missing is to blame.
pub fn serve(ops: &[Op], file: &str) {
    let data = std::fs::read(file).expect("case file");
    let mut i = Reader(&data);
    let mut out = std::io::stdout();
    while let Some(k) = i.num() {
        let n = i.num().expect("count");
        let mut args = Vec::with_capacity(n);
        for _ in 0..n {
            args.push(match i.take(1).expect("tag")[0] {
                0 => Arg::Raw(i.take(WIDTH).expect("number").to_vec()),
                _ => Arg::S(String::from_utf8(i.text().expect("text").to_vec()).expect("text")),
            });
        }
        let r = catch_unwind(AssertUnwindSafe(|| (ops[k].act)(&args))).unwrap_or(R::Panic);
        let mut b = Vec::with_capacity(160);
        put(&mut b, &r);
        let mut frame = Vec::with_capacity(b.len() + 4);
        frame.extend((b.len() as u32).to_le_bytes());
        frame.extend(b);
        out.write_all(&frame).expect("write");
        out.flush().expect("write");
    }
}

/// Is this a case for a constant? It must be listed, written as an expression,
/// and expected to return.
fn constant(ops: &[Op], consts: &HashSet<String>, k: usize, args: &Args) -> bool {
    let op = &ops[k];
    let sign = if op.ty.signed { "signed" } else { "unsigned" };
    let listed = consts.contains("*") || consts.contains(&format!("{} {sign}", op.name));
    listed && !op.src.1.is_empty() && !matches!((op.exp)(&op.ty, args), R::Panic | R::Free)
}

/// The cases of one shard: operation and tape. With a list of constant
/// operations only theirs.
fn cases(
    ops: &[Op],
    seed: u64,
    shard: (u64, u64),
    base: u64,
    consts: Option<&HashSet<String>>,
    mut f: impl FnMut(usize, &mut Tape),
) {
    let source = Source { seed, stream: "target", shared: 0 };
    for (k, op) in ops.iter().enumerate() {
        if let Some(consts) = consts {
            if case_seed(source, op, 0) % shard.1 == shard.0 {
                for i in 0..base {
                    let seed = case_seed(source, op, i);
                    let args = (op.gen)(&mut Tape::random(seed), &op.ty);
                    if constant(ops, consts, k, &args) {
                        f(k, &mut Tape::random(seed));
                    }
                }
            }
            continue;
        }
        // The operations of programs take part themselves, and whole algorithms
        // and text of wide numbers take minutes.
        let wide = op.name.starts_with("P15.") && op.ty.bits > 384 || op.name.starts_with("P12.") && op.ty.bits > 512;
        if wide || op.name == "P15.program" {
            continue;
        }
        if case_seed(source, op, 0) % shard.1 != shard.0 {
            continue;
        }
        let n = (base * op.weight as u64 / 100).clamp(1, 2 * base);
        for i in 0..n {
            let mut tape = Tape::random(case_seed(source, op, i));
            // Long text takes minutes.
            let long = |a: &Arg| matches!(a, Arg::S(s) if s.len() > 200);
            if !(op.gen)(&mut tape, &op.ty).iter().any(long) {
                f(k, &mut Tape::random(case_seed(source, op, i)));
            }
        }
    }
}

pub fn emit(ops: &[Op], seed: u64, shard: (u64, u64), base: u64, out: &str) {
    let mut b = Vec::new();
    cases(ops, seed, shard, base, None, |k, tape| put_case(&mut b, k, &(ops[k].gen)(tape, &ops[k].ty)));
    std::fs::write(out, b).expect("write cases");
}

const HEAD: &str = "#![allow(warnings, long_running_const_eval)] use harness::{engine::ToR, wire::{kind, say}}; use i256::{I1024, I256, I384, I512, U1024, U256, U384, U512};\n";

/// The case as one line of Rust: a function that evaluates the call at compile
/// time and writes the outcome.
fn source_line(op: &Op, i: usize, args: &Args) -> String {
    let mut s = format!("fn c{i}() {{ say(const {{ ");
    for ((v, t), a) in op.src.0.iter().zip(args) {
        let value = match (*t, a) {
            ("bool", a) => (!a.z().is_zero()).to_string(),
            (_, Arg::S(x)) => format!("{x:?}"),
            (t, a) if t.starts_with(['U', 'I']) => {
                let n: usize = t[1..].parse().expect("width");
                format!("{t}::from_le_bytes({:?})", a.z().to_le(n / 8))
            }
            (t, a) => {
                let le: [u8; 16] = a.le();
                format!("{:#x}u128 as {t}", u128::from_le_bytes(le))
            }
        };
        s += &format!("let {v}: {t} = {value}; ");
    }
    let expr = op.src.1.replace('\n', " ");
    let wrap = if expr.contains("from_str_radix") { "kind" } else { "ToR::r" };
    s.replace("say(", &format!("say({wrap}(")) + &format!("{expr} }})) }}\n")
}

/// A program of constants, line 2 + i the case i.
pub fn emit_const(ops: &[Op], seed: u64, shard: (u64, u64), base: u64, consts: &HashSet<String>, out: &str) {
    let mut text = String::from(HEAD);
    let mut n = 0;
    cases(ops, seed, shard, base, Some(consts), |k, tape| {
        text += &source_line(&ops[k], n, &(ops[k].gen)(tape, &ops[k].ty));
        n += 1;
    });
    text += "fn main() {\n";
    (0..n).for_each(|i| text += &format!("c{i}();\n"));
    text += "}\n";
    std::fs::write(out, text).expect("write source");
}

/// The names of the operations of each case, to list which can be constant.
pub fn names_const(ops: &[Op], seed: u64, base: u64, consts: &HashSet<String>) {
    cases(ops, seed, (0, 1), base, Some(consts), |k, _| {
        println!("{} {}", ops[k].name, if ops[k].ty.signed { "signed" } else { "unsigned" });
    });
}

/// One of the cases, without outcome.
pub fn case_const(
    ops: &[Op],
    seed: u64,
    shard: (u64, u64),
    base: u64,
    consts: &HashSet<String>,
    index: u64,
) -> Failure {
    let (mut n, mut found) = (0, None);
    cases(ops, seed, shard, base, Some(consts), |k, tape| {
        if n == index {
            let v = verdict(&ops[k], tape, None);
            found = Some(Failure {
                op: k,
                tape: tape.words.clone(),
                args: format!("{:?}", v.args),
                expected: format!("{:?}", v.expected),
                got: String::new(),
            });
        }
        n += 1;
    });
    found.expect("index of a case")
}

/// Write an outcome.
pub fn say(r: R) {
    let mut b = Vec::new();
    put(&mut b, &r);
    let mut frame = (b.len() as u32).to_le_bytes().to_vec();
    frame.extend(b);
    let mut out = std::io::stdout();
    out.write_all(&frame).expect("write");
    out.flush().expect("write");
}

/// The outcome of parsing.
pub fn kind<T: ToR>(r: Result<T, i256::ParseIntError>) -> R {
    match r {
        Ok(x) => R::some(x.r()),
        Err(e) => R::T(vec![R::Err, R::S(format!("{:?}", e.kind()))]),
    }
}

/// One case from its tape, to run there or as a constant.
pub fn single(ops: &[Op], k: usize, out: &str, words: &[u64]) {
    let mut b = Vec::new();
    let args = (ops[k].gen)(&mut Tape::fixed(words), &ops[k].ty);
    if out.ends_with(".rs") {
        b.extend(format!("{HEAD}{}fn main() {{ c0(); }}\n", source_line(&ops[k], 0, &args)).bytes());
    } else {
        put_case(&mut b, k, &args);
    }
    std::fs::write(out, b).expect("write case");
}

fn verdict(op: &Op, tape: &mut Tape, got: Option<R>) -> Verdict {
    let args = (op.gen)(tape, &op.ty);
    let expected = (op.exp)(&op.ty, &args);
    let ok = got.as_ref().is_some_and(|g| expected.accepts(g));
    let nontrivial = (op.nontrivial)(&op.ty, &args, &expected);
    let got = got.unwrap_or(R::S("no outcome: the interpreter stopped here".into()));
    Verdict { args, expected, got, ok, nontrivial }
}

/// The report (fields of a JSON object) and at most one failure of each
/// operation. The first case without an outcome fails, those after it do not
/// count.
pub fn judge(
    ops: &[Op],
    seed: u64,
    shard: (u64, u64),
    base: u64,
    consts: Option<&HashSet<String>>,
    got: &str,
) -> (String, Vec<Failure>) {
    let data = std::fs::read(got).expect("outcomes");
    let mut i = Reader(&data);
    let mut fails: Vec<Failure> = Vec::new();
    let (mut n, mut nontrivial, mut exceptional, mut stopped) = (0, 0, 0, false);
    let mut distinct = HashSet::new();
    let mut samples = Vec::new();
    let mut met = HashSet::new();
    cases(ops, seed, shard, base, consts, |k, tape| {
        if stopped {
            return;
        }
        let frame = i.text();
        stopped = frame.is_none();
        let op = &ops[k];
        let v = verdict(op, tape, frame.and_then(|f| get(&mut Reader(f))));
        if !stopped {
            n += 1;
            nontrivial += v.nontrivial as u64;
            exceptional += v.expected.exceptional() as u64;
            met.insert(k);
            if v.nontrivial {
                distinct.insert(hash((k, &v.args)));
            }
            if n % 5000 == 17 && samples.len() < 3 {
                samples.push(format!("{}::{} {:?} -> {:?}", op.ty.name(), op.name, v.args, v.got));
            }
        }
        if !v.ok && fails.last().is_none_or(|f| f.op != k) && fails.len() < 40 {
            fails.push(Failure {
                op: k,
                tape: tape.words.clone(),
                args: format!("{:?}", v.args),
                expected: format!("{:?}", v.expected),
                got: format!("{:?}", v.got),
            });
        }
    });
    let samples: Vec<_> = samples.iter().map(|s| crate::json_str(s)).collect();
    let report = format!(
        "\"evaluations\":{n},\"nontrivial\":{nontrivial},\"distinct_nontrivial\":{},\"exceptional\":{exceptional},\
         \"operations\":{},\"stopped\":{stopped},\"samples\":[{}]",
        distinct.len(),
        met.len(),
        samples.join(",")
    );
    (report, fails)
}

/// One case on the target.
pub fn there(
    ops: &[Op],
    k: usize,
    file: &str,
    words: &[u64],
    run: impl FnOnce() -> Option<Vec<u8>>,
) -> Verdict {
    single(ops, k, file, words);
    let got = run().and_then(|d| Reader(&d).text().and_then(|f| get(&mut Reader(f))));
    verdict(&ops[k], &mut Tape::fixed(words), got)
}

/// Minimise a case whose outcome on the target is wrong. `run` executes the
/// case file there and returns what was written.
pub fn minimise(
    ops: &[Op],
    k: usize,
    file: &str,
    words: &[u64],
    mut run: impl FnMut() -> Option<Vec<u8>>,
) -> Failure {
    let op = &ops[k];
    let mut outcome = |w: &[u64]| -> Option<Verdict> {
        single(ops, k, file, w);
        let data = run()?;
        let got = Reader(&data).text().and_then(|f| get(&mut Reader(f)));
        Some(verdict(op, &mut Tape::fixed(w), got))
    };
    // A panic cannot be a constant.
    let words = shrink(words, usize::MAX, |w| outcome(w).is_some_and(|v| !v.ok && v.expected != R::Panic));
    let mut tape = Tape::fixed(&words);
    let v = match outcome(&words) {
        Some(v) => v,
        None => verdict(op, &mut tape, None),
    };
    Failure {
        op: k,
        tape: words,
        args: format!("{:?}", v.args),
        expected: format!("{:?}", v.expected),
        got: format!("{:?}", v.got),
    }
}
