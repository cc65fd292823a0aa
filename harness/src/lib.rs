//! Property-based tests of the crate in /repo.
//!
//!   harness run SEED STREAM SHARED BASE OUT.json    search, and report
//!   harness replay OP TYPE WORD...                  one case from its tape
//!   harness crash SEED STREAM SHARED OP CASE OUT    shrink a case that killed the process
//!   harness list SEED OP TYPE COUNT                 hashes of the outcomes of shared cases
//!   harness differ SEED OP TYPE COUNT OTHER OUT     shrink the first shared case that the
//!                                                   executable OTHER decides differently
//!   harness emit SEED SHARD OF BASE OUT             cases for another target
//!   harness serve FILE                              run emitted cases there, outcomes to standard output
//!   harness judge SEED SHARD OF BASE GOT OUT        judge those outcomes here
//!   harness minimise OP TYPE FILE OUT SECONDS WORD... -- COMMAND...
//!                                                   shrink a case decided wrongly there; COMMAND serves FILE
//!   harness there OP TYPE FILE WORD... -- COMMAND...    one case from its tape
//!
//! HARNESS_TARGET (such as big64) names the byte order and pointers expected
//! there, HARNESS_ONLY the one property whose operations matter.
//!
//! HARNESS_CONST names a list of operations that can be evaluated at compile
//! time: `emit` then writes a program of constants, `judge` judges its output.
//!
//!   harness case SEED SHARD OF BASE INDEX OUT       one of those, not evaluated
//!   harness names SEED BASE                         the operations of those
//!
//! HARNESS_SKIP lists operations, by number, that `run` leaves out.
//!
//! SHARED: how many cases of each operation are the same in every stream.

#![allow(dead_code)]

mod big;
pub mod engine;
mod gen;
mod oracle;
mod props;
mod tape;
pub mod wire;
mod z;

use engine::*;
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};
use tape::Tape;

static CUR_OP: AtomicUsize = AtomicUsize::new(0);
static CUR_CASE: AtomicUsize = AtomicUsize::new(0);

extern "C" {
    fn signal(sig: i32, handler: usize) -> usize;
    fn _exit(code: i32) -> !;
    fn write(fd: i32, buf: *const std::ffi::c_void, n: usize) -> isize;
}

/// Names the running case on standard error and leaves with status 77. Only
/// async-signal-safe calls.
extern "C" fn on_signal(sig: i32) {
    let mut buf = [0u8; 96];
    let mut n = 0;
    let mut text = |s: &[u8]| {
        for b in s {
            buf[n] = *b;
            n += 1;
        }
    };
    fn dec(mut v: u64, out: &mut [u8; 20]) -> usize {
        let mut i = 20;
        loop {
            i -= 1;
            out[i] = b'0' + (v % 10) as u8;
            v /= 10;
            if v == 0 {
                return i;
            }
        }
    }
    let mut d = [0u8; 20];
    text(b"CRASH ");
    let i = dec(sig as u64, &mut d);
    text(&d[i..]);
    text(b" ");
    let i = dec(CUR_OP.load(Relaxed) as u64, &mut d);
    text(&d[i..]);
    text(b" ");
    let i = dec(CUR_CASE.load(Relaxed) as u64, &mut d);
    text(&d[i..]);
    text(b"\n");
    unsafe {
        write(2, buf.as_ptr().cast(), n);
        _exit(77)
    }
}

fn catch_signals() {
    if cfg!(miri) {
        return;
    }
    // SIGILL, SIGTRAP, SIGABRT, SIGBUS, SIGFPE, SIGSEGV
    for s in [4, 5, 6, 7, 8, 11] {
        unsafe { signal(s, on_signal as *const () as usize) };
    }
}

/// Leaves with status 78 if one case takes far too long.
fn watch() {
    let mut seen = (0, 0);
    loop {
        std::thread::sleep(std::time::Duration::from_secs(1));
        let begun = BEGUN.load(Relaxed);
        seen = if seen.0 == begun { (begun, seen.1 + 1) } else { (begun, 0) };
        if seen.1 == 40 {
            eprintln!("HANG {}", CUR_OP.load(Relaxed));
            unsafe { _exit(78) }
        }
    }
}

fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 || c as u32 > 126 => {
                let mut b = [0; 2];
                for u in c.encode_utf16(&mut b) {
                    o.push_str(&format!("\\u{u:04x}"));
                }
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn fail_json(ops: &[Op], f: &Failure) -> String {
    let op = &ops[f.op];
    format!(
        "{{\"op\":{},\"type\":{},\"tape\":[{}],\"args\":{},\"expected\":{},\"got\":{}}}",
        json_str(op.name),
        json_str(&op.ty.name()),
        f.tape.iter().map(|w| format!("\"{w}\"")).collect::<Vec<_>>().join(","),
        json_str(&f.args),
        json_str(&f.expected),
        json_str(&f.got)
    )
}

fn report(ops: &[Op], st: &Stats, selftest: u64) -> String {
    let mut o = String::from("{");
    o += &format!("\"evaluations\":{},\"nontrivial\":{},", st.evaluations, st.nontrivial);
    o += &format!("\"distinct_nontrivial\":{},", st.distinct.len());
    o += &format!("\"exceptional\":{},\"operations\":{},", st.exceptional, st.per_op.len());
    o += &format!("\"failing_operations\":{},\"oracle_selftest\":{},", st.failing_ops, selftest);
    let least = st.per_op.iter().min_by_key(|(_, v)| v.1);
    if let Some((name, (n, nt))) = least {
        let s = format!("{name}: {nt} of {n}");
        o += &format!("\"least_nontrivial_operation\":{},", json_str(&s));
    }
    let samples: Vec<_> = st.samples.iter().map(|s| json_str(s)).collect();
    o += &format!("\"samples\":[{}],", samples.join(","));
    let fails: Vec<_> = st.failures.iter().map(|f| fail_json(ops, f)).collect();
    o += &format!("\"failures\":[{}]", fails.join(","));
    if st.digests.iter().any(|d| d.2 > 0) {
        // Hashes as text: they do not survive as numbers.
        let all: Vec<_> = st.digests.iter().zip(ops).map(|((a, g, n), op)| {
            format!("{}:[\"{a:x}\",\"{g:x}\",{n}]", json_str(&format!("{} {}", op.name, op.ty.name())))
        }).collect();
        o += &format!(",\"digests\":{{{}}}", all.join(","));
    }
    o.push('}');
    o
}

fn outcome(op: &Op, v: &Verdict) -> String {
    let Verdict { args, expected, got, .. } = v;
    format!("{}::{} {args:?}\n  expected {expected:?}\n  got      {got:?}\n", op.ty.name(), op.name)
}

pub fn main() {
    let quiet = std::env::var_os("HARNESS_PANICS").is_none();
    if quiet {
        std::panic::set_hook(Box::new(|_| {}));
    }
    let args: Vec<String> = std::env::args().collect();
    if let Ok(target) = std::env::var("HARNESS_TARGET") {
        big::set_target(&target);
    }
    let (_, ops) = props::ops();
    let consts = std::env::var("HARNESS_CONST").ok().map(|f| {
        let text = std::fs::read_to_string(f).expect("list of constant operations");
        text.lines().map(String::from).collect::<std::collections::HashSet<_>>()
    });
    let num = |i: usize| -> u64 { args[i].parse().expect("number") };
    let find = |name: &str, ty: &str| -> (usize, &Op) {
        ops.iter().enumerate().find(|(_, o)| o.name == name && o.ty.name() == ty).expect("operation")
    };
    match args[1].as_str() {
        "run" => {
            let source = Source { seed: num(2), stream: args[3].as_str(), shared: num(4) };
            let base = num(5);
            let checks = z::selftest(source.seed);
            catch_signals();
            let progress = |k: usize, i: u64| {
                CUR_OP.store(k, Relaxed);
                CUR_CASE.store(i as usize, Relaxed);
            };
            // Also on standard error, should a later case hang.
            let failed = |f: &Failure| eprintln!("FAILURE {}", fail_json(&ops, f));
            let skip = std::env::var("HARNESS_SKIP").unwrap_or_default();
            let skip: Vec<usize> = skip.split(',').filter_map(|s| s.parse().ok()).collect();
            std::thread::spawn(watch);
            let st = search(&ops, source, base, &skip, progress, failed);
            std::fs::write(&args[6], report(&ops, &st, checks)).expect("write report");
        }
        "replay" => {
            let (_, op) = find(&args[2], &args[3]);
            let words: Vec<u64> = args[4..].iter().map(|s| s.parse().expect("word")).collect();
            catch_signals();
            let v = run_case(op, &mut Tape::fixed(&words));
            print!("{}", outcome(op, &v));
            std::process::exit(if v.ok { 0 } else { 1 });
        }
        "crash" => {
            // Each candidate runs in a process of its own.
            let source = Source { seed: num(2), stream: args[3].as_str(), shared: num(4) };
            let (k, i) = (num(5) as usize, num(6));
            let op = &ops[k];
            let exe = std::env::current_exe().expect("own path");
            let mut tape = Tape::random(case_seed(source, op, i));
            (op.gen)(&mut tape, &op.ty);
            let words = shrink(&tape.words, 600, |w| {
                let mut c = std::process::Command::new(&exe);
                c.arg("replay").arg(op.name).arg(op.ty.name());
                c.args(w.iter().map(|x| x.to_string()));
                c.stdout(std::process::Stdio::null()).stderr(std::process::Stdio::null());
                c.status().is_ok_and(|s| s.code() == Some(77))
            });
            let mut tape = Tape::fixed(&words);
            let a = (op.gen)(&mut tape, &op.ty);
            let f = Failure {
                op: k,
                tape: words,
                args: format!("{a:?}"),
                expected: format!("{:?}", (op.exp)(&op.ty, &a)),
                got: "the process was killed by a signal".into(),
            };
            std::fs::write(&args[7], fail_json(&ops, &f)).expect("write report");
        }
        "list" => {
            let (_, op) = find(&args[3], &args[4]);
            let source = Source { seed: num(2), stream: "", shared: u64::MAX };
            for i in 0..num(5) {
                let v = run_case(op, &mut Tape::random(case_seed(source, op, i)));
                println!("{:x}", hash(&v.got));
            }
        }
        "differ" => {
            let (k, op) = find(&args[3], &args[4]);
            let source = Source { seed: num(2), stream: "", shared: u64::MAX };
            let other = |a: &[String]| {
                let mut c = std::process::Command::new(&args[6]);
                let out = c.args(a).stderr(std::process::Stdio::null()).output().expect("other");
                String::from_utf8_lossy(&out.stdout).to_string()
            };
            let theirs = other(&[vec!["list".into()], args[2..6].to_vec()].concat());
            let first = theirs.lines().enumerate().find_map(|(i, h)| {
                let mut tape = Tape::random(case_seed(source, op, i as u64));
                let v = run_case(op, &mut tape);
                (format!("{:x}", hash(&v.got)) != h).then_some(tape.words)
            });
            let got = |w: &[u64]| {
                let mut a = vec!["replay".into(), args[3].clone(), args[4].clone()];
                a.extend(w.iter().map(|x| x.to_string()));
                other(&a)
            };
            let mine = |w: &[u64]| {
                let v = run_case(op, &mut Tape::fixed(w));
                outcome(op, &v)
            };
            let words = first.expect("no difference");
            let words = shrink(&words, 600, |w| got(w) != mine(w));
            let mut f = failure(k, op, &words);
            f.expected = format!("as in the other build: {}", got(&words).lines().last().unwrap_or(""));
            std::fs::write(&args[7], fail_json(&ops, &f)).expect("write report");
        }
        "serve" => wire::serve(&ops, &args[2]),
        "emit" => match &consts {
            Some(c) => wire::emit_const(&ops, num(2), (num(3), num(4)), num(5), c, &args[6]),
            None => wire::emit(&ops, num(2), (num(3), num(4)), num(5), &args[6]),
        },
        "case" => {
            let c = consts.as_ref().expect("list");
            let f = wire::case_const(&ops, num(2), (num(3), num(4)), num(5), c, num(6));
            std::fs::write(&args[7], fail_json(&ops, &f)).expect("write report");
        }
        "names" => wire::names_const(&ops, num(2), num(3), consts.as_ref().expect("list")),
        "judge" => {
            let (report, fails) = wire::judge(&ops, num(2), (num(3), num(4)), num(5), consts.as_ref(), &args[6]);
            let fails: Vec<_> = fails.iter().map(|f| fail_json(&ops, f)).collect();
            let text = format!("{{{report},\"failures\":[{}]}}", fails.join(","));
            std::fs::write(&args[7], text).expect("write report");
        }
        "minimise" | "there" => {
            let there = args[1] == "there";
            let (k, op) = find(&args[2], &args[3]);
            let file = args[4].as_str();
            let dash = args.iter().position(|a| a == "--").expect("command");
            let words = &args[if there { 5 } else { 7 }..dash];
            let words: Vec<u64> = words.iter().map(|s| s.parse().expect("word")).collect();
            let seconds = if there { 3600 } else { num(6) };
            let started = std::time::Instant::now();
            let run = || {
                if started.elapsed().as_secs() >= seconds {
                    return None;
                }
                let mut c = std::process::Command::new(&args[dash + 1]);
                c.args(&args[dash + 2..]).stderr(std::process::Stdio::null());
                c.output().ok().map(|o| o.stdout)
            };
            if there {
                let v = wire::there(&ops, k, file, &words, run);
                print!("{}", outcome(op, &v));
                std::process::exit(if v.ok { 0 } else { 1 });
            }
            let f = wire::minimise(&ops, k, file, &words, run);
            std::fs::write(&args[5], fail_json(&ops, &f)).expect("write report");
        }
        _ => panic!("usage"),
    }
}
