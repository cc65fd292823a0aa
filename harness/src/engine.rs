//! Cases, verdicts, search and shrinking.

use crate::tape::{hash_str, mix, Tape};
use crate::z::{Ty, Z};
use std::collections::{BTreeMap, HashSet};
use std::rc::Rc;
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};
use std::panic::{catch_unwind, AssertUnwindSafe};

/// A canonical result: what a call returned, or that it panicked.
#[derive(Clone, PartialEq, Hash, Debug)]
pub enum R {
    Z(Z),
    B(bool),
    S(String),
    None,
    Some(Box<R>),
    Err,
    T(Vec<R>),
    Panic,
    /// A number as it came from the call: two's complement little-endian bytes
    /// and signedness. Only inside an interpreter, where the conversion costs.
    Raw(Vec<u8>, bool),
    /// Expected side only: any of these.
    Any(Vec<R>),
    /// Expected side only: no claim beyond "returns or panics".
    Free,
}

impl R {
    pub fn number(le: &[u8], signed: bool) -> R {
        if cfg!(miri) {
            R::Raw(le.to_vec(), signed)
        } else {
            R::Z(Z::from_le(le, signed))
        }
    }
    pub fn some(r: R) -> R {
        R::Some(Box::new(r))
    }
    pub fn accepts(&self, got: &R) -> bool {
        match (self, got) {
            (R::Free, _) => true,
            (R::Any(v), g) => v.iter().any(|e| e.accepts(g)),
            (R::Some(a), R::Some(b)) => a.accepts(b),
            (R::T(a), R::T(b)) => a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.accepts(y)),
            (a, b) => a == b,
        }
    }
    /// Not a plain value: an overflow report, a refusal or a panic.
    pub fn exceptional(&self) -> bool {
        match self {
            R::None | R::Err | R::Panic => true,
            R::T(v) => v.iter().any(|x| x.exceptional()) || matches!(v.as_slice(), [_, R::B(true)]),
            _ => false,
        }
    }
}

/// Conversion of a returned value to its canonical form.
pub trait ToR {
    fn r(self) -> R;
}
macro_rules! prim_r {
    ($($t:ty)*) => {$(
        impl ToR for $t {
            fn r(self) -> R { R::number(&self.to_le_bytes(), <$t>::MIN != 0) }
        }
    )*};
}
prim_r! { u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize }
impl ToR for bool {
    fn r(self) -> R {
        R::B(self)
    }
}
impl ToR for String {
    fn r(self) -> R {
        R::S(self)
    }
}
impl ToR for () {
    fn r(self) -> R {
        R::T(vec![])
    }
}
impl ToR for std::cmp::Ordering {
    fn r(self) -> R {
        R::Z(Z::i(self as i64))
    }
}
impl<T: ToR> ToR for Option<T> {
    fn r(self) -> R {
        match self {
            Some(x) => R::some(x.r()),
            None => R::None,
        }
    }
}
impl<T: ToR, E> ToR for Result<T, E> {
    fn r(self) -> R {
        match self {
            Ok(x) => R::some(x.r()),
            Err(_) => R::Err,
        }
    }
}
impl<A: ToR, B: ToR> ToR for (A, B) {
    fn r(self) -> R {
        R::T(vec![self.0.r(), self.1.r()])
    }
}
impl<T: ToR, const N: usize> ToR for [T; N] {
    fn r(self) -> R {
        R::T(self.into_iter().map(|x| x.r()).collect())
    }
}
impl ToR for R {
    fn r(self) -> R {
        self
    }
}
impl ToR for Vec<R> {
    fn r(self) -> R {
        R::T(self)
    }
}

#[derive(Clone, Debug, Hash, PartialEq)]
pub enum Arg {
    Z(Z),
    S(String),
    /// Sign-extended little-endian bytes, as read from a case file.
    Raw(Vec<u8>),
}
impl Arg {
    pub fn z(&self) -> &Z {
        match self {
            Arg::Z(z) => z,
            _ => panic!("numeric argument"),
        }
    }
    pub fn s(&self) -> &str {
        match self {
            Arg::S(s) => s,
            _ => panic!("text argument"),
        }
    }
    /// The low bytes of a number.
    pub fn le<const N: usize>(&self) -> [u8; N] {
        let mut b = [0; N];
        match self {
            Arg::Raw(v) => b.copy_from_slice(&v[..N]),
            a => b.copy_from_slice(&a.z().to_le(N)),
        }
        b
    }
}
pub type Args = Vec<Arg>;
pub fn zs<const N: usize>(v: [Z; N]) -> Args {
    v.into_iter().map(Arg::Z).collect()
}

pub type GenFn = Rc<dyn Fn(&mut Tape, &Ty) -> Args>;
pub type ExpFn = Rc<dyn Fn(&Ty, &Args) -> R>;
pub type ActFn = fn(&Args) -> R;
/// How a call is written: its variables with their types, and the expression.
pub type Src = (&'static [(&'static str, &'static str)], &'static str);
/// Of a call that is more than an expression.
pub const UNWRITTEN: Src = (&[], "");
/// Name, call, which arguments are big integers, and how it is written.
pub type Act = (&'static str, ActFn, &'static [Option<Ty>], Src);

/// What is expected of one operation, for every type.
pub struct Spec {
    pub name: &'static str,
    pub gen: GenFn,
    pub exp: ExpFn,
    /// Cases relative to the tier's base count, in percent.
    pub weight: u32,
    /// The rule that makes a case of this operation count.
    pub nontrivial: fn(&Ty, &Args, &R) -> bool,
}

/// Default rule: some operand needs more than one 64-bit limb, or the case must
/// report an overflow, refuse or panic.
pub fn default_rule(_: &Ty, a: &Args, e: &R) -> bool {
    e.exceptional()
        || a.iter().any(|x| match x {
            Arg::Z(z) => z.bits() > 64,
            Arg::S(s) => s.len() > 20,
            Arg::Raw(_) => true,
        })
}

pub fn spec(
    name: &'static str,
    gen: impl Fn(&mut Tape, &Ty) -> Args + 'static,
    exp: impl Fn(&Ty, &Args) -> R + 'static,
) -> Spec {
    Spec { name, gen: Rc::new(gen), exp: Rc::new(exp), weight: 100, nontrivial: default_rule }
}
impl Spec {
    pub fn weight(mut self, w: u32) -> Spec {
        self.weight = w;
        self
    }
    #[allow(dead_code)]
    pub fn rule(mut self, f: fn(&Ty, &Args, &R) -> bool) -> Spec {
        self.nontrivial = f;
        self
    }
}

/// The operation on one type.
#[derive(Clone)]
pub struct Op {
    pub ty: Ty,
    pub name: &'static str,
    pub gen: GenFn,
    pub exp: ExpFn,
    pub act: ActFn,
    /// Which arguments are big integers.
    pub big: &'static [Option<Ty>],
    pub src: Src,
    pub weight: u32,
    pub nontrivial: fn(&Ty, &Args, &R) -> bool,
}

/// A name made of two parts. Not needed in an interpreter.
pub fn joined(a: &str, b: &str) -> &'static str {
    if cfg!(miri) {
        ""
    } else {
        Box::leak(format!("{a}_{b}").into_boxed_str())
    }
}

/// Pair the specifications with the calls of one type. Every call must have a
/// specification: a name without one is a mistake in the harness.
pub fn join(out: &mut Vec<Op>, specs: &[Spec], ty: Ty, acts: &[Act]) {
    // Mostly in the same order: look from the last match on.
    let mut at = 0;
    for (name, act, big, src) in acts {
        if cfg!(miri) {
            // Only the calls are needed there.
            let gen: GenFn = Rc::new(|_: &mut Tape, _: &Ty| Vec::new());
            let exp: ExpFn = Rc::new(|_: &Ty, _: &Args| R::Free);
            out.push(Op { ty, name, gen, exp, act: *act, big, src: *src, weight: 0, nontrivial: default_rule });
            continue;
        }
        let n = specs.len();
        at = (at..at + n)
            .map(|i| i % n)
            .find(|i| specs[*i].name == *name)
            .unwrap_or_else(|| panic!("no specification for {name}"));
        let s = &specs[at];
        out.push(Op {
            ty,
            name,
            gen: s.gen.clone(),
            exp: s.exp.clone(),
            act: *act,
            big,
            src: *src,
            weight: s.weight,
            nontrivial: s.nontrivial,
        });
    }
}

pub struct Verdict {
    pub args: Args,
    pub expected: R,
    pub got: R,
    pub ok: bool,
    pub nontrivial: bool,
}

/// How many cases have begun.
pub static BEGUN: AtomicUsize = AtomicUsize::new(0);

pub fn run_case(op: &Op, tape: &mut Tape) -> Verdict {
    BEGUN.fetch_add(1, Relaxed);
    let args = (op.gen)(tape, &op.ty);
    let expected = (op.exp)(&op.ty, &args);
    let got = catch_unwind(AssertUnwindSafe(|| (op.act)(&args))).unwrap_or(R::Panic);
    let ok = expected.accepts(&got);
    let nontrivial = (op.nontrivial)(&op.ty, &args, &expected);
    Verdict { args, expected, got, ok, nontrivial }
}

pub struct Failure {
    pub op: usize,
    pub tape: Vec<u64>,
    pub args: String,
    pub expected: String,
    pub got: String,
}

#[derive(Default)]
pub struct Stats {
    pub evaluations: u64,
    pub nontrivial: u64,
    pub exceptional: u64,
    pub distinct: HashSet<u64>,
    pub samples: Vec<String>,
    pub per_op: BTreeMap<String, (u64, u64)>,
    pub failures: Vec<Failure>,
    pub failing_ops: u64,
    /// Of the shared cases of each operation: hash of the inputs, of the
    /// outcomes, and how many.
    pub digests: Vec<(u64, u64, u64)>,
}

/// The first `shared` cases are the same in every stream.
#[derive(Clone, Copy)]
pub struct Source<'a> {
    pub seed: u64,
    pub stream: &'a str,
    pub shared: u64,
}

pub fn case_seed(s: Source, op: &Op, i: u64) -> u64 {
    let Source { seed, stream, shared } = s;
    let stream = if i < shared { "shared" } else { stream };
    mix(&[seed, hash_str(stream), hash_str(op.name), op.ty.bits as u64, op.ty.signed as u64, i])
}

pub fn hash(x: impl std::hash::Hash) -> u64 {
    use std::hash::Hasher;
    // Fixed keys: a function of the value alone.
    #[allow(deprecated)]
    let mut h = std::hash::SipHasher::new();
    x.hash(&mut h);
    h.finish()
}

/// Search. `progress` is told the operation and case about to run, so that a
/// signal handler can name them; `failed` sees every shrunk failure at once.
pub fn search(
    ops: &[Op],
    source: Source,
    base: u64,
    skip: &[usize],
    mut progress: impl FnMut(usize, u64),
    mut failed: impl FnMut(&Failure),
) -> Stats {
    let mut st = Stats::default();
    for (k, op) in ops.iter().enumerate() {
        let n = if skip.contains(&k) { 0 } else { (base * op.weight as u64 / 100).max(1) };
        let entry = format!("{}::{}", op.ty.name(), op.name);
        let mut nt = 0;
        let mut first_fail = None;
        let mut ran = 0;
        let mut digest = (0, 0, 0);
        for i in 0..n {
            progress(k, i);
            let mut tape = Tape::random(case_seed(source, op, i));
            let v = run_case(op, &mut tape);
            ran += 1;
            if v.nontrivial {
                nt += 1;
                st.distinct.insert(hash((k, &v.args)));
            }
            if i < source.shared {
                digest = (hash((digest.0, &v.args)), hash((digest.1, &v.got)), i + 1);
            }
            if v.expected.exceptional() {
                st.exceptional += 1;
            }
            if i == n / 2 && k % (ops.len() / 12 + 1) == 0 {
                let got = format!("{:?}", v.got);
                st.samples.push(format!("{entry} {:?} -> {}", v.args, got));
            }
            if !v.ok {
                first_fail = Some(tape.words);
                break;
            }
        }
        st.digests.push(digest);
        st.evaluations += ran;
        st.nontrivial += nt;
        st.per_op.insert(entry, (ran, nt));
        if let Some(words) = first_fail {
            st.failing_ops += 1;
            if st.failures.len() < 40 {
                // Should a case that hangs be met on the way.
                failed(&failure(k, op, &words));
                let words = shrink(&words, 4000, |w| !run_case(op, &mut Tape::fixed(w)).ok);
                let f = failure(k, op, &words);
                failed(&f);
                st.failures.push(f);
            }
        }
    }
    st
}

pub fn failure(k: usize, op: &Op, words: &[u64]) -> Failure {
    let mut tape = Tape::fixed(words);
    let v = run_case(op, &mut tape);
    Failure {
        op: k,
        tape: words.to_vec(),
        args: format!("{:?}", v.args),
        expected: format!("{:?}", v.expected),
        got: format!("{:?}", v.got),
    }
}

/// Minimise a tape: drop words, zero them, then make each as small as possible,
/// until nothing changes or the budget of evaluations is spent.
pub fn shrink(words: &[u64], budget: usize, mut fails: impl FnMut(&[u64]) -> bool) -> Vec<u64> {
    let mut best = words.to_vec();
    let mut left = budget;
    let mut try_it = |best: &mut Vec<u64>, cand: Vec<u64>| -> bool {
        if left == 0 || cand == *best {
            return false;
        }
        left -= 1;
        if fails(&cand) {
            *best = cand;
            true
        } else {
            false
        }
    };
    loop {
        let before = best.clone();
        // Shorter tape.
        let mut len = best.len() / 2;
        while len > 0 {
            let mut i = 0;
            while i + len <= best.len() {
                let mut c = best.clone();
                c.drain(i..i + len);
                if !try_it(&mut best, c) {
                    i += len;
                }
            }
            len /= 2;
        }
        // Smaller words.
        for i in 0..best.len() {
            if best[i] == 0 {
                continue;
            }
            let mut c = best.clone();
            c[i] = 0;
            if try_it(&mut best, c) {
                continue;
            }
            for small in 1..48.min(best[i]) {
                let mut c = best.clone();
                c[i] = small;
                if try_it(&mut best, c) {
                    break;
                }
            }
            let mut step = best[i] / 2;
            while step > 0 {
                while best[i] >= step {
                    let mut c = best.clone();
                    c[i] -= step;
                    if !try_it(&mut best, c) {
                        break;
                    }
                }
                step /= 2;
            }
        }
        if best == before {
            break;
        }
    }
    while best.last() == Some(&0) {
        best.pop();
    }
    best
}
