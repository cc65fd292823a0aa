//! Straight-line programs over all operations: each step is an operation of
//! some property on a type of one width, and its big operands are often results
//! of earlier steps.

use super::*;
use std::cell::RefCell;
use std::rc::Rc;

thread_local! {
    /// The operations of each width.
    static TABLE: RefCell<Vec<(u32, Rc<Vec<Op>>)>> = const { RefCell::new(Vec::new()) };
}

fn table(bits: u32) -> Rc<Vec<Op>> {
    TABLE.with(|t| t.borrow().iter().find(|x| x.0 == bits).expect("table").1.clone())
}

/// The numbers in a result, in order; none if the model makes no claim.
fn numbers(r: &R, out: &mut Vec<Z>) {
    match r {
        R::Z(z) => out.push(z.clone()),
        R::Some(r) => numbers(r, out),
        R::T(v) => v.iter().for_each(|r| numbers(r, out)),
        _ => {}
    }
}
fn open(r: &R) -> bool {
    match r {
        R::Any(_) | R::Free => true,
        R::Some(r) => open(r),
        R::T(v) => v.iter().any(open),
        _ => false,
    }
}

/// May this operation be fed any value of the right type? Not those with a
/// precondition: their generator constructs the operands together.
fn total(op: &Op) -> bool {
    !op.name.contains("unchecked")
}

/// A program as arguments. Each step is its operation (index, name and type),
/// how many numbers of its result join the pool, and its operands: a literal,
/// or `#k`, the k-th number of the pool wrapped to the type of the operand.
fn generate(t: &mut Tape, ty: &Ty) -> Args {
    let ops = table(ty.bits);
    let steps = 2 + t.below(12);
    let mut pool: Vec<Z> = Vec::new();
    let mut plan = Vec::new();
    for _ in 0..steps {
        let k = t.below(ops.len() as u64) as usize;
        let op = &ops[k];
        let lits = (op.gen)(t, &op.ty);
        let mut real = lits.clone();
        let mut shown = lits;
        if total(op) && !pool.is_empty() {
            for (i, big) in op.big.iter().enumerate() {
                let Some(bt) = big else { continue };
                if t.below(4) == 0 {
                    continue;
                }
                // Recent results more often.
                let n = pool.len() as u64;
                let j = n - 1 - if t.bool() { t.below(n.min(3)) } else { t.below(n) };
                real[i] = Arg::Z(bt.wrap(&pool[j as usize]));
                shown[i] = Arg::S(format!("#{j}"));
            }
        }
        let e = (op.exp)(&op.ty, &real);
        let mut found = Vec::new();
        if !open(&e) {
            numbers(&e, &mut found);
        }
        found.truncate(4);
        plan.push(Arg::S(format!("{k} {}.{} {} {}", op.ty.name(), op.name, found.len(), shown.len())));
        plan.extend(shown);
        pool.extend(found);
    }
    plan
}

/// Run a program, evaluating each step with `eval`.
fn execute(plan: &Args, bits: u32, eval: impl Fn(&Op, &Args) -> R) -> R {
    let ops = table(bits);
    let mut pool: Vec<Z> = Vec::new();
    let mut out = Vec::new();
    let mut it = plan.iter();
    while let Some(head) = it.next() {
        let f: Vec<&str> = head.s().split(' ').collect();
        let op = &ops[f[0].parse::<usize>().expect("index")];
        let keep: usize = f[f.len() - 2].parse().expect("count");
        let n: usize = f[f.len() - 1].parse().expect("count");
        let mut args = Vec::with_capacity(n);
        for i in 0..n {
            let a = it.next().expect("operand");
            args.push(match a {
                Arg::S(s) if s.starts_with('#') && op.big.get(i).is_some_and(|b| b.is_some()) => {
                    let z = &pool[s[1..].parse::<usize>().expect("place")];
                    Arg::Z(op.big[i].expect("type").wrap(z))
                }
                a => a.clone(),
            });
        }
        let r = eval(op, &args);
        if keep > 0 {
            let mut found = Vec::new();
            numbers(&r, &mut found);
            found.resize(keep, Z::zero());
            pool.extend(found);
        }
        out.push(r);
    }
    R::T(out)
}

fn act<const BITS: u32>(plan: &Args) -> R {
    execute(plan, BITS, |op, a| {
        std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (op.act)(a))).unwrap_or(R::Panic)
    })
}

/// At least three operands are results of earlier steps.
fn rule(_: &Ty, plan: &Args, _: &R) -> bool {
    plan.iter().filter(|a| matches!(a, Arg::S(s) if s.starts_with('#'))).count() >= 3
}

/// Add the programs over the operations so far.
pub fn program_ops(out: &mut Vec<Op>, weight: u32) {
    let all: Vec<Op> = if cfg!(miri) { Vec::new() } else { out.clone() };
    let acts: [(u32, ActFn); 4] = [(256, act::<256>), (384, act::<384>), (512, act::<512>), (1024, act::<1024>)];
    for (bits, act) in acts {
        let ops: Vec<Op> = all.iter().filter(|o| o.ty.bits == bits).cloned().collect();
        TABLE.with(|t| t.borrow_mut().push((bits, Rc::new(ops))));
        out.push(Op {
            ty: Ty::u(bits),
            name: "program",
            gen: Rc::new(generate),
            exp: Rc::new(|ty: &Ty, plan: &Args| execute(plan, ty.bits, |op, a| (op.exp)(&op.ty, a))),
            act,
            big: &[],
            src: UNWRITTEN,
            weight,
            nontrivial: rule,
        });
    }
}
