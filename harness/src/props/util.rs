//! What the monitors of single functions share
use super::progs::{decide, fm, What};
use crate::conv::*;
use crate::core::*;
use model::ast::*;
use model::gen::{self, Prog};
use model::print::{NOISY, PLAIN};
use model::rng::Rng;
use model::val::{identical, tag, TDef, V};
use std::collections::BTreeMap;

pub fn show(a: &[V]) -> String {
    let mut s = a.iter().map(tag).collect::<Vec<_>>().join("  ");
    if s.len() > 1500 {
        let mut n = 1500;
        while !s.is_char_boundary(n) {
            n -= 1
        }
        s.truncate(n);
        s.push_str("...");
    }
    s
}

pub fn show_r(r: &Result<V, String>) -> String {
    match r {
        Ok(v) => show(&[v.clone()]),
        Err(e) => format!("failure ({})", e),
    }
}

/// Calls it, and notes it as the input
pub fn call1(cx: &mut Cx, name: &str, args: &[V]) -> Result<Result<V, String>, Violation> {
    cx.input(format!("{} {}", name, show(args)));
    call_v(fm(cx), name, args)
}

pub fn same(a: &V, b: &V) -> bool {
    identical(a, b)
}

/// Compares a function to its reference, called directly and now and then from a template
pub fn fcheck(cx: &mut Cx, name: &str, args: &[V]) -> Result<Option<V>, Violation> {
    fcheck_with(cx, name, args, &same)
}

pub fn fcheck_with(
    cx: &mut Cx,
    name: &str,
    args: &[V],
    eq: &dyn Fn(&V, &V) -> bool,
) -> Result<Option<V>, Violation> {
    let mut nd = false;
    let want = model::funcs::call(name, args, &mut nd)
        .unwrap_or_else(|| panic!("no reference for {}", name));
    let got = call1(cx, name, args)?;
    if nd {
        cx.skipped += 1;
        return Ok(None);
    }
    match (&want, &got) {
        (Ok(w), Ok(g)) => {
            cx.see(&format!("{}: values", name));
            ensure!(eq(w, g), "{} gave {}, expected {}", name, show(&[g.clone()]), show(&[w.clone()]));
        }
        (Err(()), Err(_)) => cx.see(&format!("{}: failures", name)),
        (Err(()), Ok(g)) => {
            return fail(format!("{} gave {}, expected a failure", name, show(&[g.clone()])))
        }
        (Ok(w), Err(e)) => {
            return fail(format!("{} failed ({}), expected {}", name, e, show(&[w.clone()])))
        }
    }
    cx.decided(format!("{} {}", name, show(args)).as_bytes());
    cx.sample(|| format!("{} {} -> {}", name, show(args), show_r(&got)));
    if cx.rng.chance(1, 8) {
        in_template(cx, name, args)?;
    }
    Ok(want.ok())
}

/// literals have no spelling for some values, which come as parameters then
pub fn has_literal(v: &V) -> bool {
    match v {
        V::Int(n) => *n < 0,
        V::Float(f) => f.is_finite(),
        V::Bytes(_) | V::Tmpl(_) => false,
        V::Date(y, _, _) => *y >= 0,
        V::List(l) => l.iter().all(has_literal),
        V::Map(m) => m.iter().all(|(k, v)| has_literal(v) && simple_key(k)),
        _ => true,
    }
}

pub fn simple_key(k: &str) -> bool {
    !k.is_empty() && !k.contains('\'')
}

pub fn in_template(cx: &mut Cx, name: &str, args: &[V]) -> Res {
    let lits = cx.rng.chance(1, 2);
    let mut params = vec![];
    let mut ex = vec![];
    for a in args {
        if lits && has_literal(a) {
            ex.push(Ex::Lit(a.clone()))
        } else {
            ex.push(Ex::Var(vec![Part::N(params.len())]));
            params.push(a.clone());
        }
    }
    let body = vec![Nd::Exp(cmd("type_of", vec![cmd("tr", vec![lit_s("r"), cmd(name, ex)])]))];
    let p = Prog {
        main: TDef { params: vec![], body },
        temps: Some(BTreeMap::new()),
        params,
    };
    let st = if cx.rng.chance(1, 2) { NOISY } else { PLAIN };
    let what = What { output: true, exports: true, trace: true };
    if decide(cx, &p, st, &what)?.is_some() {
        cx.see("called from a template");
    }
    Ok(())
}

pub use model::near::near;

pub fn wild(r: &mut Rng, depth: usize) -> V {
    gen::value(r, gen::ValOpts { depth, ..gen::WILD })
}

pub fn tame(r: &mut Rng, depth: usize) -> V {
    gen::value(r, gen::ValOpts { depth, ..gen::TAME })
}

/// n arguments: mostly what `f` makes, now and then anything
pub fn or_wild(cx: &mut Cx, v: V) -> V {
    if cx.rng.chance(1, 25) {
        wild(&mut cx.rng, 1)
    } else {
        v
    }
}

/// Threads wait for it until all of them that can be had are there
pub struct Gate(std::sync::atomic::AtomicBool);
impl Gate {
    pub fn new() -> Gate {
        Gate(std::sync::atomic::AtomicBool::new(false))
    }
    pub fn wait(&self) {
        while !self.0.load(std::sync::atomic::Ordering::Relaxed) {
            std::thread::yield_now();
        }
    }
    pub fn open(&self) {
        self.0.store(true, std::sync::atomic::Ordering::Relaxed);
    }
}
