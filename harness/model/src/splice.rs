//! Changes to whole programs: pieces of a program put elsewhere in it, twice, in another order, or left out
use crate::ast::*;
use crate::gen::Prog;
use crate::near::near_literal;
use crate::rng::Rng;
use crate::interp::ALIASES;
use crate::val::{TDef, V};
use std::rc::Rc;

fn ex_in(e: &mut Ex, f: &mut dyn FnMut(&mut Ex)) {
    f(e);
    match e {
        Ex::Cmd(_, a) | Ex::List(a) => a.iter_mut().for_each(|e| ex_in(e, f)),
        Ex::Map(m) => m.iter_mut().for_each(|(_, e)| ex_in(e, f)),
        Ex::Lit(_) | Ex::Var(_) => {}
    }
}

fn ex_pat(p: &mut Pat, f: &mut dyn FnMut(&mut Ex)) {
    match p {
        Pat::Map(m) => m.iter_mut().filter_map(|(_, p)| p.as_mut()).for_each(|p| ex_pat(p, f)),
        Pat::List(l) => l.iter_mut().for_each(|p| ex_pat(p, f)),
        Pat::Filter(e) => ex_in(e, f),
        Pat::Cap(_, Some(p)) => ex_pat(p, f),
        Pat::Val(_) | Pat::Cap(_, None) | Pat::Any => {}
    }
}

/// every expression
pub fn exprs(b: &mut [Nd], f: &mut dyn FnMut(&mut Ex)) {
    for n in b {
        match n {
            Nd::Exp(e) | Nd::Return(e) => ex_in(e, f),
            Nd::Block(_, a, b) => {
                exprs(b, f);
                a.iter_mut().for_each(|e| ex_in(e, f))
            }
            Nd::If(arms, no) => {
                for (e, b) in arms {
                    ex_in(e, f);
                    exprs(b, f)
                }
                if let Some(b) = no {
                    exprs(b, f)
                }
            }
            Nd::For(_, _, e, b) => {
                ex_in(e, f);
                exprs(b, f)
            }
            Nd::Define(_, _, b) | Nd::Global(_, _, b) | Nd::AtLet(_, b) | Nd::AtExport(_, b) => exprs(b, f),
            Nd::Let(v) | Nd::Export(v) => v.iter_mut().for_each(|(_, e)| ex_in(e, f)),
            Nd::Switch(e, c) => {
                ex_in(e, f);
                for (p, b) in c {
                    p.iter_mut().for_each(|p| ex_pat(p, f));
                    exprs(b, f)
                }
            }
            Nd::As(e, p, b) => {
                ex_in(e, f);
                ex_pat(p, f);
                exprs(b, f)
            }
            Nd::Text(_) | Nd::Comment(_) => {}
        }
    }
}

/// every list of nodes
pub fn blocks(b: &mut Vec<Nd>, f: &mut dyn FnMut(&mut Vec<Nd>)) {
    f(b);
    for n in b {
        match n {
            Nd::Block(_, _, b)
            | Nd::For(_, _, _, b)
            | Nd::Define(_, _, b)
            | Nd::Global(_, _, b)
            | Nd::AtLet(_, b)
            | Nd::AtExport(_, b)
            | Nd::As(_, _, b) => blocks(b, f),
            Nd::If(arms, no) => {
                arms.iter_mut().for_each(|(_, b)| blocks(b, f));
                if let Some(b) = no {
                    blocks(b, f)
                }
            }
            Nd::Switch(_, c) => c.iter_mut().for_each(|(_, b)| blocks(b, f)),
            _ => {}
        }
    }
}

/// every name that something is given
pub fn names(b: &mut Vec<Nd>, f: &mut dyn FnMut(&mut String)) {
    blocks(b, &mut |b| {
        for n in b {
            match n {
                Nd::For(k, v, _, _) => {
                    f(k);
                    f(v)
                }
                Nd::Let(v) | Nd::Export(v) => v.iter_mut().for_each(|(k, _)| f(k)),
                Nd::AtLet(k, _) | Nd::AtExport(k, _) => f(k),
                Nd::Define(k, p, _) | Nd::Global(k, p, _) => {
                    f(k);
                    p.iter_mut().for_each(|p| f(p))
                }
                _ => {}
            }
        }
    })
}

fn n_of(body: &mut Vec<Nd>) -> usize {
    let mut n = 0;
    exprs(body, &mut |_| n += 1);
    n
}

fn one(r: &mut Rng, body: &mut Vec<Nd>) {
    match r.below(12) {
        // a literal that is nearly the same
        0 => {
            let lit = |e: &Ex| matches!(e, Ex::Lit(_));
            let mut n = 0;
            exprs(body, &mut |e| n += lit(e) as usize);
            if n == 0 {
                return;
            }
            let at = r.below(n);
            let mut i = 0;
            exprs(body, &mut |e| {
                if let Ex::Lit(v) = e {
                    if i == at {
                        if let Some(w) = near_literal(r, v) {
                            *v = w
                        }
                    }
                    i += 1
                }
            });
        }
        // a variable for another
        10 => {
            let mut all = vec![];
            exprs(body, &mut |e| {
                if let Ex::Var(v) = e {
                    all.push(v.clone())
                }
            });
            if all.len() < 2 {
                return;
            }
            let (at, w) = (r.below(all.len()), r.pick(&all).clone());
            let mut i = 0;
            exprs(body, &mut |e| {
                if let Ex::Var(v) = e {
                    if i == at {
                        *v = w.clone()
                    }
                    i += 1
                }
            });
        }
        // an expression in the place of another
        1..=2 => {
            let n = n_of(body);
            if n < 2 {
                return;
            }
            let (from, to) = (r.below(n), r.below(n));
            let (mut i, mut x) = (0, None);
            exprs(body, &mut |e| {
                if i == from {
                    x = Some(e.clone())
                }
                i += 1
            });
            let mut i = 0;
            exprs(body, &mut |e| {
                if i == to {
                    if let Some(x) = x.take() {
                        *e = x
                    }
                }
                i += 1
            });
        }
        // an argument twice, in another place, or left out
        3 | 4 => {
            let mut n = 0;
            let many = |e: &Ex| matches!(e, Ex::Cmd(_, a) | Ex::List(a) if !a.is_empty());
            exprs(body, &mut |e| n += many(e) as usize);
            if n == 0 {
                return;
            }
            let at = r.below(n);
            let mut i = 0;
            let mut done = false;
            exprs(body, &mut |e| {
                if done || !many(e) {
                    return;
                }
                if i == at {
                    done = true;
                    if let Ex::Cmd(_, a) | Ex::List(a) = e {
                        let (k, j) = (r.below(a.len()), r.below(a.len() + 1));
                        match r.below(6) {
                            0 => {
                                a.remove(k);
                            }
                            1 => {
                                let x = a.remove(k);
                                a.insert(j.min(a.len()), x)
                            }
                            _ => {
                                let x = a[k].clone();
                                a.insert(j, x)
                            }
                        }
                    }
                }
                i += 1
            });
        }
        // a node twice, moved, or left out
        5..=7 => {
            let mut n = 0;
            blocks(body, &mut |_| n += 1);
            let (from, to) = (r.below(n), if r.chance(1, 2) { None } else { Some(r.below(n)) });
            let to = to.unwrap_or(from);
            let keep = r.chance(3, 4);
            let mut x = None;
            let mut i = 0;
            blocks(body, &mut |b| {
                if i == from && !b.is_empty() && x.is_none() {
                    let k = r.below(b.len());
                    x = Some(if keep { b[k].clone() } else { b.remove(k) });
                }
                i += 1
            });
            let mut i = 0;
            blocks(body, &mut |b| {
                if i == to {
                    if let Some(x) = x.take() {
                        let k = r.below(b.len() + 1);
                        b.insert(k, x)
                    }
                }
                i += 1
            });
        }
        // a name for another
        8 => {
            let mut all = vec![];
            names(body, &mut |k| all.push(k.clone()));
            if all.len() < 2 {
                return;
            }
            let (at, k) = (r.below(all.len()), r.pick(&all).clone());
            let mut i = 0;
            names(body, &mut |n| {
                if i == at {
                    *n = k.clone()
                }
                i += 1
            });
        }
        // an arm, or a case, twice or in another place
        _ => {
            let mut n = 0;
            let has = |n: &Nd| matches!(n, Nd::If(..)) || matches!(n, Nd::Switch(_, c) if !c.is_empty());
            blocks(body, &mut |b| n += b.iter().filter(|n| has(n)).count());
            if n == 0 {
                return;
            }
            let at = r.below(n);
            let mut i = 0;
            let mut done = false;
            blocks(body, &mut |b| {
                for x in b.iter_mut().filter(|n| has(n)) {
                    if i == at && !done {
                        done = true;
                        match x {
                            Nd::If(a, _) => {
                                let (k, j) = (r.below(a.len()), r.below(a.len() + 1));
                                let mut arm = a[k].clone();
                                if r.chance(1, 3) {
                                    arm.1.clear()
                                }
                                a.insert(j, arm)
                            }
                            Nd::Switch(_, c) => {
                                let (k, j) = (r.below(c.len()), r.below(c.len() + 1));
                                let mut case = c[k].clone();
                                if r.chance(1, 3) {
                                    case.1.clear()
                                }
                                c.insert(j, case)
                            }
                            _ => {}
                        }
                    }
                    i += 1
                }
            });
        }
    }
}

pub fn splice(r: &mut Rng, p: &mut Prog) {
    for _ in 0..1 + r.below(6) {
        let mut keys: Vec<String> = vec![];
        if let Some(t) = &p.temps {
            keys = t.keys().cloned().collect();
        }
        if !keys.is_empty() && r.chance(1, 4) {
            let k = r.pick(&keys).clone();
            let t = p.temps.as_mut().unwrap();
            let mut d: TDef = (*t[&k]).clone();
            one(r, &mut d.body);
            t.insert(k, Rc::new(d));
        } else {
            one(r, &mut p.main.body)
        }
    }
}

fn pats(p: &mut Pat, f: &mut dyn FnMut(&mut String)) {
    match p {
        Pat::Map(m) => {
            for (k, p) in m {
                f(k);
                if let Some(p) = p {
                    pats(p, f)
                }
            }
        }
        Pat::List(l) => l.iter_mut().for_each(|p| pats(p, f)),
        Pat::Cap(k, p) => {
            f(k);
            if let Some(p) = p {
                pats(p, f)
            }
        }
        Pat::Val(v) => keys(v, f),
        Pat::Filter(_) | Pat::Any => {}
    }
}

fn keys(v: &mut V, f: &mut dyn FnMut(&mut String)) {
    match v {
        V::List(l) => l.iter_mut().for_each(|v| keys(v, f)),
        V::Map(m) => {
            for (mut k, mut v) in std::mem::take(m) {
                f(&mut k);
                keys(&mut v, f);
                m.insert(k, v);
            }
        }
        V::Tmpl(t) => {
            let mut d = (**t).clone();
            tdef(&mut d, f);
            *t = Rc::new(d)
        }
        _ => {}
    }
}

fn tdef(t: &mut TDef, f: &mut dyn FnMut(&mut String)) {
    t.params.iter_mut().for_each(&mut *f);
    names(&mut t.body, f);
    blocks(&mut t.body, &mut |b| {
        for n in b {
            match n {
                Nd::Switch(_, c) => c.iter_mut().flat_map(|(p, _)| p).for_each(|p| pats(p, f)),
                Nd::As(_, p, _) => pats(p, f),
                _ => {}
            }
        }
    });
    exprs(&mut t.body, &mut |e| match e {
        Ex::Var(p) => {
            for q in p {
                if let Part::I(k) = q {
                    f(k)
                }
            }
        }
        Ex::Map(m) => m.iter_mut().for_each(|(k, _)| f(k)),
        Ex::Lit(v) => keys(v, f),
        _ => {}
    })
}

/// Names with something to them: that begin as the words of the language, that are such words or
/// functions, that nearly are one another, long ones, and those that need quotes
fn spelling(r: &mut Rng, old: &str) -> String {
    const WORDS: &[&str] = &[
        "if", "else", "elif", "for", "in", "as", "switch", "case", "define", "global", "let", "export", "return", "null", "true", "false",
        "first", "select", "run", "len", "tr", "exec", "end", "let_", "jan", "e1", "inf", "NaN", "_", "n", "s",
    ];
    let w = *r.pick(WORDS);
    match r.below(9) {
        0 => w.to_string(),
        1 => format!("{}{}", w, old),
        2 => format!("{}_{}", w, r.below(3)),
        3 => w.to_uppercase(),
        4 => "n0".repeat(1 + r.below(3)) + ["", "_", "N0", "0"][r.below(4)],
        5 => format!("{}{}", "long_name_".repeat(1 + r.some(60)), r.below(2)),
        6 => r
            .pick(&[
                "two words", "é", "e\u{301}", "日本", "a.b", "0", "1", "00", "-", "-1", "$", "$0", "{{", "}}", "-}}", ":", "\\", "a\nb", " ", "\"", "#",
                "//", "*/", "@x", "(", ")", "[", "|", ",", "\u{feff}", "\u{a0}", "a b", "n0 ", " n0", "N0", "$n0", "n0.n0", "<x>", "_n0", "null",
            ])
            .to_string(),
        7 => format!("{}{}", old, r.pick(&["0", "_", "a", "A", " "])),
        _ => format!("'{}", old).replace('\'', "_"),
    }
}

/// The same program with some of its names spelled in another way
pub fn respell(r: &mut Rng, p: &mut Prog) {
    let mut to: Vec<(String, String)> = vec![];
    for c in "nslmtba".chars() {
        for i in 0..4 {
            if r.chance(1, 3) {
                let old = format!("{}{}", c, i);
                let new = match to.last() {
                    // as another, but for the case of its letters
                    Some((_, n)) if r.chance(1, 6) => {
                        let lower = n.to_lowercase();
                        if lower == *n {
                            let mut c = n.chars();
                            c.next().map(|f| f.to_uppercase().chain(c).collect()).unwrap_or_default()
                        } else {
                            lower
                        }
                    }
                    _ => spelling(r, &old),
                };
                to.push((old, new));
            }
        }
    }
    let mut f = |k: &mut String| {
        if let Some((_, new)) = to.iter().find(|(old, _)| old == k) {
            *k = new.clone()
        }
    };
    tdef(&mut p.main, &mut f);
    p.params.iter_mut().for_each(|v| keys(v, &mut f));
    for t in p.temps.iter_mut().flat_map(|m| m.values_mut()) {
        let mut d = (**t).clone();
        tdef(&mut d, &mut f);
        *t = Rc::new(d)
    }
    // and the functions of the host
    if r.chance(1, 2) {
        let n = 1 + r.below(3);
        let to: Vec<&(&str, &str)> = (0..n).map(|_| r.pick(&ALIASES)).collect();
        let mut f = |b: &mut Vec<Nd>| {
            let mut g = |c: &mut String| {
                if let Some((a, _)) = to.iter().find(|(_, w)| w == c) {
                    *c = a.to_string()
                }
            };
            exprs(b, &mut |e| {
                if let Ex::Cmd(c, _) = e {
                    g(c)
                }
            });
            blocks(b, &mut |b| {
                for n in b {
                    if let Nd::Block(c, ..) = n {
                        g(c)
                    }
                }
            })
        };
        f(&mut p.main.body);
        for t in p.temps.iter_mut().flat_map(|m| m.values_mut()) {
            let mut d = (**t).clone();
            f(&mut d.body);
            *t = Rc::new(d)
        }
    }
}
