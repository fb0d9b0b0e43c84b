//! Programs and values of a size: many, long, deep. What is stored in too few bits, counted wrong,
//! cut at a bound or kept in a small table shows here only.
use super::progs::*;
use super::util::*;
use crate::core::*;
use model::ast::*;
use model::gen::{self, Prog};
use model::rng::Rng;
use model::val::{s, TDef, V};
use std::collections::BTreeMap;
use std::rc::Rc;

const SCALE: usize = 100;

/// One case in so many is large
pub fn or(cx: &mut Cx, one_in: usize, big: fn(&mut Cx) -> Res, usual: fn(&mut Cx) -> Res) -> Res {
    if cx.rng.chance(1, one_in) {
        cx.see("large inputs");
        big(cx)
    } else {
        usual(cx)
    }
}

fn prog(body: Vec<Nd>, params: Vec<V>) -> Prog {
    Prog { main: TDef { params: vec![], body }, temps: Some(BTreeMap::new()), params }
}

fn go(cx: &mut Cx, body: Vec<Nd>, params: Vec<V>) -> Res {
    go_prog(cx, prog(body, params))
}

fn go_prog(cx: &mut Cx, p: Prog) -> Res {
    let st = style(cx);
    let all = What { output: true, exports: true, trace: true };
    if decide_scaled(cx, &p, st, &all, SCALE)?.is_some() {
        cx.see("large programs");
    }
    Ok(())
}

fn par(n: usize) -> Ex {
    Ex::Var(vec![Part::N(n)])
}
fn uint(n: usize) -> Ex {
    Ex::Lit(V::UInt(n as u64))
}
fn print(e: Ex) -> Nd {
    Nd::Exp(e)
}
fn small(r: &mut Rng, i: usize) -> V {
    match r.below(4) {
        0 => V::UInt(i as u64),
        1 => V::Int(-(i as i64)),
        2 => V::Str(format!("s{}", i)),
        _ => V::Str(String::new()),
    }
}
fn list_of(r: &mut Rng, n: usize) -> V {
    let how = r.below(3);
    V::List(
        (0..n)
            .map(|i| match how {
                0 => V::UInt(i as u64),
                1 => V::Str(format!("{}", i % 10)),
                _ => small(r, i),
            })
            .collect(),
    )
}

/// A few places out of n, the ends among them
fn places(r: &mut Rng, n: usize) -> Vec<usize> {
    let mut v = vec![0, n / 2, n.saturating_sub(1)];
    for b in [8usize, 16, 32, 64, 100, 128, 255, 256, 1000, 1024, 4096, 32767, 32768, 65535, 65536] {
        if b < n {
            v.push(b)
        }
    }
    for _ in 0..4 {
        v.push(r.below(n.max(1)))
    }
    v.retain(|i| *i < n);
    v.sort();
    v.dedup();
    v
}

// ---- control flow ----

pub fn c04(cx: &mut Cx) -> Res {
    match cx.rng.below(7) {
        0 | 1 => {
            let n = cx.rng.big(70_000);
            let r = &mut cx.rng;
            let (e, params) = match r.below(4) {
                0 => (uint(n), vec![]),
                1 => (par(0), vec![V::Int(n as i64)]),
                2 => (par(0), vec![V::UInt(n as u64)]),
                _ => (par(0), vec![list_of(r, n)]),
            };
            // the body shows itself in each pass, or in some
            let pl = places(r, n);
            let body = match r.below(4) {
                0 => vec![text(".")],
                1 => vec![print(var("v")), text(",")],
                2 => vec![Nd::If(
                    vec![(cmd("eq_any", [var("k")].into_iter().chain(pl.iter().map(|i| uint(*i))).collect()), vec![print(var("k")), text(":"), print(var("v")), text(";")])],
                    None,
                )],
                _ => vec![Nd::If(
                    vec![(cmd("eq", vec![cmd("mod", vec![var("k"), uint(1 + r.below(1000))]), uint(0)]), vec![print(var("k")), text(" ")])],
                    Some(vec![Nd::Let(vec![("k".into(), lit_s("in"))])]),
                )],
            };
            let after = vec![text("|"), print(cmd("first", vec![var("k"), lit_s("?")])), text("|"), print(cmd("first", vec![var("v"), lit_s("?")]))];
            let mut b = vec![Nd::For("k".into(), "v".into(), e, body)];
            b.extend(after);
            go(cx, b, params)
        }
        2 => {
            let n = cx.rng.big(5_000);
            map_loop_of(cx, n)
        }
        3 => {
            // many arms, of which one holds, or none
            let n = 1 + cx.rng.big(300);
            let at = cx.rng.below(n + 1);
            let arms = (0..n)
                .map(|i| {
                    let c = if i == at { cmd("tr", vec![uint(i), Ex::Lit(V::Bool(true))]) } else { cmd("tr", vec![uint(i), Ex::Lit(V::Bool(false))]) };
                    (c, vec![print(uint(i))])
                })
                .collect();
            let no = cx.rng.chance(1, 2).then(|| vec![text("none")]);
            go(cx, vec![Nd::If(arms, no), text("!")], vec![])
        }
        4 => {
            let n = 1 + cx.rng.big(500);
            let at = cx.rng.below(n + 1);
            let by_text = cx.rng.chance(1, 2);
            let v = |i: usize| if by_text { V::Str(format!("case {}", i)) } else { V::UInt(i as u64) };
            let per = if cx.rng.chance(1, 2) { 1 + cx.rng.below(4) } else { 1 + cx.rng.big(n) };
            let mut cases = vec![];
            let mut i = 0;
            while i < n {
                let pats = (i..(i + per).min(n)).map(|i| Pat::Val(v(i))).collect();
                cases.push((pats, vec![text(&format!("<{}>", i))]));
                i += per;
            }
            go(cx, vec![Nd::Switch(par(0), cases), text("!")], vec![v(at)])
        }
        5 => {
            // many in a row
            let n = cx.rng.big(5_000);
            let mut b = vec![];
            for i in 0..n {
                match cx.rng.below(6) {
                    0 => b.push(text(&format!("t{} ", i))),
                    1 => b.push(Nd::If(vec![(Ex::Lit(V::Bool(i % 3 == 0)), vec![text("y")])], Some(vec![text("n")]))),
                    2 => b.push(Nd::For("k".into(), "v".into(), uint(i % 4), vec![print(var("k"))])),
                    3 => b.push(Nd::Let(vec![("x".into(), uint(i))])),
                    4 => b.push(print(cmd("first", vec![var("x"), uint(0)]))),
                    _ => b.push(print(uint(i))),
                }
            }
            go(cx, b, vec![])
        }
        _ => {
            // one in another
            let n = 1 + cx.rng.big(150);
            let mut b = vec![text("core")];
            for i in 0..n {
                let mut inner = vec![text(&format!("({}", i))];
                inner.extend(b);
                inner.push(text(")"));
                b = match cx.rng.below(5) {
                    0 => vec![Nd::If(vec![(Ex::Lit(V::Bool(false)), vec![text("x")])], Some(inner))],
                    1 => vec![Nd::For("k".into(), "v".into(), uint(1), inner)],
                    2 => vec![Nd::As(uint(i), Pat::Any, inner)],
                    3 => vec![Nd::Switch(uint(i), vec![(vec![Pat::Val(V::UInt(i as u64 + 1))], vec![text("x")]), (vec![Pat::Any], inner)])],
                    _ => vec![Nd::If(vec![(Ex::Lit(V::Bool(true)), inner)], None)],
                };
            }
            go(cx, b, vec![])
        }
    }
}

// ---- order of evaluation ----

fn traced(r: &mut Rng, i: usize) -> Ex {
    match r.below(6) {
        0 => cmd("cat", vec![cmd("tr", vec![uint(i)]), lit_s("x")]),
        1 => Ex::List(vec![cmd("tr", vec![uint(i)])]),
        _ => cmd("tr", vec![uint(i)]),
    }
}

pub fn c05(cx: &mut Cx) -> Res {
    let n = 1 + cx.rng.big(2_000);
    let r = &mut cx.rng;
    let bad = if r.chance(1, 4) { Some(r.below(n)) } else { None };
    let mut args: Vec<Ex> = (0..n).map(|i| if Some(i) == bad { cmd("er", vec![uint(i)]) } else { traced(r, i) }).collect();
    let e = match r.below(8) {
        0 => cmd("list", args),
        1 => cmd("append", args),
        2 => Ex::List(args),
        3 => Ex::Map(args.into_iter().enumerate().map(|(i, e)| (format!("k{}", i), e)).collect()),
        4 => {
            // all but one of them fail, or are null
            let at = r.below(n);
            let a = (0..n)
                .map(|i| match i == at {
                    true => traced(r, i),
                    false if i < at && r.chance(1, 2) => cmd("tr", vec![uint(i), Ex::Lit(V::Null)]),
                    _ => cmd("er", vec![uint(i)]),
                })
                .collect();
            cmd("first", a)
        }
        5 => {
            args.insert(0, cmd("tr", vec![uint(r.below(n + 2))]));
            args.push(traced(r, n));
            args.push(traced(r, n + 1));
            cmd("select", args)
        }
        6 => {
            // deep
            let n = n.min(150);
            let mut e = traced(r, 0);
            for i in 1..n {
                e = match r.below(4) {
                    0 => cmd("tr", vec![traced(r, i), e]),
                    1 => cmd("first", vec![cmd("er", vec![uint(i)]), e]),
                    2 => cmd("tr", vec![e, traced(r, i)]),
                    _ => cmd("select", vec![uint(1), cmd("er", vec![uint(i)]), e]),
                };
            }
            e
        }
        _ => {
            let lets = args.into_iter().enumerate().map(|(i, e)| (format!("x{}", i % 300), e)).collect();
            let b = vec![Nd::Let(lets), print(cmd("first", vec![var("x7"), lit_s("?")]))];
            return go(cx, b, vec![]);
        }
    };
    go(cx, vec![print(cmd("type_of", vec![cmd("tr", vec![e])]))], vec![])
}

// ---- scopes ----

pub fn c06(cx: &mut Cx) -> Res {
    match cx.rng.below(4) {
        0 => {
            let n = 1 + cx.rng.big(3_000);
            let r = &mut cx.rng;
            let one_tag = r.chance(1, 2);
            let name = |i: usize| format!("v{}", i);
            let lets: Vec<(String, Ex)> = (0..n).map(|i| (name(i), uint(i * 3))).collect();
            let mut b = if one_tag { vec![Nd::Let(lets)] } else { lets.into_iter().map(|l| Nd::Let(vec![l])).collect() };
            for i in places(r, n) {
                b.push(print(var(&name(i))));
                b.push(text(","));
            }
            // in a block, some shadowed
            let mut inner = vec![];
            for i in places(r, n) {
                if r.chance(1, 2) {
                    inner.push(Nd::Let(vec![(name(i), lit_s("in"))]));
                }
                inner.push(print(var(&name(i))));
                inner.push(text(","));
            }
            b.push(Nd::If(vec![(Ex::Lit(V::Bool(true)), inner)], None));
            for i in places(r, n) {
                b.push(print(var(&name(i))));
                b.push(text(","));
            }
            go(cx, b, vec![])
        }
        1 | 2 => {
            // each block with a variable of its own, or of the same name
            let n = 1 + cx.rng.big(150);
            let r = &mut cx.rng;
            let names = 1 + r.below(n);
            let name = |i: usize| format!("v{}", i % names);
            let look = |r: &mut Rng| -> Vec<Nd> {
                (0..3)
                    .flat_map(|_| {
                        let i = r.below(names);
                        vec![print(cmd("first", vec![var(&name(i)), lit_s("?")])), text(",")]
                    })
                    .collect()
            };
            let mut b = look(r);
            for i in 0..n {
                let mut inner = vec![];
                if r.chance(2, 3) {
                    inner.push(Nd::Let(vec![(name(i), uint(i))]));
                }
                inner.extend(b);
                inner.extend(look(r));
                b = match r.below(5) {
                    0 => vec![Nd::As(uint(1000 + i), Pat::Cap(name(i + 1), None), inner)],
                    1 => vec![Nd::For(name(i + 2), name(i + 3), uint(1), inner)],
                    2 => vec![Nd::Block("cat".into(), vec![], inner)],
                    3 => vec![Nd::AtLet(name(i), inner), print(cmd("len", vec![var(&name(i))]))],
                    _ => vec![Nd::If(vec![(Ex::Lit(V::Bool(true)), inner)], None)],
                };
                b.extend(look(r));
            }
            go(cx, b, vec![])
        }
        _ => {
            // a long path
            let n = 1 + cx.rng.big(200);
            let r = &mut cx.rng;
            let mut v = lit_s("here");
            let mut path = vec![];
            for i in 0..n {
                if r.chance(1, 2) {
                    let k = r.below(3);
                    let mut l: Vec<Ex> = (0..k).map(uint).collect();
                    l.push(v);
                    v = Ex::List(l);
                    path.push(Part::N(k));
                } else {
                    v = Ex::Map(vec![("a".into(), uint(i)), (format!("b{}", i), v)]);
                    path.push(Part::I(format!("b{}", i)));
                }
            }
            path.push(Part::I("x".into()));
            path.reverse();
            let mut b = vec![Nd::Let(vec![("x".into(), v)]), print(Ex::Var(path.clone()))];
            let at = 1 + r.below(n);
            path[at] = Part::I("no".into());
            b.push(print(cmd("first", vec![Ex::Var(path), lit_s("none")])));
            go(cx, b, vec![])
        }
    }
}

// ---- templates ----

pub fn c07(cx: &mut Cx) -> Res {
    match cx.rng.below(5) {
        0 => {
            // one that uses itself
            let n = cx.rng.big(150);
            let r = &mut cx.rng;
            let again = match r.below(2) {
                0 => print(cmd("r", vec![cmd("sub", vec![par(0), uint(1)]), cmd("cat", vec![par(1), lit_s("i")])])),
                _ => Nd::Return(cmd("r", vec![cmd("sub", vec![par(0), uint(1)]), cmd("cat", vec![par(1), lit_s("i")])])),
            };
            let body = vec![
                Nd::Let(vec![("mine".into(), par(0))]),
                Nd::If(vec![(cmd("gt", vec![par(0), uint(0)]), vec![again])], Some(vec![print(par(1))])),
                text(";"),
                print(var("mine")),
            ];
            let global = r.chance(1, 2);
            let mut b = vec![];
            let mut p = prog(vec![], vec![]);
            if global {
                b.push(Nd::Global("r".into(), vec![], body));
            } else {
                p.temps.as_mut().unwrap().insert("r".into(), Rc::new(TDef { params: vec![], body }));
            }
            b.push(print(cmd("r", vec![uint(n), lit_s("")])));
            b.push(print(cmd("first", vec![var("mine"), lit_s("none")])));
            p.main.body = b;
            go_prog(cx, p)
        }
        1 => {
            // with many parameters
            let n = 1 + cx.rng.big(300);
            let r = &mut cx.rng;
            let given = if r.chance(1, 2) { n } else { r.below(n + 3) };
            let pl = places(r, n);
            let names: Vec<String> = (0..n).map(|i| format!("p{}", i)).collect();
            let mut body = vec![];
            for i in &pl {
                let e = if r.chance(1, 2) { var(&names[*i]) } else { par(*i) };
                body.push(print(cmd("first", vec![e, lit_s("none")])));
                body.push(text(","));
            }
            let args: Vec<Ex> = (0..given).map(|i| uint(i * 2)).collect();
            let mut b = vec![];
            match r.below(2) {
                0 => {
                    b.push(Nd::Global("t".into(), names, body));
                    b.push(print(cmd("t", args)));
                }
                _ => {
                    b.push(Nd::Define("t".into(), names, body));
                    let mut a = vec![var("t")];
                    a.extend(args);
                    b.push(print(cmd("run", a)));
                }
            }
            go(cx, b, vec![])
        }
        2 => {
            // many of them
            let n = 1 + cx.rng.big(500);
            let r = &mut cx.rng;
            let mut b: Vec<Nd> = (0..n)
                .map(|i| {
                    let body = vec![text(&format!("<{}:", i)), print(cmd("first", vec![par(0), lit_s("-")])), text(">")];
                    if i % 2 == 0 { Nd::Global(format!("g{}", i), vec![], body) } else { Nd::Define(format!("g{}", i), vec![], body) }
                })
                .collect();
            for i in places(r, n) {
                if i % 2 == 0 {
                    b.push(print(cmd(&format!("g{}", i), vec![uint(i)])));
                } else {
                    b.push(print(cmd("run", vec![var(&format!("g{}", i)), uint(i)])));
                }
            }
            go(cx, b, vec![])
        }
        3 => {
            // each uses the next, which is defined by it
            let n = 1 + cx.rng.big(100);
            let mut body = vec![text("last"), print(cmd("first", vec![par(0), lit_s("-")]))];
            for i in (0..n).rev() {
                let g = if cx.rng.chance(1, 2) {
                    vec![Nd::Global(format!("g{}", i), vec![], body), print(cmd(&format!("g{}", i), vec![uint(i)]))]
                } else {
                    vec![Nd::Define(format!("g{}", i), vec![], body), print(cmd("run", vec![var(&format!("g{}", i)), uint(i)]))]
                };
                body = g;
                body.push(text(&format!("{}", i)));
            }
            go(cx, body, vec![])
        }
        _ => {
            // used many times
            let n = cx.rng.big(3_000);
            let b = vec![
                Nd::Global("g".into(), vec!["a".into()], vec![Nd::Let(vec![("b".into(), cmd("add", vec![var("a"), uint(1)]))]), Nd::Return(var("b")), text("x")]),
                Nd::Define("d".into(), vec!["a".into()], vec![print(var("a")), Nd::Export(vec![("x".into(), var("a"))])]),
                Nd::For("k".into(), "v".into(), uint(n), vec![print(cmd("g", vec![var("k")])), print(cmd("run", vec![var("d"), var("v")])), text(" ")]),
                print(cmd("first", vec![var("x"), var("b"), lit_s("none")])),
            ];
            go(cx, b, vec![])
        }
    }
}

// ---- exports ----

pub fn c08(cx: &mut Cx) -> Res {
    let n = 1 + cx.rng.big(2_000);
    let r = &mut cx.rng;
    let names = if r.chance(1, 2) { n } else { 1 + r.below(n) };
    let how = r.below(3);
    let mut ex = vec![];
    for i in 0..n {
        let e = match r.below(12) {
            0 => var("nothing"),
            1 if i > 0 => cmd("cat", vec![cmd("first", vec![var(&format!("x{}", r.below(i) % names)), lit_s("?")]), uint(i)]),
            _ => uint(i),
        };
        let e = match e {
            Ex::Var(_) if how == 0 && r.chance(9, 10) => uint(i),
            e => e,
        };
        ex.push((format!("x{}", i % names), e));
    }
    let mut body = match how {
        0 => vec![Nd::Export(ex)],
        1 => ex.into_iter().map(|e| Nd::Export(vec![e])).collect(),
        _ => ex.into_iter().map(|(k, e)| Nd::AtExport(k, vec![print(cmd("first", vec![e, lit_s("none")])), text("!")])).collect::<Vec<_>>(),
    };
    body.push(print(cmd("first", vec![var("x0"), lit_s("none")])));
    c08_of(cx, &prog(body, vec![]), SCALE)
}

// ---- patterns ----

pub fn c09(cx: &mut Cx) -> Res {
    let n = 1 + cx.rng.big(1_000);
    let r = &mut cx.rng;
    let off = r.chance(1, 3).then(|| r.below(n));
    let sub = |r: &mut Rng, i: usize| -> (V, Pat) {
        let v = V::UInt(i as u64);
        match r.below(5) {
            0 => (v, Pat::Any),
            1 => (v, Pat::Cap(format!("c{}", i), None)),
            2 => (v, Pat::Filter(cmd("eq", vec![var("@"), uint(i)]))),
            _ => (v.clone(), Pat::Val(v)),
        }
    };
    let (mut v, p) = match r.below(3) {
        0 => {
            let (v, p) = (0..n).map(|i| sub(r, i)).unzip();
            (V::List(v), Pat::List(p))
        }
        1 => {
            let mut m = BTreeMap::new();
            let mut ps = vec![];
            for i in 0..n {
                let (v, p) = sub(r, i);
                m.insert(format!("k{}", i), v);
                if r.chance(3, 4) {
                    ps.push((format!("k{}", i), if r.chance(1, 6) { None } else { Some(p) }));
                }
            }
            (V::Map(m), Pat::Map(ps))
        }
        _ => {
            let n = n.min(120);
            let mut v = V::UInt(5);
            let mut p = Pat::Cap("in".into(), None);
            for i in 0..n {
                if r.chance(1, 2) {
                    v = V::List(vec![V::UInt(i as u64), v]);
                    p = Pat::List(vec![Pat::Any, p]);
                } else {
                    v = V::Map([("k".to_string(), v), ("o".to_string(), V::Null)].into_iter().collect());
                    p = Pat::Map(vec![("k".into(), Some(p))]);
                }
                if r.chance(1, 4) {
                    p = Pat::Cap(format!("c{}", i), Some(Box::new(p)));
                }
            }
            (v, p)
        }
    };
    // one that does not fit, or is missing, or one more
    if let Some(i) = off {
        match &mut v {
            V::List(l) if i < l.len() => match r.below(3) {
                0 => l[i] = V::Str("other".into()),
                1 => {
                    l.pop();
                }
                _ => l.push(V::Null),
            },
            V::Map(m) => {
                if r.chance(1, 2) {
                    m.remove(&format!("k{}", i));
                } else {
                    m.insert(format!("k{}", i), s("other"));
                }
            }
            _ => {}
        }
    }
    let mut look: Vec<Nd> = vec![text("yes")];
    for i in places(r, n) {
        for k in ["c", "k"] {
            look.push(print(cmd("len", vec![cmd("first", vec![var(&format!("{}{}", k, i)), Ex::List(vec![])])])));
        }
    }
    look.push(print(cmd("first", vec![var("in"), lit_s("-")])));
    let body = match r.below(3) {
        0 => vec![Nd::As(par(0), p, look)],
        1 => vec![Nd::Switch(par(0), vec![(vec![Pat::Val(V::Null)], vec![text("no")]), (vec![p], look), (vec![Pat::Any], vec![text("other")])])],
        _ => {
            // as one of many alternatives
            let k = r.big(200);
            let mut alts: Vec<Pat> = (0..k).map(|i| Pat::Val(V::UInt(i as u64))).collect();
            alts.push(p);
            vec![Nd::Switch(par(0), vec![(alts, look), (vec![Pat::Any], vec![text("other")])])]
        }
    };
    go(cx, body, vec![v])
}

// ---- blocks ----

pub fn c27(cx: &mut Cx) -> Res {
    let r = &mut cx.rng;
    if r.chance(1, 2) {
        let n = 1 + r.big(120);
        let mut b = vec![text("core")];
        for i in 0..n {
            let mut inner = vec![text(&format!("{}(", i))];
            inner.extend(b);
            b = match r.below(6) {
                0 => vec![Nd::Block("tr".into(), vec![], inner)],
                1 => vec![Nd::Block("cat".into(), vec![lit_s("<"), var("@"), lit_s(">")], inner)],
                2 => vec![Nd::AtLet("x".into(), inner), print(var("x"))],
                3 => vec![Nd::AtExport("y".into(), inner), print(var("y"))],
                4 => vec![Nd::Block("len".into(), vec![], inner)],
                _ => vec![Nd::Block("cat".into(), vec![], inner)],
            };
        }
        return go(cx, b, vec![]);
    }
    // one of many parts
    let n = r.big(3_000);
    let inner: Vec<Nd> = (0..n)
        .map(|i| match i % 3 {
            0 => print(uint(i)),
            1 => text("x"),
            _ => Nd::Block("cat".into(), vec![], vec![text("in")]),
        })
        .collect();
    let b = match r.below(4) {
        0 => vec![Nd::Block("tr".into(), vec![], inner)],
        1 => vec![Nd::Block("cat".into(), (0..1 + r.below(5)).map(|i| if i % 2 == 0 { var("@") } else { uint(i) }).collect(), inner)],
        2 => vec![Nd::AtLet("x".into(), inner), print(cmd("len", vec![var("x")])), print(var("x"))],
        _ => vec![Nd::AtExport("x".into(), inner), print(cmd("len", vec![var("x")]))],
    };
    go(cx, b, vec![])
}

// ---- values ----

/// the function, called with these
fn f(cx: &mut Cx, name: &str, args: &[V]) -> Res {
    fcheck(cx, name, args).map(|_| ())
}

fn long_text(r: &mut Rng, n: usize) -> String {
    let mut t = String::with_capacity(n + 4);
    let how = r.below(4);
    while t.len() < n {
        match how {
            0 => t.push((b'a' + (t.len() % 26) as u8) as char),
            1 => t.push(gen::any_char(r)),
            2 => t += r.pick(&["a", "b", " ", "ab", "é"]),
            _ => t += &gen::word(r),
        }
    }
    t
}

pub fn c11(cx: &mut Cx) -> Res {
    let r = &mut cx.rng;
    // two that are the same but for one place
    let (a, b) = match r.below(5) {
        0 => {
            let n = 1 + r.big(10_000);
            let a = list_of(r, n);
            let mut b = a.clone();
            if let V::List(l) = &mut b {
                let i = *r.pick(&places_of(n));
                l[i] = near(r, &l[i].clone());
            }
            (a, b)
        }
        1 => {
            let n = 1 + r.big(3_000);
            let a: BTreeMap<String, V> = (0..n).map(|i| (format!("k{}", i), small(r, i))).collect();
            let mut b = a.clone();
            let k = format!("k{}", r.below(n));
            match r.below(3) {
                0 => {
                    b.remove(&k);
                }
                1 => {
                    let v = near(r, &a[&k]);
                    b.insert(k, v);
                }
                _ => {
                    let v = b.remove(&k).unwrap();
                    b.insert(k + "x", v);
                }
            }
            (V::Map(a), V::Map(b))
        }
        2 => {
            let n = 1 + r.big(70_000);
            let a: Vec<char> = long_text(r, n).chars().collect();
            let mut b = a.clone();
            match r.below(3) {
                0 => {
                    b.pop();
                }
                1 => {
                    let i = r.below(b.len());
                    b[i] = if b[i] == 'z' { 'y' } else { 'z' };
                }
                _ => {}
            }
            (V::Str(a.into_iter().collect()), V::Str(b.into_iter().collect()))
        }
        3 => {
            let n = r.big(70_000);
            let a: Vec<u8> = (0..n).map(|i| i as u8).collect();
            let mut b = a.clone();
            if n > 0 && r.chance(2, 3) {
                let i = r.below(n);
                b[i] ^= 1 << r.below(8);
            }
            (V::Bytes(a), V::Bytes(b))
        }
        _ => {
            let n = r.big(200);
            let (mut a, mut b) = (V::UInt(1), near(r, &V::UInt(1)));
            for i in 0..n {
                if r.chance(1, 2) {
                    a = V::List(vec![V::UInt(i as u64), a]);
                    b = V::List(vec![V::Int(i as i64), b]);
                } else {
                    a = V::Map([("k".to_string(), a)].into_iter().collect());
                    b = V::Map([("k".to_string(), b)].into_iter().collect());
                }
            }
            (a, b)
        }
    };
    let name = *r.pick(&["eq", "neq", "eq_any", "gt", "gte", "lt", "lte"]);
    if r.chance(1, 3) {
        // among many
        let n = r.big(2_000);
        let at = r.below(n + 1);
        let v = near(r, &V::UInt(7));
        let mut args: Vec<V> = (0..n).map(|_| V::UInt(7)).collect();
        args.insert(at, v);
        return f(cx, name, &args);
    }
    let args = if r.chance(1, 2) { [a, b] } else { [b, a] };
    f(cx, name, &args)
}

fn places_of(n: usize) -> Vec<usize> {
    places(&mut Rng::new(n as u64), n)
}

pub fn c13(cx: &mut Cx) -> Res {
    let n = cx.rng.big(70_000);
    let r = &mut cx.rng;
    let v = match r.below(3) {
        0 => V::Str(long_text(r, n)),
        _ => list_of(r, n),
    };
    let len = match &v {
        V::Str(s) => s.len(),
        V::List(l) => l.len(),
        _ => 0,
    };
    let at = |r: &mut Rng| -> V {
        let n = match r.below(3) {
            0 => (len + 1).saturating_sub(r.below(4)),
            1 => r.big(len + 2),
            _ => r.below(len + 2),
        };
        if r.chance(1, 4) { V::Int(n as i64) } else { V::UInt(n as u64) }
    };
    match r.below(8) {
        0 => {
            let (a, b) = (at(r), at(r));
            f(cx, "slice", &[v, a, b])
        }
        1 => {
            let a = at(r);
            f(cx, "slice", &[v, a])
        }
        2 => {
            let a = match r.below(2) {
                0 => at(r),
                _ => V::UInt(1 + r.below(300) as u64),
            };
            let l = list_of(r, n.min(20_000));
            f(cx, "groups", &[a, l])
        }
        3 | 4 => {
            let a = at(r);
            f(cx, "get", &[v, a])
        }
        5 => {
            let x = match &v {
                V::List(l) if !l.is_empty() => l[r.below(l.len())].clone(),
                _ => V::Null,
            };
            f(cx, "index_of", &[x, v])
        }
        6 => {
            let k = r.big(300);
            let mut a: Vec<V> = (0..k).map(|i| if r.chance(1, 2) { let n = r.below(20); list_of(r, n) } else { small(r, i) }).collect();
            a.push(v);
            let name = *cx.rng.pick(&["append", "len", "list"]);
            f(cx, name, &a)
        }
        _ => {
            let k = r.big(2_000);
            let a: Vec<V> = (0..k * 2).map(|i| if i % 2 == 0 { V::Str(format!("k{}", r.below(k))) } else { V::UInt(i as u64) }).collect();
            f(cx, "map", &a)
        }
    }
}

pub fn c14(cx: &mut Cx) -> Res {
    let n = 1 + cx.rng.big(3_000);
    let r = &mut cx.rng;
    let name = *r.pick(&["add", "sub", "min", "max", "mul", "div", "mod"]);
    let kinds = r.below(3);
    let a: Vec<V> = (0..n)
        .map(|i| {
            let x = if matches!(name, "mul" | "div" | "mod") { 1 + u64::from(i % 97 == 0 && i < 4_000) } else { r.below(1 << 30) as u64 };
            match kinds {
                0 => V::UInt(x),
                1 => V::Int(if r.chance(1, 2) { x as i64 } else { -(x as i64) }),
                _ => match r.below(3) {
                    0 => V::UInt(x),
                    1 => V::Int(-(x as i64)),
                    _ => V::Float(x as f64 / 4.0),
                },
            }
        })
        .collect();
    f(cx, name, &a)
}

pub fn c16(cx: &mut Cx) -> Res {
    let n = cx.rng.big(70_000);
    let r = &mut cx.rng;
    let name = *r.pick(&["html_esc", "xml_esc"]);
    if r.chance(1, 4) {
        let k = r.big(500);
        let a: Vec<V> = (0..k).map(|i| if r.chance(1, 2) { V::Str(r.pick(&["<", ">", "&", "'", "\"", "a"]).to_string()) } else { V::UInt(i as u64) }).collect();
        return f(cx, name, &a);
    }
    let mut t = long_text(r, n);
    if r.chance(1, 2) {
        // one in a long run of others
        let mut i = r.below(t.len() + 1);
        while !t.is_char_boundary(i) {
            i -= 1
        }
        t.insert_str(i, r.pick(&["<", ">", "&", "'", "\""]));
    }
    f(cx, name, &[V::Str(t)])
}

pub fn c17(cx: &mut Cx) -> Res {
    let n = cx.rng.big(20_000);
    let r = &mut cx.rng;
    let h = long_text(r, n);
    let piece = |r: &mut Rng| -> String {
        let c: Vec<char> = h.chars().collect();
        if c.is_empty() {
            return "a".into();
        }
        let a = r.below(c.len());
        let k = if r.chance(1, 4) { r.big(300) } else { 1 + r.below(3) };
        c[a..(a + k).min(c.len())].iter().collect()
    };
    match r.below(8) {
        0 | 1 => {
            let p = piece(r);
            f(cx, "split", &[V::Str(h), V::Str(p)])
        }
        2 => {
            let k = 1 + r.big(100);
            let mut a = vec![V::Str(h.clone())];
            for _ in 0..k {
                a.push(V::Str(if r.chance(1, 2) { piece(r) + "!?" } else { piece(r) }));
            }
            f(cx, "str_contains", &a)
        }
        3 => {
            let p = piece(r);
            f(cx, "str_replace", &[V::Str(h), V::Str(p), V::Str("<>".into())])
        }
        4 => {
            let p = piece(r);
            let k = r.big(5_000);
            f(cx, "str_replace_n", &[V::Str(h), V::Str(p), V::Str("<>".into()), V::UInt(k as u64)])
        }
        5 => {
            let l = list_of(r, n);
            let sep = r.pick(&["", ",", " and "]).to_string();
            f(cx, "join_with", &[V::Str(sep), l])
        }
        6 => {
            let k = r.big(5_000);
            let a: Vec<V> = (0..k).map(|_| V::UInt(gen::any_char(r) as u64)).collect();
            f(cx, "string_from_ints", &a)
        }
        _ => {
            let k = r.big(2_000);
            let a: Vec<V> = (0..k).map(|i| small(r, i)).collect();
            f(cx, "cat", &a)
        }
    }
}

pub fn c30(cx: &mut Cx) -> Res {
    let n = 1 + cx.rng.big(3_000);
    let r = &mut cx.rng;
    let name = *r.pick(&["and", "nand", "or", "nor"]);
    let common = V::Bool(name.contains("and"));
    let mut a: Vec<V> = vec![common.clone(); n];
    if r.chance(2, 3) {
        let i = *r.pick(&places_of(n));
        a[i] = match common {
            V::Bool(true) => r.pick(&[V::Null, V::UInt(0), V::Str(String::new()), V::Bool(false)]).clone(),
            _ => r.pick(&[V::UInt(256), V::Int(1 << 32), V::Float(1e-300), V::Str("0".into()), V::Bool(true)]).clone(),
        };
    }
    f(cx, name, &a)
}
