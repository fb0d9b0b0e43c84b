//! Values: equality and order, sorting, lists, arithmetic, logic
use super::progs::{decide, fm, What};
use super::util::*;
use crate::conv::*;
use crate::core::*;
use model::ast::*;
use model::gen::{self, Prog};
use model::print::{NOISY, PLAIN};
use model::rng::Rng;
use model::val::*;
use std::cmp::Ordering;
use std::collections::BTreeMap;

fn lib_cmp(a: &templito::TData, b: &templito::TData) -> Result<Option<Ordering>, Violation> {
    guard(|| a.partial_cmp(b))
}

/// equality and order
pub fn c11(cx: &mut Cx) -> Res {
    let r = &mut cx.rng;
    let mut vs = vec![];
    let d = r.below(3);
    vs.push(wild(r, d));
    for _ in 0..3 {
        let v = if r.chance(3, 4) {
            let n = r.below(vs.len());
            near(r, &vs[n].clone())
        } else {
            wild(r, d)
        };
        vs.push(v);
    }
    if r.chance(1, 4) {
        // numbers where floats are coarse
        let base = (1u64 << r.range(52, 63)) as i128;
        vs = (0..4)
            .map(|_| {
                let n = base + r.range(-3, 3) as i128;
                let n = if r.chance(1, 3) { -n } else { n };
                match r.below(3) {
                    0 => i64::try_from(n).map(V::Int).unwrap_or(V::UInt(n.unsigned_abs() as u64)),
                    1 => u64::try_from(n).map(V::UInt).unwrap_or(V::Float(n as f64)),
                    _ => V::Float(n as f64),
                }
            })
            .collect();
    }
    cx.input(show(&vs));
    let t: Vec<templito::TData> = vs.iter().map(td).collect();
    let n = vs.len();
    let mut ord = vec![vec![None; n]; n];
    for i in 0..n {
        for j in 0..n {
            let (a, b) = (&vs[i], &vs[j]);
            let e = guard(|| t[i] == t[j])?;
            let c = lib_cmp(&t[i], &t[j])?;
            ensure!(e == veq(a, b), "{} == {} is {}", tag(a), tag(b), e);
            ensure!(c == vcmp(a, b), "{} cmp {} is {:?}", tag(a), tag(b), c);
            // on the answers alone
            let back = guard(|| t[j] == t[i])?;
            ensure!(e == back, "{} == {} is {}, but not the other way round", tag(a), tag(b), e);
            let rev = lib_cmp(&t[j], &t[i])?;
            ensure!(c.map(Ordering::reverse) == rev, "{} cmp {}: {:?} and {:?}", tag(a), tag(b), c, rev);
            if e {
                ensure!(
                    c == Some(Ordering::Equal),
                    "{} and {} are equal, but ordered {:?}",
                    tag(a),
                    tag(b),
                    c
                );
                cx.see("equal pairs");
            } else {
                cx.see("unequal pairs");
            }
            ord[i][j] = c;
        }
    }
    for i in 0..n {
        for j in 0..n {
            for k in 0..n {
                let le = |o: Option<Ordering>| matches!(o, Some(Ordering::Less | Ordering::Equal));
                if le(ord[i][j]) && le(ord[j][k]) {
                    cx.see("triples in order");
                    ensure!(
                        le(ord[i][k]),
                        "{} <= {} <= {}, but the first and last are {:?}",
                        tag(&vs[i]),
                        tag(&vs[j]),
                        tag(&vs[k]),
                        ord[i][k]
                    );
                    if ord[i][j] == Some(Ordering::Less) || ord[j][k] == Some(Ordering::Less) {
                        ensure!(
                            ord[i][k] == Some(Ordering::Less),
                            "{}, {}, {} in order, but the first and last are {:?}",
                            tag(&vs[i]),
                            tag(&vs[j]),
                            tag(&vs[k]),
                            ord[i][k]
                        );
                    }
                }
            }
        }
    }
    // the functions
    let c = 1 + cx.rng.below(n);
    let mut a = vs[..c].to_vec();
    cx.rng.shuffle(&mut a);
    if cx.rng.chance(1, 40) {
        a.clear();
    }
    for f in ["eq", "neq", "eq_any", "gt", "gte", "lt", "lte"] {
        fcheck(cx, f, &a)?;
    }
    Ok(())
}

// ---- sorting ----

/// The criteria of sort_on
#[derive(Clone, Debug)]
struct Crit {
    down: bool,
    path: Vec<Part>,
}

impl Crit {
    fn text(&self, r: &mut Rng) -> String {
        let p: Vec<String> = self
            .path
            .iter()
            .map(|p| match p {
                Part::N(n) => n.to_string(),
                Part::I(k) => {
                    let plain = k.chars().all(|c| c.is_ascii_alphanumeric());
                    if plain && !r.chance(1, 6) {
                        k.clone()
                    } else {
                        format!("'{}'", k)
                    }
                }
            })
            .collect();
        format!("{}{}", if self.down { "-" } else { "" }, p.join("."))
    }
    fn cmp(&self, a: &V, b: &V) -> Ordering {
        use model::interp::sub_get;
        let o = match (sub_get(a, &self.path), sub_get(b, &self.path)) {
            (Some(x), Some(y)) => model::funcs::total_cmp(&x, &y),
            (Some(_), None) => Ordering::Greater,
            (None, Some(_)) => Ordering::Less,
            (None, None) => model::funcs::total_cmp(a, b),
        };
        if self.down {
            o.reverse()
        } else {
            o
        }
    }
}

fn by(c: &[Crit], a: &V, b: &V) -> Ordering {
    c.iter().map(|c| c.cmp(a, b)).find(|o| *o != Ordering::Equal).unwrap_or(Ordering::Equal)
}

fn sort_key(r: &mut Rng) -> V {
    match r.below(12) {
        0..=3 => V::UInt(r.below(5) as u64),
        4 => V::Int(r.range(-3, 3)),
        5 => V::Float(r.range(-6, 12) as f64 / 2.0),
        6 | 7 => V::Str(r.pick(&["a", "b", "B", "ab", "", "é"]).to_string()),
        8 => gen::date(r),
        9 => V::Bool(r.chance(1, 2)),
        10 => V::Float(gen::hostile_float(r)),
        _ => wild(r, 1),
    }
}

fn record(r: &mut Rng, n: usize) -> V {
    // the place tells those apart that compare as equal
    if r.chance(1, 12) {
        return sort_key(r);
    }
    if r.chance(1, 5) {
        return V::List(vec![sort_key(r), sort_key(r), V::UInt(n as u64)]);
    }
    let mut m = BTreeMap::new();
    m.insert("pos".to_string(), V::UInt(n as u64));
    for k in ["k", "n", "two words"] {
        if !r.chance(1, 6) {
            m.insert(k.to_string(), sort_key(r));
        }
    }
    if r.chance(1, 2) {
        let mut s = BTreeMap::new();
        s.insert("k".to_string(), sort_key(r));
        if r.chance(1, 2) {
            // further down, where what lies above may be the same or not
            let (a, b) = (sort_key(r), sort_key(r));
            s.insert("list".to_string(), V::List(vec![a.clone(), b.clone()]));
            let l = BTreeMap::from([("k".to_string(), b), ("n".to_string(), sort_key(r))]);
            s.insert("low".to_string(), V::Map(if r.chance(1, 3) { BTreeMap::from([("k".to_string(), a), ("low".to_string(), V::Map(l))]) } else { l }));
        }
        m.insert("sub".to_string(), V::Map(s));
    }
    V::Map(m)
}

fn crit(r: &mut Rng) -> Crit {
    let i = |k: &str| Part::I(k.to_string());
    let path = match r.below(12) {
        8 => vec![i("sub"), i("list"), Part::N(r.below(2))],
        9 => vec![i("sub"), i("low"), i(["k", "n", "low"][r.below(3)])],
        10 => vec![i("sub"), i("low"), i("low"), i(["k", "n"][r.below(2)])],
        0..=2 => vec![i("k")],
        3 => vec![i("n")],
        4 => vec![i("sub"), i("k")],
        5 => vec![Part::N(r.below(2))],
        6 => vec![i("two words")],
        _ => vec![i("nothing")],
    };
    Crit { down: r.chance(1, 3), path }
}

/// the same things, as often
fn permutation(a: &[V], b: &[V]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut x: Vec<String> = a.iter().map(tag).collect();
    let mut y: Vec<String> = b.iter().map(tag).collect();
    x.sort();
    y.sort();
    x == y
}

fn sorted_ok(name: &str, input: &[V], got: &V, c: &dyn Fn(&V, &V) -> Ordering) -> Res {
    let l = match got {
        V::List(l) => l,
        v => return fail(format!("{} gave {}, not a list", name, tag(v))),
    };
    ensure!(permutation(input, l), "{} changed the items: {}", name, show(l));
    for w in l.windows(2) {
        ensure!(
            c(&w[0], &w[1]) != Ordering::Greater,
            "{} put {} before {}",
            name,
            tag(&w[0]),
            tag(&w[1])
        );
    }
    // and those that are equal keep their order
    let mut want = input.to_vec();
    model::funcs::insertion_sort(&mut want, c);
    ensure!(
        want.iter().zip(l).all(|(a, b)| identical(a, b)),
        "{} is not stable: {}, expected {}",
        name,
        show(l),
        show(&want)
    );
    Ok(())
}

pub fn c12(cx: &mut Cx) -> Res {
    let big = cx.rng.chance(1, 10);
    let n = if cx.rng.chance(1, 1500) {
        cx.see("large inputs");
        cx.rng.big(5_000)
    } else if big {
        20 + cx.rng.below(100)
    } else {
        cx.rng.below(20)
    };
    match cx.rng.below(10) {
        0 | 1 => {
            // of simple values, over several lists
            let k = cx.rng.some(3);
            let uniform = cx.rng.chance(1, 3);
            let mut args = vec![];
            let mut all = vec![];
            for _ in 0..=k {
                let l: Vec<V> = (0..n)
                    .map(|_| {
                        if uniform {
                            V::UInt(cx.rng.below(30) as u64)
                        } else {
                            sort_key(&mut cx.rng)
                        }
                    })
                    .collect();
                all.extend(l.iter().cloned());
                args.push(V::List(l));
            }
            if cx.rng.chance(1, 10) {
                args.insert(0, V::UInt(3));
            }
            let got = match call1(cx, "sort", &args)? {
                Ok(v) => v,
                Err(e) => return fail(format!("sort failed: {}", e)),
            };
            sorted_ok("sort", &all, &got, &model::funcs::total_cmp)?;
            cx.see("sort: lists");
            cx.decided(show(&args).as_bytes());
            if all.len() < 12 {
                fcheck(cx, "sort", &args)?;
            }
        }
        2..=5 => {
            let l: Vec<V> = (0..n).map(|i| record(&mut cx.rng, i)).collect();
            let crits: Vec<Crit> = (0..1 + cx.rng.some(4)).map(|_| crit(&mut cx.rng)).collect();
            let mut args = vec![V::List(l.clone())];
            for c in &crits {
                args.push(V::Str(c.text(&mut cx.rng)));
            }
            let got = match call1(cx, "sort_on", &args)? {
                Ok(v) => v,
                Err(e) => return fail(format!("sort_on failed: {}", e)),
            };
            sorted_ok("sort_on", &l, &got, &|a, b| by(&crits, a, b))?;
            cx.see("sort_on: lists");
            cx.add("sort_on: criteria", crits.len() as u64);
            cx.decided(show(&args).as_bytes());
            cx.sample(|| format!("sort_on {}", show(&args)));
        }
        6 => {
            // what it does not take
            let l = V::List((0..n).map(|i| record(&mut cx.rng, i)).collect());
            let bad = cx.rng.pick(&[V::Str("".into()), V::Str("!".into()), V::Str("a.".into()), V::Str("-".into()), V::UInt(1), V::Null]).clone();
            let (f, args) = match cx.rng.below(5) {
                0 => ("sort_on", vec![l, bad]),
                1 => ("sort_on", vec![l]),
                2 => ("sort_on", vec![V::Str("a".into()), V::Str("k".into())]),
                3 => ("bin_search", vec![l, V::UInt(1), bad]),
                _ => ("bin_get", vec![l, V::UInt(1)]),
            };
            let got = call1(cx, f, &args)?;
            ensure!(got.is_err(), "{} gave {}, expected a failure", f, show_r(&got));
            cx.see("sort: failures");
            cx.decided(show(&args).as_bytes());
        }
        _ => {
            // find in a list that is sorted
            let crits: Vec<Crit> = (0..1 + cx.rng.some(4)).map(|_| crit(&mut cx.rng)).collect();
            let mut l: Vec<V> = (0..n).map(|i| record(&mut cx.rng, i)).collect();
            model::funcs::insertion_sort(&mut l, &|a, b| by(&crits, a, b));
            let item = if n > 0 && cx.rng.chance(2, 3) {
                let i = cx.rng.below(n);
                l[i].clone()
            } else {
                record(&mut cx.rng, 999)
            };
            let mut args = vec![V::List(l.clone()), item.clone()];
            for c in &crits {
                args.push(V::Str(c.text(&mut cx.rng)));
            }
            // the list has to be in order under what is asked for, so the order has to be one:
            // with a part that is missing in some, whole elements are compared to each other
            let lawful = crits.iter().all(|c| {
                let have = l.iter().filter(|v| model::interp::sub_get(v, &c.path).is_some()).count();
                have == l.len() || l.len() < 2
            }) && crits.iter().all(|c| model::interp::sub_get(&item, &c.path).is_some());
            let there = l.iter().any(|v| by(&crits, v, &item) == Ordering::Equal);
            let got = match call1(cx, "bin_search", &args)? {
                Ok(v) => v,
                Err(e) => return fail(format!("bin_search failed: {}", e)),
            };
            let item_got = match call1(cx, "bin_get", &args)? {
                Ok(v) => v,
                Err(e) => return fail(format!("bin_get failed: {}", e)),
            };
            match &got {
                V::UInt(i) => {
                    let v = match l.get(*i as usize) {
                        Some(v) => v,
                        None => return fail(format!("bin_search gave {}, out of range", i)),
                    };
                    ensure!(
                        by(&crits, v, &item) == Ordering::Equal,
                        "bin_search found {}, which is not equal to what was searched",
                        tag(v)
                    );
                    ensure!(
                        by(&crits, &item_got, &item) == Ordering::Equal
                            && l.iter().any(|v| identical(v, &item_got)),
                        "bin_get found {}",
                        tag(&item_got)
                    );
                    cx.see("bin_search: found");
                }
                V::Null => {
                    ensure!(
                        !there || !lawful,
                        "bin_search found nothing, but it is there"
                    );
                    ensure!(
                        identical(&item_got, &V::Null),
                        "bin_get found {}, bin_search nothing",
                        tag(&item_got)
                    );
                    cx.see("bin_search: not found");
                }
                v => return fail(format!("bin_search gave {}", tag(v))),
            }
            cx.decided(show(&args).as_bytes());
        }
    }
    Ok(())
}

// ---- lists ----

fn list(r: &mut Rng, depth: usize) -> Vec<V> {
    let n = if r.chance(1, 12) { r.below(40) } else { r.below(8) };
    (0..n).map(|_| wild(r, depth)).collect()
}

/// an index, most of the time about where the end is
fn index(r: &mut Rng, len: usize) -> V {
    let n = match r.below(10) {
        0 => return V::UInt(gen::hostile_uint(r)),
        1 => return V::Int(gen::hostile_int(r)),
        2 => return wild(r, 0),
        3 => len as i64 + r.range(-1, 2),
        _ => r.range(0, len as i64 + 1),
    };
    if r.chance(1, 4) {
        V::Int(n)
    } else {
        V::UInt(n.max(0) as u64)
    }
}

pub fn c13(cx: &mut Cx) -> Res {
    let r = &mut cx.rng;
    let l = list(r, 1);
    let n = l.len();
    let (f, args): (&str, Vec<V>) = match r.below(12) {
        0 => ("list", l),
        1 => {
            let k = r.some(4);
            let mut a: Vec<V> = (0..k).map(|_| if r.chance(2, 3) { V::List(list(r, 0)) } else { wild(r, 1) }).collect();
            a.push(V::List(l));
            ("append", a)
        }
        2 => {
            let k = r.some(4);
            ("len", (0..k).map(|_| wild(r, 2)).collect())
        }
        3 | 4 => {
            let on_text = r.chance(1, 3);
            let (v, n) = if on_text {
                let s = gen::text_of(r, 8);
                let n = s.len();
                (V::Str(s), n)
            } else {
                (V::List(l), n)
            };
            let mut a = vec![v, index(r, n)];
            if r.chance(2, 3) {
                a.push(index(r, n));
            }
            if r.chance(1, 30) {
                a.truncate(r.below(2));
            }
            ("slice", a)
        }
        5 | 6 => {
            let g = match r.below(4) {
                0 => index(r, n),
                _ => V::UInt(r.below(6) as u64),
            };
            let mut a = vec![g, V::List(l)];
            if r.chance(1, 30) {
                a.pop();
            }
            ("groups", a)
        }
        7 | 8 => {
            let mut a = match r.below(3) {
                0 => {
                    let s = gen::text_of(r, 8);
                    let n = s.len();
                    vec![V::Str(s), index(r, n)]
                }
                1 => {
                    let m: BTreeMap<String, V> = (0..4).map(|_| (gen::key(r), wild(r, 1))).collect();
                    let k = if r.chance(5, 6) { V::Str(gen::key(r)) } else { wild(r, 0) };
                    vec![V::Map(m), k]
                }
                _ => vec![V::List(l), index(r, n)],
            };
            match r.below(30) {
                0 => a.truncate(r.below(2)),
                1 => a.push(V::UInt(0)),
                _ => {}
            }
            ("get", a)
        }
        9 => {
            let x = if n > 0 && r.chance(3, 4) {
                let i = r.below(n);
                near(r, &l[i])
            } else {
                wild(r, 1)
            };
            let mut a = vec![x, V::List(l)];
            if r.chance(1, 20) {
                a.truncate(r.below(2));
            } else if r.chance(1, 20) {
                a[1] = wild(r, 0);
            }
            ("index_of", a)
        }
        10 => {
            let mut a = vec![];
            for _ in 0..r.some(5) {
                a.push(if r.chance(1, 20) { wild(r, 0) } else { V::Str(gen::key(r)) });
                a.push(wild(r, 1));
            }
            if r.chance(1, 4) {
                a.push(V::Str("odd".into()));
            }
            ("map", a)
        }
        _ => {
            let f = *r.pick(&["list", "append", "len", "slice", "groups", "get", "index_of", "map"]);
            let k = r.some(5);
            (f, (0..k).map(|_| wild(r, 2)).collect())
        }
    };
    fcheck(cx, f, &args).map(|_| ())?;
    // what one function takes apart, another puts together
    if f == "groups" {
        if let [g, V::List(l)] = &args[..] {
            if let Some(g) = as_index(g) {
                if let Ok(V::List(parts)) = call1(cx, "groups", &args)? {
                    let back = call1(cx, "append", &parts)?;
                    ensure!(
                        back.as_ref().map_or(false, |b| identical(b, &V::List(l.clone()))),
                        "groups lost items: {}",
                        show_r(&back)
                    );
                    for (i, p) in parts.iter().enumerate() {
                        let k = match p {
                            V::List(p) => p.len() as u64,
                            _ => 0,
                        };
                        ensure!(
                            k == g.max(1) || (i + 1 == parts.len() && k > 0 && k < g.max(1)),
                            "a group of {} items",
                            k
                        );
                    }
                    cx.see("groups joined again");
                }
            }
        }
    }
    Ok(())
}

// ---- arithmetic ----

fn number(r: &mut Rng) -> V {
    match r.below(12) {
        0..=2 => V::UInt(r.below(50) as u64),
        3 => V::UInt(gen::hostile_uint(r)),
        4 | 5 => V::Int(r.range(-50, 50)),
        6 => V::Int(gen::hostile_int(r)),
        7 => V::Float(r.range(-50, 50) as f64 / 4.0),
        8 => V::Float(gen::hostile_float(r)),
        9 => V::UInt(1 << r.below(34)),
        10 => V::Int(-(1 << r.below(34))),
        _ => V::UInt(0),
    }
}

pub fn c14(cx: &mut Cx) -> Res {
    let r = &mut cx.rng;
    let f = *r.pick(&["add", "sub", "mul", "div", "mod", "min", "max"]);
    let n = match r.below(10) {
        0 => 0,
        1 | 2 => 1,
        3 => 3,
        4 => r.many(10, 2_000),
        _ => 2,
    };
    let mut args: Vec<V> = (0..n).map(|_| number(r)).collect();
    if n > 2 && r.chance(1, 2) {
        // no further than the results go
        for a in args.iter_mut() {
            if r.chance(9, 10) {
                *a = match r.below(5) {
                    0 => V::UInt(r.below(5) as u64),
                    1 | 2 => V::Float(r.range(-99, 99) as f64 / *r.pick(&[1.0, 3.0, 7.0, 1e9])),
                    3 => V::UInt((1 << 53) + r.below(5) as u64),
                    _ => V::Int(r.range(-5, 5)),
                }
            }
        }
    }
    if n == 2 && r.chance(1, 4) {
        // near where the result stops to fit
        let (a, b) = match (f, r.below(2)) {
            ("add", 0) => {
                let a = gen::hostile_uint(r);
                (V::UInt(a), V::UInt((u64::MAX - a).wrapping_add(r.below(3) as u64)))
            }
            ("add", _) => {
                let a = gen::hostile_int(r) & i64::MAX;
                (V::Int(a), V::Int((i64::MAX - a).wrapping_add(r.range(-1, 1))))
            }
            ("sub", 0) => {
                let a = r.u64() >> r.below(64);
                (V::UInt(a), V::UInt(a.wrapping_add(1 << 63).wrapping_add(r.below(3) as u64)))
            }
            ("sub", _) => {
                let a = gen::hostile_int(r);
                (V::Int(a), V::Int(a.wrapping_sub(i64::MAX).wrapping_add(r.range(-1, 1))))
            }
            ("mul", 0) => {
                let a = (r.u64() >> r.below(63)).max(1);
                (V::UInt(a), V::UInt((u64::MAX / a).wrapping_add(r.below(2) as u64)))
            }
            ("mul", _) => {
                let a = (gen::hostile_int(r)).checked_abs().unwrap_or(1).max(1);
                (V::Int(-a), V::Int((i64::MAX / a).wrapping_add(r.range(0, 1))))
            }
            _ => (V::Int(i64::MIN + r.below(2) as i64), V::Int(-1)),
        };
        args = vec![a, b];
    }
    if r.chance(1, 30) && n > 0 {
        let i = r.below(args.len());
        args[i] = wild(r, 1);
    }
    // the one remainder whose quotient does not fit may also be its exact value, 0
    if f == "mod" && args.windows(2).any(|w| matches!((&w[0], &w[1]), (V::Int(i64::MIN), V::Int(-1)))) {
        let got = call1(cx, f, &args)?;
        cx.see("mod: smallest by -1");
        if args.len() == 2 {
            ensure!(
                got.is_err() || matches!(got, Ok(V::Int(0))),
                "{} gave {}",
                f,
                show_r(&got)
            );
        }
        return Ok(());
    }
    let zero = |v: &V| matches!(v, V::Float(f) if *f == 0.0);
    let eq = move |a: &V, b: &V| identical(a, b) || (matches!(f, "min" | "max") && zero(a) && zero(b));
    fcheck_with(cx, f, &args, &eq)?;
    // on the answer alone: exact, or a failure
    if let [a, b] = &args[..] {
        if let (Some(Num::I(x)), Some(Num::I(y))) = (num(a), num(b)) {
            if let Ok(v) = call1(cx, f, &args)? {
                let exact = match f {
                    "add" => Some(x + y),
                    "sub" => Some(x - y),
                    "mul" => x.checked_mul(y),
                    "min" => Some(x.min(y)),
                    "max" => Some(x.max(y)),
                    "div" if y != 0 => Some(x / y),
                    "mod" if y != 0 => Some(x % y),
                    _ => None,
                };
                let got = match num(&v) {
                    Some(Num::I(i)) => Some(i),
                    _ => None,
                };
                ensure!(
                    exact.is_some() && got == exact,
                    "{} gave {}, the exact value is {:?}",
                    f,
                    tag(&v),
                    exact
                );
                cx.see("exact integer results");
            }
        }
    }
    Ok(())
}

// ---- logic ----

pub fn c30(cx: &mut Cx) -> Res {
    let what = What { output: true, exports: false, trace: true };
    let r = &mut cx.rng;
    match r.below(4) {
        0 | 1 => {
            let f = *r.pick(&["and", "nand", "or", "nor", "type_of", "is_null", "is_num"]);
            let n = if r.chance(1, 2) { 1 } else { r.some(4) };
            let mut args: Vec<V> = (0..n).map(|_| wild(r, 1)).collect();
            if f == "type_of" && n > 0 && r.chance(1, 2) {
                let t = if r.chance(2, 3) {
                    args[0].type_name().to_string()
                } else {
                    r.pick(&["bool", "string", "int", "uint", "float", "list", "map", "template", "null", "date", "bytes"]).to_string()
                };
                args.truncate(1);
                args.push(V::Str(t));
            }
            if matches!(f, "and" | "nand" | "or" | "nor") && r.chance(1, 2) {
                args = (0..n).map(|_| V::Bool(r.chance(2, 3))).collect();
            }
            fcheck(cx, f, &args)?;
            // the same truth for "if", "select" and "filter"
            if let Some(v) = args.first() {
                let t = truthy(v);
                let p = [td(v)];
                let text = "{{if $0}}T{{else}}F{{/if}}{{if first $0 0}}T{{else}}F{{/if}}";
                cx.input(format!("{:?} with {}", text, tag(v)));
                let tt = match parse(text)? {
                    Ok(t) => t,
                    Err(e) => return fail(e),
                };
                let mut tm = templito::temp_man::NoTemplates;
                let got = run(&tt, &p, &mut tm, fm(cx))?;
                let want = if t == Some(true) { "TT" } else { "FF" };
                match got {
                    Ok((s, _)) => ensure!(s == want, "{:?}, expected {:?}", s, want),
                    Err(e) => return fail(format!("failed: {}", e)),
                }
                let c = call1(cx, "filter", &[V::List(vec![v.clone()]), V::Str("$0".into())])?;
                let want = if t == Some(true) { vec![v.clone()] } else { vec![] };
                ensure!(
                    c.as_ref().map_or(false, |c| identical(c, &V::List(want.clone()))),
                    "filter by the value itself gave {}",
                    show_r(&c)
                );
                cx.see("truth compared");
            }
        }
        _ => {
            // first, select: what is evaluated, and what comes out
            let arg = |r: &mut Rng| -> Ex {
                match r.below(7) {
                    0 => cmd("er", vec![Ex::Lit(V::UInt(r.below(99) as u64))]),
                    1 => var("nothing"),
                    2 => Ex::Lit(V::Null),
                    3 => cmd("tr", vec![Ex::Lit(V::UInt(r.below(99) as u64)), Ex::Lit(V::Null)]),
                    4 => Ex::Var(vec![Part::N(0), Part::I(gen::key(r))]),
                    _ => {
                        let v = gen::value(r, gen::LITERAL);
                        cmd("tr", vec![Ex::Lit(V::UInt(r.below(99) as u64)), Ex::Lit(v)])
                    }
                }
            };
            let p0 = V::Map((0..3).map(|_| (gen::key(r), tame(r, 1))).collect());
            let n = r.some(6);
            let mut a: Vec<Ex> = (0..n).map(|_| arg(r)).collect();
            let c = if r.chance(1, 2) { "first" } else { "select" };
            let mut params = vec![p0];
            if c == "select" {
                let s = match r.below(5) {
                    0 | 1 => V::Bool(r.chance(1, 2)),
                    2 => V::UInt(r.below(n + 2) as u64),
                    3 => wild(r, 1),
                    _ => V::Int(r.range(-2, n as i64 + 1)),
                };
                params.push(s);
                let e = Ex::Var(vec![Part::N(1)]);
                a.insert(0, if r.chance(1, 2) { cmd("tr", vec![e]) } else { e });
            }
            let e = cmd(c, a);
            let e = cmd("type_of", vec![cmd("tr", vec![lit_s("r"), e])]);
            let body = vec![Nd::Exp(e)];
            let prog = Prog {
                main: TDef { params: vec![], body },
                temps: Some(BTreeMap::new()),
                params,
            };
            let st = if cx.rng.chance(1, 2) { NOISY } else { PLAIN };
            cx.see(c);
            decide(cx, &prog, st, &what)?;
        }
    }
    Ok(())
}

// ---- random numbers ----

fn as_f(v: &V) -> f64 {
    match v {
        V::Int(n) => *n as f64,
        V::UInt(n) => *n as f64,
        V::Float(n) => *n,
        _ => 0.0,
    }
}

pub fn c31(cx: &mut Cx) -> Res {
    let r = &mut cx.rng;
    let int = |r: &mut Rng| if r.chance(1, 3) { gen::hostile_int(r) } else { r.range(-5, 12) };
    let uint = |r: &mut Rng| if r.chance(1, 3) { gen::hostile_uint(r) } else { r.below(12) as u64 };
    let float = |r: &mut Rng| if r.chance(1, 3) { gen::hostile_float(r) } else { r.range(-8, 20) as f64 / 4.0 };
    let args: Vec<V> = match r.below(9) {
        0 => vec![],
        1 => vec![V::Int(int(r))],
        2 => vec![V::UInt(uint(r))],
        3 => vec![V::Float(float(r))],
        4 => {
            let mut a = (int(r), int(r));
            if r.chance(2, 3) && a.0 > a.1 {
                a = (a.1, a.0)
            }
            vec![V::Int(a.0), V::Int(a.1)]
        }
        5 => {
            let mut a = (uint(r), uint(r));
            if r.chance(2, 3) && a.0 > a.1 {
                a = (a.1, a.0)
            }
            vec![V::UInt(a.0), V::UInt(a.1)]
        }
        6 => {
            let mut a = (float(r), float(r));
            if r.chance(2, 3) && a.0 > a.1 {
                a = (a.1, a.0)
            }
            vec![V::Float(a.0), V::Float(a.1)]
        }
        7 if r.chance(1, 150) => vec![V::List((0..r.below(200_000) as u64).map(V::UInt).collect())],
        7 => vec![V::List((0..r.some(6)).map(|i| V::List(vec![V::UInt(i as u64), tame(r, 0)])).collect())],
        _ => (0..r.some(4)).map(|_| wild(r, 1)).collect(),
    };
    cx.input(format!("rand {}", show(&args)));
    let given: Vec<templito::TData> = args.iter().map(td).collect();
    let draw = |cx: &mut Cx| call(fm(cx), "rand", &given).map(|r| r.map(|v| val(&v)));
    let mut seen: BTreeMap<String, u64> = BTreeMap::new();
    let rounds = 24;
    for _ in 0..rounds {
        let got = draw(cx)?;
        let ok = match (&args[..], &got) {
            ([], Ok(V::Float(f))) => *f >= 0.0 && *f < 1.0,
            ([V::Int(n)], Ok(V::Int(x))) => *x >= 0 && x < n,
            ([V::UInt(n)], Ok(V::UInt(x))) => x < n,
            ([V::Float(n)], Ok(V::Float(x))) => {
                n.is_nan() || n.is_infinite() || (if *n >= 0.0 { *x >= 0.0 && x <= n } else { *x <= 0.0 && x >= n })
            }
            ([V::Int(a), V::Int(b)], Ok(V::Int(x))) => a <= x && x < b,
            ([V::UInt(a), V::UInt(b)], Ok(V::UInt(x))) => a <= x && x < b,
            ([V::Float(a), V::Float(b)], Ok(V::Float(x))) => a <= x && x < b,
            ([V::List(l)], Ok(v)) => (match v {
                // (a long list is mostly one of its indexes)
                V::UInt(n) if l.get(*n as usize).map_or(false, |w| identical(v, w)) => true,
                _ => l.iter().any(|w| identical(v, w)),
            }),
            // an empty range is a failure
            ([V::Int(n)], Err(_)) => *n <= 0,
            ([V::UInt(n)], Err(_)) => *n == 0,
            ([V::Int(a), V::Int(b)], Err(_)) => a >= b,
            ([V::UInt(a), V::UInt(b)], Err(_)) => a >= b,
            ([V::Float(a), V::Float(b)], Err(_)) => !(a < b && (b - a).is_finite()),
            ([V::List(l)], Err(_)) => l.is_empty(),
            ([], _) | ([V::Float(_)], _) => false,
            // one that is chosen, as of a single argument, or a failure
            (_, Err(_)) => true,
            ([_], Ok(_)) | ([_, _], Ok(_)) => false,
            // more arguments than are described
            _ => true,
        };
        ensure!(ok, "rand {} gave {}", show(&args), show_r(&got));
        if let Ok(v) = got {
            *seen.entry(tag(&v)).or_insert(0) += 1;
            cx.see("numbers drawn");
        } else {
            cx.see("ranges refused");
            break;
        }
    }
    // it has to be random, and to reach all of a small range. Odds of a false alarm: below 1e-15
    let small = match &args[..] {
        [V::Int(n)] if *n > 0 && *n <= 8 => Some(*n as u64),
        [V::UInt(n)] if *n > 0 && *n <= 8 => Some(*n),
        [V::Int(a), V::Int(b)] if a < b && b.saturating_sub(*a) <= 8 => Some((b - a) as u64),
        [V::UInt(a), V::UInt(b)] if a < b && b - a <= 8 => Some(b - a),
        [V::List(l)] if !l.is_empty() && l.len() <= 8 => Some(l.iter().map(tag).collect::<std::collections::HashSet<_>>().len() as u64),
        _ => None,
    };
    if let Some(n) = small {
        for _ in 0..n * 45 {
            if seen.len() as u64 == n {
                break;
            }
            if let Ok(v) = draw(cx)? {
                *seen.entry(tag(&v)).or_insert(0) += 1;
            }
        }
        ensure!(seen.len() as u64 == n, "rand reached only {} of {}: {:?}", seen.len(), n, seen);
        cx.see("small ranges reached in full");
    }
    // and each quarter of a large one. Odds of a false alarm: (3/4)^150, below 1e-18
    let large: Option<Box<dyn Fn(&V) -> f64>> = match args.clone()[..] {
        [] => Some(Box::new(|v| as_f(v))),
        [V::Int(n)] if n > 8 => Some(Box::new(move |v| as_f(v) / n as f64)),
        [V::UInt(n)] if n > 8 => Some(Box::new(move |v| as_f(v) / n as f64)),
        [V::Float(n)] if n.is_normal() => Some(Box::new(move |v| as_f(v) / n)),
        [V::Int(a), V::Int(b)] if (b as i128 - a as i128) > 8 => {
            let (a, b) = (a as i128, b as i128);
            Some(Box::new(move |v| if let V::Int(x) = v { (*x as i128 - a) as f64 / (b - a) as f64 } else { 0.0 }))
        }
        [V::UInt(a), V::UInt(b)] if b > a && b - a > 8 => {
            Some(Box::new(move |v| if let V::UInt(x) = v { x.wrapping_sub(a) as f64 / (b - a) as f64 } else { 0.0 }))
        }
        [V::Float(a), V::Float(b)] if a < b && (b - a).is_normal() && (b - a) > (a.abs() + b.abs()) * 1e-9 => {
            Some(Box::new(move |v| (as_f(v) - a) / (b - a)))
        }
        [V::List(ref l)] if l.len() > 8 && l.iter().enumerate().all(|(i, v)| matches!(v, V::UInt(n) if *n == i as u64)) => {
            let n = l.len();
            Some(Box::new(move |v| as_f(v) / n as f64))
        }
        _ => None,
    };
    if let (Some(of), true) = (large, !seen.is_empty()) {
        let many = matches!(args[..], [V::List(_)]);
        if many || cx.rng.chance(1, 4) {
            let mut quarter = [0u64; 4];
            for _ in 0..150 {
                if let Ok(v) = draw(cx)? {
                    quarter[((of(&v) * 4.0) as usize).min(3)] += 1;
                }
            }
            ensure!(
                quarter.iter().all(|n| *n > 0),
                "rand {} gave, of 150 numbers, {:?} in the quarters of its range",
                if many { "of a list".into() } else { show(&args) },
                quarter
            );
            cx.see("large ranges reached in each quarter");
        }
    }
    cx.decided(show(&args).as_bytes());
    Ok(())
}
