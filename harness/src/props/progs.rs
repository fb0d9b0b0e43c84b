//! Whole programs, compared to the reference interpreter: output, failure, exports, and the order and
//! arguments of every call of a host function.
use crate::conv::*;
use crate::core::*;
use model::ast::*;
use model::gen::{self, Profile, Prog, PROFILE};
use model::interp::{front_matter, run_template, Env, Stop};
use model::print::{Style, NOISY};
use model::val::{identical, V};
use std::collections::BTreeMap;

pub struct What {
    pub output: bool,
    pub exports: bool,
    pub trace: bool,
}

pub fn fm(cx: &mut Cx) -> &templito::func_man::BasicFuncs {
    cx.keep
        .entry("probes")
        .or_insert_with(|| Box::new(probes()))
        .downcast_ref::<templito::func_man::BasicFuncs>()
        .unwrap()
}

pub fn show_map(m: &BTreeMap<String, V>) -> String {
    model::val::tag(&V::Map(m.clone()))
}

pub fn same_maps(a: &BTreeMap<String, V>, b: &BTreeMap<String, V>) -> bool {
    identical(&V::Map(a.clone()), &V::Map(b.clone()))
}

/// a long text in short
pub fn clip(s: &str) -> String {
    if s.len() < 3000 {
        return format!("{:?}", s);
    }
    let at = |mut n: usize| {
        while !s.is_char_boundary(n) {
            n += 1
        }
        n
    };
    format!("{:?}... (of {} bytes) ...{:?}", &s[..at(1000)], s.len(), &s[at(s.len() - 1000)..])
}

/// two texts, from a little before where they are not the same
fn apart(a: &str, b: &str) -> (String, String) {
    if a.len().max(b.len()) < 3000 {
        return (clip(a), clip(b));
    }
    let n = a.bytes().zip(b.bytes()).take_while(|(x, y)| x == y).count();
    let cut = |s: &str| {
        let b = &s.as_bytes()[n.saturating_sub(60).min(s.len())..];
        format!("(from byte {} of {}) {:?}", n.saturating_sub(60), s.len(), String::from_utf8_lossy(&b[..b.len().min(300)]))
    };
    (cut(a), cut(b))
}

/// Decides one program. None: it was set aside.
pub fn decide(cx: &mut Cx, p: &Prog, st: Style, what: &What) -> Result<Option<(Env, bool)>, Violation> {
    decide_scaled(cx, p, st, what, 1)
}

pub fn decide_scaled(cx: &mut Cx, p: &Prog, st: Style, what: &What, scale: usize) -> Result<Option<(Env, bool)>, Violation> {
    let mut env = p.env();
    env.scale = scale;
    let want = match run_template(&p.main, p.params.clone(), &mut env) {
        Ok(x) => Some(x),
        Err(Stop::Fail) => None,
        Err(Stop::Limit) => {
            cx.skipped += 1;
            return Ok(None);
        }
    };
    if env.nondet {
        cx.skipped += 1;
        cx.see("set aside: order of a map");
        return Ok(None);
    }
    let (text, _) = print(&p.main.body, &mut cx.rng, st);
    let mut desc = format!("template: {:?}\nparams: {} named {}", text, clip(&format!("{:?}", p.params)), clip(&format!("{:?}", p.main.params)));
    for (k, t) in p.temps.iter().flatten() {
        let mut r = model::rng::Rng::new(1);
        desc += &format!("\n{} {:?}: {:?}", k, t.params, model::print::print(&t.body, &mut r, model::print::PLAIN));
    }
    cx.input(desc);
    let mut t = match parse(&text)? {
        Ok(t) => t,
        Err(e) => return fail(format!("did not parse: {}", e)),
    };
    t.pnames = p.main.params.clone();
    let start = p.env();
    let kind = cx.rng.below(3);
    let (got, trace, told) = run_like(&start, &t, &p.params, fm(cx), kind)?;
    match (&want, &got) {
        (None, Err(_)) => cx.see("runs that fail"),
        (Some((s, m)), Ok((gs, gm))) => {
            cx.see("runs that succeed");
            if what.output {
                let (g, w) = apart(gs, s);
                ensure!(s == gs, "output {}, expected {}", g, w);
            }
            if what.exports {
                ensure!(
                    same_maps(m, gm),
                    "exports {}, expected {}",
                    clip(&show_map(gm)),
                    clip(&show_map(m))
                );
                cx.add("exports compared", m.len() as u64);
            }
        }
        (None, Ok((gs, _))) => return fail(format!("gave {}, expected a failure", clip(gs))),
        (Some((s, _)), Err(e)) => return fail(format!("failed with {}, expected {}", clip(e), clip(s))),
    }
    if what.trace {
        if trace != env.trace {
            let (g, w) = apart(&format!("{:?}", trace), &format!("{:?}", env.trace));
            return fail(format!("calls of host functions {}, expected {}", g, w));
        }
        cx.add("host calls compared", trace.len() as u64);
    }
    if let Some(told) = told {
        let asked = told.asked;
        if !asked_like(&asked, &env.asked) {
            let (g, w) = apart(&format!("{:?}", asked), &format!("{:?}", env.asked));
            return fail(format!("the manager of templates was asked {}, expected {}", g, w));
        }
        let want: BTreeMap<String, Vec<String>> =
            env.temps.iter().flatten().map(|(k, t)| (k.clone(), t.params.clone())).collect();
        ensure!(told.has == want, "the manager of templates has {:?} in the end, expected {:?}", told.has, want);
        cx.add("requests to the manager compared", asked.len() as u64);
        cx.see("managers compared");
    }
    cx.add("nodes and expressions evaluated", env.steps as u64);
    for (k, n) in &env.seen {
        let n = *n;
        cx.add(k, n);
    }
    cx.decided(text.as_bytes());
    cx.sample(|| text.clone());
    Ok(Some((env, want.is_some())))
}

fn profile(cx: &mut Cx, p: Profile) -> Profile {
    let mut p = p;
    // the deeper the run, the larger the programs may get
    if cx.tier == Tier::Thorough && cx.rng.chance(1, 3) {
        p.size *= 2 + cx.rng.below(3);
    }
    p
}

pub fn style(cx: &mut Cx) -> Style {
    if cx.rng.chance(1, 3) {
        NOISY
    } else {
        model::print::PLAIN
    }
}

// text, comment, print, dump, block, if, for, define, global, let, export, @let, @export, return, match

pub const OUT: What = What { output: true, exports: false, trace: true };
pub const ALL: What = What { output: true, exports: true, trace: true };

fn some(cx: &mut Cx, p: Profile, what: &What) -> Result<Option<Prog>, Violation> {
    let p = profile(cx, p);
    let prog = gen::program(&mut cx.rng, p);
    let st = style(cx);
    Ok(decide(cx, &prog, st, what)?.map(|_| prog))
}

/// control flow
pub fn c04(cx: &mut Cx) -> Res {
    match cx.rng.below(10) {
        0 | 1 => super::soup::soup(cx),
        2 => map_loop(cx),
        _ => {
            let p = Profile { w: [5, 1, 5, 3, 2, 8, 8, 1, 1, 4, 1, 1, 1, 0, 4], ..PROFILE };
            some(cx, p, &OUT).map(|_| ())
        }
    }
}

/// Loops over maps: each entry once, in any order
fn map_loop(cx: &mut Cx) -> Res {
    let n = cx.rng.below(8);
    map_loop_of(cx, n)
}

pub fn map_loop_of(cx: &mut Cx, n: usize) -> Res {
    // (no marks of ours in there)
    let plain = |s: String| s.replace(['\u{1}', '\u{2}'], "");
    let m: BTreeMap<String, V> = (0..n)
        .map(|i| (format!("{}{}", plain(gen::key(&mut cx.rng)), i), V::Str(plain(gen::word(&mut cx.rng)))))
        .collect();
    let sep = "\u{1}";
    // a local of one pass must not be there in the next one
    let text = format!(
        "A{{{{for k v in $0}}}}{}{{{{tr $k $v}}}}\u{2}{{{{$k}}}}\u{2}{{{{first $x \"none\"}}}}{{{{let x = 1}}}}{{{{/for}}}}{}B",
        sep, sep
    );
    cx.input(format!("{:?} with {}", text, clip(&format!("{:?}", m))));
    let t = match parse(&text)? {
        Ok(t) => t,
        Err(e) => return fail(e),
    };
    trace_take();
    let mut tm = templito::temp_man::BasicTemps::new();
    let got = {
        let p = [td(&V::Map(m.clone()))];
        run(&t, &p, &mut tm, fm(cx))?
    };
    let mut trace = trace_take();
    let (s, _) = match got {
        Ok(x) => x,
        Err(e) => return fail(format!("failed: {}", e)),
    };
    let mut parts: Vec<&str> = s.split(sep).collect();
    ensure!(
        parts.len() == n + 2 && parts[0] == "A" && parts[n + 1] == "B",
        "not {} passes: {}",
        n,
        clip(&s)
    );
    let mid = &mut parts[1..n + 1];
    mid.sort();
    let mut want: Vec<String> =
        m.iter().map(|(k, v)| format!("{}\u{2}{}\u{2}none", v, k)).collect();
    want.sort();
    ensure!(mid == &want[..], "passes {}, expected {} in some order", clip(&format!("{:?}", mid)), clip(&format!("{:?}", want)));
    trace.sort();
    let mut wt: Vec<String> =
        m.iter().map(|(k, v)| format!("tr({:?} {})", k, model::val::tag(v))).collect();
    wt.sort();
    ensure!(trace == wt, "calls {}, expected {}", clip(&format!("{:?}", trace)), clip(&format!("{:?}", wt)));
    cx.see("loops over maps");
    cx.decided(format!("{:?}", m).as_bytes());
    Ok(())
}

/// order of evaluation
pub fn c05(cx: &mut Cx) -> Res {
    let p = Profile {
        w: [1, 1, 8, 2, 3, 5, 4, 2, 1, 6, 2, 1, 1, 1, 4],
        wrong: 20,
        probe: 35,
        calls: 20,
        ..PROFILE
    };
    some(cx, p, &OUT).map(|_| ())
}

/// scopes of variables
pub fn c06(cx: &mut Cx) -> Res {
    let p = Profile {
        w: [1, 0, 2, 9, 3, 4, 4, 2, 1, 9, 3, 2, 1, 0, 4],
        size: 30,
        wrong: 8,
        probe: 3,
        calls: 8,
    };
    some(cx, p, &OUT).map(|_| ())
}

/// templates within templates
pub fn c07(cx: &mut Cx) -> Res {
    let p = Profile {
        w: [2, 0, 5, 6, 3, 2, 2, 6, 4, 4, 2, 1, 1, 4, 2],
        size: 34,
        wrong: 6,
        probe: 6,
        calls: 45,
    };
    some(cx, p, &OUT).map(|_| ())
}

/// exports and front matter
pub fn c08(cx: &mut Cx) -> Res {
    let p = Profile {
        w: [2, 1, 2, 3, 2, 3, 2, 2, 1, 5, 9, 2, 5, 2, 3],
        size: 26,
        wrong: 14,
        probe: 5,
        calls: 10,
    };
    let p = profile(cx, p);
    let prog = gen::program(&mut cx.rng, p);
    c08_of(cx, &prog, 1)
}

pub fn c08_of(cx: &mut Cx, prog: &Prog, scale: usize) -> Res {
    let st = style(cx);
    decide_scaled(cx, prog, st, &ALL, scale)?;
    // what it declares without being run
    let mut env = Env::new();
    env.scale = scale;
    let want = match front_matter(&prog.main, &mut env) {
        Ok(m) => m,
        Err(_) => {
            cx.skipped += 1;
            return Ok(());
        }
    };
    if env.nondet {
        cx.skipped += 1;
        return Ok(());
    }
    let (text, _) = print(&prog.main.body, &mut cx.rng, st);
    cx.input(format!("front matter of {}", clip(&text)));
    let mut t = match parse(&text)? {
        Ok(t) => t,
        Err(e) => return fail(format!("did not parse: {}", e)),
    };
    t.pnames = prog.main.params.clone();
    trace_take();
    let got = {
        let f = fm(cx);
        guard(|| t.front_matter(f))?
    };
    let trace = trace_take();
    let got = map_val(&got);
    ensure!(
        same_maps(&want, &got),
        "front matter {}, expected {}",
        clip(&show_map(&got)),
        clip(&show_map(&want))
    );
    ensure!(trace == env.trace, "calls {}, expected {}", clip(&format!("{:?}", trace)), clip(&format!("{:?}", env.trace)));
    cx.see("front matters compared");
    cx.add("front matter entries", want.len() as u64);
    for (k, n) in &env.seen {
        cx.add(k, *n);
    }
    Ok(())
}

/// patterns
pub fn c09(cx: &mut Cx) -> Res {
    if cx.rng.chance(1, 3) {
        let p = Profile { w: [2, 0, 2, 6, 1, 1, 2, 1, 0, 4, 1, 1, 0, 0, 14], calls: 4, ..PROFILE };
        return some(cx, p, &OUT).map(|_| ());
    }
    let r = &mut cx.rng;
    let mut body = vec![];
    // names that captures may shadow
    for n in ["n0", "s1", "l2"] {
        if r.chance(1, 2) {
            body.push(Nd::Let(vec![(n.to_string(), Ex::Lit(V::Str(format!("outer {}", n))))]));
        }
    }
    let depth = 1 + r.below(3);
    let o = gen::ValOpts { depth, literal: true, hostile: false, bytes: false };
    // (or plain values of another kind that look alike)
    let plain = r.chance(1, 8).then(|| gen::value(r, gen::ValOpts { depth: 0, ..gen::LITERAL }));
    let v = match &plain {
        Some(w) if r.chance(1, 2) => V::Str(w.to_string()),
        Some(w) => model::near::near_literal(r, w).unwrap_or(V::Null),
        None => gen::value(r, o),
    };
    let from_param = r.chance(1, 3);
    let e = if from_param { Ex::Var(vec![Part::N(0)]) } else { Ex::Lit(v.clone()) };
    let dumps = |r: &mut model::rng::Rng, caps: &[String]| -> Nd {
        let mut names: Vec<String> = caps.to_vec();
        names.extend(["n0", "s1", "l2", "n1", "a0", "@"].iter().map(|s| s.to_string()));
        names.sort();
        names.dedup();
        r.shuffle(&mut names);
        let a = names.iter().map(|n| cmd("first", vec![var(n), lit_s("?")])).collect();
        // as arguments of a probe, where maps show as well
        Nd::Exp(cmd("tr", vec![Ex::List(a), lit_s("!")]))
    };
    let mut all = vec![];
    if r.chance(1, 2) {
        let mut caps = vec![];
        let p = match plain {
            Some(w) => Pat::Val(w),
            None => gen::pat_for(r, &v, 3, &mut caps),
        };
        let d = dumps(r, &caps);
        all.extend(caps);
        body.push(Nd::As(e, p, vec![text("yes"), d]));
    } else {
        let n = 1 + r.some(4);
        let mut cases = vec![];
        for i in 0..n {
            let mut pats = vec![];
            for _ in 0..1 + r.some(3) {
                // a variation of the value, which tends to match in part only
                let w = if i + 1 < n && r.chance(3, 4) { mutate(r, &v) } else { v.clone() };
                pats.push(gen::pat_for(r, &w, 3, &mut all));
            }
            let d = dumps(r, &all);
            cases.push((pats, vec![text(&format!("case {}", i)), d]));
        }
        body.push(Nd::Switch(e, cases));
    }
    let d = dumps(r, &all);
    body.push(d);
    let np = usize::from(from_param);
    let prog = Prog {
        main: model::val::TDef { params: vec![], body },
        temps: Some(BTreeMap::new()),
        params: vec![v; np],
    };
    let st = style(cx);
    cx.see("pattern cases");
    decide(cx, &prog, st, &OUT).map(|_| ())
}

fn mutate(r: &mut model::rng::Rng, v: &V) -> V {
    match v {
        V::List(l) if !l.is_empty() && r.chance(4, 5) => {
            let mut l = l.clone();
            let i = r.below(l.len());
            match r.below(3) {
                0 => {
                    l.remove(i);
                }
                1 => l.push(gen::simple(r, true)),
                _ => l[i] = mutate(r, &l[i].clone()),
            }
            V::List(l)
        }
        V::Map(m) if !m.is_empty() && r.chance(4, 5) => {
            let mut m = m.clone();
            let k = m.keys().nth(r.below(m.len())).unwrap().clone();
            match r.below(3) {
                0 => {
                    m.remove(&k);
                }
                1 => {
                    m.insert(gen::key(r), gen::simple(r, true));
                }
                _ => {
                    let w = mutate(r, &m[&k].clone());
                    m.insert(k, w);
                }
            }
            V::Map(m)
        }
        _ => gen::simple(r, true),
    }
}

/// blocks given to a command
pub fn c27(cx: &mut Cx) -> Res {
    let p = Profile {
        w: [6, 1, 2, 3, 10, 2, 2, 1, 3, 2, 1, 6, 2, 0, 1],
        size: 26,
        wrong: 6,
        probe: 10,
        calls: 12,
    };
    some(cx, p, &OUT).map(|_| ())
}
