//! The host's side: repeated and concurrent runs, managers of functions, capabilities, processes, the
//! environment, and data of the host's own types
use super::progs::{clip, fm};
use super::util::*;
use crate::conv::*;
use crate::core::*;
use crate::watch::{self, watched};
use model::ast::*;
use model::gen::{self, Prog};
use model::interp::{run_template, Stop};
use model::print::{Style, NOISY, PLAIN};
use model::rng::Rng;
use model::val::{identical, tag, V};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;
use std::sync::Mutex;
use templito::func_man::{BasicFuncs, FuncAdder, FuncManager};
use templito::temp_man::{BasicTemps, NoTemplates};
use templito::template::TreeTemplate;
use templito::tparam::{TCow, TParam, KV};
use templito::{TData, WithFuncs};

/// ---- C10: the same again ----

/// (what threads share: nothing of the reference, whose counted pointers are not for that)
struct Kept {
    text: String,
    t: TreeTemplate,
    params: Vec<TData>,
    temps: Option<BasicTemps>,
    got: Result<(String, String), String>,
    trace: Vec<String>,
}

/// Shared by threads, even if it could not be
struct Share<'a, T>(&'a T);
unsafe impl<'a, T> Sync for Share<'a, T> {}
unsafe impl<'a, T> Send for Share<'a, T> {}
impl<'a, T> Share<'a, T> {
    fn get(&self) -> &'a T {
        self.0
    }
}

fn params_same(want: &[V], got: &[TData]) -> bool {
    want.len() == got.len()
        && want.iter().zip(got).all(|(w, g)| match (w, g) {
            (V::Tmpl(w), TData::Template(g)) => tree(w) == *g,
            (w, g) => identical(w, &val(g)),
        })
}

fn again(
    k: &Kept,
    fm: &BasicFuncs,
) -> Result<(Result<(String, String), String>, Vec<String>), Violation> {
    trace_take();
    let g = match &k.temps {
        None => run(&k.t, &k.params, &mut NoTemplates, fm)?,
        Some(m) => run(&k.t, &k.params, &mut m.clone(), fm)?,
    };
    Ok((g.map(|(s, m)| (s, tag(&V::Map(m)))), trace_take()))
}

fn check_again(k: &Kept, fm: &BasicFuncs, what: &str) -> Res {
    let (g, tr) = again(k, fm)?;
    ensure!(
        k.got == g,
        "{}: the result is {:?}, at first it was {:?}; template {:?}",
        what,
        g,
        k.got,
        k.text
    );
    ensure!(tr == k.trace, "{}: host calls {:?}, at first {:?}; template {:?}", what, tr, k.trace, k.text);
    Ok(())
}

fn plain_got(p: &Prog, r: &mut Rng, st: Style) -> Option<String> {
    let mut env = p.env();
    match run_template(&p.main, p.params.clone(), &mut env) {
        Err(Stop::Limit) => return None,
        _ => {}
    }
    if env.nondet {
        return None;
    }
    Some(print(&p.main.body, r, st).0)
}

/// (the first thing drawn of a case)
pub fn c10_choice(r: &mut Rng) -> usize {
    r.below(24)
}

pub fn c10(cx: &mut Cx) -> Res {
    match c10_choice(&mut cx.rng) {
        0..=4 => shared_manager(cx),
        5..=8 => super::again::history(cx),
        9 => super::again::crowd(cx),
        10 => super::again::same_memory(cx),
        _ => repeat(cx),
    }
}

fn profile(r: &mut Rng) -> gen::Profile {
    let mut p = gen::PROFILE;
    p.calls = *r.pick(&[0, 15, 40]);
    p.probe = *r.pick(&[3, 12]);
    p.wrong = *r.pick(&[0, 12, 25]);
    p.size = 8 + r.below(26);
    p
}

fn repeat(cx: &mut Cx) -> Res {
    let p = profile(&mut cx.rng);
    let prog = gen::program(&mut cx.rng, p);
    let text = match plain_got(&prog, &mut cx.rng, NOISY) {
        Some(t) => t,
        None => {
            cx.skipped += 1;
            return Ok(());
        }
    };
    cx.input(format!("{:?} with {:?} and {:?}", text, prog.params, prog.temps));
    let mut t = match parse(&text)? {
        Ok(t) => t,
        Err(e) => return fail(format!("did not parse: {}", e)),
    };
    t.pnames = prog.main.params.clone();
    // parsed once more it is the same
    let mut t2 = match parse(&text)? {
        Ok(t) => t,
        Err(e) => return fail(format!("did not parse the second time: {}", e)),
    };
    t2.pnames = prog.main.params.clone();
    ensure!(format!("{:?}", t.v.len()) == format!("{:?}", t2.v.len()), "parsed differently the second time");
    let mut k = Kept {
        params: prog.params.iter().map(td).collect(),
        temps: prog.temps.as_ref().map(host_temps),
        got: Err(String::new()),
        trace: vec![],
        text,
        t,
    };
    let copy = k.t.clone();
    let (g, tr) = again(&k, fm(cx))?;
    k.got = g;
    k.trace = tr;
    cx.see(if k.got.is_ok() { "runs that succeed" } else { "runs that fail" });
    // right after it, in another copy of it, with other functions of the same kind, and after others
    check_again(&k, fm(cx), "run again")?;
    std::mem::swap(&mut k.t, &mut t2);
    check_again(&k, fm(cx), "parsed and run again")?;
    std::mem::swap(&mut k.t, &mut t2);
    if cx.rng.chance(1, 20) {
        check_again(&k, &probes(), "run with a new manager of functions")?;
    }
    cx.add("runs compared", 3);
    let mut kept = cx.keep.remove("kept").unwrap_or_else(|| Box::new(Vec::<Kept>::new()));
    let old = kept.downcast_mut::<Vec<Kept>>().unwrap();
    // older ones, after the newer
    for _ in 0..2 {
        if !old.is_empty() {
            let i = cx.rng.below(old.len());
            check_again(&old[i], fm(cx), "run again, after others")?;
            cx.see("runs after others compared");
        }
    }
    check_again(&k, fm(cx), "run again, between others")?;
    ensure!(params_same(&prog.params, &k.params), "a run changed its parameters");
    if no_nan(&k.text, &prog) {
        ensure!(copy == k.t, "a run changed its template");
        cx.see("templates and parameters compared");
    }
    if cx.rng.chance(1, 12) {
        threads(cx, &k, old)?;
    }
    cx.decided(k.text.as_bytes());
    cx.sample(|| k.text.clone());
    if old.len() < 24 {
        old.push(k);
    } else {
        let i = cx.rng.below(old.len());
        old[i] = k;
    }
    cx.keep.insert("kept", kept);
    Ok(())
}

/// NaN is not equal to itself
fn no_nan(text: &str, p: &Prog) -> bool {
    fn nan(v: &V) -> bool {
        match v {
            V::Float(f) => f.is_nan(),
            V::List(l) => l.iter().any(nan),
            V::Map(m) => m.values().any(nan),
            _ => false,
        }
    }
    !text.to_lowercase().contains("nan") && !p.params.iter().any(nan)
}

/// This one and others, at the same time
fn threads(cx: &mut Cx, k: &Kept, old: &[Kept]) -> Res {
    let n = 2 + cx.rng.below(4);
    let rounds = 2 + cx.rng.below(6);
    let b = Gate::new();
    let bad: Mutex<Vec<String>> = Mutex::new(vec![]);
    let mut all = vec![k];
    if cx.rng.chance(2, 3) {
        for _ in 0..cx.rng.some(4) {
            if !old.is_empty() {
                all.push(cx.rng.pick(old))
            }
        }
    }
    let share = Share(&all);
    let first = cx.rng.chance(1, 2);
    std::thread::scope(|s| {
        for me in 0..n {
            let (b, bad, share) = (&b, &bad, &share);
            let _ = std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(s, move || {
                    let all = share.get();
                    let f = probes();
                    b.wait();
                    for i in 0..rounds {
                        let k = all[(me + i) % all.len()];
                        let r = if first && i == 0 {
                            // parsing at the same time as well
                            match parse(&k.text) {
                                Ok(Ok(_)) => check_again(k, &f, "in a thread"),
                                Ok(Err(e)) => fail(format!("in a thread it does not parse: {}", e)),
                                Err(v) => Err(v),
                            }
                        } else {
                            check_again(k, &f, "in a thread")
                        };
                        if let Err(v) = r {
                            bad.lock().unwrap().push(v.0);
                            break;
                        }
                    }
                });
        }
        b.open();
    });
    if let Some(v) = bad.into_inner().unwrap().pop() {
        return fail(v);
    }
    cx.add("runs in threads compared", (n * rounds) as u64);
    Ok(())
}

/// Several templates which share a manager: what one makes global is there for the next, and nothing else
fn shared_manager(cx: &mut Cx) -> Res {
    let n = 2 + cx.rng.some(4);
    let mut env = model::interp::Env::new();
    let mut tm = BasicTemps::new();
    let mut log = String::new();
    for i in 0..n {
        let mut p = profile(&mut cx.rng);
        p.w = [3, 0, 4, 4, 2, 3, 2, 2, 6, 3, 2, 1, 1, 2, 2];
        p.calls = 40;
        let prog = gen::program(&mut cx.rng, p);
        if i == 0 || cx.rng.chance(1, 3) {
            for (k, t) in prog.temps.iter().flatten() {
                env.temps.as_mut().unwrap().insert(k.clone(), t.clone());
                tm.insert(k.clone(), tree(t));
            }
        }
        env.steps = 0;
        env.weight = 0;
        env.depth = 0;
        env.trace.clear();
        let before = tm.clone();
        let mbefore = env.temps.clone().unwrap();
        let want = run_template(&prog.main, prog.params.clone(), &mut env);
        if env.nondet || matches!(want, Err(Stop::Limit)) {
            cx.skipped += 1;
            return Ok(());
        }
        let text = print(&prog.main.body, &mut cx.rng, PLAIN).0;
        log += &format!("{}: {:?} with {:?} named {:?}\n", i, text, prog.params, prog.main.params);
        cx.input(log.clone());
        let mut t = match parse(&text)? {
            Ok(t) => t,
            Err(e) => return fail(format!("did not parse: {}", e)),
        };
        t.pnames = prog.main.params.clone();
        let params: Vec<TData> = prog.params.iter().map(td).collect();
        trace_take();
        let got = run(&t, &params, &mut tm, fm(cx))?;
        let trace = trace_take();
        match (&want, &got) {
            (Ok((s, m)), Ok((gs, gm))) => {
                ensure!(s == gs, "run {} gave {:?}, expected {:?}", i, gs, s);
                ensure!(super::progs::same_maps(m, gm), "run {} exported {:?}, expected {:?}", i, gm, m);
            }
            (Err(_), Err(_)) => {}
            (w, g) => return fail(format!("run {} gave {:?}, expected {:?}", i, g, w)),
        }
        ensure!(trace == env.trace, "run {}: host calls {:?}, expected {:?}", i, trace, env.trace);
        let have: BTreeSet<&String> = tm.keys().collect();
        let should: BTreeSet<&String> = env.temps.as_ref().unwrap().keys().collect();
        ensure!(have == should, "after run {} the manager holds {:?}, expected {:?}", i, have, should);
        // what it did not make global is as it was
        for (k, t) in &before {
            let same_one = match (mbefore.get(k), env.temps.as_ref().unwrap().get(k)) {
                (Some(a), Some(b)) => Rc::ptr_eq(a, b),
                _ => false,
            };
            if same_one && !format!("{:?}", t).contains("NaN") {
                ensure!(*t == tm[k], "run {} changed the template {}", i, k);
                cx.see("templates that were left alone");
            }
        }
        cx.see("runs that share a manager");
        cx.add("templates made global", have.len() as u64);
    }
    cx.decided(log.as_bytes());
    Ok(())
}

/// ---- C22: capabilities ----

const READS: &[&str] =
    &["dir", "file", "file_bytes", "is_file", "is_dir", "scan_dir", "file_img_dimensions"];
const EXECS: &[&str] = &["exec", "exec_stdin", "env"];

fn privileged() -> impl Iterator<Item = &'static str> {
    READS.iter().chain(EXECS).chain(&["write"]).copied()
}

/// What a template can find in there
fn present(f: &BasicFuncs) -> Result<BTreeSet<String>, Violation> {
    let all = super::parse::names(f);
    for n in &all {
        ensure!(f.get_func(n).is_some(), "{} is listed and not there", n);
    }
    Ok(all.into_iter().collect())
}

pub fn c22(cx: &mut Cx) -> Res {
    if cx.keep.get("warm").is_none() {
        warm(cx)?;
    }
    match cx.rng.below(6) {
        0 => managers(cx),
        1 | 2 => quiet_call(cx),
        3 => quiet_program(cx),
        4 => match cx.rng.below(3) {
            0 => within(cx),
            _ => denied(cx),
        },
        _ => denied(cx),
    }
}

/// Expressions that functions evaluate (filters, front matter of files) have no more than the default functions,
/// whatever the template has
fn within(cx: &mut Cx) -> Res {
    let lock = cx.scratch.join("within");
    let dir = cx.scratch.clone();
    let outside = dir.join("secret");
    let _ = std::fs::create_dir_all(&lock);
    if !outside.exists() {
        let _ = std::fs::write(&outside, "secret");
    }
    let r = &mut cx.rng;
    let grant = r.below(5);
    let f = guard(|| {
        let f = BasicFuncs::new().with_defaults();
        match grant {
            0 => f,
            1 => f.with_exec(),
            2 => f.with_free_files(),
            3 => f.with_folder_lock(lock.clone()),
            _ => f.with_folder_lock(lock.clone()).with_write_lock(lock.clone()),
        }
    })?;
    let all: Vec<&str> = privileged().collect();
    let name = *r.pick(&all);
    let arg = match name {
        "exec" | "exec_stdin" => "/bin/true".to_string(),
        "env" => r.pick(&["PATH", "HOME"]).to_string(),
        "dir" | "is_dir" | "scan_dir" => dir.display().to_string(),
        "write" => lock.join("made").display().to_string(),
        _ => r.pick(&[outside.display().to_string(), "secret".to_string(), "../secret".to_string()]).clone(),
    };
    let call = match name {
        "write" | "exec_stdin" => format!("{} {:?} \"x\"", name, arg),
        _ => format!("{} {:?}", name, arg),
    };
    let call = match r.below(5) {
        0 => format!("cat ({}) \"y\"", call),
        1 => format!("list ({})", call),
        2 => format!("not_there ({})", call),
        _ => call,
    };
    let t;
    let scan = grant > 1 && r.chance(2, 3);
    if scan {
        let front = match r.below(4) {
            0 => format!("{{{{@export x}}}}{{{{{}}}}}{{{{/export}}}}{{{{export y=1}}}}", call),
            1 => format!("{{{{export y=1; x=({})}}}}", call),
            2 => format!("a {{{{export x=({}); y=1}}}}", call),
            _ => format!("{{{{export x=(first ({}) null)}}}}{{{{export y=1}}}}{{{{if $x}}}}{{{{export y=2}}}}{{{{/if}}}}", call),
        };
        let _ = std::fs::write(lock.join("page"), &front);
        let place = if grant == 2 { lock.display().to_string() } else { "".to_string() };
        t = format!("{{{{for k v in (scan_dir {:?})}}}}{{{{$v.item_file}}}},{{{{$v.y}}}},{{{{first $v.x \"none\"}}}};{{{{/for}}}}", place);
        cx.input(format!("{} of a file with {:?}", t, front));
    } else {
        t = format!("{{{{len (filter [1, \"a\", {:?}] {:?})}}}}", arg, call);
        cx.input(t.clone());
    }
    let tt = TreeTemplate::from_str_(&t);
    let go = || {
        let nowhere = dir.join("nowhere");
        watched(&nowhere, || run(&tt, &[], &mut BasicTemps::new(), &f))
    };
    let (got, ev) = go();
    let got = got?;
    let bad = |ev: &[watch::Ev]| ev.iter().find(|e| !scan || e.change || !e.path.starts_with(&lock)).cloned();
    if bad(&ev).is_some() {
        let (_, ev) = go();
        if let Some(e) = bad(&ev) {
            return fail(format!("asked the system for {} {:?}", e.op, e.path));
        }
    }
    let want = if scan { "page,1,none;" } else { "0" };
    match &got {
        Ok((s, _)) if s == want => {}
        g => return fail(format!("gave {:?}, expected {:?}", g, want)),
    }
    cx.see(if scan { "front matter of scanned files" } else { "filters that ask for more" });
    cx.decided(t.as_bytes());
    Ok(())
}

/// What happens once in a process, such as the first random number, or the first error, is no request
/// of the template
fn warm(cx: &mut Cx) -> Res {
    if let Err(e) = watch::works(&cx.scratch) {
        panic!("the watch does not see what it is to see: {}", e);
    }
    let f = fm(cx);
    let r = guard(|| {
        let _ = f.get_func("rand").map(|f| f(&[]).is_ok());
        let _ = f.get_func("len").map(|f| f(&[]).is_err());
        let a = [TCow::Owned(TData::String("a".into())), TCow::Owned(TData::String("a".into()))];
        let _ = f.get_func("regex").map(|f| f(&a).is_err());
    });
    r?;
    let t = TreeTemplate::from_str_("{{er 1}}");
    let _ = run(&t, &[], &mut NoTemplates, fm(cx))?;
    cx.keep.insert("warm", Box::new(()));
    Ok(())
}

trait FromStr_ {
    fn from_str_(s: &str) -> Self;
}
impl FromStr_ for TreeTemplate {
    fn from_str_(s: &str) -> TreeTemplate {
        std::str::FromStr::from_str(s).expect("template")
    }
}

fn managers(cx: &mut Cx) -> Res {
    let dir = cx.scratch.clone();
    let mut f = BasicFuncs::new();
    let mut want: BTreeSet<&str> = BTreeSet::new();
    let n = cx.rng.some(4);
    let mut log = vec![];
    for _ in 0..n {
        let k = cx.rng.below(8);
        f = guard(|| match k {
            0 => f.with_defaults(),
            1 => f.with_folder_lock(dir.clone()),
            2 => f.with_free_files(),
            3 => f.with_exec(),
            4 => f.with_write_lock(dir.clone()),
            5 => f.with_strings().with_lists().with_format(),
            6 => f.with_bools().with_math().with_path().with_maps(),
            _ => f.with_rand().with_bytes().with_svg(),
        })?;
        log.push(k);
        match k {
            1 => want.extend(READS),
            2 => {
                want.extend(READS);
                want.insert("write");
            }
            3 => want.extend(EXECS),
            4 => {
                want.insert("write");
            }
            _ => {}
        }
    }
    cx.input(format!("groups of functions {:?}", log));
    let have = present(&f)?;
    for p in privileged() {
        ensure!(
            have.contains(p) == want.contains(p) && f.get_func(p).is_some() == want.contains(p),
            "{} is {}there",
            p,
            if have.contains(p) { "" } else { "not " }
        );
    }
    cx.see("managers compared");
    for (what, g, want) in [
        ("default_func_man", guard(templito::func_man::default_func_man)?, vec![]),
        ("func_man_folders", guard(|| templito::func_man::func_man_folders(dir.clone()))?, READS.to_vec()),
    ] {
        let have = present(&g)?;
        for p in privileged() {
            ensure!(have.contains(p) == want.contains(&p), "{}: {}", what, p);
        }
        for p in ["add", "eq", "cat", "len", "map", "r_json", "parent", "xy", "rand", "as_base64"] {
            ensure!(have.contains(p), "{} has no {}", what, p);
        }
    }
    cx.decided(format!("{:?}", log).as_bytes());
    Ok(())
}

/// What the code under test must not do at all
fn quiet<T>(nowhere: &std::path::Path, f: impl FnOnce() -> T) -> Result<T, Violation> {
    let (r, mut ev) = watched(nowhere, f);
    // (where random numbers may come from)
    ev.retain(|e| e.path != std::path::Path::new("/dev/urandom") && e.path != std::path::Path::new("/dev/random"));
    match ev.first() {
        Some(e) => fail(format!("asked the system for {} {:?}", e.op, e.path)),
        None => Ok(r),
    }
}

/// Texts that lead something in the system, in the forms in which programs take them as a reference
fn tempting(r: &mut Rng) -> V {
    let to = *r.pick(&[
        "/etc/hostname", "/etc/passwd", "/etc", "/", ".", "..", "~", "~/", "~root/x", "HOME", "PATH", "USER", "MON_SECRET", "RUST_LOG",
        "true", "/bin/true", "ls", "w0", "a.txt", "part.ito", "secret", "secret.txt", "x.png", "cards.txt", "/proc/self/environ",
        "/dev/stdin", "-", "localhost:80", "127.0.0.1", "localhost", "/etc/hostname\n", "../../../etc/hostname", "C:\\x", "COLUMNS", "TZ",
    ]);
    let s = match r.below(7) {
        0 | 1 => to.to_string(),
        2 => format!("{}{}", r.pick(&["@", "$", "~", "<", "|", "!", "file:", "env:"]), to),
        3 => format!("{}{}", r.pick(&["@", "$", "%", "!", "<", "|", "&", "~", "=", ":", "@/", "~/", "./", "file:", "file://", "http://", "https://", "env:", "#include ", "!include ", "include:", "import ", "\\input ", "@import ", "source ", "cat ", "$env:", "data:"]), to),
        4 | 5 => {
            let (a, b) = *r.pick(&[
                ("${", "}"), ("$(cat ", ")"), ("$(", ")"), ("`", "`"), ("%", "%"), ("{{", "}}"), ("{\"$ref\":\"", "\"}"), ("{\"file\":\"", "\"}"),
                ("![x](", ")"), ("[x](", ")"), ("<", ">"), ("<img src=\"", "\">"), ("[[", "]]"), ("\"", "\""), ("'", "'"), ("(file \"", "\")"),
                ("[x]: ", "\n\n[x]"), ("|", "|"), ("<!--#include file=\"", "\"-->"), ("url(", ")"), ("#", "#"), ("", "\n\n"), (" ", " "), ("@{", "}"),
            ]);
            format!("{}{}{}", a, to, b)
        }
        _ => format!("{}{}{}", r.pick(&["a ", "x=", "\n", "a/", "1 "]), r.pick(&["@", "$", "~", "", "${", "!include "]), to),
    };
    V::Str(s)
}

/// Part of a value is replaced by what tempts
fn lure(r: &mut Rng, v: V) -> V {
    match v {
        V::List(mut l) if !l.is_empty() => {
            let n = r.below(l.len());
            l[n] = lure(r, l[n].clone());
            V::List(l)
        }
        V::Map(mut m) if !m.is_empty() => {
            let n = r.below(m.len());
            let k = m.keys().nth(n).unwrap().clone();
            let w = lure(r, m[&k].clone());
            m.insert(k, w);
            V::Map(m)
        }
        V::Str(s) if r.chance(1, 4) => match tempting(r) {
            V::Str(t) => V::Str(s + &t),
            v => v,
        },
        _ => tempting(r),
    }
}

/// The environment holds it, and nothing of a template may
const SECRET: &str = "mark-of-the-environment";

fn secrets() {
    static SET: std::sync::Once = std::sync::Once::new();
    SET.call_once(|| std::env::set_var("MON_SECRET", SECRET));
}

fn no_secret(s: &str) -> Res {
    ensure!(!s.contains(SECRET), "the environment is in {:?}", s);
    Ok(())
}

fn quiet_call(cx: &mut Cx) -> Res {
    secrets();
    let names = super::parse::names(fm(cx));
    let name = cx.rng.pick(&names).clone();
    let args = if cx.rng.chance(1, 2) {
        // such as the function takes, with something that tempts in it
        let mut args = super::parse::shaped_args(&mut cx.rng, &name).unwrap_or_default();
        if !args.is_empty() {
            let r = &mut cx.rng;
            for _ in 0..1 + r.below(2) {
                let n = r.below(args.len());
                args[n] = lure(r, args[n].clone());
            }
        }
        args
    } else {
        let n = cx.rng.some(4);
        let mut args = vec![];
        for i in 0..n {
            args.push(match cx.rng.below(3) {
                0 => tempting(&mut cx.rng),
                1 => wild(&mut cx.rng, 1),
                _ => super::parse::hostile_arg(&mut cx.rng, &name, i),
            });
        }
        args
    };
    cx.input(format!("{} {}", name, show(&args)));
    let a: Vec<TData> = args.iter().map(td).collect();
    let dir = cx.scratch.join("nowhere");
    let scratch = cx.scratch.clone();
    let f = fm(cx);
    let mut got = None;
    // (what is for the log of the process goes to its standard error)
    let log = said_on(2, &scratch, || got = Some(quiet(&dir, || call(f, &name, &a))))?;
    let got = got.expect("a call")??;
    no_secret(&format!("{:?}", got))?;
    no_secret(&log)?;
    if name == "debug" {
        if args.iter().all(|a| a.has_display()) {
            let want: String = args.iter().map(|a| format!("{}\n", a)).collect();
            ensure!(log == want, "debug writes {:?} to the standard error, and not {:?}", log, want);
            cx.see("arguments of debug in the standard error");
        }
    } else {
        ensure!(log.is_empty(), "{} writes {:?} to the standard error", name, log);
    }
    cx.see("calls of default functions watched");
    cx.decided(format!("{} {}", name, show(&args)).as_bytes());
    Ok(())
}

fn quiet_program(cx: &mut Cx) -> Res {
    let p = profile(&mut cx.rng);
    let mut prog = gen::program(&mut cx.rng, p);
    if cx.rng.chance(1, 2) {
        let r = &mut cx.rng;
        model::splice::exprs(&mut prog.main.body, &mut |e| {
            if let Ex::Lit(v @ V::Str(_)) = e {
                if r.chance(1, 3) {
                    *v = tempting(r);
                }
            }
        });
    }
    let text = match plain_got(&prog, &mut cx.rng, NOISY) {
        Some(t) => t,
        None => {
            cx.skipped += 1;
            return Ok(());
        }
    };
    let params: Vec<TData> = prog.params.iter().map(td).collect();
    let temps = prog.temps.as_ref().map(host_temps);
    cx.input(text.clone());
    let dir = cx.scratch.join("nowhere");
    let f = fm(cx);
    let r = quiet(&dir, || -> Res {
        if let Ok(t) = parse(&text)? {
            match &temps {
                Some(m) => run(&t, &params, &mut m.clone(), f)?,
                None => run(&t, &params, &mut NoTemplates, f)?,
            }
            .ok();
            guard(|| t.front_matter(f))?;
        }
        Ok(())
    });
    trace_take();
    r??;
    cx.see("programs watched");
    cx.decided(text.as_bytes());
    Ok(())
}

/// Templates that ask for what the host did not grant
fn denied(cx: &mut Cx) -> Res {
    let dir = cx.scratch.clone();
    let r = &mut cx.rng;
    let (grant, what) = match r.below(5) {
        0 => (READS.to_vec(), "lock"),
        1 => (EXECS.to_vec(), "exec"),
        2 => (vec!["write"], "write"),
        _ => (vec![], "nothing"),
    };
    let all: Vec<&str> = privileged().filter(|p| !grant.contains(p)).collect();
    // (names may be anything within quotes)
    let at = match tempting(r) {
        V::Str(s) if !s.contains('\'') && s != "true" => s,
        _ => "/etc/hostname".into(),
    };
    let name = if r.chance(1, 3) { at.as_str() } else { *r.pick(&all) };
    let n = 1 + r.below(3);
    let args: Vec<V> = (0..n).map(|_| tempting(r)).collect();
    let call = cmd(name, args.iter().map(|a| Ex::Lit(a.clone())).collect());
    let mark = format!("no{}", r.below(1000));
    let host = r.chance(1, 4);
    let (body, want): (Vec<Nd>, Option<String>) = match r.below(9) {
        0 => (vec![Nd::Exp(call)], None),
        1 => (vec![Nd::Exp(cmd("first", vec![call, lit_s(&mark)]))], Some(mark.clone())),
        2 => (
            vec![Nd::If(vec![(call, vec![text("yes")])], Some(vec![text(&mark)]))],
            Some(mark.clone()),
        ),
        3 => (vec![Nd::Let(vec![("x".into(), call)]), text("y")], None),
        4 => (vec![Nd::Export(vec![("x".into(), call)]), text("y")], None),
        5 => (vec![Nd::Block(name.into(), vec![], vec![text("/etc/hostname")])], None),
        6 => (vec![Nd::For("k".into(), "v".into(), call, vec![text("x")])], None),
        7 => (
            vec![
                Nd::Define("t".into(), vec![], vec![Nd::Exp(call)]),
                Nd::Exp(cmd("run", vec![var("t")])),
            ],
            None,
        ),
        _ => (
            vec![
                Nd::Global("tg".into(), vec![], vec![Nd::Exp(call)]),
                Nd::Exp(cmd("tg", vec![])),
            ],
            None,
        ),
    };
    let src = model::print::print(&body, r, PLAIN);
    cx.input(format!("{:?} where {} is granted, template of that name: {}", src, what, host));
    let t = match parse(&src)? {
        Ok(t) => t,
        Err(e) => return fail(format!("did not parse: {}", e)),
    };
    let f = guard(|| {
        let f = BasicFuncs::new().with_defaults();
        match what {
            "lock" => f.with_folder_lock(dir.clone()),
            "exec" => f.with_exec(),
            "write" => f.with_write_lock(dir.clone()),
            _ => f,
        }
    })?;
    let mut tm = BasicTemps::new();
    if host {
        // a name that means nothing else can be a template's
        tm.insert(name.to_string(), TreeTemplate::from_str_("ours"));
    }
    let nowhere = dir.join("nowhere");
    let got = quiet(&nowhere, || run(&t, &[], &mut tm, &f))??;
    if !host {
        match (&want, &got) {
            (None, Err(_)) => {}
            (Some(w), Ok((s, _))) if w == s => {}
            (w, g) => return fail(format!("gave {:?}, expected {:?}", g, w)),
        }
    } else if want.is_none() && !matches!(body[0], Nd::For(..)) {
        ensure!(got.is_ok(), "a template named {} was not run: {:?}", name, got);
    }
    let front = guard(|| t.front_matter(&f))?;
    ensure!(front.is_empty(), "front matter {:?}", front.keys());
    cx.see("requests denied");
    if all.contains(&name) {
        cx.see(&format!("denied: {}", name));
    } else {
        cx.see("denied: names that lead somewhere");
    }
    cx.decided(src.as_bytes());
    Ok(())
}

/// ---- C25: which function is called ----

thread_local! {
    static CALLED: RefCell<Vec<String>> = const { RefCell::new(Vec::new()) };
}

fn marker(n: usize) -> Box<templito::func_man::TFunc> {
    Box::new(move |a| {
        let s = a.iter().map(|v| tag(&val(v))).collect::<Vec<_>>().join(" ");
        CALLED.with(|c| c.borrow_mut().push(format!("{}({})", n, s)));
        Ok(TCow::Owned(TData::String(format!("<{}>", n))))
    })
}

macro_rules! marker_fns {
    ($($name:ident $n:expr),*) => {
        $(fn $name<'a>(a: &[TCow<'a>]) -> anyhow::Result<TCow<'a>> {
            let s = a.iter().map(|v| tag(&val(v))).collect::<Vec<_>>().join(" ");
            CALLED.with(|c| c.borrow_mut().push(format!("{}({})", $n, s)));
            Ok(TCow::Owned(TData::String(format!("<{}>", $n))))
        })*
        const FNS: &[templito::func_man::TFn] = &[$($name),*];
    }
}
marker_fns!(m0 0, m1 1, m2 2, m3 3);

const DESC: &[&str] = &["one", "two: parts", "", "a:b:c", "(x)->y : z", "é"];

/// What is written to the standard output meanwhile
fn said(dir: &std::path::Path, f: impl FnOnce()) -> Result<String, Violation> {
    said_on(1, dir, f)
}

/// What is written to a standard stream meanwhile
fn said_on(fd: i32, dir: &std::path::Path, f: impl FnOnce()) -> Result<String, Violation> {
    use std::io::Write;
    use std::os::fd::AsRawFd;
    let p = dir.join("said");
    let file = std::fs::File::create(&p).expect("file for the output");
    let _ = std::io::stdout().flush();
    let r = unsafe {
        let old = libc::dup(fd);
        assert!(old >= 0 && libc::dup2(file.as_raw_fd(), fd) == fd, "output");
        let r = guard(f);
        let _ = std::io::stdout().flush();
        assert!(libc::dup2(old, fd) == fd, "output");
        libc::close(old);
        r
    };
    let s = std::fs::read(&p).expect("output");
    let _ = std::fs::remove_file(&p);
    r?;
    Ok(String::from_utf8_lossy(&s).to_string())
}

pub fn c25(cx: &mut Cx) -> Res {
    let pool = [
        "add", "cat", "len", "first", "select", "run", "mine", "mine2", "x_", "Zed", "g0", "g1", "eq", "file", "iff",
        "md", "forx", "nothing", "a1",
    ];
    let mut f = BasicFuncs::new();
    // name: marker, or None for a default function
    let mut now: BTreeMap<String, (Option<usize>, Option<String>)> = BTreeMap::new();
    let n = 1 + cx.rng.many(10, 500);
    let mut log = vec![];
    let mut defaults: Option<BTreeMap<String, String>> = None;
    for i in 0..n {
        let name = if n > 10 && cx.rng.chance(2, 3) { format!("many{}", cx.rng.below(n)) } else { cx.rng.pick(&pool).to_string() };
        let d = *cx.rng.pick(DESC);
        let k = cx.rng.below(9);
        let kf = cx.rng.below(FNS.len());
        f = guard(|| {
            let mut f = f;
            match k {
                0 | 1 => {
                    f.add_func(name.as_str(), marker(i + 10), d);
                    f
                }
                2 => {
                    f.add_func(name.clone(), marker(i + 10), d);
                    f
                }
                3 => FuncAdder::with_func(f, name.clone(), marker(i + 10), d),
                4 => WithFuncs::with_f(f, name.clone(), marker(i + 10), d),
                5 => {
                    f.add_fn(name.clone(), FNS[kf], d);
                    f
                }
                6 => FuncAdder::with_fn(f, name.clone(), FNS[kf], d),
                7 => WithFuncs::with_fn(f, name.clone(), FNS[kf], d),
                _ => f.with_defaults(),
            }
        })?;
        let m = match k {
            0..=4 => Some(i + 10),
            5..=7 => Some(kf),
            _ => None,
        };
        match m {
            Some(m) => {
                now.insert(name.clone(), (Some(m), Some(d.to_string())));
            }
            None => {
                let all = match &defaults {
                    Some(a) => a.clone(),
                    None => {
                        let b = RefCell::new(BTreeMap::new());
                        guard(|| {
                            BasicFuncs::new().with_defaults().for_each(|k, v| {
                                b.borrow_mut().insert(k.clone(), v.to_string());
                            })
                        })?;
                        b.into_inner()
                    }
                };
                for (k, v) in &all {
                    now.insert(k.clone(), (None, Some(v.clone())));
                }
                defaults = Some(all);
            }
        }
        log.push((k, name, m));
    }
    cx.input(format!("added {:?}", log));
    // the list
    let list = RefCell::new(vec![]);
    guard(|| f.for_each(|k, v| list.borrow_mut().push((k.clone(), v.to_string()))))?;
    let want: Vec<(String, String)> =
        now.iter().map(|(k, (_, d))| (k.clone(), d.clone().unwrap())).collect();
    ensure!(list.into_inner() == want, "the list differs from what was added");
    cx.see("lists of functions compared");
    // printed
    if cx.rng.chance(1, 30) {
        let what = cx.rng.pick(&["", "a", "x_", "mine", "two", ":", "é", "many1", "th", "no such thing"]).to_string();
        let all = cx.rng.chance(1, 4);
        let out = said(&cx.scratch, || if all { f.print_all() } else { f.print_filter(&what) })?;
        // (how it is laid out is left open)
        let words = |t: &str| t.split(|c: char| c.is_whitespace() || c == ':').filter(|w| !w.is_empty()).map(String::from).collect::<Vec<_>>();
        let w: Vec<String> = want
            .iter()
            .filter(|(k, v)| all || k.contains(&what) || v.contains(&what))
            .flat_map(|(k, v)| words(&format!("{} {}", k, v)))
            .collect();
        ensure!(words(&out) == w, "printed (all: {}, {:?}) {:?}, expected {:?}", all, what, clip(&out), clip(&w.join(" ")));
        cx.see("printed lists compared");
    }
    // asked for by name
    for name in pool {
        let g = guard(|| f.get_func(name).is_some())?;
        ensure!(g == now.contains_key(name), "{} is there: {}", name, g);
        for near in [name.to_uppercase(), format!(" {}", name), format!("{} ", name), String::new()] {
            if !now.contains_key(&near) {
                let g = guard(|| f.get_func(&near).is_some())?;
                ensure!(!g, "{:?} is there", near);
            }
        }
    }
    // templates of the manager may have the same names
    let mut tm = BasicTemps::new();
    let mut tnames = BTreeSet::new();
    for name in pool {
        if cx.rng.chance(1, 3) {
            tm.insert(name.to_string(), TreeTemplate::from_str_(&format!("\u{1}tpl {}\u{1}", name)));
            tnames.insert(name);
        }
    }
    for _ in 0..4 {
        let name = *cx.rng.pick(&pool);
        let block = cx.rng.chance(1, 4);
        let args: Vec<V> = (0..cx.rng.many(4, 300)).map(|_| tame(&mut cx.rng, 1)).collect();
        let src = if block {
            format!("{{{{@{}}}}}body{{{{/{}}}}}", name, name)
        } else {
            let mut s = format!("{{{{{}", name);
            for i in 0..args.len() {
                s += &format!(" ${}", i);
            }
            s + "}}"
        };
        cx.input(format!("added {:?}, templates {:?}; {:?} with {}", log, tnames, src, show(&args)));
        let t = match parse(&src)? {
            Ok(t) => t,
            Err(e) => return fail(e),
        };
        let p: Vec<TData> = args.iter().map(td).collect();
        CALLED.with(|c| c.borrow_mut().clear());
        let got = run(&t, &p, &mut tm, &f)?.map(|x| x.0);
        let called = CALLED.with(|c| std::mem::take(&mut *c.borrow_mut()));
        let args = if block { vec![V::Str("body".into())] } else { args };
        let special = match name {
            "first" | "select" => !block,
            "run" => !block && matches!(args.first(), Some(V::Tmpl(_))),
            _ => false,
        };
        if special {
            ensure!(called.is_empty(), "{} is of the language, yet {:?} was called", name, called);
            match name {
                "first" => {
                    let w = args.iter().find(|a| !matches!(a, V::Null)).cloned().unwrap_or(V::Null);
                    if w.has_display() {
                        ensure!(got == Ok(w.to_string()), "first gave {:?}, expected {}", got, w);
                    }
                }
                _ => {
                    let i = match args.first() {
                        Some(v) if args.len() >= 3 => match model::val::as_index(v) {
                            Some(n) => Some(n.saturating_add(1)),
                            None => model::val::truthy(v).map(|b| if b { 1 } else { 2 }),
                        },
                        _ => None,
                    };
                    let w = i.and_then(|i| args.get(i as usize));
                    match (w, &got) {
                        (None, Err(_)) => {}
                        (Some(w), Ok(g)) if !w.has_display() || w.to_string() == *g => {}
                        _ => return fail(format!("select gave {:?}, expected {:?}", got, w)),
                    }
                }
            }
            cx.see("special forms over functions and templates");
        } else if let Some((m, _)) = now.get(name) {
            match m {
                Some(m) => {
                    ensure!(got == Ok(format!("<{}>", m)), "gave {:?}, expected function {}", got, m);
                    let a = args.iter().map(tag).collect::<Vec<_>>().join(" ");
                    ensure!(
                        called == vec![format!("{}({})", m, a)],
                        "calls {:?}, expected {} with {}",
                        called,
                        m,
                        a
                    );
                    cx.see(if tnames.contains(name) {
                        "functions over templates"
                    } else {
                        "functions called"
                    });
                }
                None => {
                    ensure!(called.is_empty(), "called {:?}, expected the default", called);
                    ensure!(got.as_ref() != Ok(&format!("\u{1}tpl {}\u{1}", name)), "a template was run in place of {}", name);
                    cx.see("defaults called");
                }
            }
        } else if tnames.contains(name) {
            ensure!(got == Ok(format!("\u{1}tpl {}\u{1}", name)), "gave {:?}, expected the template", got);
            cx.see("templates called");
        } else {
            ensure!(got.is_err(), "gave {:?}, and there is nothing of that name", got);
            cx.see("names of nothing");
        }
    }
    cx.decided(format!("{:?} {:?}", log, tnames).as_bytes());
    Ok(())
}

/// ---- C23: processes and the environment ----

/// What the checks start: this program, as `mon child ...`
/// The folder of this process, and its environment in short
fn around() -> String {
    use std::os::unix::ffi::OsStrExt;
    let mut v: Vec<_> = std::env::vars_os().collect();
    v.sort();
    let mut h = 0xcbf29ce484222325u64;
    for (k, w) in &v {
        for b in [k.as_bytes(), b"=", w.as_bytes(), b"\0"].concat() {
            h = (h ^ b as u64).wrapping_mul(0x100000001b3);
        }
    }
    let d = std::env::current_dir().map(|d| d.display().to_string()).unwrap_or_default();
    format!("in {} with {} variables {:x}", d, v.len(), h)
}

pub fn child(a: &[String]) -> i32 {
    use std::io::{Read, Write};
    let out = std::io::stdout();
    let mut out = out.lock();
    let n = |i: usize| a.get(i).and_then(|s| s.parse::<usize>().ok()).unwrap_or(0);
    let fill = |n: usize| -> Vec<u8> { (0..n).map(|i| b'a' + (i % 23) as u8).collect() };
    match a.first().map(|s| s.as_str()) {
        // the arguments as they came
        Some("args") => {
            for x in &a[1..] {
                let _ = write!(out, "{}:{};", x.len(), x);
            }
            0
        }
        // bytes, what goes to stderr, status
        Some("out") => {
            let e = fill(n(2));
            let _ = std::io::stderr().write_all(&e);
            let _ = out.write_all(&fill(n(1)));
            let _ = out.flush();
            n(3) as i32
        }
        Some("raw") => {
            let b: Vec<u8> = a[1..].iter().filter_map(|x| x.parse::<u8>().ok()).collect();
            let _ = out.write_all(&b);
            0
        }
        // stdin to stdout as it comes, after some output of its own
        Some("cat") => {
            let _ = out.write_all(&fill(n(1)));
            let _ = out.flush();
            let mut b = vec![0u8; 1 + n(2)];
            loop {
                match std::io::stdin().read(&mut b) {
                    Ok(0) | Err(_) => break,
                    Ok(k) => {
                        if out.write_all(&b[..k]).is_err() {
                            break;
                        }
                    }
                }
            }
            let _ = out.flush();
            n(3) as i32
        }
        // all of stdin, then its length
        Some("count") => {
            let mut v = vec![];
            let _ = std::io::stdin().read_to_end(&mut v);
            let _ = write!(out, "{}", v.len());
            0
        }
        // the first bytes of stdin only
        Some("head") => {
            let mut v = vec![0u8; n(1)];
            let mut k = 0;
            while k < v.len() {
                match std::io::stdin().read(&mut v[k..]) {
                    Ok(0) | Err(_) => break,
                    Ok(m) => k += m,
                }
            }
            let _ = out.write_all(&v[..k]);
            let _ = out.flush();
            n(2) as i32
        }
        // stdin closed, then output
        // where it is, and what it is told by its surroundings
        Some("around") => {
            let _ = out.write_all(around().as_bytes());
            0
        }
        Some("deaf") => {
            unsafe { libc::close(0) };
            let _ = out.write_all(&fill(n(1)));
            let _ = out.flush();
            n(2) as i32
        }
        Some("kill") => {
            let _ = out.write_all(&fill(n(1)));
            let _ = out.flush();
            unsafe { libc::raise(libc::SIGKILL) };
            0
        }
        _ => 99,
    }
}

fn fill(n: usize) -> String {
    (0..n).map(|i| (b'a' + (i % 23) as u8) as char).collect()
}

fn size(r: &mut Rng) -> usize {
    match r.below(8) {
        0 => 0,
        1 => 1,
        2 | 3 => r.below(100),
        4 => 4096 + r.below(3) - 1,
        5 => 65536 + r.below(3) - 1,
        6 => 65536 + r.below(200_000),
        _ => r.below(20_000),
    }
}

fn fds() -> usize {
    std::fs::read_dir("/proc/self/fd").map_or(0, |d| d.count())
}

fn exec_fm(cx: &mut Cx) -> &BasicFuncs {
    cx.keep
        .entry("execs")
        .or_insert_with(|| Box::new(BasicFuncs::new().with_exec()))
        .downcast_ref::<BasicFuncs>()
        .unwrap()
}

/// what a process is given, and what it is to give
fn nul_free(s: String) -> String {
    s.replace('\0', "0")
}

pub fn c23(cx: &mut Cx) -> Res {
    if cx.rng.chance(2, 3) {
        return env(cx);
    }
    let input = std_in(&cx.scratch);
    let before = fds();
    let r = match cx.rng.below(2) {
        0 => exec(cx),
        _ => exec_stdin(cx),
    };
    r?;
    // nothing is left behind
    let w = unsafe { libc::waitpid(-1, std::ptr::null_mut(), libc::WNOHANG) };
    ensure!(w == -1, "a process was left behind (waitpid gave {})", w);
    ensure!(unsafe { libc::lseek(0, 0, libc::SEEK_CUR) } == input, "something took from the standard input of the program");
    let after = fds();
    ensure!(after == before, "{} files open, there were {}", after, before);
    cx.see("looked for what is left behind");
    Ok(())
}

/// The standard input of the program becomes a file with something in it, which is for none of the commands
fn std_in(dir: &std::path::Path) -> libc::off_t {
    use std::os::fd::AsRawFd;
    static SET: std::sync::Once = std::sync::Once::new();
    SET.call_once(|| {
        let p = dir.join("standard-input");
        std::fs::write(&p, "for the program itself\n".repeat(20)).expect("file for the input");
        let f = std::fs::File::open(&p).expect("file for the input");
        assert!(unsafe { libc::dup2(f.as_raw_fd(), 0) } == 0, "input");
        let _ = std::fs::remove_file(&p);
    });
    unsafe { libc::lseek(0, 0, libc::SEEK_SET) }
}

fn env(cx: &mut Cx) -> Res {
    let r = &mut cx.rng;
    let name = match r.below(10) {
        0 => String::new(),
        1 => "a=b".to_string(),
        2 => "n\0l".to_string(),
        3 => "MON_É".to_string(),
        4 => "=".to_string(),
        _ => format!("MON_VAR_{}", r.below(6)),
    };
    let settable = !name.is_empty() && !name.contains('=') && !name.contains('\0');
    let set: Option<Result<String, Vec<u8>>> = if settable && r.chance(2, 3) {
        Some(match r.below(5) {
            0 => Ok(String::new()),
            1 => Err(vec![b'a', 0xff, b'b']),
            2 => Ok(gen::text_of(r, 40).replace('\0', "")),
            _ => Ok(gen::word(r).replace('\0', "")),
        })
    } else {
        None
    };
    if settable {
        use std::os::unix::ffi::OsStringExt;
        match &set {
            Some(Ok(s)) => std::env::set_var(&name, s),
            Some(Err(b)) => std::env::set_var(&name, std::ffi::OsString::from_vec(b.clone())),
            None => std::env::remove_var(&name),
        }
    }
    let mut args = vec![V::Str(name.clone())];
    let nd = r.some(3);
    for _ in 0..nd {
        args.push(wild(r, 1));
    }
    if r.chance(1, 40) {
        args.clear();
    }
    cx.input(format!("env {} where it is {:?}", show(&args), set));
    let got = call_v(exec_fm(cx), "env", &args)?;
    let want = if args.is_empty() {
        None
    } else if let Some(Ok(s)) = &set {
        Some(V::Str(s.clone()))
    } else {
        args.get(1).cloned()
    };
    match (&want, &got) {
        (None, Err(_)) => cx.see("env: failures"),
        (Some(w), Ok(g)) if identical(w, g) => {
            cx.see(if matches!(set, Some(Ok(_))) { "env: values" } else { "env: other values used" })
        }
        _ => return fail(format!("gave {}, expected {:?}", show_r(&got), want)),
    }
    if settable && set.is_some() {
        let now = std::env::var_os(&name);
        ensure!(now.is_some(), "reading it removed it");
    }
    cx.decided(cx.input.clone().as_bytes());
    Ok(())
}

fn exe() -> String {
    std::env::current_exe().expect("exe").to_str().expect("exe").to_string()
}

/// What a call with arguments gives, now and then from a template
fn do_exec(cx: &mut Cx, name: &str, args: &[V]) -> Result<Result<String, String>, Violation> {
    cx.input(format!("{} {}", name, show(args)));
    if cx.rng.chance(1, 4) {
        let mut s = format!("{{{{{}", name);
        for i in 0..args.len() {
            s += &format!(" ${}", i);
        }
        s += "}}";
        let t = TreeTemplate::from_str_(&s);
        let p: Vec<TData> = args.iter().map(td).collect();
        return Ok(run(&t, &p, &mut NoTemplates, exec_fm(cx))?.map(|x| x.0));
    }
    let g = call_v(exec_fm(cx), name, args)?;
    match g {
        Ok(V::Str(s)) => Ok(Ok(s)),
        Ok(v) => fail(format!("gave {}, expected a string", show(&[v]))),
        Err(e) => Ok(Err(e)),
    }
}

/// What comes and goes through the pipes may do so in more steps than it needs
fn do_exec_in_steps(cx: &mut Cx, name: &str, args: &[V]) -> Result<Result<String, String>, Violation> {
    let bad = if cx.rng.chance(1, 4) {
        Some(watch::Faults { seed: cx.rng.u64(), short: true, all: true, limit: None })
    } else {
        None
    };
    let (r, short, _) = watch::faulty(bad, || do_exec(cx, name, args));
    if short > 0 {
        cx.see("commands fed and read in steps");
    }
    r
}

fn arg(r: &mut Rng) -> V {
    match r.below(4) {
        0 => V::Str(nul_free(gen::text_of(r, 12))),
        1 => V::Str(
            r.pick(&["", " ", "-", "--", "$HOME", "`id`", "a b", "'", "\"", "*", ";", "|cat", "&&", "\\", "\n", "~", ">x"])
                .to_string(),
        ),
        2 => tame(r, 0),
        _ => V::Str(nul_free(gen::word(r))),
    }
}

fn short(s: &str) -> String {
    if s.len() > 200 {
        format!("{} bytes", s.len())
    } else {
        format!("{:?}", s)
    }
}

fn compare(name: &str, want: &Option<String>, got: &Result<String, String>) -> Res {
    match (want, got) {
        (None, Err(_)) => Ok(()),
        (Some(w), Ok(g)) if w == g => Ok(()),
        (w, g) => fail(format!(
            "{} gave {}, expected {}",
            name,
            match g {
                Ok(g) => short(g),
                Err(e) => format!("failure ({})", e),
            },
            w.as_ref().map_or("a failure".into(), |w| short(w))
        )),
    }
}

fn bad_command(r: &mut Rng) -> Vec<V> {
    let c = match r.below(6) {
        0 => "/nonexistent/cmd".to_string(),
        1 => String::new(),
        2 => "no such command".to_string(),
        3 => "/etc".to_string(),
        4 => "tr\0ue".to_string(),
        _ => format!("{} child", exe()),
    };
    vec![V::Str(c)]
}

/// A text with something at either end that is often trimmed away
fn edged(r: &mut Rng) -> String {
    let ends = ["", "", "\n", "\r\n", "\n\n", " ", "\t", "\0", "\u{feff}", "\r", "\u{a0}", "\u{b}", "\u{1b}[0m"];
    let body = if r.chance(1, 2) { gen::text_of(r, 12) } else { gen::word(r) };
    format!("{}{}{}", r.pick(&ends), body, r.pick(&ends))
}

fn exec(cx: &mut Cx) -> Res {
    let e = V::Str(exe());
    let r = &mut cx.rng;
    let i = |n: usize| V::UInt(n as u64);
    let c = |s: &str| V::Str(s.to_string());
    let (args, want): (Vec<V>, Option<String>) = match r.below(10) {
        // nothing but the command
        9 => (vec![c(r.pick(&["pwd", "/bin/pwd"]))], Some(format!("{}\n", std::env::current_dir().expect("folder").display()))),
        8 => (vec![e, c("child"), c("around")], Some(around())),
        0 => (vec![], None),
        1 => (bad_command(r), None),
        2 | 3 => {
            let a: Vec<V> = (0..r.many(6, 1_000)).map(|_| arg(r)).filter(|a| a.has_display()).collect();
            let w = a.iter().map(|v| format!("{}:{};", v.to_string().len(), v)).collect();
            let mut args = vec![e, c("child"), c("args")];
            args.extend(a);
            (args, Some(w))
        }
        4 | 5 => {
            let (o, er, st) = (size(r), if r.chance(1, 2) { size(r) } else { 0 }, r.below(3));
            (vec![e, c("child"), c("out"), i(o), i(er), i(st)], Some(fill(o)))
        }
        6 => {
            let b: Vec<u8> = match r.below(3) {
                0 => (0..r.below(8))
                    .map(|_| *r.pick(&[b'a', b'\n', 0, 0xc3, 0xa9, 0x80, 0xff, 0xe6, 0x97, 0xa5]))
                    .collect(),
                _ => edged(r).into_bytes(),
            };
            let mut args = vec![e, c("child"), c("raw")];
            args.extend(b.iter().map(|b| i(*b as usize)));
            (args, String::from_utf8(b).ok())
        }
        _ => {
            // nothing to read
            let o = size(r);
            (vec![e, c("child"), c("cat"), i(o), i(100), i(0)], Some(fill(o)))
        }
    };
    // (no argument of a process has a nul in it)
    let want = if args.iter().any(|a| a.to_string().contains('\0')) { None } else { want };
    let got = do_exec_in_steps(cx, "exec", &args)?;
    compare("exec", &want, &got)?;
    cx.see(if want.is_some() { "exec: output compared" } else { "exec: failures" });
    if let Some(w) = &want {
        cx.add("bytes of output compared", w.len() as u64);
    }
    cx.decided(cx.input.clone().as_bytes());
    Ok(())
}

fn exec_stdin(cx: &mut Cx) -> Res {
    let e = V::Str(exe());
    let r = &mut cx.rng;
    let i = |n: usize| V::UInt(n as u64);
    let c = |s: &str| V::Str(s.to_string());
    let input = match r.below(4) {
        0 => V::Str(if r.chance(1, 2) { edged(r) } else { gen::text_of(r, 50) }),
        1 => loop {
            let v = tame(r, 1);
            if v.has_display() {
                break v;
            }
        },
        _ => {
            let n = if r.chance(1, 6) { 1_000_000 + r.below(1_000_000) } else { size(r) };
            let mut s = fill(n);
            if r.chance(1, 3) {
                s.push('é');
            }
            V::Str(s)
        }
    };
    let s = input.to_string();
    let (args, want): (Vec<V>, Option<String>) = match r.below(12) {
        // nothing but the command, and what it reads
        10 => (vec![c(r.pick(&["cat", "/bin/cat"])), input], Some(s.clone())),
        9 => (vec![e, input, c("child"), c("around")], Some(around())),
        0 => (if r.chance(1, 2) { vec![] } else { vec![e] }, None),
        1 => {
            let mut a = bad_command(r);
            a.push(input);
            (a, None)
        }
        2..=4 => {
            let (o, b, st) = (size(r), r.below(100_000), r.below(2));
            (vec![e, input, c("child"), c("cat"), i(o), i(b), i(st)], Some(fill(o) + &s))
        }
        5 => (vec![e, input, c("child"), c("count")], Some(s.len().to_string())),
        6 => {
            let n = size(r);
            let b = s.as_bytes();
            let h = String::from_utf8(b[..n.min(b.len())].to_vec()).ok();
            (vec![e, input, c("child"), c("head"), i(n), i(r.below(2))], h)
        }
        7 => {
            let n = size(r);
            (vec![e, input, c("child"), c("deaf"), i(n), i(r.below(2))], Some(fill(n)))
        }
        8 => {
            let n = size(r);
            (vec![e, input, c("child"), c("kill"), i(n)], Some(fill(n)))
        }
        _ => {
            let a: Vec<V> = (0..r.many(5, 1_000)).map(|_| arg(r)).filter(|a| a.has_display()).collect();
            let w = a.iter().map(|v| format!("{}:{};", v.to_string().len(), v)).collect();
            let mut args = vec![e, input, c("child"), c("args")];
            args.extend(a);
            (args, Some(w))
        }
    };
    let want = if args.iter().enumerate().any(|(n, a)| n != 1 && a.to_string().contains('\0')) { None } else { want };
    let got = do_exec_in_steps(cx, "exec_stdin", &args)?;
    compare("exec_stdin", &want, &got)?;
    cx.see(if want.is_some() { "exec_stdin: output compared" } else { "exec_stdin: failures" });
    cx.max("max bytes of input", s.len() as u64);
    if let Some(w) = &want {
        cx.add("bytes of output compared", w.len() as u64);
    }
    cx.decided(cx.input.clone().as_bytes());
    Ok(())
}

/// ---- C24: data of the host ----

/// Data of one of the host's types, and what it is to be for the template
fn host_data(r: &mut Rng) -> (Box<dyn TParam>, V, &'static str) {
    match r.below(13) {
        0 | 1 => {
            let (j, v) = json(r, 3);
            (Box::new(j), v, "json")
        }
        2 | 3 => {
            let (t, v) = toml_data(r, 3);
            (Box::new(t), v, "toml")
        }
        4 => {
            let v = wild(r, 3);
            (Box::new(td(&v)), v, "data")
        }
        5 => {
            let l: Vec<&'static str> = (0..r.many(5, 5_000)).map(|_| *r.pick(&["a", "", "é", "b c", "\n"])).collect();
            let v = V::List(l.iter().map(|s| V::Str(s.to_string())).collect());
            (Box::new(l), v, "strs")
        }
        6 => {
            let m: BTreeMap<String, V> = (0..r.many(4, 2_000)).map(|i| (if i > 4 { format!("k{}", i) } else { hkey(r) }, wild(r, if i > 4 { 0 } else { 2 }))).collect();
            let h: HashMap<String, TData> = m.iter().map(|(k, v)| (k.clone(), td(v))).collect();
            (Box::new(h), V::Map(m), "map")
        }
        7 => {
            let ks = ["a", "b", "Name", "é", "k1", "item"];
            let m: BTreeMap<&'static str, usize> =
                (0..r.some(4)).map(|_| (*r.pick(&ks), r.below(100))).collect();
            let h: HashMap<&'static str, usize> = m.iter().map(|(k, v)| (*k, *v)).collect();
            let v = V::Map(m.iter().map(|(k, v)| (k.to_string(), V::UInt(*v as u64))).collect());
            (Box::new(h), v, "str map")
        }
        8 => {
            let ks = ["a", "b", "Name", "é", "k1", "item"];
            let m: BTreeMap<&'static str, V> = (0..r.some(4)).map(|_| (*r.pick(&ks), wild(r, 3))).collect();
            let h: HashMap<&'static str, TData> = m.iter().map(|(k, v)| (*k, td(v))).collect();
            let v = V::Map(m.into_iter().map(|(k, v)| (k.to_string(), v)).collect());
            (Box::new(h), v, "map of strs")
        }
        9 => {
            let m: BTreeMap<String, String> = (0..r.some(4)).map(|_| (hkey(r), gen::text_of(r, 5))).collect();
            let h: HashMap<String, String> = m.clone().into_iter().collect();
            (Box::new(h), V::Map(m.into_iter().map(|(k, v)| (k, V::Str(v))).collect()), "map of texts")
        }
        10 => {
            let (c, v) = cdata(r, 3);
            (Box::new(c), v, "card data")
        }
        11 => {
            let v = wild(r, 3);
            (Box::new(TCow::Owned(td(&v))), v, "cow")
        }
        _ => {
            let (c, v) = card(r);
            (Box::new(c), v, "card")
        }
    }
}

fn hkey(r: &mut Rng) -> String {
    match r.below(8) {
        0 => "Name".into(),
        1 => "Num".into(),
        2 => "data".into(),
        3 => "name".into(),
        4 => "".into(),
        _ => gen::key(r),
    }
}

fn json(r: &mut Rng, d: usize) -> (serde_json::Value, V) {
    use serde_json::Value as J;
    match r.below(if d > 0 { 10 } else { 7 }) {
        0 => (J::Null, V::Null),
        1 => {
            let b = r.chance(1, 2);
            (J::Bool(b), V::Bool(b))
        }
        2 => {
            let n = gen::hostile_int(r);
            (J::from(n), V::Int(n))
        }
        3 => {
            let n = gen::hostile_uint(r);
            (J::from(n), if n <= i64::MAX as u64 { V::Int(n as i64) } else { V::UInt(n) })
        }
        4 => {
            let f = gen::hostile_float(r);
            match serde_json::Number::from_f64(f) {
                Some(n) => (J::Number(n), V::Float(f)),
                None => (J::Null, V::Null),
            }
        }
        5 | 6 => {
            let s = gen::text_of(r, 6);
            (J::String(s.clone()), V::Str(s))
        }
        7 => {
            let l: Vec<_> = (0..r.many(4, 3_000)).map(|_| json(r, if d > 1 { d - 1 } else { 0 })).collect();
            (J::Array(l.iter().map(|x| x.0.clone()).collect()), V::List(l.into_iter().map(|x| x.1).collect()))
        }
        _ => {
            let mut m = serde_json::Map::new();
            let mut w = BTreeMap::new();
            for _ in 0..r.some(4) {
                let k = hkey(r);
                let (j, v) = json(r, d - 1);
                m.insert(k.clone(), j);
                w.insert(k, v);
            }
            (J::Object(m), V::Map(w))
        }
    }
}

fn toml_data(r: &mut Rng, d: usize) -> (toml::Value, V) {
    use toml::Value as T;
    match r.below(if d > 0 { 9 } else { 6 }) {
        0 => {
            let b = r.chance(1, 2);
            (T::Boolean(b), V::Bool(b))
        }
        1 => {
            let n = gen::hostile_int(r);
            (T::Integer(n), V::Int(n))
        }
        2 => {
            let f = gen::hostile_float(r);
            (T::Float(f), V::Float(f))
        }
        3 => {
            let s = r
                .pick(&["1979-05-27T07:32:00Z", "1979-05-27", "07:32:00", "1979-05-27T00:32:00.999999-07:00"])
                .to_string();
            match s.parse() {
                Ok(d) => (T::Datetime(d), V::Str(s)),
                Err(_) => (T::String(s.clone()), V::Str(s)),
            }
        }
        4 | 5 => {
            let s = gen::text_of(r, 6);
            (T::String(s.clone()), V::Str(s))
        }
        6 => {
            let l: Vec<_> = (0..r.many(4, 3_000)).map(|_| toml_data(r, d - 1)).collect();
            (T::Array(l.iter().map(|x| x.0.clone()).collect()), V::List(l.into_iter().map(|x| x.1).collect()))
        }
        _ => {
            let mut m = toml::value::Table::new();
            let mut w = BTreeMap::new();
            for _ in 0..r.some(4) {
                let k = hkey(r);
                let (j, v) = toml_data(r, d - 1);
                m.insert(k.clone(), j);
                w.insert(k, v);
            }
            (T::Table(m), V::Map(w))
        }
    }
}

fn cdata(r: &mut Rng, d: usize) -> (card_format::CData, V) {
    use card_format::CData as C;
    match r.below(if d > 0 { 6 } else { 4 }) {
        0 | 1 => {
            let s = gen::text_of(r, 6);
            (C::S(s.clone()), V::Str(s))
        }
        2 | 3 => {
            let n = gen::hostile_int(r);
            (C::N(n as isize), V::Int(n))
        }
        4 => {
            let l: Vec<_> = (0..r.many(4, 3_000)).map(|_| cdata(r, d - 1)).collect();
            let (a, b): (Vec<_>, Vec<_>) = l.into_iter().unzip();
            (C::L(a), V::List(b))
        }
        _ => {
            let mut c = card_format::CData::M(Default::default());
            let mut w = BTreeMap::new();
            if let C::M(m) = &mut c {
                for _ in 0..r.some(4) {
                    let k = hkey(r);
                    let (j, v) = cdata(r, d - 1);
                    m.insert(k.clone(), j);
                    w.insert(k, v);
                }
            }
            (c, V::Map(w))
        }
    }
}

fn card(r: &mut Rng) -> (card_format::Card, V) {
    let mut c = card_format::Card {
        name: gen::text_of(r, 8),
        num: gen::hostile_uint(r) as usize,
        data: Default::default(),
    };
    let mut w = BTreeMap::new();
    w.insert("Name".to_string(), V::Str(c.name.clone()));
    w.insert("Num".to_string(), V::UInt(c.num as u64));
    for _ in 0..r.some(4) {
        let k = hkey(r);
        let (j, v) = cdata(r, 2);
        c.data.insert(k.clone(), j);
        w.insert(k, v);
    }
    (c, V::Map(w))
}

/// A path, which leads to something more often than not
fn path(r: &mut Rng, v: &V) -> Vec<Part> {
    let mut p = vec![];
    let mut at = v;
    loop {
        if r.chance(1, 6) {
            return p;
        }
        let wrong = r.chance(1, 8);
        match at {
            V::Map(m) if !wrong && !m.is_empty() => {
                let k = m.keys().nth(r.below(m.len())).unwrap();
                p.push(Part::I(k.clone()));
                at = &m[k];
            }
            V::List(l) if !wrong && !l.is_empty() => {
                let i = r.below(l.len());
                p.push(Part::N(i));
                at = &l[i];
            }
            // a key that is a number, asked for as one, and a position by its digits
            V::Map(m) if m.keys().any(|k| k.parse::<usize>().is_ok()) && r.chance(1, 2) => {
                let k = m.keys().find(|k| k.parse::<usize>().is_ok()).unwrap();
                p.push(Part::N(k.parse().unwrap()));
                return p;
            }
            V::List(l) if !l.is_empty() && r.chance(1, 3) => {
                p.push(Part::I(r.below(l.len()).to_string()));
                return p;
            }
            _ => {
                if wrong || r.chance(1, 4) {
                    let n = 1 + r.below(2);
                    for _ in 0..n {
                        p.push(match r.below(6) {
                            // a place that is one of those there are if its number is cut
                            5 => Part::N(r.below(3) + (1usize << *r.pick(&[8, 16, 31, 32, 48, 63]))),
                            0 => Part::N(r.below(3)),
                            1 => Part::N(usize::MAX - r.below(2)),
                            2 => Part::I(gen::member(r)),
                            3 => Part::I(hkey(r)),
                            _ => Part::I(r.below(3).to_string()),
                        });
                    }
                }
                return p;
            }
        }
    }
}

fn vp(p: &[Part]) -> Vec<templito::expr::VarPart> {
    p.iter()
        .map(|p| match p {
            Part::N(n) => templito::expr::VarPart::Num(*n),
            Part::I(s) => templito::expr::VarPart::Id(s.clone()),
        })
        .collect()
}

fn writable(p: &[Part]) -> bool {
    p.iter().all(|p| match p {
        // (what is no plain name stands in quotes)
        Part::I(k) => !k.is_empty() && !k.contains('\''),
        Part::N(_) => true,
    })
}

pub fn c24(cx: &mut Cx) -> Res {
    match cx.rng.below(8) {
        0 => helpers(cx),
        1 | 2 => combined(cx),
        _ => host_paths(cx),
    }
}

fn eq_opt(a: &Option<V>, b: &Option<V>) -> bool {
    match (a, b) {
        (None, None) => true,
        (Some(a), Some(b)) => identical(a, b),
        _ => false,
    }
}

fn host_paths(cx: &mut Cx) -> Res {
    let np = 1 + cx.rng.below(3);
    let mut data = vec![];
    for _ in 0..np {
        data.push(host_data(&mut cx.rng));
    }
    let names = ["pa", "pb", "pc", "pa"];
    let named = cx.rng.chance(1, 2);
    for _ in 0..6 {
        let i = cx.rng.below(np);
        let (d, v, kind) = &data[i];
        let p = path(&mut cx.rng, v);
        let want = model::interp::sub_get(v, &p);
        cx.input(format!("{} {} at {:?}", kind, tag(v), p));
        // asked directly
        let parts = vp(&p);
        let got = guard(|| d.get_v(&parts).map(|c| val(&c)))?;
        ensure!(
            eq_opt(&want, &got),
            "directly: {:?}, expected {:?}",
            got.map(|v| tag(&v)),
            want.map(|v| tag(&v))
        );
        cx.see(&format!("{}: {}", kind, if want.is_some() { "values" } else { "absent" }));
        // from a template
        if !writable(&p) {
            continue;
        }
        let mut full = vec![if named && cx.rng.chance(2, 3) {
            Part::I(names[i].to_string())
        } else {
            Part::N(i)
        }];
        full.extend(p.iter().cloned());
        let mut want = want;
        if cx.rng.chance(1, 12) {
            // no such parameter
            let n = np + cx.rng.below(3);
            full[0] = Part::N(match cx.rng.below(3) {
                0 => n,
                1 => i + (1usize << *cx.rng.pick(&[8, 16, 31, 32, 48, 63])),
                _ => usize::MAX - cx.rng.below(3),
            });
            want = None;
            cx.see("parameters that are not there");
        }
        let ex = Ex::Var(full);
        // (the probe sees the value itself, or that there is none)
        let body = vec![Nd::Exp(cmd("tr", vec![ex.clone(), lit_s("ok")]))];
        let src = model::print::print(&body, &mut cx.rng, PLAIN);
        cx.input(format!("{} {} from {:?}", kind, tag(v), src));
        let mut t = match parse(&src)? {
            Ok(t) => t,
            Err(e) => return fail(e),
        };
        if named {
            t.pnames = names[..np].iter().map(|s| s.to_string()).collect();
        }
        let ps: Vec<&dyn TParam> = data.iter().map(|d| &*d.0).collect();
        trace_take();
        let f = fm(cx);
        let out = guard(|| t.run(&ps, &mut NoTemplates, f).map_err(|e| e.to_string()))?;
        let trace = trace_take();
        match &want {
            Some(w) => {
                ensure!(out.as_deref() == Ok("ok"), "gave {:?}", out);
                let w = format!("tr({} {})", tag(w), tag(&V::Str("ok".into())));
                ensure!(trace == vec![w.clone()], "the value is {:?}, expected {:?}", trace, w);
            }
            None => ensure!(out.is_err(), "gave {:?} for what is not there", out),
        }
        cx.see("paths in templates");
    }
    let all: Vec<String> = data.iter().map(|d| tag(&d.1)).collect();
    cx.decided(all.join(" ").as_bytes());
    cx.sample(|| all.join("  "));
    Ok(())
}

/// Pairs: the first that has it
fn combined(cx: &mut Cx) -> Res {
    let (ja, va) = json(&mut cx.rng, 2);
    let (tb, vb) = toml_data(&mut cx.rng, 2);
    let key = gen::key(&mut cx.rng);
    let kv_v = wild(&mut cx.rng, 2);
    let kv = KV(key.clone(), td(&kv_v));
    let kv2 = KV("k", "text");
    let pair = (&ja, &tb);
    let over = (&kv, &ja);
    let deep = (&kv2, &pair);
    for _ in 0..4 {
        let p = match cx.rng.below(4) {
            0 => path(&mut cx.rng, &vb),
            1 => {
                let mut p = path(&mut cx.rng, &kv_v);
                p.insert(0, Part::I(key.clone()));
                p
            }
            2 => {
                let mut p = vec![Part::I("k".into())];
                if cx.rng.chance(1, 3) {
                    p.push(cx.rng.pick(&[Part::N(0), Part::I("k".into()), Part::I("a".into())]).clone());
                }
                p
            }
            _ => path(&mut cx.rng, &va),
        };
        let parts = vp(&p);
        let a = model::interp::sub_get(&va, &p);
        let b = model::interp::sub_get(&vb, &p);
        let ab = a.clone().or(b);
        cx.input(format!("{} and {} (and {} = {}) at {:?}", tag(&va), tag(&vb), key, tag(&kv_v), p));
        let got = guard(|| pair.get_v(&parts).map(|c| val(&c)))?;
        ensure!(eq_opt(&ab, &got), "the pair gave {:?}, expected {:?}", got, ab);
        let head = |k: &str| matches!(p.first(), Some(Part::I(s)) if s == k);
        let below = if head(&key) { model::interp::sub_get(&kv_v, &p[1..]) } else { None };
        let want = below.or(a.clone());
        let got = guard(|| over.get_v(&parts).map(|c| val(&c)))?;
        ensure!(eq_opt(&want, &got), "the KV and data gave {:?}, expected {:?}", got, want);
        cx.see("KV: compared");
        let text = if head("k") { model::interp::sub_get(&V::Str("text".into()), &p[1..]) } else { None };
        let want = text.or(ab.clone());
        let got = guard(|| deep.get_v(&parts).map(|c| val(&c)))?;
        ensure!(eq_opt(&want, &got), "the nested pair gave {:?}, expected {:?}", got, want);
        cx.see("pairs: compared");
    }
    cx.decided(format!("{} {}", tag(&va), tag(&vb)).as_bytes());
    Ok(())
}

/// Conversions and questions of TData itself
fn helpers(cx: &mut Cx) -> Res {
    let r = &mut cx.rng;
    let v = wild(r, 2);
    let k = match &v {
        V::Map(m) if !m.is_empty() && r.chance(3, 4) => m.keys().nth(r.below(m.len())).unwrap().clone(),
        _ => hkey(r),
    };
    cx.input(format!("{} key {:?}", tag(&v), k));
    let d = td(&v);
    let at = match &v {
        V::Map(m) => m.get(&k),
        _ => None,
    };
    let want = match at {
        Some(V::Str(s)) => Some(s.clone()),
        _ => None,
    };
    let got = guard(|| d.get_key_str(&k).map(|s| s.to_string()))?;
    ensure!(got == want, "get_key_str {:?}, expected {:?}", got, want);
    let got = guard(|| d.get_key_string(&k))?;
    match at {
        Some(a) if !a.has_display() => {}
        _ => {
            let want = at.map(|a| a.to_string());
            ensure!(got == want, "get_key_string {:?}, expected {:?}", got, want);
        }
    }
    let want = match &v {
        V::Str(s) => Some(s.as_str()),
        _ => None,
    };
    ensure!(guard(|| d.as_str().map(|s| s.to_string()))?.as_deref() == want, "as_str");
    let got = guard(|| d.as_bool())?;
    ensure!(got == model::val::truthy(&v), "as_bool {:?}, expected {:?}", got, model::val::truthy(&v));
    let got = guard(|| d.as_usize())?.map(|n| n as u64);
    ensure!(got == model::val::as_index(&v), "as_usize {:?}, expected {:?}", got, model::val::as_index(&v));
    let want = match &v {
        V::Int(n) => Some(*n as f64),
        V::UInt(n) => Some(*n as f64),
        V::Float(f) => Some(*f),
        _ => None,
    };
    let got = guard(|| d.as_float())?;
    ensure!(got.map(f64::to_bits) == want.map(f64::to_bits), "as_float {:?}, expected {:?}", got, want);
    // made from what the host has
    let (j, w) = json(&mut cx.rng, 3);
    cx.input(format!("{}", j));
    let g = guard(|| val(&TData::from_json(j.clone())))?;
    ensure!(identical(&w, &g), "from_json {}, expected {}", tag(&g), tag(&w));
    let (t, w) = toml_data(&mut cx.rng, 3);
    cx.input(format!("{:?}", t));
    let g = guard(|| val(&TData::from_toml(t.clone())))?;
    ensure!(identical(&w, &g), "from_toml {}, expected {}", tag(&g), tag(&w));
    let (c, w) = card(&mut cx.rng);
    cx.input(format!("{:?}", c));
    let g = guard(|| val(&TData::from(&c)))?;
    ensure!(identical(&w, &g), "from a card {}, expected {}", tag(&g), tag(&w));
    let s = gen::text_of(&mut cx.rng, 6);
    let n = gen::hostile_uint(&mut cx.rng);
    let l = [s.clone(), gen::word(&mut cx.rng)];
    let ls: Vec<&str> = l.iter().map(|s| s.as_str()).collect();
    let lv = V::List(l.iter().map(|s| V::Str(s.clone())).collect());
    for (what, g, w) in [
        ("String", TData::from(s.clone()), V::Str(s.clone())),
        ("&str", TData::from(s.as_str()), V::Str(s.clone())),
        ("usize", TData::from(n as usize), V::UInt(n)),
        ("&[String]", TData::from(&l[..]), lv.clone()),
        ("&[&str]", TData::from(&ls[..]), lv),
    ] {
        ensure!(identical(&val(&g), &w), "from {} {}, expected {}", what, tag(&val(&g)), tag(&w));
    }
    // single values as parameters
    let b = n % 2 == 0;
    let fl = gen::hostile_float(&mut cx.rng);
    let nn = n as usize;
    let sr = s.as_str();
    let ps: Vec<(&dyn TParam, V)> = vec![
        (&s, V::Str(s.clone())),
        (&sr, V::Str(s.clone())),
        (&nn, V::UInt(n)),
        (&fl, V::Float(fl)),
        (&b, V::Bool(b)),
    ];
    for (p, w) in ps {
        let g = guard(|| p.get_v(&[]).map(|c| val(&c)))?;
        ensure!(eq_opt(&g, &Some(w.clone())), "a parameter gave {:?}, expected {}", g, tag(&w));
        let below = vp(&[cx.rng.pick(&[Part::N(0), Part::I("a".into()), Part::N(7)]).clone(), Part::N(0)]);
        let g = guard(|| p.get_v(&below[..1 + n as usize % 2]).map(|c| val(&c)))?;
        ensure!(g.is_none(), "a parameter {} gave {:?} below itself", tag(&w), g);
    }
    cx.see("conversions compared");
    cx.decided(format!("{} {:?}", tag(&v), k).as_bytes());
    Ok(())
}
