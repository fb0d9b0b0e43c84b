//! C10: functions called again, after others that are nearly the same, in other orders, in fresh
//! threads and processes, and in many threads at once
use super::parse::{defaults, has_map, hostile_arg, shaped_args};
use super::util::*;
use crate::conv::*;
use crate::core::*;
use model::gen;
use model::rng::Rng;
use model::val::{identical, V};
use std::sync::Mutex;
use templito::func_man::{default_func_man, BasicFuncs};
use templito::TData;

type Call = (String, Vec<V>);
type Ans = Result<V, String>;

fn more_than_one(v: &V) -> bool {
    match v {
        V::Map(m) => m.len() > 1 || m.values().any(more_than_one),
        V::List(l) => l.iter().any(more_than_one),
        _ => false,
    }
}

/// that has the same answer whenever it is asked
fn steady(name: &str, a: &[V]) -> bool {
    name != "rand" && !(a.iter().any(more_than_one) && a.iter().any(has_map))
}

fn args(r: &mut Rng, name: &str) -> Vec<V> {
    match r.below(6) {
        0..=2 => {
            if let Some(a) = shaped_args(r, name) {
                return a;
            }
        }
        3 => {
            let n = r.below(4);
            return (0..n).map(|i| hostile_arg(r, name, i)).collect();
        }
        _ => {}
    }
    let w = |r: &mut Rng| V::Str(gen::word(r));
    let name = if name == "filter" && r.chance(1, 2) { "filter " } else { name };
    match name {
        "regex" => {
            let p = r.pick(&["a", "A", "[a-c]+", "b(.)", "\\d", "^x", "é", "(?i)a", "B", "."]).to_string();
            vec![V::Str(["a", "A", "abc", "ABC", "xB1", "bé é", "x\nA"].map(String::from)[r.below(7)].clone()), V::Str(p)]
        }
        "word_wrap" => vec![V::Str(gen::text_of(r, 60)), V::UInt(1 + r.below(30) as u64)],
        "md" => vec![V::Str(format!("{} *{}* `{}`\n\n- {}", gen::word(r), gen::word(r), gen::word(r), gen::word(r)))],
        "table" => vec![V::Str(format!("{}|{}\n--\n{}|{}", gen::word(r), gen::word(r), gen::word(r), gen::word(r)))],
        "r_json" => {
            let v = tame(r, 1);
            vec![V::Str(super::text::to_serde(&v).to_string())]
        }
        "r_card" => vec![V::Str(format!("{} {}*\na : {}\nb : \"{}\"\n", r.pick(&["Ace", "ace", "Two"]), r.below(5), r.below(9), r.pick(&["x", "X", "y"])))],
        "from_base64" => vec![V::Str(r.pick(&["YWJj", "ywjj", "YWJjZA==", "YWJjZA", "", "AAAA"]).to_string())],
        "filter" => vec![V::List((0..4).map(|_| V::UInt(r.below(4) as u64)).collect()), V::Str(r.pick(&["gt $0 1", "gt $0 2", "lt $0 2", "eq $0 1"]).to_string())],
        // (those above and this one: what is compared may have blanks in it)
        "filter " => vec![
            V::List(["ab", "a b", "a  b", "AB", "a\tb", "b a"].map(|s| V::Str(s.into())).to_vec()),
            V::Str(format!("{} $0 \"{}\"", r.pick(&["eq", "neq", "gt", "lt"]), r.pick(&["ab", "a b", "a  b", "AB", "ba"]))),
        ],
        _ => (0..1 + r.below(3))
            .map(|_| match r.below(4) {
                0 => V::UInt(r.below(5) as u64),
                1 => V::List((0..r.below(4)).map(|_| V::UInt(r.below(4) as u64)).collect()),
                _ => w(r),
            })
            .collect(),
    }
}

/// the same, but for something that a careless memory does not see
fn close(r: &mut Rng, a: &[V]) -> Vec<V> {
    let mut a = a.to_vec();
    if a.is_empty() {
        return vec![tame(r, 0)];
    }
    let i = r.below(a.len());
    match r.below(11) {
        8..=10 => {
            if let V::Str(s) = &a[i] {
                // a blank more or less, or one character another
                let mut c: Vec<char> = s.chars().collect();
                let at: Vec<usize> = (0..c.len()).filter(|k| c[*k].is_whitespace()).collect();
                match r.below(5) {
                    0 if !at.is_empty() => {
                        c.remove(*r.pick(&at));
                    }
                    1 if !at.is_empty() => {
                        let k = *r.pick(&at);
                        c.insert(k, ' ');
                    }
                    2 if !at.is_empty() => {
                        let k = *r.pick(&at);
                        c[k] = *r.pick(&['\t', '\n', ' '])
                    }
                    3 if !c.is_empty() => {
                        let k = r.below(c.len());
                        c[k] = *r.pick(&['a', 'b', '0', '1', ' '])
                    }
                    _ => {
                        let k = r.below(c.len() + 1);
                        c.insert(k, *r.pick(&[' ', 'a', '0', '\n']))
                    }
                }
                a[i] = V::Str(c.into_iter().collect())
            }
        }
        0 => a.swap(0, i),
        1 => {
            a.pop();
        }
        2 => {
            let v = a[i].clone();
            a.push(v)
        }
        3 => {
            if let V::Str(s) = &a[i] {
                a[i] = V::Str(if r.chance(1, 2) { s.to_uppercase() } else { s.to_lowercase() })
            }
        }
        4 => {
            if let V::Str(s) = &a[i] {
                // as long, of the same ends
                let mut c: Vec<char> = s.chars().collect();
                if c.len() > 2 {
                    let k = c.len();
                    c[1..k - 1].reverse();
                }
                a[i] = V::Str(c.into_iter().collect())
            }
        }
        _ => a[i] = near(r, &a[i]),
    }
    a
}

fn calls(r: &mut Rng, names: &[String], most: usize) -> Vec<Call> {
    let mut v: Vec<Call> = vec![];
    for _ in 0..1 + r.below(3) {
        let name = if r.chance(1, 5) { r.pick(&["regex", "word_wrap", "filter", "r_json", "md", "table", "sort_on", "r_card"]).to_string() } else { r.pick(names).clone() };
        let a = args(r, &name);
        v.push((name.clone(), a.clone()));
        for _ in 0..1 + r.below(most) {
            let c = if r.chance(1, 3) {
                args(r, &name)
            } else {
                let of = r.pick(&v).1.clone();
                close(r, &of)
            };
            v.push((name.clone(), c));
        }
    }
    if r.chance(1, 5) {
        // long, and all alike at one end
        let n = r.many(200, 4_000);
        let pad: String = (0..n).map(|_| *r.pick(&['a', 'b', ' ', '\n', '1', '|'])).collect();
        let (end, blank) = (r.chance(1, 2), r.chance(1, 2));
        for (name, a) in v.iter_mut() {
            let i = (name == "filter") as usize;
            if let Some(V::Str(s)) = a.get_mut(i) {
                let json = i == 1 || blank || matches!(name.as_str(), "r_json" | "r_card" | "from_base64");
                let p = if json { " ".repeat(n) } else { pad.clone() };
                *s = if end { format!("{}{}", s, p) } else { format!("{}{}", p, s) };
            }
        }
    }
    v.retain(|(n, a)| steady(n, a));
    v
}

fn agree(c: &Call, a: &Ans, b: &Ans, when: &str) -> Res {
    let same = match (a, b) {
        (Ok(a), Ok(b)) => identical(a, b),
        (Err(_), Err(_)) => true,
        _ => false,
    };
    ensure!(same, "{} {} gave {}, and {} it gave {}", c.0, show(&c.1), show_r(a), when, show_r(b));
    Ok(())
}

fn ask(f: &BasicFuncs, c: &[(String, Vec<TData>)], order: &[usize]) -> Result<Vec<(usize, Result<TData, String>)>, Violation> {
    let mut r = vec![];
    for i in order {
        r.push((*i, call(f, &c[*i].0, &c[*i].1)?));
    }
    Ok(r)
}

struct Any<T>(T);
unsafe impl<T> Send for Any<T> {}
unsafe impl<T> Sync for Any<T> {}
impl<T> Any<T> {
    fn get(&self) -> &T {
        &self.0
    }
    fn take(self) -> T {
        self.0
    }
}

/// in a thread which has called nothing before
fn fresh(c: &[(String, Vec<TData>)], order: &[usize]) -> Result<Vec<(usize, Result<TData, String>)>, Violation> {
    let (c, order) = (Any(c), order.to_vec());
    std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(32 << 20)
            .spawn_scoped(s, move || Any(ask(&default_func_man(), c.get(), &order)))
            .expect("thread")
            .join()
            .expect("thread")
            .take()
    })
}

/// Calls in an order, and in another
pub fn history(cx: &mut Cx) -> Res {
    let names = defaults(cx).1.clone();
    let c = calls(&mut cx.rng, &names, 5);
    if c.is_empty() {
        return Ok(());
    }
    let desc: Vec<String> = c.iter().map(|(n, a)| format!("{} {}", n, show(a))).collect();
    cx.input(desc.join("\n"));
    let t: Vec<(String, Vec<TData>)> = c.iter().map(|(n, a)| (n.clone(), a.iter().map(td).collect())).collect();
    let mut order: Vec<usize> = (0..c.len()).collect();
    let first = {
        let (f, _) = defaults(cx);
        ask(f, &t, &order)?
    };
    let first: Vec<Ans> = first.into_iter().map(|(_, a)| a.map(|v| val(&v))).collect();
    order.reverse();
    let got = fresh(&t, &order)?;
    for (i, g) in got {
        agree(&c[i], &first[i], &g.map(|v| val(&v)), "in another order, in a fresh thread,")?;
    }
    cx.rng.shuffle(&mut order);
    let got = {
        let (f, _) = defaults(cx);
        ask(f, &t, &order)?
    };
    for (i, g) in got {
        agree(&c[i], &first[i], &g.map(|v| val(&v)), "once more")?;
    }
    // each on its own, in a process that has called nothing before
    if cx.rng.chance(1, 40) {
        let out = std::process::Command::new(std::env::current_exe().expect("exe"))
            .args(["answers", &cx.seed.to_string(), &cx.case.to_string()])
            .output()
            .expect("process");
        let text = String::from_utf8_lossy(&out.stdout).to_string();
        ensure!(out.status.success(), "a fresh process ended with {}", out.status);
        let l: Vec<&str> = text.lines().collect();
        ensure!(l.len() == c.len(), "a fresh process gave {} answers, not {}", l.len(), c.len());
        for (k, i) in (0..c.len()).rev().enumerate() {
            let want = answer(&first[i]);
            ensure!(l[k] == want, "{} gave {}, in a fresh process {}", desc[i], want, l[k]);
        }
        cx.see("answers of a fresh process compared");
    }
    cx.add("answers in several orders compared", c.len() as u64);
    for d in desc {
        cx.decided(d.as_bytes());
    }
    Ok(())
}

fn answer(a: &Ans) -> String {
    match a {
        Ok(v) => model::val::tag(v).escape_debug().to_string(),
        Err(_) => "failure".into(),
    }
}

/// The other process: the same calls, the last one first
pub fn answers(seed: u64, case: u64) -> i32 {
    hook_panics();
    let th = std::thread::Builder::new().stack_size(64 << 20).spawn(move || {
        let f = default_func_man();
        let mut names = super::parse::names(&f);
        names.retain(|n| n != "debug");
        let mut r = Rng::for_case(seed, "C10", case);
        super::host::c10_choice(&mut r);
        for (n, a) in calls(&mut r, &names, 5).into_iter().rev() {
            match call_v(&f, &n, &a) {
                Ok(a) => println!("{}", answer(&a)),
                Err(v) => println!("{}", v.0),
            }
        }
    });
    match th.expect("thread").join() {
        Ok(_) => 0,
        Err(_) => 3,
    }
}

/// The same functions in several threads at once, each with arguments of its own
pub fn crowd(cx: &mut Cx) -> Res {
    let names = defaults(cx).1.clone();
    let r = &mut cx.rng;
    let name = if r.chance(1, 3) { r.pick(&["word_wrap", "regex", "md", "table", "split", "sort_on", "filter", "rand"]).to_string() } else { r.pick(&names).clone() };
    let mut c: Vec<Call> = (0..4 + r.below(4))
        .map(|_| {
            let mut a = args(r, &name);
            // longer ones take longer
            for v in a.iter_mut() {
                match v {
                    V::Str(s) if s.len() > 3 && matches!(name.as_str(), "word_wrap" | "html_esc" | "xml_esc" | "md" | "split" | "str_replace") => {
                        let k = 1 + r.below(40);
                        *s = s.repeat(k)
                    }
                    _ => {}
                }
            }
            (name.clone(), a)
        })
        .collect();
    c.retain(|(n, a)| steady(n, a));
    if c.len() < 2 {
        return Ok(());
    }
    let desc: Vec<String> = c.iter().map(|(n, a)| format!("{} {}", n, show(a))).collect();
    cx.input(desc.join("\n"));
    let t: Vec<(String, Vec<TData>)> = c.iter().map(|(n, a)| (n.clone(), a.iter().map(td).collect())).collect();
    let order: Vec<usize> = (0..c.len()).collect();
    let first: Vec<Result<TData, String>> = {
        let (f, _) = defaults(cx);
        ask(f, &t, &order)?.into_iter().map(|(_, a)| a).collect()
    };
    let n = 3 + cx.rng.below(3);
    let one = cx.rng.chance(1, 2);
    let b = Gate::new();
    let bad: Mutex<Vec<String>> = Mutex::new(vec![]);
    let share = Any((&t, &c, &first));
    let calls = std::sync::atomic::AtomicU64::new(0);
    std::thread::scope(|s| {
        for k in 0..n {
            let (b, bad, share, calls) = (&b, &bad, &share, &calls);
            let _ = std::thread::Builder::new().stack_size(16 << 20).spawn_scoped(s, move || {
                let (t, c, first) = share.get();
                let f = default_func_man();
                b.wait();
                let begin = std::time::Instant::now();
                let mut i = k;
                let mut done = 0;
                while done < 400 && (done < 20 || begin.elapsed().as_millis() < 4) {
                    let j = if one { k % t.len() } else { i % t.len() };
                    let e = match call(&f, &t[j].0, &t[j].1) {
                        Err(v) => Err(v),
                        Ok(a) => {
                            let same = match (&a, &first[j]) {
                                (Ok(a), Ok(b)) => identical(&val(a), &val(b)),
                                (Err(_), Err(_)) => true,
                                _ => false,
                            };
                            match same {
                                true => Ok(()),
                                false => agree(&c[j], &first[j].clone().map(|v| val(&v)), &a.map(|v| val(&v)), "while other threads called it"),
                            }
                        }
                    };
                    i += 1;
                    done += 1;
                    if let Err(v) = e {
                        bad.lock().unwrap().push(v.0);
                        break;
                    }
                }
                calls.fetch_add(done, std::sync::atomic::Ordering::Relaxed);
            });
        }
        b.open();
    });
    if let Some(v) = bad.into_inner().unwrap().pop() {
        return fail(v);
    }
    cx.add("calls in threads at once compared", calls.into_inner());
    Ok(())
}

/// Templates of one length that differ in one small part of them, wherever that is
fn twins(cx: &mut Cx) -> Res {
    let r = &mut cx.rng;
    let plain = |r: &mut Rng| -> String {
        let n = match r.below(4) {
            0 => 0,
            1 => r.below(20),
            2 => r.below(300),
            _ => r.below(5_000),
        };
        (0..n).map(|_| *r.pick(&['a', 'b', ' ', '<', '\n', '1', '.', 'é'])).collect()
    };
    let (pre, post) = (plain(r), plain(r));
    let kind = r.below(6);
    let n = 2 + r.below(3);
    let mut mids: Vec<(String, String)> = vec![];
    for i in 0..n {
        let w = format!("{}{}", r.pick(&['p', 'q', 'r']), i);
        mids.push(match kind {
            0 => (w.clone(), w),
            1 => (format!("{{{{\"{}\"}}}}", w), w),
            2 => (format!("{{{{{}}}}}", 10 + i), (10 + i).to_string()),
            3 => (format!("{{{{let {0}=\"x{0}\"}}}}{{{{${0}}}}}", w), format!("x{}", w)),
            4 => (format!("{{{{if eq $0 \"{}\"}}}}y{{{{else}}}}n{{{{/if}}}}", w), if i == 0 { "y".into() } else { "n".into() }),
            _ => (format!("{{{{len \"{}\"}}}}{{{{${}}}}}", w, i % 2), format!("2{}", i % 2)),
        });
    }
    let p0 = if kind == 4 { mids[0].0.split('"').nth(1).unwrap().to_string() } else { "0".to_string() };
    let ps = [TData::String(p0), TData::String("1".into())];
    let texts: Vec<(String, String)> = mids.iter().map(|(t, o)| (format!("{}{}{}", pre, t, post), format!("{}{}{}", pre, o, post))).collect();
    let mut order: Vec<usize> = (0..2 * n).map(|i| i % n).collect();
    r.shuffle(&mut order);
    cx.input(format!("{:?} between {:?} and {:?}, parsed one after the other", mids, pre, post));
    for i in order {
        let (t, want) = &texts[i];
        let tree = match parse(t)? {
            Ok(t) => t,
            Err(e) => return fail(format!("{:?} did not parse: {}", mids[i].0, e)),
        };
        let got = run(&tree, &ps, &mut templito::temp_man::NoTemplates, defaults(cx).0)?;
        ensure!(matches!(&got, Ok((s, _)) if s == want), "{:?} gave {:?}", mids[i].0, got.map(|g| g.0));
        cx.add("templates parsed after others that are nearly the same", 1);
    }
    for t in texts {
        cx.decided(t.0.as_bytes());
    }
    Ok(())
}

/// Texts of one length, which take each other's place in one and the same memory
pub fn same_memory(cx: &mut Cx) -> Res {
    if cx.rng.chance(1, 3) {
        return twins(cx);
    }
    if cx.rng.chance(1, 2) {
        let texts: Vec<String> = (0..2 + cx.rng.below(2))
            .map(|_| {
                let p = gen::Profile { size: 3 + cx.rng.below(8), ..gen::PROFILE };
                let r = &mut cx.rng;
                match r.below(5) {
                    0 => gen::text_of(r, 20),
                    1 => format!("{{{{cat \"{}\" {}}}}}", gen::word(r), r.below(100)),
                    _ => {
                        let prog = gen::program(r, p);
                        model::print::print(&prog.main.body, r, model::print::NOISY)
                    }
                }
            })
            .collect();
        let most = texts.iter().map(|t| t.len()).max().unwrap();
        let texts: Vec<String> = texts.into_iter().map(|t| format!("{}{}", t, " ".repeat(most - t.len()))).collect();
        cx.input(format!("{:?}, in the same memory", texts));
        // (maps are shown in any order)
        let shown = |t: &Result<templito::TreeTemplate, String>| match t {
            Ok(t) => {
                let mut c: Vec<char> = format!("{:?}", t).chars().collect();
                c.sort();
                Some(c)
            }
            Err(_) => None,
        };
        let want: Vec<_> = texts.iter().map(|t| parse(t).map(|t| shown(&t))).collect::<Result<_, _>>()?;
        let mut buf = String::with_capacity(most);
        for _ in 0..2 {
            for (t, w) in texts.iter().zip(&want) {
                buf.clear();
                buf.push_str(t);
                let g = parse(&buf)?;
                ensure!(shown(&g) == *w, "{:?} is parsed as another where {:?} had been before", t, texts);
            }
        }
        cx.see("texts in one memory parsed");
        for t in texts {
            cx.decided(t.as_bytes());
        }
        return Ok(());
    }
    let names = defaults(cx).1.clone();
    let c = calls(&mut cx.rng, &names, 3);
    let (name, a) = match c.first() {
        Some(c) => c.clone(),
        None => return Ok(()),
    };
    let mut all: Vec<Vec<V>> = c.iter().filter(|c| c.0 == name && c.1.len() == a.len()).map(|c| c.1.clone()).collect();
    for i in 0..a.len() {
        let n = all.iter().filter_map(|a| if let V::Str(s) = &a[i] { Some(s.len()) } else { None }).max().unwrap_or(0);
        for a in &mut all {
            if let V::Str(s) = &mut a[i] {
                *s += &" ".repeat(n - s.len())
            }
        }
    }
    all.retain(|a| steady(&name, a));
    if all.is_empty() {
        return Ok(());
    }
    cx.input(format!("{} {:?}, in the same memory", name, all.iter().map(|a| show(a)).collect::<Vec<_>>()));
    let t: Vec<(String, Vec<TData>)> = all.iter().map(|a| (name.clone(), a.iter().map(td).collect())).collect();
    let order: Vec<usize> = (0..t.len()).collect();
    let want = fresh(&t, &order)?;
    let f = &defaults(cx).0;
    let mut at = t[0].1.clone();
    for _ in 0..2 {
        for (i, w) in &want {
            for (a, b) in at.iter_mut().zip(&t[*i].1) {
                match (a, b) {
                    (TData::String(a), TData::String(b)) if a.capacity() >= b.len() => {
                        a.clear();
                        a.push_str(b)
                    }
                    (a, b) => *a = b.clone(),
                }
            }
            let g = call(f, &name, &at)?;
            let v = |r: &Result<TData, String>| r.as_ref().map(val).map_err(|e| e.clone());
            agree(&(name.clone(), all[*i].clone()), &v(w), &v(&g), "where others had been before")?;
        }
    }
    cx.add("calls in one memory", 2 * want.len() as u64);
    for a in &all {
        cx.decided(format!("{} {}", name, show(a)).as_bytes());
    }
    Ok(())
}
