//! Text in, template out: that parsing and rendering always come to an end, what literal text and
//! literal values come out as
use super::progs::fm;
use super::util::*;
use crate::conv::*;
use crate::core::*;
use model::ast::*;
use model::gen::{self, Profile, PROFILE};
use model::print::{quote_esc, NOISY, PLAIN};
use model::rng::Rng;
use model::val::{identical, tag, V};
use std::collections::BTreeMap;
use std::str::FromStr;
use templito::func_man::{BasicFuncs, FuncManager};
use templito::temp_man::{BasicTemps, NoTemplates};
use templito::template::{FlatTemplate, TreeTemplate};
use templito::{TData, WithFuncs};

// ---- any text ----

const TOKENS: &[&str] = &[
    "{{", "{{", "{{", "}}", "}}", "}}", "{{-", "-}}", "\"", "\"", "\\", "'", "(", "(", ")", "[", "[", "]", "{", "}",
    "$", ".", "@", "#", "/", ":", ",", ";", "=", "<", ">", "?(", "?", "_", "-", "|", "&", "*", "!", "r#\"", "\"#",
    " ", " ", " ", " ", "\n", "\t", "\r\n", "if", "else", "elif", "for", "in", "switch", "case", "as", "define",
    "global", "let", "export", "@let", "@export", "return", "null", "true", "false", "first", "select", "run", "add",
    "cat", "x", "y", "k", "0", "1", "12", "-3", "1.5", "1e5", "1e999", "99999999999999999999", "3/4/2020", "30/feb/99",
    "1/jan/", "5/13/2000", "\\u00e9", "\\ud83d\\ude00", "\\ud83d", "\\u12", "$0", "$x", ".a", ".0", "$a.b.0", "é", "日本", "😀",
    "\u{a0}", "\u{0}", "\u{2028}", "/if", "/for", "/define", "/let", "/cat", "/switch", "/as", "{{#", "#}}", "\\ \n ", "\\\\",
    "{\"a\":1}", "[1,2]", "(add 1 2)", "{{if true}}", "{{else}}", "{{/if}}", "{{for k v in $0}}", "{{/for}}", "{{@cat}}",
    "{{switch $0}}", "{{case 1}}", "{{case <x:?(eq @ 1)>}}", "{{define d a b}}", "{{let x = 1}}",
];

fn program_text(r: &mut Rng) -> String {
    let p = Profile { size: 4 + r.below(24), ..PROFILE };
    let prog = gen::program(r, p);
    let st = if r.chance(2, 3) { NOISY } else { PLAIN };
    model::print::print(&prog.main.body, r, st)
}

pub fn mutate(r: &mut Rng, s: &str, times: usize) -> String {
    let mut c: Vec<char> = s.chars().collect();
    for _ in 0..times {
        let n = c.len();
        let at = r.below(n + 1);
        match r.below(10) {
            0 | 1 if n > 0 => {
                let k = (1 + r.below(3)).min(n - at.min(n - 1));
                let a = at.min(n - 1);
                c.drain(a..a + k);
            }
            2 => c.truncate(at),
            3 => {
                c.drain(..at);
            }
            4 if n > 1 => {
                let (a, b) = (r.below(n), r.below(n));
                c.swap(a, b)
            }
            5 if n > 0 => {
                // a piece again, somewhere
                let a = r.below(n);
                let b = (a + 1 + r.below(12)).min(n);
                let p: Vec<char> = c[a..b].to_vec();
                c.splice(at..at, p);
            }
            6 => {
                let x = gen::any_char(r);
                c.insert(at, x)
            }
            _ => {
                let t: Vec<char> = r.pick(TOKENS).chars().collect();
                c.splice(at..at, t);
            }
        }
    }
    c.into_iter().collect()
}

/// what opens something, and what closes it
const OPEN: &[(&str, &str)] = &[
    ("(", ")"),
    ("[", "]"),
    ("{a:", "}"),
    ("{\"a\":", "}"),
    ("(add 1 ", ")"),
    ("add 1 ", ""),
    ("(first ", " 1)"),
    ("[1,", "]"),
    ("[1 [2] ", "]"),
    ("$x.a ", ""),
    ("(run $x (", "))"),
    ("[(", ")]"),
    ("([{'k':", "}])"),
    ("( ", " )"),
    ("'q' ", ""),
    ("select 1 2 ", ""),
];
const OPEN_PAT: &[(&str, &str)] = &[
    ("[", "]"),
    ("{a:", "}"),
    ("<a:", ">"),
    ("?(", ")"),
    ("?((add ", "))"),
    ("{a b:", "}"),
    ("[_ ", "]"),
    ("{'a b':<x:", ">}"),
];
const OPEN_TAG: &[(&str, &str)] = &[
    ("{{if true}}", "{{/if}}"),
    ("{{if 1}}a{{else}}", "{{/if}}"),
    ("{{for k v in [1]}}", "{{/for}}"),
    ("{{switch 1}}{{case 1}}", "{{/switch}}"),
    ("{{define d}}", "{{/define}}"),
    ("{{global g}}", "{{/global}}"),
    ("{{@cat}}", "{{/cat}}"),
    ("{{@let x}}", "{{/let}}"),
    ("{{@export x}}", "{{/export}}"),
    ("{{as 1:_}}", "{{/as}}"),
    ("{{#", "#}}"),
    ("{{", "}}"),
    ("{{- ", " -}}"),
    ("\\", ""),
    ("\"", "\""),
    ("{", "}"),
    ("{{elif 1}}", ""),
    ("{{if 1}}{{elif 2}}", "{{/if}}"),
    (" \n", ""),
    ("\\ \n", ""),
    ("{{\"", "\"}}"),
    ("{{'", "'}}"),
    ("{{r#\"", "\"#}}"),
    ("{{let x=1}}", ""),
    ("{{let x=", "}}"),
    ("{{case ", "}}"),
];

fn nested(r: &mut Rng, max: usize) -> String {
    let (set, pre, post): (&[(&str, &str)], &str, &str) = match r.below(6) {
        0 => (OPEN, "{{", "}}"),
        1 => {
            let (a, b) = *r.pick(&[
                ("{{let x = ", "}}"),
                ("{{if ", "}}a{{/if}}"),
                ("{{@cat ", "}}a{{/cat}}"),
                ("{{for k v in ", "}}a{{/for}}"),
                ("{{switch ", "}}{{/switch}}"),
                ("{{return ", "}}"),
                ("{{export a = ", ", b = 2}}"),
                ("{{elif ", "}}"),
                ("{{as ", " : _}}{{/as}}"),
                ("{{- ", " -}}"),
            ]);
            (OPEN, a, b)
        }
        2 | 3 => {
            let (a, b) = *r.pick(&[("{{switch 1}}{{case ", "}}{{/switch}}"), ("{{as 1:", "}}{{/as}}")]);
            (OPEN_PAT, a, b)
        }
        _ => (OPEN_TAG, "", ""),
    };
    let k = if r.chance(1, 3) { r.below(12) } else { 12 + r.below(max) };
    let one = *r.pick(set);
    let mixed = r.chance(1, 3);
    let mut s = pre.to_string();
    let mut ends = vec![];
    for _ in 0..k {
        let (a, b) = if mixed { *r.pick(set) } else { one };
        s += a;
        if r.chance(1, 40) {
            s += *r.pick(&[" ", "\n", "1", "x"]);
        }
        ends.push(b);
    }
    s += *r.pick(&["", "1", "x", "\"s\"", "$x", "_", "text", " ", "@", "1.5", "-", "]", ")", "}", "}}"]);
    let close = match r.below(4) {
        0 => 0,
        1 => r.below(k + 1),
        _ => k,
    };
    for b in ends.iter().rev().take(close) {
        s += b;
    }
    if r.chance(4, 5) {
        s += post;
    }
    s
}

pub fn c01(cx: &mut Cx) -> Res {
    let quick = cx.tier == Tier::Quick;
    let r = &mut cx.rng;
    let (kind, s) = match r.below(10) {
        0..=3 => {
            let s = program_text(r);
            let n = 1 + r.some(6);
            ("programs that were changed", mutate(r, &s, n))
        }
        4 | 5 => {
            let n = 1 + r.below(if quick { 30 } else { 60 });
            let mut s = String::new();
            if r.chance(1, 2) {
                s += "{{"
            }
            for _ in 0..n {
                s += *r.pick(TOKENS)
            }
            ("tokens in any order", s)
        }
        6 => {
            let n = r.below(80);
            ("characters in any order", gen::text_of(r, n))
        }
        7 => {
            // around one tag of something that is not quite a literal
            let n = r.below(12);
            let t: String = (0..n)
                .map(|_| *r.pick(&['0', '1', '9', '.', '-', 'e', 'E', '_', '/', '"', '\\', 'u', 'd', '8', 'a', ' ', '+', 'n', '$', '@']))
                .collect();
            ("almost literals", format!("{{{{{}}}}}", t))
        }
        8 => ("deep nesting", nested(r, if quick { 90 } else { 400 })),
        _ => {
            // many on one level
            let n = 1 + r.below(if quick { 120 } else { 600 });
            let one = *r.pick(TOKENS);
            let sep = *r.pick(&["", " ", "\n", ",", "a"]);
            let mut s = if r.chance(2, 3) { "{{".to_string() } else { String::new() };
            for _ in 0..n {
                s += one;
                s += sep;
            }
            if r.chance(1, 2) {
                s += "}}"
            }
            ("long repetitions", s)
        }
    };
    cx.input(format!("{:?}", s));
    let a = parse(&s)?;
    let b = parse(&s)?;
    ensure!(a == b, "parsed to different results: {:?} and {:?}", a, b);
    let f = guard(|| FlatTemplate::from_str(&s).map_err(|e| e.to_string()))?;
    match (&f, &a) {
        (Err(_), Ok(_)) => return fail("it is a template, though its tags do not parse"),
        (Ok(f), _) => {
            let t = guard(|| f.clone().to_tree().map_err(|e| e.to_string()))?;
            ensure!(t == a, "made from the tags it is {:?}, from the text {:?}", t, a);
        }
        _ => {}
    }
    if let Ok(t) = &a {
        ensure!(t.pnames.is_empty(), "a text gave names of parameters: {:?}", t.pnames);
        let _ = guard(|| format!("{:?}", t.clone()))?;
        cx.see("accepted");
    } else {
        cx.see("refused");
    }
    // the readers of data see the same
    let d = guard(|| TData::from_str(&s).map_err(|e| e.to_string()))?;
    let j = call(fm(cx), "r_json", &[TData::String(s.clone())])?;
    ensure!(
        match (&d, &j) {
            (Ok(a), Ok(b)) => identical(&val(a), &val(b)),
            (Err(_), Err(_)) => true,
            _ => false,
        },
        "as data it is {:?} and {:?}",
        d,
        j
    );
    cx.see(kind);
    cx.max("max length", s.len() as u64);
    cx.decided(s.as_bytes());
    cx.sample(|| format!("{:?}: {}", s, if a.is_ok() { "accepted" } else { "refused" }));
    Ok(())
}

// ---- any execution ----

/// What is defined as standard, from the descriptions
pub fn names(f: &BasicFuncs) -> Vec<String> {
    let v = std::cell::RefCell::new(vec![]);
    f.for_each(|k, _| v.borrow_mut().push(k.clone()));
    v.into_inner()
}

pub fn defaults(cx: &mut Cx) -> (&BasicFuncs, &Vec<String>) {
    let e = cx
        .keep
        .entry("defaults")
        .or_insert_with(|| {
            let f = templito::func_man::default_func_man();
            let mut n = names(&f);
            // which writes to the error output
            n.retain(|n| n != "debug");
            Box::new((f, n))
        })
        .downcast_ref::<(BasicFuncs, Vec<String>)>()
        .unwrap();
    (&e.0, &e.1)
}

pub fn hostile_arg(r: &mut Rng, name: &str, i: usize) -> V {
    let v = match (name, i) {
        ("regex", 1) | ("scan_dir", 2) if r.chance(2, 3) => V::Str(
            (0..r.below(8))
                .map(|_| *r.pick(&["a", "(", ")", "[", "]", "*", "+", "?", "{2}", "|", "\\", ".", "^", "$", "(?i)", "é", "\\d", "[a-", "(?P<n>", "{9,1}", "\\p{L}", "\\x"]))
                .collect(),
        ),
        ("md", _) if r.chance(3, 4) => V::Str(
            (0..r.below(16))
                .map(|_| {
                    *r.pick(&[
                        "*", "_", "`", "```", "\n", "\n\n", "# ", "- ", "1. ", "> ", "    ", "\t", "[", "]", "(", ")", "![", "](", "<", ">", "<b>",
                        "&amp;", "&", "|", "|-|", "| a | b |\n|---|---|\n", "[^1]", "[^1]: ", "[a]: /b \"t\"", "~~", "---", "===", "\\", "a", "b c", "é", "日", "\u{0}",
                        "http://a.b", "<!--", "-->", "- [ ] ", "- [x] ", "\r\n", "\u{a0}", "***", ":", "\"",
                    ])
                })
                .collect(),
        ),
        ("table", 0) if r.chance(3, 4) => V::Str(
            (0..r.below(16)).map(|_| *r.pick(&["|", "|", "*", "-", "\n", "a", "é", " ", "*|", "-|", "*-|", "|\n", "\t", "\\"])).collect(),
        ),
        ("r_card", 0) if r.chance(3, 4) => V::Str(
            (0..r.below(16))
                .map(|_| *r.pick(&["a", " 2*", "3*", "\n", "\n\n", ":", "[", "]", "{", "}", "\"", ",", "#", "-", "12", "b : c\n", "a 2*\n", " ", "é", "*", "\\", "99999999999999999999", "-9999999999999999999"]))
                .collect(),
        ),
        ("r_json", 0) if r.chance(3, 4) => V::Str((0..r.below(14)).map(|_| *r.pick(TOKENS)).collect()),
        ("filter", 1) if r.chance(1, 2) => V::Str((0..r.below(8)).map(|_| *r.pick(TOKENS)).collect()),
        ("from_base64", 0) if r.chance(2, 3) => V::Str((0..r.below(12)).map(|_| *r.pick(&['A', 'z', '0', '+', '/', '=', '-', '_', '\n', 'é'])).collect()),
        ("word_wrap", 0) if r.chance(2, 3) => V::Str(gen::text_of(r, 60)),
        ("string_from_ints", _) if r.chance(1, 2) => V::UInt(*r.pick(&[0xD7FF, 0xD800, 0xDFFF, 0xE000, 0x10FFFF, 0x110000, 1 << 32, u64::MAX])),
        ("rand", 0) if r.chance(1, 3) => V::List(vec![]),
        _ => wild(r, 2),
    };
    v
}

fn shaped_num(r: &mut Rng, n: usize) -> V {
    let k = match r.below(8) {
        0 => return wild_num(r),
        1 => r.u64() >> r.below(64),
        2 => u64::MAX - r.below(4) as u64,
        3 => n as u64,
        4 => n as u64 + 1,
        5 => n.saturating_sub(1) as u64,
        _ => r.below(n + 2) as u64,
    };
    match r.below(5) {
        0 => V::Int(k as i64),
        _ => V::UInt(k),
    }
}

fn wild_num(r: &mut Rng) -> V {
    match r.below(3) {
        0 => V::Int(gen::hostile_int(r)),
        1 => V::UInt(gen::hostile_uint(r)),
        _ => V::Float(gen::hostile_float(r)),
    }
}

/// Arguments of the kinds that a function is there for, at and around the bounds that matter to it
pub fn shaped_args(r: &mut Rng, name: &str) -> Option<Vec<V>> {
    let list = |r: &mut Rng| -> Vec<V> {
        let n = *r.pick(&[0, 1, 2, 3, 3, 5, 8]);
        (0..n).map(|_| if r.chance(1, 3) { wild(r, 1) } else { V::UInt(r.some(5) as u64) }).collect()
    };
    let text = |r: &mut Rng| if r.chance(1, 6) { String::new() } else { gen::text_of(r, 14) };
    let rec = |r: &mut Rng| -> V {
        let mut m = std::collections::BTreeMap::new();
        for k in ["a", "b", "c"] {
            if r.chance(3, 4) {
                m.insert(k.to_string(), if r.chance(1, 3) { wild(r, 1) } else { shaped_num(r, 2) });
            }
        }
        V::Map(m)
    };
    let part = |r: &mut Rng, s: &str| -> String {
        let c: Vec<char> = s.chars().collect();
        let a = r.below(c.len() + 1);
        let b = a + r.below((c.len() - a).min(3) + 1);
        c[a..b].iter().collect()
    };
    Some(match name {
        "slice" | "get" => {
            let (v, n) = match r.below(3) {
                0 => {
                    let s = text(r);
                    let n = s.len();
                    (V::Str(s), n)
                }
                _ => {
                    let l = list(r);
                    let n = l.len();
                    (V::List(l), n)
                }
            };
            let k = if name == "get" { 1 } else { 1 + r.below(2) };
            let mut a = vec![v];
            a.extend((0..k).map(|_| shaped_num(r, n)));
            a
        }
        "groups" => {
            let l = list(r);
            vec![shaped_num(r, l.len()), V::List(l)]
        }
        "index_of" => {
            let l = list(r);
            vec![if l.is_empty() || r.chance(1, 3) { wild(r, 1) } else { r.pick(&l).clone() }, V::List(l)]
        }
        "sort" | "append" | "len" | "rand" if r.chance(2, 3) => (0..1 + r.below(2)).map(|_| V::List(list(r))).collect(),
        // mostly a range of one type, of any width
        "rand" if r.chance(2, 3) => {
            let mut a = match r.below(3) {
                0 => vec![V::Int(gen::hostile_int(r)), V::Int(gen::hostile_int(r))],
                1 => vec![V::UInt(gen::hostile_uint(r)), V::UInt(gen::hostile_uint(r))],
                _ => vec![V::Float(gen::hostile_float(r)), V::Float(gen::hostile_float(r))],
            };
            let down = match (&a[0], &a[1]) {
                (V::Int(x), V::Int(y)) => x > y,
                (V::UInt(x), V::UInt(y)) => x > y,
                (V::Float(x), V::Float(y)) => x > y,
                _ => false,
            };
            if down && r.chance(3, 4) {
                a.swap(0, 1)
            }
            a
        }
        "rand" => (0..1 + r.below(2)).map(|_| shaped_num(r, 3)).collect(),
        "sort_on" | "bin_search" | "bin_get" => {
            let n = r.below(30);
            let mut a = vec![V::List((0..n).map(|_| rec(r)).collect())];
            if name != "sort_on" {
                a.push(rec(r));
            }
            for _ in 0..1 + r.below(2) {
                a.push(V::Str(r.pick(&["a", "-a", "b", "-b", "a.0", "c", "-c.a", "0", "x"]).to_string()));
            }
            a
        }
        "word_wrap" => {
            let s = gen::text_of(r, 40);
            let n = s.chars().count();
            vec![V::Str(s), if r.chance(1, 2) { V::UInt(r.below(12) as u64) } else { shaped_num(r, n) }]
        }
        "str_replace" | "str_replace_n" | "str_contains" | "split" => {
            let s = gen::text_of(r, 20);
            let p = part(r, &s);
            let mut a = vec![V::Str(s), V::Str(p)];
            if name.starts_with("str_replace") {
                a.push(V::Str(text(r)));
                if name == "str_replace_n" && r.chance(3, 4) {
                    a.push(shaped_num(r, 2));
                }
            }
            a
        }
        "add" | "sub" | "mul" | "div" | "mod" | "min" | "max" | "xy" | "xywh" | "xy12" | "cxyrr" | "gt" | "lt" | "gte" | "lte" | "eq" => {
            (0..1 + r.some(4)).map(|_| if r.chance(1, 2) { wild_num(r) } else { shaped_num(r, 1) }).collect()
        }
        "join_with" => vec![V::Str(text(r)), V::List(list(r))],
        "filter" => {
            let e = r.pick(&["gt $0 2", "$0", "mul $0 9223372036854775807", "eq $0.a 1", "first $0", "div 5 $0", "get $0 1", "slice $0 1", "run $0"]).to_string();
            vec![V::List(list(r)), V::Str(e)]
        }
        "with_ext" | "parent" | "base_name" | "stem" | "full_stem" | "join" | "bread_crumbs" | "base_name_sure" => (0..1 + r.below(2))
            .map(|_| V::Str((0..r.below(7)).map(|_| *r.pick(&["/", "/", ".", "..", "a", "b.c", "é", "~", "\0", " ", "./", "-"])).collect()))
            .collect(),
        _ => return None,
    })
}

pub fn c02(cx: &mut Cx) -> Res {
    match cx.rng.below(10) {
        0..=5 => hostile_call(cx),
        6 | 7 => hostile_expr(cx),
        _ => hostile_text(cx),
    }
}

/// The same in large: long texts, lists and paths, deep values, or many arguments
fn large_args(cx: &mut Cx, name: &str, mut a: Vec<V>) -> Vec<V> {
    cx.see("large arguments");
    let r = &mut cx.rng;
    if r.chance(1, 4) {
        let n = r.big(2_000);
        let first = a.first().cloned();
        a = (0..n).map(|i| hostile_arg(r, name, i.min(3))).collect();
        if let (Some(f), Some(x)) = (first, a.first_mut()) {
            *x = f;
        }
        return a;
    }
    if a.is_empty() {
        a.push(hostile_arg(r, name, 0));
    }
    let i = if r.chance(2, 3) { 0 } else { r.below(a.len()) };
    let n = 1 + r.big(20_000);
    let again = |r: &mut Rng| hostile_arg(r, name, i);
    a[i] = match (&a[i], r.below(8)) {
        (_, 0) => {
            let mut v = again(r);
            for k in 0..n.min(300) {
                v = if r.chance(1, 2) { V::List(vec![v]) } else { V::Map([(format!("k{}", k % 3), v)].into_iter().collect()) };
            }
            v
        }
        (V::Str(one), k) => {
            let one = one.clone();
            let mut s = String::new();
            while s.len() < n {
                match k {
                    1 | 2 if !one.is_empty() => s += &one,
                    _ => match again(r) {
                        V::Str(t) => s += &t,
                        _ => s.push(gen::any_char(r)),
                    },
                }
                s.push_str(if r.chance(1, 4) { " " } else { "" });
                if r.chance(1, 200) {
                    s.push('\n')
                }
            }
            V::Str(s)
        }
        (V::Bytes(_), _) => V::Bytes((0..n).map(|i| (i * i >> 3) as u8).collect()),
        (V::Map(_), _) => V::Map((0..n / 8).map(|i| (format!("k{}", i), again(r))).collect()),
        (V::List(l), k) if !l.is_empty() && k < 5 => {
            let l = l.clone();
            V::List((0..n / 8).map(|_| r.pick(&l).clone()).collect())
        }
        _ => V::List((0..n / 8).map(|_| again(r)).collect()),
    };
    a
}

fn hostile_call(cx: &mut Cx) -> Res {
    let name = {
        let i = cx.rng.u64() as usize;
        let (_, n) = defaults(cx);
        n[i % n.len()].clone()
    };
    let r = &mut cx.rng;
    let n = match r.below(12) {
        0 => 0,
        1..=4 => 1,
        5..=8 => 2,
        9 | 10 => 3,
        _ => 4 + r.below(4),
    };
    let a: Vec<V> = match r.chance(1, 2) {
        true => shaped_args(r, &name),
        false => None,
    }
    .unwrap_or_else(|| (0..n).map(|i| hostile_arg(r, &name, i)).collect());
    let a = if r.chance(1, 100) { large_args(cx, &name, a) } else { a };
    cx.input(format!("{} {}", name, show(&a)));
    let (f, _) = defaults(cx);
    let g = call_v(f, &name, &a)?;
    let g2 = call_v(f, &name, &a)?;
    if name != "rand" && !has_map(&V::List(a.clone())) {
        ensure!(
            match (&g, &g2) {
                (Ok(a), Ok(b)) => {
                    identical(a, b)
                }
                (Err(_), Err(_)) => true,
                _ => false,
            },
            "called twice it gave {} and {}",
            show_r(&g),
            show_r(&g2)
        );
    }
    cx.see(if g.is_ok() { "calls that gave a value" } else { "calls that failed" });
    cx.see(&format!("called {}", name));
    cx.decided(format!("{} {}", name, show(&a)).as_bytes());
    cx.sample(|| format!("{} {} -> {}", name, show(&a), show_r(&g)));
    Ok(())
}

pub fn has_map(v: &V) -> bool {
    match v {
        V::Map(_) => true,
        V::List(l) => l.iter().any(has_map),
        _ => false,
    }
}

fn lit_of(r: &mut Rng, v: &V) -> Option<String> {
    let nd = vec![Nd::Exp(Ex::Lit(v.clone()))];
    let t = if has_literal(v) { model::print::print(&nd, r, PLAIN) } else { return None };
    Some(t[2..t.len() - 2].trim().to_string())
}

fn hostile_ex(r: &mut Rng, names: &[String], depth: usize, params: &mut Vec<V>) -> String {
    if depth == 0 || r.chance(1, 4) {
        return match r.below(6) {
            0 if !params.is_empty() => {
                let i = r.below(params.len() + 1);
                format!("${}{}", i, r.pick(&["", ".a", ".0", ".a.1", ".'two words'", ".18446744073709551615"]))
            }
            1 => r.pick(&["$x", "$x.a.0", ".0", ".a", "@", "$18446744073709551615", "$'a b'", "$return"]).to_string(),
            2 => {
                params.push(wild(r, 2));
                format!("${}", params.len() - 1)
            }
            _ => {
                let v = wild(r, 1);
                match lit_of(r, &v) {
                    Some(s) => s,
                    None => {
                        params.push(v);
                        format!("${}", params.len() - 1)
                    }
                }
            }
        };
    }
    match r.below(10) {
        0 => {
            let n = r.some(4);
            let l: Vec<String> = (0..n).map(|_| hostile_ex(r, names, depth - 1, params)).collect();
            format!("[{}]", l.join(", "))
        }
        1 => {
            let n = r.some(3);
            let l: Vec<String> = (0..n).map(|i| format!("k{}: {}", i, hostile_ex(r, names, depth - 1, params))).collect();
            format!("{{{}}}", l.join(", "))
        }
        _ => {
            let f = if r.chance(1, 6) {
                r.pick(&["first", "select", "run", "nosuch", "g", "h"]).to_string()
            } else {
                r.pick(names).clone()
            };
            let n = r.some(4);
            let mut s = format!("({}", f);
            for i in 0..n {
                s.push(' ');
                if r.chance(1, 3) {
                    let v = hostile_arg(r, &f, i);
                    match lit_of(r, &v) {
                        Some(l) => s += &l,
                        None => {
                            params.push(v);
                            s += &format!("${}", params.len() - 1);
                        }
                    }
                } else {
                    s += &hostile_ex(r, names, depth - 1, params);
                }
            }
            s + ")"
        }
    }
}

/// Commands within commands, in tags of every kind that do not repeat anything
fn hostile_expr(cx: &mut Cx) -> Res {
    let names = defaults(cx).1.clone();
    let mut params = vec![];
    let r = &mut cx.rng;
    let n = 1 + r.some(4);
    let mut s = "{{global g a b}}{{$a}}{{$0.a}}{{return $b}}{{/global}}{{define h}}{{first $0 1}}{{/define}}".to_string();
    for _ in 0..n {
        let e = hostile_ex(r, &names, 3, &mut params);
        match r.below(9) {
            0 => s += &format!("{{{{let x = {}}}}}", e),
            1 => s += &format!("{{{{export x = {}}}}}", e),
            2 => s += &format!("{{{{if {}}}}}a{{{{else}}}}b{{{{/if}}}}", e),
            3 => s += &format!("{{{{@{} {}}}}}b{{{{$0}}}}{{{{/{}}}}}", "cat", e, "cat"),
            4 => {
                let f = r.pick(&names);
                s += &format!("{{{{@{} {} @}}}}block{{{{/{}}}}}", f, e, f)
            }
            5 => s += &format!("{{{{switch {}}}}}{{{{case ?{}}}}}f{{{{case [<a:_> _] {{a}}}}}}l{{{{case <y:_>}}}}{{{{$y}}}}{{{{/switch}}}}", e, "(eq @ $x)"),
            6 => s += &format!("{{{{return {}}}}}", e),
            7 => s += &format!("{{{{run $h {}}}}}{{{{g {}}}}}", e, e),
            _ => s += &format!("{{{{{}}}}}", e),
        }
    }
    cx.input(format!("{:?} with {}", s, show(&params)));
    let t = match parse(&s)? {
        Ok(t) => t,
        Err(_) => {
            cx.skipped += 1;
            return Ok(());
        }
    };
    let p: Vec<TData> = params.iter().map(td).collect();
    let (f, _) = defaults(cx);
    let a = run(&t, &p, &mut BasicTemps::new(), f)?;
    let b = run(&t, &p, &mut NoTemplates, f)?;
    let m = guard(|| t.front_matter(f).len())?;
    cx.see(if a.is_ok() { "templates that rendered" } else { "templates that failed" });
    cx.see(if b.is_ok() { "templates that rendered" } else { "templates that failed" });
    cx.add("front matter entries", m as u64);
    cx.decided(s.as_bytes());
    cx.sample(|| format!("{:?} -> {:?}", s, a));
    Ok(())
}

/// Changed programs that are still programs. There is nothing in them that could go on for long.
fn hostile_text(cx: &mut Cx) -> Res {
    let r = &mut cx.rng;
    let p = Profile { w: [5, 1, 6, 4, 4, 4, 0, 1, 0, 5, 2, 1, 1, 1, 3], size: 4 + r.below(24), ..PROFILE };
    let prog = gen::program(r, p);
    let text = model::print::print(&prog.main.body, r, NOISY);
    let mut s = text.clone();
    for _ in 0..6 {
        let n = 1 + r.some(3);
        let m = mutate(r, &text, n);
        if TreeTemplate::from_str(&m).is_ok() {
            s = m;
            break;
        }
    }
    // a template that runs itself does so for ever, and so do loops over large numbers
    if s.contains("for") || s.contains("global") || s.contains("define") {
        cx.skipped += 1;
        return Ok(());
    }
    cx.input(format!("{:?} with {}", s, show(&prog.params)));
    let mut t = match parse(&s)? {
        Ok(t) => t,
        Err(_) => {
            cx.skipped += 1;
            return Ok(());
        }
    };
    t.pnames = prog.main.params.clone();
    let p: Vec<TData> = prog.params.iter().map(td).collect();
    let env = prog.env();
    if !env.temps.iter().flatten().all(|(_, t)| !format!("{:?}", t.body).contains("For(")) {
        // what these do depends on what they are given
        cx.skipped += 1;
        return Ok(());
    }
    trace_take();
    let a = run(&t, &p, &mut NoTemplates, fm(cx))?;
    trace_take();
    cx.see(if a.is_ok() { "templates that rendered" } else { "templates that failed" });
    cx.see("changed programs");
    cx.decided(s.as_bytes());
    Ok(())
}

// ---- literal text ----

fn wn(c: char) -> bool {
    matches!(c, ' ' | '\t' | '\n' | '\r')
}

struct Tag {
    start: usize,
    len: usize,
    /// trims after it
    close: bool,
    open: bool,
    out: String,
}

/// What a text with these tags comes out as. None: another tag came up, Some(Err): not a template
fn scan(c: &[char], tags: &[Tag], trims: &mut u64) -> Option<Result<String, ()>> {
    let mut i = 0;
    let mut o = String::new();
    let mut found = 0;
    let at = |i: usize, s: &str| s.chars().enumerate().all(|(k, x)| c.get(i + k) == Some(&x));
    while i < c.len() {
        let mut j = i;
        while j < c.len() && wn(c[j]) {
            j += 1
        }
        let tag = if at(j, "{{-") {
            Some(j)
        } else if at(i, "{{") {
            Some(i)
        } else {
            None
        };
        if let Some(p) = tag {
            let t = tags.iter().find(|t| t.start == p)?;
            if t.open != at(p, "{{-") {
                return None;
            }
            *trims += (p - i) as u64;
            found += 1;
            o += &t.out;
            i = p + t.len;
            if t.close {
                while i < c.len() && wn(c[i]) {
                    i += 1;
                    *trims += 1;
                }
            }
            continue;
        }
        match c[i] {
            '\\' => {
                i += 1;
                match c.get(i) {
                    None if found < tags.len() => return None,
                    None => return Some(Err(())),
                    Some(x) if wn(*x) => {
                        while i < c.len() && wn(c[i]) {
                            i += 1
                        }
                        if c.get(i) == Some(&'\\') {
                            i += 1
                        }
                    }
                    Some(x) => {
                        o.push(*x);
                        i += 1
                    }
                }
            }
            x if wn(x) => {
                while i < c.len() && wn(c[i]) {
                    o.push(c[i]);
                    i += 1;
                }
            }
            '{' => {
                o.push('{');
                i += 1
            }
            _ => {
                while i < c.len() && !wn(c[i]) && c[i] != '{' && c[i] != '\\' {
                    o.push(c[i]);
                    i += 1
                }
            }
        }
    }
    // or one of them came to be text
    if found < tags.len() {
        return None;
    }
    Some(Ok(o))
}

fn raw(r: &mut Rng) -> String {
    let n = match r.below(8) {
        0 => 0,
        1 => r.below(40),
        _ => r.many(8, 5_000),
    };
    let mut s = String::new();
    for _ in 0..n {
        // a run of one thing, as long as the longest of texts
        if r.chance(1, 4_000) {
            let x = *r.pick(&[" ", "\n", "\t", "\r\n", " \n", "{ ", "}", "\\{", "\\ \\", "a", "\u{e9}", "-", "#", "\u{a0}"]);
            let k = r.big(9_000);
            s += &x.repeat(k);
        }
        match r.below(16) {
            0 => s += *r.pick(&["\\{", "\\\\", "\\}", "\\a", "\\n", "\\é", "\\\"", "\\-", "\\{\\{", "\\{{"]),
            1 => s += *r.pick(&["\\ ", "\\\n", "\\ \\", "\\\n  \\", "\\\r\n\t\\", "\\ \n \\\\"]),
            2 | 3 => s += *r.pick(&[" ", "  ", "\n", "\t", "\r\n", " \n ", "\r", "\u{a0}", "\u{2003}", "\u{b}", "\u{c}"]),
            4 => s += *r.pick(&["{", "}", "}}", "-}}", "{ {", "-", "--", "{}", "{-", "}-", "{a}"]),
            5 => s += *r.pick(&["\"", "'", "#", "$0", "@", "/if", "$x", "<p>", "&amp;", "r#\"", "null", "else"]),
            _ => s.push(gen::any_char(r)),
        }
    }
    s
}

/// Text, and tags whose output is known
pub fn c03(cx: &mut Cx) -> Res {
    let r = &mut cx.rng;
    // what is given in a parameter is not looked at
    let p0 = raw(r) + *r.pick(&["", "{{$0}}", "{{/if}}", "\\", "  ", "}}", "{{-"]);
    let n = if r.chance(1, 6) { 0 } else { r.many(6, 500) };
    let mut c: Vec<char> = vec![];
    let mut tags = vec![];
    let mut closers: Vec<(String, bool)> = vec![];
    let mut visible = true;
    // (closes, hides)
    for i in 0..=n {
        let t = raw(r);
        c.extend(t.chars());
        if i == n {
            break;
        }
        let lit = raw(r);
        let mut opener = None;
        let (body, out): (String, String) = match r.below(14) {
            0 | 1 => (format!("{}{}{}", "#", raw(r).replace('#', ""), "#"), String::new()),
            2 | 3 => ("$0".into(), p0.clone()),
            4 => ("let x = 1".into(), String::new()),
            5 => ("export y = \"a\"".into(), String::new()),
            6 | 7 if closers.len() < 3 => {
                let (b, e) = *r.pick(&[
                    ("if true", "/if"),
                    ("for k v in [1]", "/for"),
                    ("as 1:_", "/as"),
                    ("@cat", "/cat"),
                ]);
                opener = Some(e.to_string());
                (b.into(), String::new())
            }
            8 | 9 if !closers.is_empty() => (closers.pop().unwrap().0, String::new()),
            10 => ("first $nosuch \"\"".into(), String::new()),
            11 => ("7".into(), "7".into()),
            _ => (quote_esc(r, &lit), lit.clone()),
        };
        let _ = &mut visible;
        if let Some(e) = opener {
            closers.push((e, true))
        }
        let (open, close) = (r.chance(1, 3), r.chance(1, 3));
        let mut t = String::from("{{");
        if open {
            t.push('-')
        }
        if r.chance(1, 2) {
            t += *r.pick(&[" ", "\n", "\t ", "\r\n"]);
        }
        t += &body;
        if r.chance(1, 2) {
            t += *r.pick(&[" ", "\n", "\t ", "\r\n"]);
        }
        if close {
            t.push('-')
        }
        t += "}}";
        tags.push(Tag { start: c.len(), len: t.chars().count(), close, open, out });
        c.extend(t.chars());
    }
    // what is open has to be closed
    while let Some((e, _)) = closers.pop() {
        let t = format!("{{{{{}}}}}", e);
        tags.push(Tag { start: c.len(), len: t.chars().count(), close: false, open: false, out: String::new() });
        c.extend(t.chars());
    }
    let s: String = c.iter().collect();
    cx.input(format!("{:?} with {:?}", s, p0));
    let mut trims = 0;
    let want = match scan(&c, &tags, &mut trims) {
        None => {
            cx.skipped += 1;
            return Ok(());
        }
        Some(w) => w,
    };
    let t = match (parse(&s)?, &want) {
        (Ok(t), Ok(_)) => t,
        (Err(_), Err(())) => {
            cx.see("refused, as it ends within an escape");
            cx.decided(s.as_bytes());
            return Ok(());
        }
        (Ok(_), Err(())) => return fail("accepted, though it ends within an escape"),
        (Err(e), Ok(_)) => return fail(format!("did not parse: {}", e)),
    };
    let want = want.unwrap();
    let got = run(&t, &[TData::String(p0)], &mut NoTemplates, fm(cx))?;
    match got {
        Ok((g, _)) => ensure!(g == want, "output {:?}, expected {:?}", g, want),
        Err(e) => return fail(format!("failed: {}", e)),
    }
    cx.add("characters compared", want.chars().count() as u64);
    cx.add("whitespace trimmed", trims);
    cx.add("tags", tags.len() as u64);
    cx.decided(s.as_bytes());
    cx.sample(|| format!("{:?} -> {:?}", s, want));
    Ok(())
}

// ---- literal values ----

fn dig(r: &mut Rng, s: &str) -> String {
    let mut o = String::new();
    for (i, c) in s.chars().enumerate() {
        if i > 0 && r.chance(1, 12) {
            o.push('_')
        }
        o.push(c)
    }
    o
}

fn gap(r: &mut Rng) -> &'static str {
    if r.chance(1, 3) {
        *r.pick(&[" ", "\n", "\t", "  ", "\r\n"])
    } else {
        ""
    }
}

fn float_lit(r: &mut Rng) -> (String, f64) {
    let long = if r.chance(1, 5) { 40 } else { 6 };
    let n = 1 + r.many(long, 500);
    let mut s: String = (0..n).map(|_| (b'0' + r.below(10) as u8) as char).collect();
    let kind = r.below(3);
    if kind != 1 {
        s.push('.');
        let long = if r.chance(1, 5) { 40 } else { 6 };
        let n = r.many(long, 500);
        s.extend((0..n).map(|_| (b'0' + r.below(10) as u8) as char));
    }
    if kind != 0 {
        s.push(*r.pick(&['e', 'E']));
        s += *r.pick(&["", "-", "+"]);
        let big = if r.chance(1, 5) { 400 } else { 20 };
        s += &r.below(big).to_string();
    }
    if r.chance(1, 3) {
        s.insert(0, '-')
    }
    let f = s.parse().unwrap();
    if r.chance(1, 4) {
        // the whole part may have its digits in groups
        let at = s.find(|c: char| !c.is_ascii_digit() && c != '-').unwrap_or(s.len());
        let sign = s.starts_with('-') as usize;
        let whole = dig(r, &s[sign..at]);
        s.replace_range(sign..at, &whole);
    }
    (s, f)
}

const MONTHS: [&str; 12] = ["jan", "feb", "mar", "apr", "may", "jun", "jul", "aug", "sep", "oct", "nov", "dec"];

/// A literal, and what it stands for. `json`: keys of maps are strings, and items have commas
fn literal(r: &mut Rng, depth: usize, json: bool) -> (String, V) {
    match r.below(if depth > 0 { 12 } else { 9 }) {
        0 => ("null".into(), V::Null),
        1 => {
            let b = r.chance(1, 2);
            (b.to_string(), V::Bool(b))
        }
        2 | 3 => {
            let n = gen::hostile_uint(r);
            let s = format!("{}{}", if r.chance(1, 100) { "0".repeat(r.below(300)) } else { r.pick(&["", "", "", "0", "00"]).to_string() }, n);
            (dig(r, &s), V::UInt(n))
        }
        4 => {
            let n = match gen::hostile_int(r) {
                n if n > 0 => -n,
                n => n,
            };
            let s = n.unsigned_abs().to_string();
            (format!("-{}", dig(r, &s)), V::Int(n))
        }
        5 => {
            if r.chance(1, 2) {
                let f = loop {
                    let f = gen::hostile_float(r);
                    if f.is_finite() {
                        break f;
                    }
                };
                let s = match r.below(3) {
                    0 => format!("{:?}", f),
                    1 => format!("{:e}", f),
                    _ => {
                        let s = format!("{}", f);
                        if s.contains('.') {
                            s
                        } else {
                            s + ".0"
                        }
                    }
                };
                (s, V::Float(f))
            } else {
                let (s, f) = float_lit(r);
                (s, V::Float(f))
            }
        }
        6 => {
            let y = if r.chance(1, 4) { *r.pick(&[0, 1, 99, 1582, 9999]) } else { r.range(1600, 2400) as i32 };
            let m = 1 + r.below(12) as u32;
            let d = 1 + r.below(days(y, m) as usize) as u32;
            let ms = if r.chance(1, 2) { MONTHS[m as usize - 1].to_string() } else { format!("{}{}", r.pick(&["", "0"]), m) };
            (format!("{}{}/{}/{}", r.pick(&["", "", "0"]), d, ms, y), V::Date(y, m, d))
        }
        7 | 8 => {
            let n = 12 + r.many(1, 20_000);
            let s = if r.chance(1, 2) { gen::text_of(r, n) } else { gen::word(r) };
            let t = if !json && r.chance(1, 5) && !s.contains("\"#") && !s.ends_with('"') {
                format!("r#\"{}\"#", s)
            } else {
                quote_esc(r, &s)
            };
            (t, V::Str(s))
        }
        9 | 10 => {
            let n = r.many(5, 3_000);
            let mut s = format!("[{}", gap(r));
            let mut l = vec![];
            for i in 0..n {
                let (t, v) = literal(r, depth - 1, json);
                s += &t;
                s += gap(r);
                l.push(v);
                if i + 1 < n {
                    s += if json || r.chance(2, 3) { "," } else { " " };
                    s += gap(r);
                }
            }
            (s + "]", V::List(l))
        }
        _ => {
            let n = r.many(4, 1_000);
            let mut s = format!("{{{}", gap(r));
            let mut m = BTreeMap::new();
            for i in 0..n {
                let (t, v) = literal(r, depth - 1, json);
                let k = format!("{}{}", gen::key(r), if r.chance(1, 4) { "" } else { *r.pick(&["1", "\n", "é", "\"", "\\"]) });
                let bare = !json && k.starts_with(|c: char| c.is_ascii_alphabetic()) && k.chars().all(|c| c.is_ascii_alphanumeric());
                s += &match r.below(3) {
                    0 if bare => k.clone(),
                    1 if !json && simple_key(&k) => format!("'{}'", k),
                    _ => quote_esc(r, &k),
                };
                s += gap(r);
                s += ":";
                s += gap(r);
                s += &t;
                s += gap(r);
                m.insert(k, v);
                if i + 1 < n {
                    s += ",";
                    s += gap(r);
                }
            }
            (s + "}", V::Map(m))
        }
    }
}

fn days(y: i32, m: u32) -> u32 {
    match m {
        2 if (y % 4 == 0 && y % 100 != 0) || y % 400 == 0 => 29,
        2 => 28,
        4 | 6 | 9 | 11 => 30,
        _ => 31,
    }
}

fn bad_literal(r: &mut Rng) -> String {
    match r.below(6) {
        0 => {
            // integers that do not fit
            let n: String = (0..20 + r.below(10)).map(|_| (b'2' + r.below(8) as u8) as char).collect();
            r.pick(&["18446744073709551616", "18446744073709551617", "-9223372036854775809", &n, &format!("-{}", n)]).to_string()
        }
        1 => {
            let y = r.range(1, 3000) as i32;
            let m = 1 + r.below(12) as u32;
            let d = days(y, m) + 1 + r.below(5) as u32;
            let ms = if r.chance(1, 2) { MONTHS[m as usize - 1].to_string() } else { m.to_string() };
            format!("{}/{}/{}", d, ms, y)
        }
        2 => format!("{}/{}/{}", r.below(40), r.pick(&["13", "0", "99", "foo", "janu", ""]), r.below(3000)),
        3 => format!("0/{}/{}", 1 + r.below(12), r.below(3000)),
        4 => format!("\"a{}b\"", r.pick(&["\\q", "\\u12", "\\ud800", "\\udc00", "\\ud800\\u0041", "\\x41", "\\u{41}", "\\0"])),
        _ => r.pick(&["\"abc", "[1,2", "{\"a\":1", "r#\"abc\"", "{\"a\" 1}", "{1:2}", "[1,,2]", "'abc", "[1}", "(1", "{\"a\":}"]).to_string(),
    }
}

/// Names that begin as a literal does, or look like one elsewhere, are names
fn nearly_literal(cx: &mut Cx) -> Res {
    let r = &mut cx.rng;
    let name = match r.below(3) {
        0 => r.pick(&["NULL", "Null", "None", "nil", "True", "TRUE", "FALSE", "False", "yes", "inf", "nan", "NaN", "infinity", "e5", "x1F", "jan", "dec", "b", "r"]).to_string(),
        1 => format!("{}{}", r.pick(&["null", "true", "false"]), r.pick(&["x", "1", "_", "null", "true", "A", "_1", "e5"])),
        _ => {
            // as it begins, to within its last letter
            let w = *r.pick(&["null", "true", "false"]);
            // (tr is the function the values go to)
            w[..1 + r.below(w.len() - 1)].replace("tr", "tru").replace("truu", "tru").to_string()
        }
    };
    let text = match r.below(4) {
        0 => format!("{{{{global {0}}}}}T{{{{/global}}}}{{{{tr ({0})}}}}", name),
        1 => format!("{{{{global {0} a}}}}T{{{{/global}}}}{{{{tr ({0} 1)}}}}", name),
        2 => format!("{{{{define {0}}}}}T{{{{/define}}}}{{{{tr (run ${0})}}}}", name),
        _ => format!("{{{{global {0}}}}}T{{{{/global}}}}{{{{for k v in [({0})]}}}}{{{{tr $v}}}}{{{{/for}}}}", name),
    };
    cx.input(text.clone());
    let t = match parse(&text)? {
        Ok(t) => t,
        Err(e) => return fail(format!("{:?} did not parse: {}", text, e)),
    };
    trace_take();
    let g = run(&t, &[], &mut templito::temp_man::BasicTemps::new(), fm(cx))?.map(|g| g.0);
    let tr = trace_take();
    ensure!(tr == vec![format!("tr({})", tag(&V::Str("T".into())))], "{:?} is {:?}, gave {:?}", text, tr, g);
    cx.see("names that are nearly literals");
    cx.decided(text.as_bytes());
    Ok(())
}

pub fn c26(cx: &mut Cx) -> Res {
    if cx.rng.chance(1, 40) {
        return nearly_literal(cx);
    }
    if cx.rng.chance(1, 8) {
        let s = bad_literal(&mut cx.rng);
        cx.input(s.clone());
        for t in [format!("{{{{ {}}}}}", s), format!("{{{{cat 1 {}}}}}", s), format!("{{{{let x = [{}]}}}}", s)] {
            let p = parse(&t)?;
            ensure!(p.is_err(), "{:?} is a template", t);
        }
        let d = guard(|| TData::from_str(&s).map(|d| format!("{:?}", d)).ok())?;
        ensure!(d.is_none(), "{:?} was read as {:?}", s, d);
        cx.see("literals refused");
        cx.decided(s.as_bytes());
        return Ok(());
    }
    let json = cx.rng.chance(1, 3);
    let (s, v) = literal(&mut cx.rng, 2, json);
    cx.input(s.clone());
    // in a template
    let in_let = cx.rng.chance(1, 3);
    let text = if in_let { format!("{{{{let x = {}}}}}{{{{tr $x}}}}", s) } else { format!("{{{{tr {}}}}}", s) };
    let t = match parse(&text)? {
        Ok(t) => t,
        Err(e) => return fail(format!("{:?} did not parse: {}", text, e)),
    };
    trace_take();
    let g = run(&t, &[], &mut NoTemplates, fm(cx))?;
    let tr = trace_take();
    ensure!(tr == vec![format!("tr({})", tag(&v))], "{:?} is {:?}, expected {}", text, tr, tag(&v));
    if v.has_display() {
        let g = g.map(|x| x.0);
        ensure!(g.as_ref().ok() == Some(&v.to_string()), "{:?} prints {:?}, expected {:?}", text, g, v.to_string());
        cx.see("printed forms");
    }
    // as data
    let bare = !json && matches!(v, V::List(_) | V::Map(_));
    if !bare {
        let d = guard(|| TData::from_str(&s).map_err(|e| e.to_string()))?;
        match d {
            Ok(d) => ensure!(identical(&val(&d), &v), "{:?} was read as {}, expected {}", s, tag(&val(&d)), tag(&v)),
            Err(e) => return fail(format!("{:?} could not be read: {}", s, e)),
        }
        cx.see("read as data");
    }
    // what is printed is a literal again
    match &v {
        V::Int(_) | V::UInt(_) | V::Bool(_) | V::Date(..) => {
            let p = td(&v).to_string();
            let d = guard(|| TData::from_str(&p).ok().map(|d| val(&d)))?;
            ensure!(
                d.as_ref().map_or(false, |d| model::val::veq(d, &v)),
                "{} prints as {:?}, which is {:?}",
                tag(&v),
                p,
                d
            );
            cx.see("printed and read again");
        }
        V::Str(x) => ensure!(td(&v).to_string() == *x, "printed with a change"),
        _ => {}
    }
    // as a pattern
    if !matches!(v, V::List(_) | V::Map(_)) {
        let text = format!("{{{{switch $0}}}}{{{{case {}}}}}same{{{{case _}}}}other{{{{/switch}}}}", s);
        let t = match parse(&text)? {
            Ok(t) => t,
            Err(e) => return fail(format!("{:?} did not parse: {}", text, e)),
        };
        let other = near(&mut cx.rng, &v);
        for x in [v.clone(), other] {
            let w = if model::val::veq(&x, &v) { "same" } else { "other" };
            let g = run(&t, &[td(&x)], &mut NoTemplates, fm(cx))?.map(|g| g.0);
            ensure!(g.as_ref().ok().map(|s| s.as_str()) == Some(w), "{:?} with {} gave {:?}, expected {:?}", text, tag(&x), g, w);
        }
        cx.see("as patterns");
    }
    cx.see(match &v {
        V::Null => "null",
        V::Bool(_) => "booleans",
        V::Int(_) => "negative integers",
        V::UInt(_) => "integers",
        V::Float(_) => "floats",
        V::Str(_) => "strings",
        V::Date(..) => "dates",
        V::List(_) => "lists",
        _ => "maps",
    });
    cx.decided(s.as_bytes());
    cx.sample(|| format!("{:?} -> {}", s, tag(&v)));
    Ok(())
}
