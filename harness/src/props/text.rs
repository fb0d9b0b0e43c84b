//! Texts: json, escaping, strings, wrapping, tables, paths, markdown, svg, cards
use super::progs::fm;
use super::util::*;
use crate::conv::*;
use crate::core::*;
use model::ast::*;
use model::gen::{self};
use model::interp::{expr, Env, Scope, Stop};
use model::print::{Printer, NOISY, PLAIN};
use model::rng::Rng;
use model::val::*;
use std::collections::BTreeMap;

fn ok(cx: &mut Cx, name: &str, args: &[V]) -> Result<V, Violation> {
    match call1(cx, name, args)? {
        Ok(v) => Ok(v),
        Err(e) => fail(format!("{} failed: {}", name, e)),
    }
}

fn ok_s(cx: &mut Cx, name: &str, args: &[V]) -> Result<String, Violation> {
    match ok(cx, name, args)? {
        V::Str(s) => Ok(s),
        v => fail(format!("{} gave {}, not a string", name, tag(&v))),
    }
}

fn no(cx: &mut Cx, name: &str, args: &[V]) -> Res {
    match call1(cx, name, args)? {
        Ok(v) => fail(format!("{} gave {}, expected a failure", name, tag(&v))),
        Err(_) => Ok(()),
    }
}

// ---- json ----

fn jws(r: &mut Rng) -> &'static str {
    if r.chance(1, 3) {
        *r.pick(&[" ", "\n", "\t", "\r\n", "  \n  "])
    } else {
        ""
    }
}

fn jstr(r: &mut Rng, s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        let esc = r.chance(1, 12);
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            '\r' => o += "\\r",
            '\t' => o += "\\t",
            '\u{8}' => o += "\\b",
            '\u{c}' => o += "\\f",
            '/' if esc => o += "\\/",
            c if esc || (c as u32) < 32 => {
                let mut b = [0u16; 2];
                for u in c.encode_utf16(&mut b) {
                    if r.chance(1, 2) {
                        o += &format!("\\u{:04x}", u);
                    } else {
                        o += &format!("\\u{:04X}", u);
                    }
                }
            }
            c => o.push(c),
        }
    }
    o + "\""
}

/// A json text
fn json(r: &mut Rng, v: &V) -> String {
    match v {
        V::Null => "null".into(),
        V::Bool(b) => b.to_string(),
        V::Int(n) => n.to_string(),
        V::UInt(n) => n.to_string(),
        V::Float(f) => match r.below(3) {
            0 => format!("{:e}", f).replace('e', if r.chance(1, 2) { "e" } else { "E" }),
            1 => {
                let s = format!("{:?}", f);
                match s.split_once('e') {
                    Some((a, b)) if !b.starts_with('-') => format!("{}e+{}", a, b),
                    _ => s,
                }
            }
            _ => format!("{:?}", f),
        },
        V::Str(s) => jstr(r, s),
        V::List(l) => {
            let mut o = String::from("[");
            for (i, x) in l.iter().enumerate() {
                if i > 0 {
                    o.push(',');
                }
                o += jws(r);
                o += &json(r, x);
                o += jws(r);
            }
            if l.is_empty() {
                o += jws(r);
            }
            o + "]"
        }
        V::Map(m) => {
            let mut o = String::from("{");
            for (i, (k, x)) in m.iter().enumerate() {
                if i > 0 {
                    o.push(',');
                }
                if r.chance(1, 30) {
                    // said twice, the last one counts (before anything else comes in between, or after)
                    let other = m.values().next_back().unwrap();
                    let early = m.keys().nth(r.below(m.len())).unwrap();
                    let again = if early >= k { early } else { k };
                    o += &format!("{}:{},", jstr(r, again), if r.chance(1, 2) { json(r, other) } else { "0".into() });
                }
                o += jws(r);
                o += &jstr(r, k);
                o += jws(r);
                o.push(':');
                o += jws(r);
                o += &json(r, x);
                o += jws(r);
            }
            if m.is_empty() {
                o += jws(r);
            }
            o + "}"
        }
        v => panic!("no json for {:?}", v),
    }
}

/// What is left of a value that went through json
fn through_json(v: &V) -> V {
    match v {
        V::Int(n) if *n >= 0 => V::UInt(*n as u64),
        V::Float(f) if !f.is_finite() => V::Null,
        V::Date(..) => V::Str(v.to_string()),
        V::Bytes(b) => V::List(b.iter().map(|b| V::UInt(*b as u64)).collect()),
        V::Tmpl(_) => V::Null,
        V::List(l) => V::List(l.iter().map(through_json).collect()),
        V::Map(m) => V::Map(m.iter().map(|(k, v)| (k.clone(), through_json(v))).collect()),
        v => v.clone(),
    }
}

pub fn to_serde(v: &V) -> serde_json::Value {
    use serde_json::Value as S;
    match v {
        V::Null => S::Null,
        V::Bool(b) => S::Bool(*b),
        V::Int(n) => S::from(*n),
        V::UInt(n) => S::from(*n),
        V::Float(f) => serde_json::Number::from_f64(*f).map_or(S::Null, S::Number),
        V::Str(s) => S::String(s.clone()),
        V::List(l) => S::Array(l.iter().map(to_serde).collect()),
        V::Map(m) => S::Object(m.iter().map(|(k, v)| (k.clone(), to_serde(v))).collect()),
        v => to_serde(&through_json(v)),
    }
}

fn deep_value(r: &mut Rng) -> V {
    if r.chance(1, 15) {
        // nested deep, but not broad
        let mut v = gen::value(r, gen::TAME);
        for _ in 0..r.below(60) {
            v = if r.chance(1, 2) {
                V::List(vec![v])
            } else {
                V::Map([(gen::key(r), v)].into_iter().collect())
            };
        }
        return v;
    }
    if r.chance(1, 30) {
        let n = r.below(200);
        return V::List((0..n).map(|_| wild(r, 0)).collect());
    }
    if r.chance(1, 300) {
        // many, or long
        let n = r.big(30_000);
        return match r.below(4) {
            0 => V::List((0..n / 4).map(|_| wild(r, 0)).collect()),
            1 => V::Map((0..n / 8).map(|i| (format!("{}{}", gen::key(r), i), wild(r, 0))).collect()),
            2 => V::List(vec![V::Map([(gen::text_of(r, n), V::Null)].into_iter().collect()), V::UInt(1)]),
            _ => V::Str(if r.chance(1, 2) { gen::text_of(r, n) } else { r.pick(&["a", "é", "\n", "\"", "日", "\\", "\u{1}", "😀"]).repeat(n / 3) + "z" }),
        };
    }
    let d = r.below(4);
    wild(r, d)
}

/// The reader of serde_json is not exact about floats
fn near_json(a: &serde_json::Value, b: &serde_json::Value) -> bool {
    use serde_json::Value::*;
    match (a, b) {
        (Number(x), Number(y)) if x.is_f64() && y.is_f64() => {
            let (x, y) = (x.as_f64().unwrap(), y.as_f64().unwrap());
            x == y || (x.is_sign_negative() == y.is_sign_negative() && (x - y).abs() <= x.abs().max(y.abs()) * 1e-15)
                || (x - y).abs() < 1e-320
        }
        (Array(x), Array(y)) => x.len() == y.len() && x.iter().zip(y).all(|(x, y)| near_json(x, y)),
        (Object(x), Object(y)) => {
            x.len() == y.len() && x.iter().all(|(k, v)| y.get(k).map_or(false, |w| near_json(v, w)))
        }
        _ => a == b,
    }
}

pub fn c15(cx: &mut Cx) -> Res {
    let v = deep_value(&mut cx.rng);
    let want = through_json(&v);
    match cx.rng.below(8) {
        0..=2 => {
            // out, and back
            let s = ok_s(cx, "w_json", &[v.clone()])?;
            let other: serde_json::Value = match serde_json::from_str(&s) {
                Ok(x) => x,
                Err(e) => return fail(format!("w_json gave {:?}, which is not json: {}", s, e)),
            };
            ensure!(near_json(&other, &to_serde(&v)), "w_json gave {}, expected {}", other, to_serde(&v));
            cx.see("json written");
            let back = ok(cx, "r_json", &[V::Str(s.clone())])?;
            ensure!(
                identical(&back, &want),
                "{} came back from json as {}, expected {}",
                s,
                tag(&back),
                tag(&want)
            );
            cx.see("json round trips");
            cx.decided(s.as_bytes());
            cx.sample(|| s.clone());
            if cx.rng.chance(1, 8) {
                // in a template
                let t = match parse("{{let j = w_json $0}}{{tr (r_json $j)}}{{@r_json}}{{w_json $0}}{{/r_json}}")? {
                    Ok(t) => t,
                    Err(e) => return fail(e),
                };
                trace_take();
                let mut tm = templito::temp_man::NoTemplates;
                let got = run(&t, &[td(&v)], &mut tm, fm(cx))?;
                ensure!(got.is_ok(), "failed in a template: {:?}", got);
                let tr = trace_take();
                let w = vec![format!("tr({})", tag(&want))];
                ensure!(tr == w, "in a template: {:?}, expected {:?}", tr, w);
                cx.see("called from a template");
            }
        }
        3 | 4 => {
            // a text of json with any spacing and escapes
            let s = {
                let r = &mut cx.rng;
                let j = json(r, &want);
                format!("{}{}{}", jws(r), j, jws(r))
            };
            let other: serde_json::Value = serde_json::from_str(&s).expect("json of the generator");
            let got = ok(cx, "r_json", &[V::Str(s.clone())])?;
            ensure!(identical(&got, &want), "{:?} was read as {}, expected {}", s, tag(&got), tag(&want));
            // the reader of data of the host is the same for what both have
            cx.input(s.clone());
            let host = guard(|| templito::TData::from_json(other))?;
            ensure!(
                near_json(&to_serde(&val(&host)), &to_serde(&got)),
                "as data of the host it is {}, r_json gives {}",
                tag(&val(&host)),
                tag(&got)
            );
            let direct = guard(|| templito::TData::from_str(&s).map_err(|e| e.to_string()))?;
            ensure!(
                direct.as_ref().map_or(false, |d| identical(&val(d), &got)),
                "from_str and r_json differ"
            );
            cx.see("json read");
            cx.decided(s.as_bytes());
        }
        5 => {
            // not json any more
            let mut s = json(&mut cx.rng, &want);
            let r = &mut cx.rng;
            let closed = s.starts_with(['[', '{', '"']);
            match r.below(7) {
                0 | 1 if closed => {
                    let mut n = 1 + r.below(s.len() - 1);
                    while !s.is_char_boundary(n) {
                        n -= 1;
                    }
                    s.truncate(n);
                    cx.see("json cut short");
                }
                2 => {
                    s += *r.pick(&["]", "}", ":", "\"", "\u{0}", "\\"]);
                    cx.see("json with something after it");
                }
                3 => {
                    s = r.pick(&["", " ", "\n", "[", "{", "]", "}", "\"", "nul", "tru", "{1:2}", "{\"a\"}", "{\"a\":}", "[,]", "[1,,2]", "\"\\x\"", "\"\\u12\"", "\"\\ud800\"", "\"\\udc00\"", "\"\\ud800\\u0041\"", "\"\\", "{\"a\":1 \"b\":2}", "-", "+1", ".5", "{,}", "\"a", "'a'"]).to_string();
                    cx.see("what is not json");
                }
                4 => {
                    s = r.pick(&["18446744073709551616", "99999999999999999999", "-9223372036854775809", "-99999999999999999999"]).to_string();
                    if r.chance(1, 2) {
                        s = format!("[{}]", s);
                    }
                    cx.see("json numbers that do not fit");
                }
                _ if closed => {
                    // one bracket or quote less
                    s.pop();
                    cx.see("json cut short");
                }
                _ => {
                    s += "]";
                    cx.see("json with something after it");
                }
            }
            no(cx, "r_json", &[V::Str(s.clone())])?;
            let d = guard(|| templito::TData::from_str(&s).is_ok())?;
            ensure!(!d, "from_str reads {:?}", s);
            cx.decided(s.as_bytes());
        }
        6 => {
            // several arguments are a list
            let n = cx.rng.some(4);
            let args: Vec<V> = (0..n).map(|_| deep_value(&mut cx.rng)).collect();
            let s = ok_s(cx, "w_json", &args)?;
            let w = match n {
                1 => to_serde(&args[0]),
                _ => to_serde(&V::List(args.clone())),
            };
            let got: Result<serde_json::Value, _> = serde_json::from_str(&s);
            ensure!(got.as_ref().map_or(false, |g| near_json(g, &w)), "w_json gave {}, expected {}", s, w);
            cx.see("json written of several arguments");
            cx.decided(s.as_bytes());
        }
        _ => {
            // what is not text
            if !matches!(v, V::Str(_)) {
                no(cx, "r_json", &[v.clone()])?;
            }
            no(cx, "r_json", &[])?;
            cx.see("json refused");
        }
    }
    Ok(())
}

// ---- escaping ----

fn unescape(s: &str, apos: &[&str]) -> Result<String, String> {
    let mut o = String::new();
    let mut rest = s;
    while let Some(c) = rest.chars().next() {
        match c {
            '&' => {
                let end = rest.find(';').ok_or(format!("no end: {:?}", rest))?;
                o.push(match &rest[..=end] {
                    "&amp;" => '&',
                    "&lt;" => '<',
                    "&gt;" => '>',
                    "&quot;" | "&#34;" => '"',
                    e if apos.contains(&e) => '\'',
                    e => return Err(format!("unknown {:?}", e)),
                });
                rest = &rest[end + 1..];
            }
            '<' | '>' | '"' | '\'' => return Err(format!("{:?} was left in", c)),
            c => {
                o.push(c);
                rest = &rest[c.len_utf8()..];
            }
        }
    }
    Ok(o)
}

fn markup(r: &mut Rng) -> String {
    if r.chance(1, 12) {
        // the whole of it is something that markup has a meaning for
        let (a, z) = *r.pick(&[
            ("<![CDATA[", "]]>"), ("<!--", "-->"), ("<?", "?>"), ("<b>", "</b>"), ("<br ", "/>"), ("&", ";"), ("&#", ";"), ("&#x", ";"),
            ("<!DOCTYPE ", ">"), ("'", "'"), ("\"", "\""), ("<style>", "</style>"), ("<script>", "</script>"), ("<p class=\"x\">", "</p>"),
            ("<svg", "</svg>"), ("raw:", ""), ("javascript:", ""), ("data:text/html,", ""), ("http://x/?a=1&b=", ""), ("{{", "}}"), ("%3C", "%3E"),
        ]);
        let mid = if r.chance(1, 2) { gen::word(r) } else { markup(r) };
        return format!("{}{}{}", a, mid, z);
    }
    let n = r.below(10);
    (0..n)
        .map(|_| match r.below(4) {
            0 => r.pick(&["&", "<", ">", "\"", "'", "&amp;", "&lt;", "&#39;", "&#x27;", "<script>", "'\"", "&&", ";", "&;"]).to_string(),
            1 => gen::any_char(r).to_string(),
            _ => gen::word(r),
        })
        .collect()
}

pub fn c16(cx: &mut Cx) -> Res {
    let f = *cx.rng.pick(&["html_esc", "xml_esc"]);
    let apos: &[&str] = if f == "html_esc" {
        &["&#39;", "&#x27;", "&#039;", "&apos;"]
    } else {
        &["&apos;", "&#39;", "&#x27;"]
    };
    let n = match cx.rng.below(6) {
        0 => 0,
        1 => 2,
        2 => 3,
        _ => 1,
    };
    let args: Vec<V> = (0..n)
        .map(|_| {
            let r = &mut cx.rng;
            if r.chance(5, 6) {
                V::Str(markup(r))
            } else {
                loop {
                    let v = wild(r, 1);
                    if v.has_display() {
                        break v;
                    }
                }
            }
        })
        .collect();
    let plain: String = args.iter().map(|v| v.to_string()).collect();
    let s = ok_s(cx, f, &args)?;
    match unescape(&s, apos) {
        Ok(t) => ensure!(t == plain, "{:?} stands for {:?}, expected {:?}", s, t, plain),
        Err(e) => return fail(format!("{} gave {:?}: {}", f, s, e)),
    }
    cx.add("characters escaped", plain.chars().filter(|c| "&<>\"'".contains(*c)).count() as u64);
    cx.see(f);
    fcheck_loose(cx, f, &args)?;
    // within a template: the value printed is inert, wherever it comes from
    if cx.rng.chance(1, 6) {
        let text = format!("<a t='{{{{{} $0}}}}'>{{{{@{}}}}}{{{{$0}}}}{{{{/{}}}}}</a>", f, f, f);
        let t = match parse(&text)? {
            Ok(t) => t,
            Err(e) => return fail(e),
        };
        cx.input(format!("{:?} with {:?}", text, plain));
        let mut tm = templito::temp_man::NoTemplates;
        match run(&t, &[templito::TData::String(plain.clone())], &mut tm, fm(cx))? {
            Ok((s, _)) => {
                let inner = s.strip_prefix("<a t='").and_then(|s| s.strip_suffix("</a>")).and_then(|s| s.split_once("'>"));
                let (a, b) = match inner {
                    Some(x) => x,
                    None => return fail(format!("output {:?}", s)),
                };
                for x in [a, b] {
                    let u = unescape(x, apos);
                    ensure!(u.as_ref() == Ok(&plain), "{:?} stands for {:?}", x, u);
                }
                cx.see("escaped within a page");
            }
            Err(e) => return fail(format!("failed: {}", e)),
        }
    }
    Ok(())
}

/// as the reference says, or with another spelling of the same character
fn fcheck_loose(cx: &mut Cx, f: &str, args: &[V]) -> Res {
    let all = ["&#39;", "&#x27;", "&#039;", "&apos;"];
    let eq = |a: &V, b: &V| match (a, b) {
        (V::Str(a), V::Str(b)) => unescape(a, &all).ok() == unescape(b, &all).ok(),
        _ => false,
    };
    let mut nd = false;
    let want = model::funcs::call(f, args, &mut nd).unwrap();
    let got = call1(cx, f, args)?;
    if let (Ok(w), Ok(g)) = (&want, &got) {
        ensure!(eq(w, g), "{} gave {}, expected {}", f, tag(g), tag(w));
    }
    cx.decided(format!("{} {}", f, show(args)).as_bytes());
    Ok(())
}

// ---- strings ----

fn base64(b: &[u8]) -> String {
    let abc = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    let mut o = String::new();
    for c in b.chunks(3) {
        let n = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        for i in 0..4 {
            if i <= c.len() {
                o.push(abc[(n >> (18 - 6 * i)) as usize & 63] as char)
            } else {
                o.push('=')
            }
        }
    }
    o
}

/// Regular expressions over a few letters, with a matcher of their own
enum Re {
    C(char),
    Any,
    Set(Vec<char>, bool),
    Cat(Vec<Re>),
    Alt(Vec<Re>),
    Rep(Box<Re>, usize, usize),
    Start,
    End,
}

impl Re {
    fn text(&self) -> String {
        match self {
            Re::C(c) => {
                if c.is_ascii_punctuation() {
                    format!("\\{}", c)
                } else {
                    c.to_string()
                }
            }
            Re::Any => ".".into(),
            Re::Set(s, neg) => {
                format!("[{}{}]", if *neg { "^" } else { "" }, s.iter().collect::<String>())
            }
            Re::Cat(l) => l.iter().map(|x| x.text()).collect(),
            Re::Alt(l) => {
                format!("({})", l.iter().map(|x| x.text()).collect::<Vec<_>>().join("|"))
            }
            Re::Rep(x, a, b) => {
                let op = match (a, b) {
                    (0, 1) => "?".to_string(),
                    (0, 9999) => "*".into(),
                    (1, 9999) => "+".into(),
                    (a, b) => format!("{{{},{}}}", a, b),
                };
                format!("(?:{}){}", x.text(), op)
            }
            Re::Start => "^".into(),
            Re::End => "$".into(),
        }
    }
    /// positions after a match that starts at one of `at`
    fn ends(&self, s: &[char], at: &[bool]) -> Vec<bool> {
        let n = s.len();
        let mut out = vec![false; n + 1];
        let one = |p: &dyn Fn(char) -> bool, out: &mut Vec<bool>| {
            for i in 0..n {
                if at[i] && p(s[i]) {
                    out[i + 1] = true;
                }
            }
        };
        match self {
            Re::C(c) => one(&|x| x == *c, &mut out),
            Re::Any => one(&|x| x != '\n', &mut out),
            Re::Set(l, neg) => one(&|x| l.contains(&x) != *neg, &mut out),
            Re::Start => out[0] = at[0],
            Re::End => out[n] = at[n],
            Re::Cat(l) => {
                let mut a = at.to_vec();
                for x in l {
                    a = x.ends(s, &a);
                }
                return a;
            }
            Re::Alt(l) => {
                for x in l {
                    for (i, b) in x.ends(s, at).into_iter().enumerate() {
                        out[i] |= b;
                    }
                }
            }
            Re::Rep(x, lo, hi) => {
                let mut a = at.to_vec();
                for k in 0..=(*hi).min(n + lo + 1) {
                    if k >= *lo {
                        for i in 0..=n {
                            out[i] |= a[i];
                        }
                    }
                    a = x.ends(s, &a);
                }
            }
        }
        out
    }
    fn matches(&self, s: &str) -> bool {
        let s: Vec<char> = s.chars().collect();
        self.ends(&s, &vec![true; s.len() + 1]).iter().any(|b| *b)
    }
}

fn re(r: &mut Rng, d: usize) -> Re {
    match if d == 0 { r.below(4) } else { r.below(10) } {
        0 | 1 => Re::C(*r.pick(&['a', 'b', 'c', 'é', '.', '*', '(', ' '])),
        2 => Re::Any,
        3 => Re::Set(vec!['a', *r.pick(&['b', 'c', 'é'])], r.chance(1, 3)),
        4 | 5 => Re::Cat((0..1 + r.below(3)).map(|_| re(r, d - 1)).collect()),
        6 => Re::Alt((0..1 + r.below(3)).map(|_| re(r, d - 1)).collect()),
        7 | 8 => {
            let (a, b) = *r.pick(&[(0, 1), (0, 9999), (1, 9999), (2, 3)]);
            Re::Rep(Box::new(re(r, d - 1)), a, b)
        }
        _ => {
            let mut l = vec![re(r, d - 1)];
            if r.chance(1, 2) {
                l.insert(0, Re::Start)
            }
            if r.chance(1, 2) {
                l.push(Re::End)
            }
            Re::Cat(l)
        }
    }
}

fn text_v(r: &mut Rng) -> V {
    if r.chance(1, 6) {
        loop {
            let v = wild(r, 1);
            if v.has_display() {
                return v;
            }
        }
    }
    V::Str(if r.chance(1, 3) {
        gen::text_of(r, 12)
    } else {
        let n = r.some(6);
        (0..n).map(|_| *r.pick(&["a", "b", "ab", "aa", "é", ",", " ", "日本"])).collect()
    })
}

fn needle(r: &mut Rng, h: &V) -> V {
    if let (V::Str(s), true) = (h, r.chance(2, 3)) {
        let c: Vec<char> = s.chars().collect();
        if !c.is_empty() {
            let a = r.below(c.len());
            let b = (a + 1 + r.below(2)).min(c.len());
            return V::Str(c[a..b].iter().collect());
        }
    }
    if r.chance(1, 8) {
        return V::Str(String::new());
    }
    text_v(r)
}

pub fn c17(cx: &mut Cx) -> Res {
    let r = &mut cx.rng;
    let (f, args): (&str, Vec<V>) = match r.below(12) {
        0 => ("cat", (0..r.some(5)).map(|_| text_v(r)).collect()),
        1 | 2 => {
            let h = text_v(r);
            let n = needle(r, &h);
            let mut a = vec![h, n];
            if r.chance(1, 6) {
                a.truncate(r.below(2))
            }
            ("split", a)
        }
        3 => {
            let h = text_v(r);
            let n = r.some(4);
            let mut a: Vec<V> = (0..n).map(|_| needle(r, &h)).collect();
            a.insert(0, h);
            ("str_contains", a)
        }
        4 => {
            let h = text_v(r);
            let n = needle(r, &h);
            let mut a = vec![h, n, text_v(r)];
            if r.chance(1, 20) {
                a.pop();
            }
            ("str_replace", a)
        }
        5 => {
            let h = text_v(r);
            let n = needle(r, &h);
            let mut a = vec![h, n, text_v(r)];
            if r.chance(3, 4) {
                a.push(if r.chance(5, 6) { V::UInt(r.below(4) as u64) } else { wild(r, 0) })
            }
            ("str_replace_n", a)
        }
        6 => {
            let s = text_v(r);
            let l = V::List((0..r.some(5)).map(|_| text_v(r)).collect());
            let l = if r.chance(1, 20) { wild(r, 0) } else { l };
            ("join_with", vec![s, l])
        }
        7 => {
            let n = r.some(6);
            let a = (0..n)
                .map(|_| match r.below(4) {
                    0 => V::UInt(r.below(0x120000) as u64),
                    1 => V::Int(r.range(-3, 300)),
                    2 => wild(r, 0),
                    _ => V::UInt(gen::any_char(r) as u64),
                })
                .collect();
            ("string_from_ints", a)
        }
        8 => {
            // joined and split again
            let sep = r.pick(&[",", "--", "é", "\n", "日本"]).to_string();
            let n = 1 + r.some(5);
            let l: Vec<V> = (0..n)
                .map(|_| V::Str(gen::text_of(r, 5).replace(|c: char| sep.contains(c), "")))
                .collect();
            let j = ok_s(cx, "join_with", &[V::Str(sep.clone()), V::List(l.clone())])?;
            let back = ok(cx, "split", &[V::Str(j.clone()), V::Str(sep.clone())])?;
            ensure!(identical(&back, &V::List(l.clone())), "split gave {}, expected {}", tag(&back), show(&l));
            cx.see("split what was joined");
            cx.decided(j.as_bytes());
            return Ok(());
        }
        9 => {
            let b: Vec<u8> = match r.below(3) {
                0 => gen::text_of(r, 12).into_bytes(),
                _ => (0..r.many(30, 8_000)).map(|_| r.u64() as u8).collect(),
            };
            let v = match String::from_utf8(b.clone()) {
                Ok(s) if r.chance(1, 2) => V::Str(s),
                _ => V::Bytes(b.clone()),
            };
            let s = ok_s(cx, "as_base64", &[v])?;
            ensure!(s == base64(&b), "as_base64 gave {:?}, expected {:?}", s, base64(&b));
            let arg = if cx.rng.chance(1, 4) { V::Bytes(s.clone().into_bytes()) } else { V::Str(s.clone()) };
            let back = ok(cx, "from_base64", &[arg])?;
            ensure!(identical(&back, &V::Bytes(b)), "from_base64 gave {}", tag(&back));
            cx.see("base64 round trips");
            cx.decided(s.as_bytes());
            // what is not base64
            let bad = match cx.rng.below(5) {
                0 => V::Str(s.clone() + "A"),
                1 => V::Str(s.clone() + "*"),
                2 => V::Null,
                3 => V::UInt(3),
                _ => V::Str(format!("é{}", s)),
            };
            // an added "A" may leave nothing but whole quads only where there was no padding
            no(cx, "from_base64", &[bad])?;
            no(cx, "as_base64", &[V::Null])?;
            cx.see("base64 refused");
            // what is almost base64 is refused, but for padding that is missing
            let mut c: Vec<char> = s.chars().collect();
            let abc = ['A', 'B', 'Q', 'R', 'z', '0', '9', '+', '/', '=', '-', '_', '\n', ' ', '\r', ',', '\0'];
            for _ in 0..1 + cx.rng.below(2) {
                let x = *cx.rng.pick(&abc);
                let i = cx.rng.below(c.len() + 1);
                match cx.rng.below(4) {
                    0 => c.insert(i, x),
                    1 if i < c.len() => {
                        c.remove(i);
                    }
                    _ if !c.is_empty() => {
                        // the last character may have bits that are not part of a byte
                        let k = c.iter().rposition(|c| *c != '=').unwrap_or(0);
                        let i = if cx.rng.chance(1, 2) { k } else { i.min(c.len() - 1) };
                        c[i] = x
                    }
                    _ => {}
                }
            }
            let s: String = c.into_iter().collect();
            let (f, _) = super::parse::defaults(cx);
            if let Ok(v) = call_v(f, "from_base64", &[V::Str(s.clone())])? {
                let b = match &v {
                    V::Bytes(b) => b.clone(),
                    v => return fail(format!("from_base64 of {:?} gave {}", s, tag(v))),
                };
                ensure!(
                    base64(&b).trim_end_matches('=') == s.trim_end_matches('='),
                    "from_base64 of {:?} gave {}, which is {:?}",
                    s,
                    tag(&v),
                    base64(&b)
                );
                cx.see("almost base64 decoded");
            } else {
                cx.see("almost base64 refused");
            }
            return Ok(());
        }
        _ => {
            let x = re(r, 3);
            let n = r.below(7);
            let s: String = (0..n).map(|_| *r.pick(&['a', 'b', 'c', 'é', '.', '(', ' ', '\n'])).collect();
            let p = x.text();
            let want = x.matches(&s);
            let got = ok(cx, "regex", &[V::Str(s.clone()), V::Str(p.clone())])?;
            ensure!(identical(&got, &V::Bool(want)), "regex gave {}, expected {}", tag(&got), want);
            cx.see(if want { "regex: matches" } else { "regex: no match" });
            cx.decided(format!("{:?} {:?}", s, p).as_bytes());
            if cx.rng.chance(1, 10) {
                let p = cx.rng.pick(&["(", "[", "a{2,1}", "*", "\\", "(?<"]).to_string();
                no(cx, "regex", &[V::Str(s), V::Str(p)])?;
                cx.see("regex refused");
            }
            return Ok(());
        }
    };
    fcheck(cx, f, &args).map(|_| ())
}

// ---- wrapping ----

pub fn c18(cx: &mut Cx) -> Res {
    let r = &mut cx.rng;
    // words and single spaces and newlines, or anything
    let plain = r.chance(2, 3);
    let tabs = r.chance(1, 3);
    let n = if r.chance(1, 10) { r.below(80) } else { r.many(14, 5_000) };
    let mut s = String::new();
    for i in 0..n {
        if plain {
            if i > 0 {
                s += if r.chance(1, 6) { "\n" } else if tabs && r.chance(1, 3) { "\t" } else { " " };
            }
            let k = 1 + if r.chance(1, 10) { r.many(30, 3_000) } else { r.below(7) };
            for _ in 0..k {
                s.push(*r.pick(&['a', 'b', 'z', 'é', '日', '.', '-', '😀']));
            }
        } else {
            s += &gen::text_of(r, 6);
            if r.chance(1, 2) {
                s += *r.pick(&[" ", "  ", "\n", "\n\n", "\t", " \n ", "\r\n", "\u{a0}", "\u{3000}"]);
            }
        }
    }
    let width = match r.below(12) {
        0 => r.below(3),
        1 => 50 + r.many(100, 70_000),
        _ => 1 + r.below(20),
    };
    let w = if r.chance(1, 8) { V::Int(width as i64) } else { V::UInt(width as u64) };
    let got = ok(cx, "word_wrap", &[V::Str(s.clone()), w])?;
    let lines: Vec<String> = match &got {
        V::List(l) => l.iter().map(|v| v.to_string()).collect(),
        v => return fail(format!("word_wrap gave {}", tag(v))),
    };
    let solid = |s: &str| -> Vec<char> { s.chars().filter(|c| !c.is_whitespace()).collect() };
    let all: Vec<char> = lines.iter().flat_map(|l| solid(l)).collect();
    ensure!(all == solid(&s), "the text changed: {:?}", lines);
    cx.add("lines", lines.len() as u64);
    cx.max("max lines", lines.len() as u64);
    cx.decided(format!("{} {}", width, s).as_bytes());
    cx.sample(|| format!("{:?} at {} -> {:?}", s, width, lines));
    for l in &lines {
        ensure!(!l.contains('\n'), "a line has a newline in it: {:?}", l);
    }
    // where lines end, as a number of characters that are not whitespace
    let mut ends = vec![];
    let mut c = 0;
    for l in &lines {
        c += solid(l).len();
        ends.push(c);
    }
    let mut c = 0;
    for l in s.split('\n') {
        c += solid(l).len();
        ensure!(
            c == 0 || ends.contains(&c),
            "a newline of the text is not the end of a line: {:?}",
            lines
        );
    }
    if width == 0 {
        return Ok(());
    }
    for l in &lines {
        ensure!(l.chars().count() <= width, "{:?} is longer than {}", l, width);
    }
    if plain {
        let mut c = 0;
        let mut sp = s.chars().filter(|c| c.is_whitespace());
        let words: Vec<&str> = s.split([' ', '\t', '\n']).filter(|w| !w.is_empty()).collect();
        for (i, word) in words.iter().enumerate() {
            let k = word.chars().count();
            if k < width {
                for e in c + 1..c + k {
                    ensure!(!ends.contains(&e), "the word {:?} was split: {:?}", word, lines);
                }
                cx.see("words kept whole");
            }
            c += k;
            let _ = i;
        }
        // a newline in the text ends each line that could hold the next word as well
        let newlines: Vec<usize> = {
            let mut v = vec![];
            let mut c = 0;
            for ch in s.chars() {
                if ch == '\n' {
                    v.push(c)
                } else if !matches!(ch, ' ' | '\t') {
                    c += 1
                }
            }
            v
        };
        let _ = sp.next();
        for i in 0..lines.len().saturating_sub(1) {
            if newlines.contains(&ends[i]) || lines[i].is_empty() {
                continue;
            }
            let next = lines[i + 1].split_whitespace().next().unwrap_or("");
            let k = lines[i].chars().count() + 1 + next.chars().count();
            ensure!(
                k + 1 >= width,
                "{:?} and {:?} are two lines, with a width of {}",
                lines[i],
                lines[i + 1],
                width
            );
            cx.see("lines that are full");
        }
    }
    if cx.rng.chance(1, 20) {
        no(cx, "word_wrap", &[V::Str(s.clone())])?;
        no(cx, "word_wrap", &[V::Str(s), V::Str("8".into())])?;
    }
    Ok(())
}

// ---- tables ----

fn squash(s: &str) -> String {
    s.split_whitespace().collect::<Vec<_>>().join(" ")
}

pub fn c28(cx: &mut Cx) -> Res {
    let r = &mut cx.rng;
    let cell = |r: &mut Rng| -> String {
        let n = r.many(4, 600);
        let t: String = (0..n)
            .map(|_| *r.pick(&["a", "b c", "é", "日本", "12", "*", "-", "&", "x", " ", "{{", "\""]))
            .collect();
        if r.chance(1, 3) {
            format!(" {} ", t)
        } else {
            t
        }
    };
    let n = r.many(7, 600);
    let mut text = String::new();
    // rows that are to come out: a head or not, and the cells
    let mut want: Vec<(bool, Vec<Vec<String>>)> = vec![];
    let mut open = false;
    let mut continued = 0;
    for i in 0..n {
        let head = r.chance(1, 3);
        let cont = r.chance(1, 4);
        if head {
            text.push('*');
        }
        if cont {
            text.push('-');
        }
        if r.chance(1, 6) {
            text.push(' ');
        }
        let cells: Vec<String> = (0..2 + r.many(4, 400)).map(|_| cell(r)).collect();
        text.push('|');
        for c in &cells {
            text += c;
            text.push('|');
        }
        if r.chance(1, 6) {
            text += *r.pick(&[" ", "\t"]);
        }
        if cont && open {
            let l = want.last_mut().unwrap();
            l.0 |= head;
            for (k, c) in cells.into_iter().enumerate() {
                if k < l.1.len() {
                    l.1[k].push(c)
                } else {
                    l.1.push(vec![c])
                }
            }
            continued += 1;
        } else {
            want.push((head, cells.into_iter().map(|c| vec![c]).collect()));
        }
        open = true;
        let last = i + 1 == n;
        if !last || r.chance(1, 2) {
            text.push('\n');
        }
        if r.chance(1, 10) && !last {
            text.push('\n');
            open = false;
        }
    }
    let attrs: Option<String> = if r.chance(1, 2) { Some(r.pick(&["", "class=\"x\"", "id='é'"]).to_string()) } else { None };
    cx.add("continued rows", continued);
    let mut args = vec![V::Str(text.clone())];
    args.extend(attrs.iter().map(|a| V::Str(a.clone())));
    let got = ok_s(cx, "table", &args)?;
    let body = match got
        .strip_prefix(&format!("<table {}>", attrs.unwrap_or_default()))
        .and_then(|s| s.trim_end().strip_suffix("</table>"))
    {
        Some(s) => s,
        None => return fail(format!("not a table: {:?}", got)),
    };
    let rows: Vec<&str> = body.split("</tr>").map(|s| s.trim()).collect();
    ensure!(
        rows.len() == want.len() + 1 && rows[want.len()].is_empty(),
        "{} rows, expected {}: {:?}",
        rows.len() as i64 - 1,
        want.len(),
        got
    );
    for (row, (head, cells)) in rows.iter().zip(&want) {
        let t = if *head { "th" } else { "td" };
        let row = match row.strip_prefix("<tr>") {
            Some(x) => x,
            None => return fail(format!("not a row: {:?}", row)),
        };
        let end = format!("</{}>", t);
        let parts: Vec<&str> = row.split(&end).collect();
        ensure!(
            parts.len() == cells.len() + 1 && parts[cells.len()].is_empty(),
            "cells of {:?}, expected {:?} ({})",
            row,
            cells,
            t
        );
        for (p, c) in parts.iter().zip(cells) {
            let p = match p.strip_prefix(&format!("<{}>", t)) {
                Some(x) => x,
                None => return fail(format!("not a cell ({}): {:?}", t, p)),
            };
            if c.len() == 1 && cells.iter().all(|c| c.len() == 1) {
                ensure!(p == c[0].trim(), "cell {:?}, expected {:?}", p, c[0].trim());
            }
            ensure!(squash(p) == squash(&c.join(" ")), "cell {:?}, expected {:?}", p, c);
            cx.see("cells");
        }
        cx.see(if *head { "head rows" } else { "rows" });
    }
    cx.decided(text.as_bytes());
    cx.sample(|| format!("{:?} -> {:?}", text, got));
    if cx.rng.chance(1, 40) {
        no(cx, "table", &[])?;
    }
    if cx.rng.chance(1, 8) {
        // as a block
        let t = format!("{{{{@table}}}}{{{{$0}}}}{{{{/table}}}}");
        let t = match parse(&t)? {
            Ok(t) => t,
            Err(e) => return fail(e),
        };
        let mut tm = templito::temp_man::NoTemplates;
        let r = run(&t, &[templito::TData::String(text)], &mut tm, fm(cx))?;
        let want = got.replacen(&got[..got.find('>').unwrap_or(0)], "<table ", 1);
        match r {
            Ok((s, _)) => ensure!(s == want, "as a block {:?}, expected {:?}", s, want),
            Err(e) => return fail(format!("failed as a block: {}", e)),
        }
        cx.see("as a block");
    }
    Ok(())
}

// ---- paths ----

fn name(r: &mut Rng) -> String {
    r.pick(&["a", "b", "dir", "f.txt", "x.tar.gz", ".hid", ".hid.x", "two words", "é", "日.本", "n.", "A-1"]).to_string()
}

fn stem(n: &str) -> String {
    match n.rfind('.') {
        Some(i) if i > 0 => n[..i].to_string(),
        _ => n.to_string(),
    }
}

pub fn c29(cx: &mut Cx) -> Res {
    let r = &mut cx.rng;
    if r.chance(1, 3) {
        return hostile_paths(cx);
    }
    let n = 1 + r.many(4, 400);
    let parts: Vec<String> = (0..n).map(|_| if r.chance(1, 500) { name(r).repeat(1 + r.below(200)) } else { name(r) }).collect();
    let abs = r.chance(1, 3);
    let root = if abs { "/" } else { "" };
    let whole = format!("{}{}", root, parts.join("/"));
    // given in one argument or in several
    let mut args: Vec<V> = vec![];
    let mut cur = root.to_string();
    for (i, p) in parts.iter().enumerate() {
        cur += p;
        if i + 1 == n || r.chance(1, 2) {
            if r.chance(1, 8) && i + 1 < n {
                cur.push('/');
            }
            args.push(V::Str(std::mem::take(&mut cur)));
        } else {
            cur.push('/');
        }
    }
    if r.chance(1, 12) {
        // what comes before an absolute path does not count
        if abs {
            args.insert(0, V::Str(name(r)));
        }
    }
    let last = &parts[n - 1];
    let up = if n == 1 { root.to_string() } else { format!("{}{}", root, parts[..n - 1].join("/")) };
    let in_up = |x: &str| {
        if n == 1 {
            format!("{}{}", root, x)
        } else {
            format!("{}/{}", up, x)
        }
    };
    let mut crumbs = vec![root.to_string()];
    for i in 1..=n {
        crumbs.push(format!("{}{}", root, parts[..i].join("/")));
    }
    let crumbs = V::List(crumbs.into_iter().map(V::Str).collect());
    let ext = r.pick(&["md", "html", "x.y", "é"]).to_string();
    let checks: Vec<(&str, Vec<V>, V)> = vec![
        ("join", args.clone(), V::Str(whole.clone())),
        ("parent", args.clone(), V::Str(up.clone())),
        ("base_name", args.clone(), V::Str(last.clone())),
        ("base_name_sure", args.clone(), V::Str(last.clone())),
        ("stem", args.clone(), V::Str(stem(last))),
        ("full_stem", args.clone(), V::Str(in_up(&stem(last)))),
        ("bread_crumbs", args.clone(), crumbs),
        (
            "with_ext",
            vec![V::Str(whole.clone()), V::Str(ext.clone())],
            V::Str(in_up(&format!("{}.{}", stem(last), ext))),
        ),
        ("with_ext", vec![V::Str(whole.clone()), V::Str("".into())], V::Str(in_up(&stem(last)))),
    ];
    for (f, a, want) in checks {
        let got = ok(cx, f, &a)?;
        ensure!(identical(&got, &want), "{} gave {}, expected {}", f, tag(&got), tag(&want));
        cx.see(f);
    }
    cx.decided(show(&args).as_bytes());
    cx.sample(|| show(&args));
    if cx.rng.chance(1, 8) {
        // from a template
        let t = match parse("{{join (parent $0) (base_name $0)}}|{{for k v in bread_crumbs $0}}{{$v}};{{/for}}")? {
            Ok(t) => t,
            Err(e) => return fail(e),
        };
        let mut tm = templito::temp_man::NoTemplates;
        cx.input(whole.clone());
        match run(&t, &[templito::TData::String(whole.clone())], &mut tm, fm(cx))? {
            Ok((s, _)) => {
                let mut want = format!("{}|{};", whole, root);
                for i in 1..=n {
                    want += &format!("{}{};", root, parts[..i].join("/"));
                }
                ensure!(s == want, "in a template {:?}, expected {:?}", s, want)
            }
            Err(e) => return fail(format!("failed: {}", e)),
        }
        cx.see("called from a template");
    }
    Ok(())
}

/// Anything, against the paths of the platform
fn hostile_paths(cx: &mut Cx) -> Res {
    use std::path::PathBuf;
    let r = &mut cx.rng;
    let n = r.some(4);
    let args: Vec<V> = (0..n)
        .map(|_| {
            if r.chance(1, 10) {
                return loop {
                    let v = wild(r, 0);
                    if v.has_display() {
                        break v;
                    }
                };
            }
            let k = r.many(6, 2_000);
            V::Str(
                (0..k)
                    .map(|_| match r.below(3) {
                        0 => r.pick(&["/", "//", "..", ".", "/.", "./", "\\", "", "...", ". ", "\u{0}", "~"]).to_string(),
                        1 => name(r),
                        _ => gen::word(r),
                    })
                    .collect(),
            )
        })
        .collect();
    let mut p = PathBuf::new();
    for a in &args {
        p.push(a.to_string());
    }
    let str = |p: &std::path::Path| V::Str(p.display().to_string());
    let name = p.file_name().and_then(|s| s.to_str()).map(|s| s.to_string());
    let stem = p.file_stem().and_then(|s| s.to_str()).map(|s| s.to_string());
    let mut crumbs: Vec<V> = p.ancestors().map(|a| str(a)).collect();
    crumbs.reverse();
    let checks: Vec<(&str, Option<V>)> = vec![
        ("join", Some(str(&p))),
        ("parent", Some(p.parent().map_or(V::Str("".into()), |p| str(p)))),
        ("base_name", name.clone().map(V::Str)),
        ("base_name_sure", Some(V::Str(name.unwrap_or_default()))),
        ("stem", stem.clone().map(V::Str)),
        ("full_stem", stem.map(|s| str(&p.with_file_name(s)))),
        ("bread_crumbs", Some(V::List(crumbs))),
    ];
    for (f, want) in checks {
        match want {
            Some(w) => {
                let got = ok(cx, f, &args)?;
                ensure!(identical(&got, &w), "{} gave {}, expected {}", f, tag(&got), tag(&w));
            }
            None => no(cx, f, &args)?,
        }
    }
    if let Some(a) = args.first() {
        let e = gen::word(&mut cx.rng);
        let x = [a.clone(), V::Str(e.clone())];
        if e.contains('/') {
            no(cx, "with_ext", &x)?;
        } else {
            let got = ok(cx, "with_ext", &x)?;
            let w = str(&PathBuf::from(a.to_string()).with_extension(&e));
            ensure!(identical(&got, &w), "with_ext gave {}, expected {}", tag(&got), tag(&w));
        }
    }
    cx.see("hostile paths");
    cx.decided(show(&args).as_bytes());
    Ok(())
}

// ---- filter ----

fn item_var(r: &mut Rng) -> Ex {
    let mut p = vec![match r.below(12) {
        0 => Part::N(1 + r.below(2)),
        1 => Part::I(gen::member(r)),
        _ => Part::N(0),
    }];
    match r.below(5) {
        0 | 1 => {}
        2 => p.push(Part::N(r.below(3))),
        _ => p.push(Part::I(gen::key(r))),
    }
    Ex::Var(p)
}

fn filter_ex(r: &mut Rng, d: usize) -> Ex {
    if d == 0 || r.chance(1, 6) {
        return match r.below(10) {
            0..=5 => item_var(r),
            // nothing of the caller is there
            6 => var(*r.pick(&["x", "s0", "@"])),
            7 => cmd(*r.pick(&["g0", "tr", "er"]), vec![item_var(r)]),
            _ => Ex::Lit(gen::value(r, model::gen::ValOpts { depth: 1, ..gen::LITERAL })),
        };
    }
    let f = *r.pick(&[
        "eq", "neq", "gt", "gte", "lt", "lte", "and", "or", "nand", "nor", "type_of", "is_null",
        "is_num", "len", "add", "mod", "cat", "get", "str_contains", "first", "select", "eq_any", "index_of",
    ]);
    let n = match f {
        "type_of" | "is_null" | "is_num" | "len" => 1,
        "select" => 3,
        "add" | "and" | "or" | "first" => 1 + r.below(3),
        _ => 2,
    };
    let mut a: Vec<Ex> = (0..n).map(|_| filter_ex(r, d - 1)).collect();
    if f == "type_of" && r.chance(2, 3) {
        a.push(lit_s(*r.pick(&["int", "uint", "string", "list", "map", "null"])));
    }
    cmd(f, a)
}

pub fn c32(cx: &mut Cx) -> Res {
    let r = &mut cx.rng;
    let n = r.many(8, 5_000);
    let same = r.chance(1, 2);
    let items: Vec<V> = (0..n)
        .map(|_| {
            if same {
                V::Map((0..3).map(|_| (gen::key(r), gen::simple(r, false))).collect())
            } else {
                tame(r, 2)
            }
        })
        .collect();
    let e = filter_ex(r, 2);
    let st = if r.chance(1, 3) { model::print::Style { trim: 0, ..NOISY } } else { PLAIN };
    let text = Printer { r, st, trims: 0, noops: 0, dropped: 0 }.top(&e);
    let mut env = Env::new();
    env.host = false;
    env.temps = None;
    let mut want = vec![];
    let mut dropped = 0;
    for i in &items {
        let sc = Scope::new(vec![i.clone()], vec![]);
        match expr(&e, &sc, &mut env) {
            Ok(v) if truthy(&v) == Some(true) => want.push(i.clone()),
            Ok(_) => {}
            Err(Stop::Limit) => return Ok(()),
            Err(Stop::Fail) => dropped += 1,
        }
    }
    if env.nondet {
        cx.skipped += 1;
        return Ok(());
    }
    let args = [V::List(items.clone()), V::Str(text.clone())];
    let got = ok(cx, "filter", &args)?;
    ensure!(
        identical(&got, &V::List(want.clone())),
        "filter by {:?} gave {}, expected {}",
        text,
        tag(&got),
        show(&want)
    );
    cx.add("items kept", want.len() as u64);
    cx.add("items dropped", (n - want.len()) as u64);
    cx.add("items dropped for a failure", dropped);
    cx.decided(show(&args).as_bytes());
    cx.sample(|| format!("{:?} of {} -> {}", text, show(&items), show(&want)));
    if cx.rng.chance(1, 4) {
        // with variables, templates and functions around that it must not see
        let t = "{{let x = true; s0 = true; '@' = true}}{{global g0}}{{return true}}{{/global}}{{tr (filter $0 $1)}}";
        let t = match parse(t)? {
            Ok(t) => t,
            Err(e) => return fail(e),
        };
        trace_take();
        let mut tm = templito::temp_man::BasicTemps::new();
        let p: Vec<_> = args.iter().map(td).collect();
        let g = run(&t, &p, &mut tm, fm(cx))?;
        ensure!(g.is_ok(), "failed in a template: {:?}", g);
        let tr = trace_take();
        let w = vec![format!("tr({})", tag(&V::List(want)))];
        ensure!(tr == w, "in a template: {:?}, expected {:?}", tr, w);
        cx.see("called from a template");
    }
    if cx.rng.chance(1, 30) {
        no(cx, "filter", &[args[0].clone()])?;
        no(cx, "filter", &[V::UInt(1), args[1].clone()])?;
        no(cx, "filter", &[args[0].clone(), V::Str(")".into())])?;
        cx.see("filters refused");
    }
    Ok(())
}

// ---- markdown ----

fn md_text(r: &mut Rng) -> String {
    let n = r.many(10, 2_000);
    (0..n)
        .map(|_| match r.below(5) {
            0 => r
                .pick(&[
                    "# h\n", "\n\n", "* a\n", "- [ ] t\n", "- [x] t\n", "1. x\n", "> q\n", "```\ncode\n```\n",
                    "|a|b|\n|-|-|\n|1|2|\n", "[^1]: note\n", "===\n", "---\n", "    code\n", "<div>\n",
                ])
                .to_string(),
            1 => r
                .pick(&[
                    "*e*", "**s**", "`c`", "~~d~~", "[l](u \"t\")", "![i](u)", "<b>x</b>", "&amp;", "\\*", "<http://x.y>",
                    "[^1]", "'q' \"r\"", "--", "...", "_u_", "http://x.y",
                ])
                .to_string(),
            2 => gen::word(r),
            3 => gen::any_char(r).to_string(),
            _ => r.pick(&["word ", "two words ", "\n"]).to_string(),
        })
        .collect()
}

pub fn md_ref(s: &str) -> Result<String, (String, String)> {
    guard_raw(|| {
        let mut o = String::new();
        pulldown_cmark::html::push_html(
            &mut o,
            pulldown_cmark::Parser::new_ext(s, pulldown_cmark::Options::all()),
        );
        o
    })
}

pub fn c33(cx: &mut Cx) -> Res {
    let n = match cx.rng.below(5) {
        0 => 0,
        1 => 2,
        _ => 1,
    };
    let args: Vec<V> = (0..n)
        .map(|_| {
            let r = &mut cx.rng;
            if r.chance(1, 12) {
                V::UInt(r.below(50) as u64)
            } else {
                V::Str(md_text(r))
            }
        })
        .collect();
    let mut want = String::new();
    for a in &args {
        match md_ref(&a.to_string()) {
            Ok(s) => want += &s,
            Err(_) => {
                // the renderer itself gives up
                cx.skipped += 1;
                return Ok(());
            }
        }
    }
    let got = ok_s(cx, "md", &args)?;
    ensure!(got == want, "md gave {:?}, expected {:?}", got, want);
    cx.see("markdown rendered");
    cx.decided(show(&args).as_bytes());
    cx.sample(|| format!("{} -> {:?}", show(&args), got));
    if let ([V::Str(_)], true) = (&args[..], cx.rng.chance(1, 4)) {
        let t = match parse("{{md $0}}{{@md}}{{$0}}{{/md}}")? {
            Ok(t) => t,
            Err(e) => return fail(e),
        };
        let mut tm = templito::temp_man::NoTemplates;
        match run(&t, &[td(&args[0])], &mut tm, fm(cx))? {
            Ok((s, _)) => ensure!(s == format!("{0}{0}", want), "in a template {:?}", s),
            Err(e) => return fail(format!("failed: {}", e)),
        }
        cx.see("as a block");
    }
    Ok(())
}

// ---- svg ----

pub fn c34(cx: &mut Cx) -> Res {
    let r = &mut cx.rng;
    let (f, n) = *r.pick(&[("xy", 2), ("xywh", 4), ("cxyrr", 4), ("xy12", 4), ("fl_stk", 3), ("font", 1)]);
    let k = match r.below(8) {
        0 => r.below(n + 1),
        1 => n + 2,
        2 | 3 => n,
        _ => n + 1,
    };
    let args: Vec<V> = (0..k)
        .map(|i| match r.below(6) {
            0 => loop {
                let v = wild(r, 1);
                if v.has_display() {
                    break v;
                }
            },
            1 => V::Float(r.range(-50, 50) as f64 / 4.0),
            2 => V::Int(r.range(-50, 50)),
            3 => V::Str(gen::word(r)),
            _ if i == n => V::Str(r.pick(&["", "mm", "px", "%"]).to_string()),
            _ => V::UInt(r.below(500) as u64),
        })
        .collect();
    fcheck_with(cx, f, &args, &|a, b| match (a, b) {
        // as a list of attributes
        (V::Str(a), V::Str(b)) => a.trim() == b.trim(),
        _ => false,
    })
    .map(|_| ())
}

// ---- cards ----

fn card_v(c: &card_format::Card) -> V {
    fn cd(c: &card_format::CData) -> V {
        use card_format::CData::*;
        match c {
            S(s) => V::Str(s.clone()),
            N(n) => V::Int(*n as i64),
            L(l) => V::List(l.iter().map(cd).collect()),
            M(m) => V::Map(m.iter().map(|(k, v)| (k.clone(), cd(v))).collect()),
        }
    }
    let mut m: BTreeMap<String, V> = BTreeMap::new();
    m.insert("Name".into(), V::Str(c.name.clone()));
    m.insert("Num".into(), V::UInt(c.num as u64));
    for (k, v) in &c.data {
        m.insert(k.clone(), cd(v));
    }
    V::Map(m)
}

fn card_data(r: &mut Rng, d: usize, text: &mut String) -> V {
    let word = |r: &mut Rng| r.pick(&["fish", "cat", "w", "é", "x1", "Zed"]).to_string();
    match if d == 0 { r.below(3) } else { r.below(6) } {
        0 => {
            let s = if r.chance(1, 300) { word(r).repeat(1 + r.below(200)) } else { word(r) };
            *text += &s;
            V::Str(s)
        }
        1 => {
            let s = loop {
                let s = if r.chance(1, 2) { gen::lookalike(r) } else { r.pick(&["two words", "a:b", "", "[1]", "日本"]).to_string() };
                if !s.contains(&['"', '\\', '$'][..]) {
                    break s;
                }
            };
            *text += &format!("\"{}\"", s);
            V::Str(s)
        }
        2 | 3 => {
            let n = r.below(300) as i64;
            *text += &n.to_string();
            V::Int(n)
        }
        4 => {
            text.push('[');
            let n = r.many(4, 300);
            let mut l = vec![];
            for i in 0..n {
                if i > 0 {
                    text.push(',');
                }
                l.push(card_data(r, d - 1, text));
            }
            text.push(']');
            V::List(l)
        }
        _ => {
            text.push('{');
            let mut m = BTreeMap::new();
            for (i, k) in ["p", "q", "rs"].iter().enumerate() {
                if i > 0 {
                    text.push(',');
                }
                *text += &format!("{}:", k);
                m.insert(k.to_string(), card_data(r, d - 1, text));
            }
            text.push('}');
            V::Map(m)
        }
    }
}

pub fn c35(cx: &mut Cx) -> Res {
    let r = &mut cx.rng;
    let mut text = String::new();
    let mut want = vec![];
    for _ in 0..r.many(4, 300) {
        let name = r.pick(&["help", "doggo", "two words", "Ünï", "c1"]).to_string();
        let num = if r.chance(1, 2) { Some(1 + r.below(9)) } else { None };
        if let Some(n) = num {
            text += &format!("{}*", n);
        }
        text += &format!("\"{}\":\n", name);
        let mut m = BTreeMap::new();
        for k in ["tx", "do", "pets", "n1"] {
            if r.chance(1, 2) {
                text += &format!("    .{}:", k);
                let v = card_data(r, 2, &mut text);
                text.push('\n');
                m.insert(k.to_string(), v);
            }
        }
        m.insert("Name".into(), V::Str(name));
        m.insert("Num".into(), V::UInt(num.unwrap_or(1) as u64));
        // a field of the name of what the card itself has comes in place of it
        for k in ["Name", "Num"] {
            if r.chance(1, 20) {
                text += &format!("    .{}:", k);
                let v = card_data(r, 1, &mut text);
                text.push('\n');
                m.insert(k.to_string(), v);
            }
        }
        want.push(V::Map(m));
        if r.chance(1, 3) {
            text.push('\n');
        }
    }
    let mangled = r.chance(1, 4);
    if mangled {
        for _ in 0..1 + r.some(3) {
            let c: Vec<char> = text.chars().collect();
            let i = r.below(c.len() + 1);
            let mut t: String = c[..i].iter().collect();
            t += *r.pick(&["", "*", ":", "\n", "\"", "[", "]", "$", "@def :\n", "@param x\n", ".", ",", "-"]);
            t += &c[(i + r.below(2)).min(c.len())..].iter().collect::<String>();
            text = t;
        }
    }
    // the reader of the card library
    let lib = match guard_raw(|| card_format::parse_cards(&text).ok()) {
        Ok(x) => x,
        Err(_) => {
            cx.skipped += 1;
            return Ok(());
        }
    };
    cx.input(text.clone());
    let got = call1(cx, "r_card", &[V::Str(text.clone())])?;
    cx.decided(text.as_bytes());
    cx.sample(|| text.clone());
    let cards = match (&lib, got) {
        (Some(l), Ok(V::List(g))) => {
            let w: Vec<V> = l.iter().map(card_v).collect();
            ensure!(
                identical(&V::List(w.clone()), &V::List(g.clone())),
                "r_card gave {}, expected {}",
                show(&g),
                show(&w)
            );
            if !mangled {
                ensure!(
                    identical(&V::List(want.clone()), &V::List(g.clone())),
                    "r_card gave {}, written as {}",
                    show(&g),
                    show(&want)
                );
            }
            cx.add("cards read", g.len() as u64);
            l
        }
        (None, Err(_)) => {
            cx.see("cards refused");
            return Ok(());
        }
        (_, g) => return fail(format!("r_card gave {}", show_r(&g))),
    };
    // a card as data of the host is the same thing
    for c in cards {
        let v = card_v(c);
        let t = match parse("{{tr $0}}{{tr $0.Name $0.Num}}{{tr (first $0.tx $0.pets.0 $0.do.p \"none\")}}")? {
            Ok(t) => t,
            Err(e) => return fail(e),
        };
        trace_take();
        let mut tm = templito::temp_man::NoTemplates;
        let f = fm(cx);
        let out = guard(|| {
            let p: [&dyn templito::TParam; 1] = [c];
            t.run(&p, &mut tm, f).map_err(|e| e.to_string())
        })?;
        ensure!(out.is_ok(), "failed with a card as a parameter: {:?}", out);
        let tr = trace_take();
        let sg = |p: &[Part]| model::interp::sub_get(&v, p);
        let i = |s: &str| Part::I(s.to_string());
        let pick = [vec![i("tx")], vec![i("pets"), Part::N(0)], vec![i("do"), i("p")]]
            .iter()
            .find_map(|p| sg(p))
            .unwrap_or(V::Str("none".into()));
        let w = vec![
            format!("tr({})", tag(&v)),
            format!("tr({} {})", tag(&sg(&[i("Name")]).unwrap()), tag(&sg(&[i("Num")]).unwrap())),
            format!("tr({})", tag(&pick)),
        ];
        ensure!(tr == w, "with a card as a parameter {:?}, expected {:?}", tr, w);
        cx.see("cards as parameters");
        if c.data.contains_key("Name") || c.data.contains_key("Num") {
            cx.see("cards as parameters, with fields by the names of their own");
        }
    }
    Ok(())
}
