//! Tags in any order. A reference of its own says how they nest, or that they do not.
use super::progs::fm;
use crate::conv::*;
use crate::core::*;
use model::ast::*;
use model::interp::{run_template, Env, Stop};
use model::val::{TDef, V};

#[derive(Clone, Copy, Debug, PartialEq)]
enum Tk {
    Text(u32),
    Print,
    /// a comment, which says nothing wherever it is
    Note(u32),
    If(bool),
    Elif(bool),
    Else,
    For,
    Switch,
    Case(u32),
    Define,
    AtLet,
    Block,
    As,
    End(&'static str),
}

fn write(t: &[Tk]) -> String {
    let mut s = String::new();
    for x in t {
        match x {
            Tk::Text(n) => s += &format!("t{} ", n),
            Tk::Print => s += "{{first $v 7}}",
            Tk::Note(n) => s += ["{{##}}", "{{# note #}}", "{{# /if }} {{else}} #}}", "{{#\n/switch\n#}}"][*n as usize % 4],
            Tk::If(b) => s += &format!("{{{{if {}}}}}", b),
            Tk::Elif(b) => s += &format!("{{{{elif {}}}}}", b),
            Tk::Else => s += "{{else}}",
            Tk::For => s += "{{for k v in 2}}",
            Tk::Switch => s += "{{switch 1}}",
            Tk::Case(n) => s += &format!("{{{{case {}}}}}", n),
            Tk::Define => s += "{{define d}}",
            Tk::AtLet => s += "{{@let v}}",
            Tk::Block => s += "{{@cat}}",
            Tk::As => s += "{{as 1:_}}",
            Tk::End(n) => s += &format!("{{{{/{}}}}}", n),
        }
    }
    s
}

type P<T> = Result<T, ()>;

/// A block, up to its end tag or the end of the text, which closes what is open
fn until(t: &[Tk], at: &mut usize, end: &str) -> P<Vec<Nd>> {
    let mut v = vec![];
    while *at < t.len() {
        let x = t[*at];
        *at += 1;
        if x == Tk::End("") || matches!(x, Tk::End(e) if e == end && !end.is_empty()) {
            return Ok(v);
        }
        v.push(item(x, t, at)?);
    }
    Ok(v)
}

fn item(x: Tk, t: &[Tk], at: &mut usize) -> P<Nd> {
    Ok(match x {
        Tk::Text(n) => Nd::Text(format!("t{} ", n)),
        Tk::Print => Nd::Exp(cmd("first", vec![var("v"), Ex::Lit(V::UInt(7))])),
        Tk::Note(_) => Nd::Comment(String::new()),
        Tk::If(b) => ifs(b, t, at)?,
        Tk::For => Nd::For("k".into(), "v".into(), Ex::Lit(V::UInt(2)), until(t, at, "for")?),
        Tk::Define => Nd::Define("d".into(), vec![], until(t, at, "define")?),
        Tk::AtLet => Nd::AtLet("v".into(), until(t, at, "let")?),
        Tk::Block => Nd::Block("cat".into(), vec![], until(t, at, "cat")?),
        Tk::As => Nd::As(Ex::Lit(V::UInt(1)), Pat::Any, until(t, at, "as")?),
        Tk::Switch => {
            let mut cases: Vec<(Vec<Pat>, Vec<Nd>)> = vec![];
            while *at < t.len() {
                let x = t[*at];
                *at += 1;
                match x {
                    Tk::Case(n) => cases.push((vec![Pat::Val(V::UInt(n as u64))], vec![])),
                    Tk::End("switch") => break,
                    // nothing comes before the first case, but text and comments there are ignored
                    Tk::Note(_) => {}
                    Tk::Text(n) => {
                        if let Some((_, b)) = cases.last_mut() {
                            b.push(Nd::Text(format!("t{} ", n)))
                        }
                    }
                    x => {
                        if cases.is_empty() {
                            return Err(());
                        }
                        let y = item(x, t, at)?;
                        cases.last_mut().unwrap().1.push(y)
                    }
                }
            }
            Nd::Switch(Ex::Lit(V::UInt(1)), cases)
        }
        Tk::Elif(_) | Tk::Else | Tk::Case(_) | Tk::End(_) => return Err(()),
    })
}

fn ifs(c: bool, t: &[Tk], at: &mut usize) -> P<Nd> {
    let mut arms = vec![(Ex::Lit(V::Bool(c)), vec![])];
    while *at < t.len() {
        let x = t[*at];
        *at += 1;
        match x {
            Tk::Else => {
                let no = until(t, at, "if")?;
                return Ok(Nd::If(arms, Some(no)));
            }
            Tk::Elif(b) => arms.push((Ex::Lit(V::Bool(b)), vec![])),
            Tk::End("if") => return Ok(Nd::If(arms, None)),
            x => {
                let y = item(x, t, at)?;
                arms.last_mut().unwrap().1.push(y)
            }
        }
    }
    // only an "if" without "else" has to be closed
    Err(())
}

/// What ends nothing
const NEARLY: [&str; 30] = [
    "IF", "If", "iff", "i", "fi", "FOR", "For", "fo", "fore", "SWITCH", "Switch", "switc", "switchs", "case", "DEFINE",
    "Define", "def", "LET", "Let", "le", "lets", "CAT", "Cat", "ca", "cats", "AS", "As", "a", "else", "elif",
];

pub fn soup(cx: &mut Cx) -> Res {
    let r = &mut cx.rng;
    let n = 1 + r.below(if cx.tier == Tier::Quick { 14 } else { 24 });
    let mut t: Vec<Tk> = vec![];
    let mut open: Vec<&'static str> = vec![];
    let names = ["if", "for", "switch", "define", "let", "cat", "as"];
    let mut nt = 0;
    let mut nearly = false;
    for _ in 0..n {
        // what fits, most of the time
        let x = match r.below(13) {
            12 => Tk::Note(r.below(4) as u32),
            0 | 1 => {
                nt += 1;
                Tk::Text(nt)
            }
            2 => Tk::Print,
            3 => Tk::If(r.chance(1, 2)),
            4 => *r.pick(&[Tk::For, Tk::Define, Tk::AtLet, Tk::Block, Tk::As]),
            5 => Tk::Switch,
            6 => {
                if open.last() == Some(&"if") || r.chance(1, 30) {
                    *r.pick(&[Tk::Elif(true), Tk::Elif(false), Tk::Else])
                } else {
                    Tk::Print
                }
            }
            7 => {
                if open.last() == Some(&"switch") || r.chance(1, 30) {
                    Tk::Case(r.below(2) as u32)
                } else {
                    Tk::Print
                }
            }
            _ => match open.last() {
                Some(e) if !r.chance(1, 15) => Tk::End(e),
                _ if r.chance(1, 8) => Tk::End(*r.pick(&names)),
                // names that are nearly one of those
                Some(e) if r.chance(1, 3) => {
                    let e: &'static str = e;
                    nearly = true;
                    if r.chance(2, 3) {
                        // in place of the right one
                        open.pop();
                        let w: Vec<&'static str> = NEARLY.iter().filter(|w| w.to_lowercase().starts_with(&e[..1])).copied().collect();
                        if !w.is_empty() {
                            t.push(Tk::End(*r.pick(&w)));
                            continue;
                        }
                    }
                    Tk::End(*r.pick(&NEARLY))
                }
                _ => Tk::Print,
            },
        };
        // two texts in a row are one
        if matches!((t.last(), x), (Some(Tk::Text(_)), Tk::Text(_))) {
            continue;
        }
        t.push(x);
        match x {
            Tk::If(_) => open.push("if"),
            Tk::For => open.push("for"),
            Tk::Switch => {
                open.push("switch");
                for x in [Tk::Note(0), Tk::Text(0), Tk::Note(1)] {
                    if r.chance(1, 4) {
                        t.push(x)
                    }
                }
                if r.chance(9, 10) {
                    t.push(Tk::Case(r.below(2) as u32))
                }
            }
            Tk::Define => open.push("define"),
            Tk::AtLet => open.push("let"),
            Tk::Block => open.push("cat"),
            Tk::As => open.push("as"),
            Tk::End(e) => {
                if open.last() == Some(&e) {
                    open.pop();
                }
            }
            _ => {}
        }
    }
    if r.chance(2, 3) {
        while let Some(e) = open.pop() {
            t.push(Tk::End(e))
        }
    }
    let src = write(&t);
    cx.input(format!("{:?}", src));
    let mut at = 0;
    let want = until(&t, &mut at, "");
    let got = parse(&src)?;
    match (want, got) {
        (Err(()), Err(_)) => {
            cx.see("tags that do not nest");
            if nearly {
                cx.see("closing tags that are nearly right refused");
            }
            cx.decided(src.as_bytes());
        }
        (Err(()), Ok(_)) => return fail("accepted, though the tags do not nest"),
        (Ok(_), Err(e)) => return fail(format!("not accepted, though the tags nest: {}", e)),
        (Ok(b), Ok(tt)) => {
            let mut env = Env::new();
            let w = match run_template(&TDef { params: vec![], body: b }, vec![], &mut env) {
                Err(Stop::Limit) => {
                    cx.skipped += 1;
                    return Ok(());
                }
                x => x,
            };
            let (g, ..) = run_like(&Env::new(), &tt, &[], fm(cx), 0)?;
            match (&w, &g) {
                (Ok((s, _)), Ok((gs, _))) => {
                    ensure!(s == gs, "output {:?}, expected {:?}", gs, s)
                }
                (Err(_), Err(_)) => {}
                _ => return fail(format!("gave {:?}, expected {:?}", g, w.map(|x| x.0))),
            }
            cx.see("tags that nest");
            for (k, n) in &env.seen {
                cx.add(k, *n);
            }
            cx.decided(src.as_bytes());
        }
    }
    Ok(())
}
