//! Writes a template for an AST, choosing at random between the spellings that mean the same
use crate::ast::*;
use crate::rng::Rng;
use crate::val::V;

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Style {
    /// n in 100: extra whitespace, quotes, parentheses
    pub noise: usize,
    /// n in 100: trim markers at each tag
    pub trim: usize,
    /// n in 100: escapes that change nothing
    pub escapes: usize,
    /// n in 100: leave out closing tags at the very end
    pub unclosed: usize,
}

pub const PLAIN: Style = Style { noise: 0, trim: 0, escapes: 0, unclosed: 0 };
pub const NOISY: Style = Style { noise: 25, trim: 15, escapes: 6, unclosed: 10 };

#[derive(Clone, Debug)]
pub enum Piece {
    Text(String),
    /// content, droppable at the end of the file
    Tag(String, bool),
}

pub struct Printer<'a> {
    pub r: &'a mut Rng,
    pub st: Style,
    /// trim markers that were put next to whitespace they remove
    pub trims: u64,
    pub noops: u64,
    pub dropped: u64,
}

pub fn is_wn(c: char) -> bool {
    matches!(c, ' ' | '\t' | '\n' | '\r')
}

pub fn print(n: &[Nd], r: &mut Rng, st: Style) -> String {
    Printer { r, st, trims: 0, noops: 0, dropped: 0 }.template(n)
}

impl<'a> Printer<'a> {
    fn noise(&mut self) -> bool {
        self.st.noise > 0 && self.r.chance(self.st.noise, 100)
    }
    /// optional whitespace
    fn ws0(&mut self) -> &'static str {
        if self.noise() {
            *self.r.pick(&[" ", "  ", "\n", "\t", " \n ", "\r\n"])
        } else {
            ""
        }
    }
    /// whitespace that has to be there
    fn ws1(&mut self) -> &'static str {
        if self.noise() {
            *self.r.pick(&["  ", "\n", "\t", " \n ", "\r\n", "\t\t"])
        } else {
            " "
        }
    }
    /// optional spaces, one by default
    fn sp(&mut self) -> &'static str {
        if self.noise() {
            self.ws0()
        } else {
            " "
        }
    }

    pub fn template(&mut self, n: &[Nd]) -> String {
        let mut p = Vec::new();
        self.nodes(n, &mut p);
        if self.st.unclosed > 0 {
            while let Some(Piece::Tag(_, true)) = p.last() {
                if !self.r.chance(self.st.unclosed, 100) {
                    break;
                }
                p.pop();
                self.dropped += 1;
            }
        }
        self.pieces(&p)
    }

    pub fn pieces(&mut self, p: &[Piece]) -> String {
        let mut out = String::new();
        let text = |p: Option<&Piece>| match p {
            Some(Piece::Text(t)) => t.clone(),
            _ => String::new(),
        };
        for i in 0..p.len() {
            match &p[i] {
                Piece::Text(t) => {
                    let tag_next = i + 1 < p.len();
                    out.push_str(&self.encode(t, tag_next));
                }
                Piece::Tag(c, _) => {
                    let before = if i > 0 { text(p.get(i - 1)) } else { String::new() };
                    let after = text(p.get(i + 1));
                    let can_l = !before.ends_with(is_wn);
                    let can_r = !after.starts_with(is_wn);
                    if can_l && self.r.chance(self.st.trim, 100) {
                        if self.r.chance(1, 2) {
                            self.trims += 1;
                            out.push_str(*self.r.pick(&[" ", "\n", "\t\n  ", "\r\n", "    "]));
                        }
                        out.push_str("{{-");
                    } else {
                        out.push_str("{{");
                        if c.starts_with('-') {
                            out.push(' ');
                        }
                    }
                    out.push_str(self.ws0());
                    out.push_str(c);
                    out.push_str(self.ws0());
                    if can_r && self.r.chance(self.st.trim, 100) {
                        out.push_str("-}}");
                        if self.r.chance(1, 2) {
                            self.trims += 1;
                            out.push_str(*self.r.pick(&[" ", "\n", "\t\n  ", "\r\n", "    "]));
                        }
                    } else {
                        out.push_str("}}");
                    }
                }
            }
        }
        out
    }

    /// Text such that it reads back as `t`
    pub fn encode(&mut self, t: &str, tag_next: bool) -> String {
        let cs: Vec<char> = t.chars().collect();
        let mut out = String::new();
        let esc = self.st.escapes;
        for (i, &c) in cs.iter().enumerate() {
            let next = cs.get(i + 1).copied();
            let mut enc = String::new();
            match c {
                '\\' => enc.push_str("\\\\"),
                '{' => {
                    let safe = match next {
                        None => !tag_next,
                        Some(n) => n != '{' && !is_wn(n),
                    };
                    if esc == 0 && safe && self.r.chance(1, 2) {
                        enc.push('{')
                    } else {
                        enc.push_str("\\{")
                    }
                }
                c if is_wn(c) => enc.push(c),
                c => {
                    if esc > 0 && self.r.chance(esc, 100) {
                        self.noops += 1;
                        enc.push('\\');
                    }
                    enc.push(c)
                }
            }
            if esc > 0 && self.r.chance(esc, 200) {
                // an escape of whitespace, which stands for nothing
                self.noops += 1;
                out.push('\\');
                out.push_str(*self.r.pick(&[" ", "\n", "\n    ", "\r\n", "\t"]));
                // left open only when what follows can not be taken for a part of it
                if is_wn(c) || enc.starts_with('\\') || self.r.chance(1, 2) {
                    out.push('\\');
                }
            }
            out.push_str(&enc);
        }
        if esc > 0 && self.r.chance(esc, 100) {
            self.noops += 1;
            out.push_str(*self.r.pick(&["\\ ", "\\\n\\", "\\\n    "]));
        }
        out
    }

    fn nodes(&mut self, n: &[Nd], p: &mut Vec<Piece>) {
        for x in n {
            self.node(x, p)
        }
    }

    fn tag(&mut self, t: String, p: &mut Vec<Piece>) {
        p.push(Piece::Tag(t, false))
    }
    fn close(&mut self, t: &str, p: &mut Vec<Piece>) {
        let mut s = format!("/{}", t);
        if self.noise() {
            s.push_str(" ");
        }
        p.push(Piece::Tag(s, true))
    }

    fn node(&mut self, x: &Nd, p: &mut Vec<Piece>) {
        match x {
            Nd::Text(t) => {
                if t.is_empty() {
                    return;
                }
                if let Some(Piece::Text(l)) = p.last_mut() {
                    l.push_str(t)
                } else {
                    p.push(Piece::Text(t.clone()))
                }
            }
            Nd::Comment(c) => self.tag(format!("#{}#", c), p),
            Nd::Exp(e) => {
                let t = self.top(e);
                self.tag(t, p)
            }
            Nd::Let(l) | Nd::Export(l) => {
                let kw = if let Nd::Let(_) = x { "let" } else { "export" };
                let mut t = format!("{}{}", kw, self.ws1());
                for (i, (k, e)) in l.iter().enumerate() {
                    let bare_cmd = matches!(e, Ex::Cmd(..)) && !self.noise();
                    let ident = self.ident(k);
                    let es = if bare_cmd { self.top(e) } else { self.arg(e, false) };
                    t.push_str(&format!("{}{}={}{}", ident, self.sp(), self.sp(), es));
                    let last = i + 1 == l.len();
                    if !last || self.noise() {
                        // a bare command takes the newline as space before another argument
                        let c = if bare_cmd {
                            self.r.below(2)
                        } else {
                            self.r.below(3)
                        };
                        if self.noise() {
                            t.push_str(*self.r.pick(&[" ", "  ", "\t", " \t "]));
                        }
                        t.push_str([";", ",", "\n"][c]);
                        t.push_str(self.ws0());
                    }
                }
                self.tag(t, p)
            }
            Nd::Return(e) => {
                let t = format!("return{}{}", self.ws1(), self.top(e));
                self.tag(t, p)
            }
            Nd::If(arms, no) => {
                for (i, (c, b)) in arms.iter().enumerate() {
                    let kw = if i == 0 { "if" } else { "elif" };
                    let t = format!("{}{}{}", kw, self.ws1(), self.top(c));
                    self.tag(t, p);
                    self.nodes(b, p);
                }
                if let Some(b) = no {
                    self.tag("else".to_string(), p);
                    self.nodes(b, p);
                    self.close("if", p);
                } else {
                    self.tag("/if".to_string(), p);
                }
            }
            Nd::For(k, v, e, b) => {
                let t = format!(
                    "for{}{}{}{}{}in{}{}",
                    self.ws1(),
                    self.ident(k),
                    self.ws1(),
                    self.ident(v),
                    self.ws1(),
                    self.ws1(),
                    self.top(e)
                );
                self.tag(t, p);
                self.nodes(b, p);
                self.close("for", p);
            }
            Nd::Block(c, ps, b) => {
                let mut t = format!("@{}", self.ident(c));
                for (i, e) in ps.iter().enumerate() {
                    let last = i + 1 == ps.len();
                    t.push_str(self.ws1());
                    let s = self.arg(e, last);
                    t.push_str(&s);
                }
                self.tag(t, p);
                self.nodes(b, p);
                let c = self.ident(c);
                self.close(&c, p);
            }
            Nd::AtLet(k, b) | Nd::AtExport(k, b) => {
                let kw = if let Nd::AtLet(..) = x { "let" } else { "export" };
                let t = format!("@{}{}{}", kw, self.ws1(), self.ident(k));
                self.tag(t, p);
                self.nodes(b, p);
                self.close(kw, p);
            }
            Nd::Define(k, ps, b) | Nd::Global(k, ps, b) => {
                let kw = if let Nd::Define(..) = x { "define" } else { "global" };
                let mut t = format!("{}{}{}", kw, self.ws1(), self.ident(k));
                for q in ps {
                    t.push_str(self.ws1());
                    t.push_str(&self.ident(q));
                }
                self.tag(t, p);
                self.nodes(b, p);
                self.close(kw, p);
            }
            Nd::Switch(e, cases) => {
                let t = format!("switch{}{}", self.ws1(), self.top(e));
                self.tag(t, p);
                if self.noise() {
                    // nothing before the first case is output
                    p.push(Piece::Text("\n unused \n".to_string()));
                    if self.noise() {
                        self.tag("# unused #".to_string(), p);
                    }
                }
                for (pats, b) in cases {
                    let mut t = "case".to_string();
                    for q in pats {
                        t.push_str(self.ws1());
                        let s = self.pat(q);
                        t.push_str(&s);
                    }
                    // keep "}" away from the tag's own "}}"
                    if t.ends_with('}') {
                        t.push(' ')
                    }
                    self.tag(t, p);
                    self.nodes(b, p);
                }
                self.close("switch", p);
            }
            Nd::As(e, q, b) => {
                let mut t = format!(
                    "as{}{}{}:{}{}",
                    self.ws1(),
                    self.top(e),
                    self.ws0(),
                    self.ws0(),
                    self.pat(q)
                );
                if t.ends_with('}') {
                    t.push(' ')
                }
                self.tag(t, p);
                self.nodes(b, p);
                self.close("as", p);
            }
        }
    }

    pub fn ident(&mut self, k: &str) -> String {
        let simple = k.starts_with(|c: char| c.is_ascii_alphabetic())
            && k.chars().all(|c| c.is_ascii_alphanumeric() || c == '_');
        if !simple || (self.st.noise > 0 && self.r.chance(self.st.noise, 300)) {
            format!("'{}'", k)
        } else {
            k.to_string()
        }
    }

    /// where only one expression stands
    pub fn top(&mut self, e: &Ex) -> String {
        match e {
            Ex::Cmd(c, a) => {
                let s = self.cmd(c, a);
                if self.noise() {
                    format!("({}{}{})", self.ws0(), s, self.ws0())
                } else {
                    s
                }
            }
            e => self.arg(e, true),
        }
    }

    fn cmd(&mut self, c: &str, a: &[Ex]) -> String {
        let mut s = self.ident(c);
        for (i, e) in a.iter().enumerate() {
            s.push_str(self.ws1());
            let t = self.arg(e, i + 1 == a.len());
            s.push_str(&t);
        }
        s
    }

    /// as an argument. A command takes all the arguments that follow, unless in parentheses
    pub fn arg(&mut self, e: &Ex, last: bool) -> String {
        match e {
            Ex::Cmd(c, a) => {
                let s = self.cmd(c, a);
                if last && self.noise() {
                    s
                } else {
                    format!("({}{}{})", self.ws0(), s, self.ws0())
                }
            }
            e => {
                let s = match e {
                    Ex::Lit(v) => self.lit(v),
                    Ex::Var(p) => self.var(p),
                    Ex::List(l) => {
                        let mut s = "[".to_string();
                        for (i, e) in l.iter().enumerate() {
                            s.push_str(self.ws0());
                            let bare = matches!(e, Ex::Cmd(..)) && self.noise();
                            let t = if bare { self.top(e) } else { self.arg(e, false) };
                            s.push_str(&t);
                            if i + 1 < l.len() {
                                if bare || !self.noise() {
                                    s.push_str(self.ws0());
                                    s.push(',');
                                } else {
                                    s.push_str(self.ws1());
                                }
                            }
                        }
                        s.push_str(self.ws0());
                        s + "]"
                    }
                    Ex::Map(m) => {
                        let mut s = "{".to_string();
                        for (i, (k, e)) in m.iter().enumerate() {
                            let k = if self.noise() { quote_esc(self.r, k) } else { self.ident(k) };
                            s.push_str(self.ws0());
                            s.push_str(&k);
                            s.push_str(self.ws0());
                            s.push(':');
                            s.push_str(self.ws0());
                            let t = self.top(e);
                            s.push_str(&t);
                            s.push_str(self.ws0());
                            if i + 1 < m.len() {
                                s.push(',');
                            }
                        }
                        s.push_str(self.ws0());
                        s + "}"
                    }
                    Ex::Cmd(..) => unreachable!(),
                };
                // "{{{" would be read as "{{" and then a map, and "}}}" as "}}" and then "}"
                let braces = s.starts_with('{') || s.ends_with('}');
                if braces || (self.st.noise > 0 && self.r.chance(self.st.noise, 300)) {
                    format!("({}{}{})", self.ws0(), s, self.ws0())
                } else {
                    s
                }
            }
        }
    }

    pub fn var(&mut self, p: &[Part]) -> String {
        let part = |me: &mut Self, q: &Part| match q {
            Part::N(n) => n.to_string(),
            Part::I(k) => me.ident(k),
        };
        if p.len() == 1 && p[0] == Part::I("@".to_string()) {
            return "@".to_string();
        }
        if p.len() > 1 && p[0] == Part::N(0) && self.noise() {
            let mut s = String::new();
            for q in &p[1..] {
                s.push('.');
                s.push_str(&part(self, q));
            }
            return s;
        }
        let v: Vec<String> = p.iter().map(|q| part(self, q)).collect();
        format!("${}", v.join("."))
    }

    pub fn lit(&mut self, v: &V) -> String {
        match v {
            V::Null => "null".to_string(),
            V::Bool(b) => b.to_string(),
            V::UInt(n) => {
                let s = n.to_string();
                if self.noise() && s.len() > 3 {
                    format!("{}_{}", &s[..s.len() - 3], &s[s.len() - 3..])
                } else {
                    s
                }
            }
            // there is no spelling for signed numbers that are not negative
            V::Int(n) if *n < 0 => n.to_string(),
            V::Int(n) => panic!("no literal for the signed {}", n),
            V::Float(f) => format!("{:?}", f),
            V::Str(s) => quote(self.r, s),
            V::Date(y, m, d) => {
                let names = [
                    "jan", "feb", "mar", "apr", "may", "jun", "jul", "aug", "sep", "oct", "nov",
                    "dec",
                ];
                let m = if self.noise() {
                    names[*m as usize - 1].to_string()
                } else {
                    m.to_string()
                };
                format!("{}/{}/{}", d, m, y)
            }
            V::List(l) => {
                let e: Vec<Ex> = l.iter().map(|v| Ex::Lit(v.clone())).collect();
                self.arg(&Ex::List(e), false)
            }
            V::Map(m) => {
                let e = m.iter().map(|(k, v)| (k.clone(), Ex::Lit(v.clone()))).collect();
                self.arg(&Ex::Map(e), false)
            }
            V::Tmpl(_) | V::Bytes(_) => panic!("no literal for {:?}", v),
        }
    }

    pub fn pat(&mut self, p: &Pat) -> String {
        match p {
            Pat::Any => "_".to_string(),
            Pat::Val(v) => self.lit(v),
            Pat::Filter(e) => {
                let e = match e {
                    Ex::Cmd(c, a) => self.cmd(c, a),
                    e => self.arg(e, true),
                };
                format!("?({})", e)
            }
            Pat::Cap(k, None) => format!("<{}{}{}>", self.ws0(), self.ident(k), self.ws0()),
            Pat::Cap(k, Some(q)) => {
                format!("<{}{}{}:{}>", self.ws0(), self.ident(k), self.ws0(), self.pat(q))
            }
            Pat::List(l) => {
                let mut s = "[".to_string();
                for (i, q) in l.iter().enumerate() {
                    s.push_str(self.ws0());
                    let t = self.pat(q);
                    s.push_str(&t);
                    if i + 1 < l.len() {
                        s.push_str(if self.noise() { " " } else { "," });
                    }
                }
                s.push_str(self.ws0());
                s + "]"
            }
            Pat::Map(m) => {
                let mut s = "{".to_string();
                for (i, (k, q)) in m.iter().enumerate() {
                    s.push_str(self.ws0());
                    s.push_str(&self.ident(k));
                    if let Some(q) = q {
                        s.push_str(self.ws0());
                        s.push(':');
                        s.push_str(self.ws0());
                        let t = self.pat(q);
                        s.push_str(&t);
                    }
                    s.push_str(self.ws0());
                    if i + 1 < m.len() {
                        s.push_str(if self.noise() { " " } else { "," });
                    }
                }
                s + "}"
            }
        }
    }
}

/// A string literal
pub fn quote(r: &mut Rng, s: &str) -> String {
    if !s.contains("\"#") && !s.ends_with('"') && r.chance(1, 12) {
        return format!("r#\"{}\"#", s);
    }
    quote_esc(r, s)
}

/// with escapes, never raw
pub fn quote_esc(r: &mut Rng, s: &str) -> String {
    let mut o = "\"".to_string();
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' if r.chance(3, 4) => o += "\\n",
            '\r' if r.chance(3, 4) => o += "\\r",
            '\t' if r.chance(3, 4) => o += "\\t",
            '\u{8}' if r.chance(1, 2) => o += "\\b",
            '\u{c}' if r.chance(1, 2) => o += "\\f",
            '/' if r.chance(1, 6) => o += "\\/",
            c if (c as u32) <= 0xFFFF && r.chance(1, 25) => o += &format!("\\u{:04x}", c as u32),
            c if (c as u32) > 0xFFFF && r.chance(1, 4) => {
                let mut b = [0u16; 2];
                for u in c.encode_utf16(&mut b) {
                    o += &format!("\\u{:04X}", u);
                }
            }
            c => o.push(c),
        }
    }
    o + "\""
}
