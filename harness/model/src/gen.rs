//! Random values, patterns and whole programs
use crate::ast::*;
use crate::interp::Env;
use crate::rng::Rng;
use crate::val::*;
use std::collections::BTreeMap;
use std::rc::Rc;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum K {
    N,
    S,
    L,
    M,
    T,
    B,
    A,
}
pub const KINDS: [K; 5] = [K::N, K::S, K::L, K::M, K::B];

pub fn kind_of(name: &str) -> K {
    match name.as_bytes().first() {
        Some(b'n') => K::N,
        Some(b's') => K::S,
        Some(b'l') => K::L,
        Some(b'm') => K::M,
        Some(b't') => K::T,
        Some(b'b') => K::B,
        _ => K::A,
    }
}

fn letter(k: K) -> &'static str {
    match k {
        K::N => "n",
        K::S => "s",
        K::L => "l",
        K::M => "m",
        K::T => "t",
        K::B => "b",
        K::A => "a",
    }
}

const WORDS: &[&str] = &[
    "", "a", "b", "ab", "cat", "dog", "x y", "0", "12", "-", "é", "日本", "😀", "A", "Zz", "a,b",
    "two words", "<p>", "\"q\"", "it's", "a\nb", "{{", "}}", "\\", "&amp;", "$0", "null", "true",
];

/// Texts that look like something else
pub fn lookalike(r: &mut Rng) -> String {
    r.pick(&[
        "007", "10", "-5", "+3", "1e5", "1.0", "1.", ".5", "0x10", "1_000", "1,000", "NaN", "inf", "-0", "true", "false", "True", "yes", "no",
        "null", "NULL", "Null", "None", "nil", "2020-02-30", "2020-01-02", "1/2", "[]", "[1]", "{}", "{\"a\":1}", "\"q\"", "'q'", "$0", "$x",
        "{{1}}", "@x", "&amp;", "&lt;", "%20", "a%41", "\\n", "\\u0041", "\u{feff}", "#", "//", "--", "=1", "NO", "off", "18446744073709551616",
        "99999999999999999999", "1d", "5px", "50%", "it's", "<b>", "a=b", "a:b", "a,b", "a;b", "-", "_", "*", "?", "..", ".",
    ])
    .to_string()
}

pub fn word(r: &mut Rng) -> String {
    if r.chance(1, 12) {
        return lookalike(r);
    }
    if r.chance(1, 6) {
        let n = r.some(5);
        (0..n).map(|_| any_char(r)).collect()
    } else {
        r.pick(WORDS).to_string()
    }
}

pub fn any_char(r: &mut Rng) -> char {
    match r.below(10) {
        0..=3 => (b'a' + r.below(26) as u8) as char,
        4..=5 => (32 + r.below(95) as u8) as char,
        6 => *r.pick(&[' ', '\n', '\t', '\r', '\u{a0}', '\u{2028}', '\u{3000}']),
        7 => *r.pick(&['{', '}', '\\', '"', '\'', '$', '@', '#', '/', '-', '&', '<', '>', '|', '*']),
        8 if r.chance(1, 3) => *r.pick(&[
            '\u{feff}', '\u{200b}', '\u{85}', '\u{b}', '\u{c}', '\0', '\u{1b}', '\u{7f}', '\u{fffd}', '\u{ffff}', '\u{200e}', '\u{ad}',
            '\u{2060}', '\u{1680}', '\u{e000}', '\u{1a}', '\u{8}', '\u{7}',
        ]),
        8 => *r.pick(&['é', 'ß', 'İ', 'ﬃ', '日', 'Ω', '\u{301}', '\u{200d}']),
        _ => loop {
            let hi = *r.pick(&[0x80usize, 0x800, 0x10000, 0x110000]);
            if let Some(c) = char::from_u32(r.below(hi) as u32) {
                break c;
            }
        },
    }
}

pub fn text_of(r: &mut Rng, max: usize) -> String {
    if r.chance(1, 12) {
        let s = lookalike(r);
        if s.chars().count() <= max {
            return s;
        }
    }
    let n = r.below(max + 1);
    (0..n).map(|_| any_char(r)).collect()
}

pub fn hostile_int(r: &mut Rng) -> i64 {
    match r.below(8) {
        0 => i64::MIN + r.below(3) as i64,
        1 => i64::MAX - r.below(3) as i64,
        2 => r.range(-3, 3),
        3 => (1i64 << r.below(63)) + r.range(-1, 1),
        4 => -(1i64 << r.below(63)).wrapping_add(r.range(-1, 1)),
        5 => r.u64() as i64,
        _ => r.range(-100, 100),
    }
}

pub fn hostile_uint(r: &mut Rng) -> u64 {
    match r.below(8) {
        0 => u64::MAX - r.below(3) as u64,
        1 => (i64::MAX as u64).wrapping_add(r.below(4) as u64).wrapping_sub(1),
        2 => r.below(4) as u64,
        3 => (1u64 << r.below(64)).wrapping_add(r.below(3) as u64).wrapping_sub(1),
        4 => r.u64(),
        _ => r.below(200) as u64,
    }
}

pub fn hostile_float(r: &mut Rng) -> f64 {
    match r.below(10) {
        0 => *r.pick(&[0.0, -0.0, 1.0, -1.0, 0.5, -0.5, 1.5, 2.0, 3.0]),
        1 => *r.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY]),
        2 => *r.pick(&[f64::MAX, f64::MIN, f64::MIN_POSITIVE, 5e-324, f64::EPSILON]),
        3 => f64::from_bits(r.u64()),
        4 => hostile_int(r) as f64,
        5 => hostile_uint(r) as f64,
        6 => (1u64 << 53) as f64 + r.range(-2, 2) as f64,
        7 => r.range(-40, 40) as f64 / 4.0,
        _ => (r.f01() - 0.5) * 10f64.powi(r.range(-5, 20) as i32),
    }
}

pub fn date(r: &mut Rng) -> V {
    let y = if r.chance(1, 12) {
        *r.pick(&[0, 1, -1, -44, 9999, 10000, 262000, -262000])
    } else {
        r.range(1990, 2030) as i32
    };
    V::Date(y, 1 + r.below(12) as u32, 1 + r.below(28) as u32)
}

#[derive(Clone, Copy)]
pub struct ValOpts {
    pub depth: usize,
    /// only what has a literal spelling
    pub literal: bool,
    pub hostile: bool,
    pub bytes: bool,
}

pub const TAME: ValOpts = ValOpts { depth: 2, literal: false, hostile: false, bytes: false };
pub const WILD: ValOpts = ValOpts { depth: 2, literal: false, hostile: true, bytes: true };
pub const LITERAL: ValOpts = ValOpts { depth: 2, literal: true, hostile: false, bytes: false };

pub fn value(r: &mut Rng, o: ValOpts) -> V {
    let w: [u32; 11] = [
        1,
        2,
        3,
        4,
        2,
        5,
        1,
        if o.depth > 0 { 4 } else { 0 },
        if o.depth > 0 { 3 } else { 0 },
        if o.bytes { 1 } else { 0 },
        if o.bytes && !o.literal { 1 } else { 0 },
    ];
    let sub = ValOpts { depth: o.depth.saturating_sub(1), ..o };
    match r.weighted(&w) {
        0 => V::Null,
        1 => V::Bool(r.chance(1, 2)),
        2 => {
            let n = if o.hostile { hostile_int(r) } else { r.range(-9, 9) };
            if o.literal && n >= 0 {
                V::UInt(n as u64)
            } else {
                V::Int(n)
            }
        }
        3 => V::UInt(if o.hostile { hostile_uint(r) } else { r.below(12) as u64 }),
        4 => loop {
            let f = if o.hostile { hostile_float(r) } else { r.range(-20, 20) as f64 / 4.0 };
            if !o.literal || f.is_finite() {
                break V::Float(f);
            }
        },
        5 => V::Str(if o.hostile && r.chance(1, 3) { text_of(r, 8) } else { word(r) }),
        6 => date(r),
        7 => {
            let n = r.some(5);
            V::List((0..n).map(|_| value(r, sub)).collect())
        }
        8 => {
            let n = r.some(4);
            V::Map((0..n).map(|_| (key(r), value(r, sub))).collect())
        }
        9 => {
            let n = r.some(5);
            V::Bytes((0..n).map(|_| r.u64() as u8).collect())
        }
        _ => V::Tmpl(Rc::new(TDef { params: vec![], body: vec![text(*r.pick(&["x", "y"]))] })),
    }
}

pub fn simple(r: &mut Rng, literal: bool) -> V {
    value(r, ValOpts { depth: 0, literal, hostile: false, bytes: false })
}

/// Names that mean something elsewhere, and nothing here
pub fn member(r: &mut Rng) -> String {
    r.pick(&[
        "len", "length", "size", "count", "keys", "values", "first", "last", "type", "year", "month", "day", "key", "value", "index", "parent",
        "root", "it", "this", "self", "item", "loop", "n", "num", "empty", "rest", "_", "args", "env", "super", "min", "max", "str", "data",
        "true", "NULL", "-1", "*", "..", "scope", "blocks", "exports", "params",
    ])
    .to_string()
}

pub fn key(r: &mut Rng) -> String {
    if r.chance(1, 12) {
        return member(r);
    }
    r.pick(&["a", "b", "k", "n0", "s0", "name", "Name", "x1", "two words", "ünï", "0", "1", "null", "if", "a.b"]).to_string()
}

/// A pattern for a value; most of the time one that matches
pub fn pat_for(r: &mut Rng, v: &V, depth: usize, caps: &mut Vec<String>) -> Pat {
    if r.chance(1, 10) {
        let w = value(r, ValOpts { depth: 0, ..LITERAL });
        return Pat::Val(w);
    }
    if r.chance(1, 10) {
        if let Some(w) = crate::near::near_literal(r, v) {
            return Pat::Val(w);
        }
    }
    if r.chance(1, 8) {
        return Pat::Any;
    }
    if r.chance(1, 4) {
        let n = cap_name(r, v);
        caps.push(n.clone());
        let sub = if r.chance(1, 2) && depth > 0 {
            Some(Box::new(pat_for(r, v, depth - 1, caps)))
        } else {
            None
        };
        return Pat::Cap(n, sub);
    }
    if r.chance(1, 8) {
        return Pat::Filter(filter_for(r, v));
    }
    match v {
        V::List(l) => {
            let mut n = l.len();
            if r.chance(1, 4) {
                n = r.below(n + 1);
            }
            let mut p: Vec<Pat> = Vec::new();
            for x in &l[..n] {
                p.push(if depth == 0 { Pat::Any } else { pat_for(r, x, depth - 1, caps) });
            }
            if r.chance(1, 10) {
                p.push(Pat::Any);
            }
            Pat::List(p)
        }
        V::Map(m) => {
            let mut p = Vec::new();
            for (k, x) in m {
                if r.chance(1, 3) {
                    continue;
                }
                let short = r.chance(1, 3);
                if short {
                    caps.push(k.clone());
                }
                p.push((
                    k.clone(),
                    if short {
                        None
                    } else if depth == 0 {
                        Some(Pat::Any)
                    } else {
                        Some(pat_for(r, x, depth - 1, caps))
                    },
                ));
            }
            if r.chance(1, 12) {
                let k = key(r);
                p.push((k, Some(Pat::Any)));
            }
            r.shuffle(&mut p);
            Pat::Map(p)
        }
        V::Int(n) if *n >= 0 => Pat::Val(V::UInt(*n as u64)),
        V::Float(f) if !f.is_finite() => Pat::Any,
        V::Bytes(_) | V::Tmpl(_) => Pat::Any,
        v => Pat::Val(v.clone()),
    }
}

fn cap_name(r: &mut Rng, v: &V) -> String {
    let k = match v {
        V::Int(_) | V::UInt(_) | V::Float(_) => K::N,
        V::Str(_) => K::S,
        V::List(_) => K::L,
        V::Map(_) => K::M,
        V::Bool(_) => K::B,
        _ => K::A,
    };
    format!("{}{}", letter(k), r.below(4))
}

fn filter_for(r: &mut Rng, v: &V) -> Ex {
    let at = var("@");
    match r.below(7) {
        0 => cmd("eq", vec![at, Ex::Lit(value(r, ValOpts { depth: 0, ..LITERAL }))]),
        1 => cmd("gt", vec![at, Ex::Lit(V::UInt(r.below(6) as u64))]),
        2 => cmd("type_of", vec![at, lit_s(v.type_name())]),
        3 => cmd("tr", vec![lit_s("f"), cmd("gte", vec![cmd("len", vec![at]), Ex::Lit(V::UInt(2))])]),
        // not a boolean, so never a match
        4 => at,
        5 => cmd("er", vec![at]),
        _ => cmd("lt", vec![cmd("get", vec![at, Ex::Lit(V::UInt(0))]), Ex::Lit(V::UInt(5))]),
    }
}

pub type Weights = [u32; 15];
/// text, comment, print, dump, block, if, for, define, global, let, export, @let, @export, return,
/// match (switch or as)
pub const EVEN: Weights = [5, 1, 6, 4, 2, 4, 3, 2, 1, 5, 2, 1, 1, 1, 3];

#[derive(Clone, Copy)]
pub struct Profile {
    pub w: Weights,
    pub size: usize,
    /// n in 1000 expressions fail, or use the wrong kind
    pub wrong: usize,
    /// n in 100 expressions are probes, which log their arguments
    pub probe: usize,
    /// n in 100 calls of templates, where there are some
    pub calls: usize,
}
pub const PROFILE: Profile = Profile { w: EVEN, size: 22, wrong: 12, probe: 8, calls: 15 };

pub struct Prog {
    pub main: TDef,
    /// None: a manager that holds nothing
    pub temps: Option<BTreeMap<String, Rc<TDef>>>,
    pub params: Vec<V>,
}

impl Prog {
    pub fn env(&self) -> Env {
        let mut e = Env::new();
        e.temps = self.temps.clone();
        e
    }
}

pub struct Gen<'a> {
    pub r: &'a mut Rng,
    pub p: Profile,
    budget: i64,
    vis: Vec<Vec<String>>,
    /// templates that can be called by name, with their number of parameters
    named: Vec<(String, usize)>,
    nparams: usize,
    /// an error here is caught
    absorb: bool,
    nest: usize,
}

pub fn program(r: &mut Rng, p: Profile) -> Prog {
    let mut temps = BTreeMap::new();
    let mut named = Vec::new();
    let nt = if p.calls > 0 { r.some(4) } else { 0 };
    for i in 0..nt {
        let name = format!("g{}", i);
        let mut g = Gen::new(r, p, (p.size / 3) as i64);
        g.named = named.clone();
        let (params, body) = g.template();
        named.push((name.clone(), params.len().max(2)));
        temps.insert(name, Rc::new(TDef { params, body }));
    }
    let no = temps.is_empty() && r.chance(1, 6);
    let np = r.some(4);
    let mut g = Gen::new(r, p, p.size as i64);
    g.named = named;
    let mut pnames = Vec::new();
    let mut params = Vec::new();
    for _ in 0..np {
        let k = *g.r.pick(&KINDS);
        params.push(g.val(k));
        pnames.push(g.name(k));
    }
    if p.calls > 0 && g.r.chance(1, 6) {
        // a template as a parameter
        let (params_t, body) = g.template();
        params.push(V::Tmpl(Rc::new(TDef { params: params_t, body })));
        pnames.push(g.name(K::T));
    } else if g.r.chance(2, 3) {
        pnames.clear();
    }
    g.vis = vec![pnames.clone()];
    g.nparams = params.len();
    let body = g.body();
    let mut p = Prog {
        main: TDef { params: pnames, body },
        temps: if no { None } else { Some(temps) },
        params,
    };
    if r.chance(2, 5) {
        crate::splice::splice(r, &mut p)
    }
    if r.chance(1, 4) {
        crate::splice::respell(r, &mut p)
    }
    p
}

impl<'a> Gen<'a> {
    pub fn new(r: &'a mut Rng, p: Profile, budget: i64) -> Gen<'a> {
        Gen {
            r,
            p,
            budget,
            vis: vec![vec![]],
            named: Vec::new(),
            nparams: 0,
            absorb: false,
            nest: 0,
        }
    }

    fn name(&mut self, k: K) -> String {
        format!("{}{}", letter(k), self.r.below(3))
    }
    fn any_name(&mut self) -> String {
        let k = *self.r.pick(&[K::N, K::N, K::S, K::S, K::L, K::M, K::B, K::A]);
        self.name(k)
    }
    /// a name that is likely there
    fn seen_name(&mut self, k: K) -> Option<String> {
        let c: Vec<&String> =
            self.vis.iter().flatten().filter(|n| k == K::A || kind_of(n) == k).collect();
        if c.is_empty() {
            return None;
        }
        // the last ones more often
        let n = if self.r.chance(1, 2) { c.len() - 1 } else { self.r.below(c.len()) };
        Some(c[n].clone())
    }
    fn add(&mut self, n: &str) {
        self.vis.last_mut().unwrap().push(n.to_string())
    }

    pub fn val(&mut self, k: K) -> V {
        match k {
            K::N => match self.r.below(4) {
                0 => V::Int(-1 - self.r.below(9) as i64),
                1 => V::Float(self.r.range(-20, 20) as f64 / 4.0),
                _ => V::UInt(self.r.below(12) as u64),
            },
            K::S => V::Str(word(self.r)),
            K::B => V::Bool(self.r.chance(1, 2)),
            K::L => {
                let n = self.r.some(5);
                let k = *self.r.pick(&[K::N, K::N, K::S, K::A]);
                V::List((0..n).map(|_| self.val(k)).collect())
            }
            K::M => {
                let n = 1 + self.r.weighted(&[5, 2, 1]);
                V::Map(
                    (0..n)
                        .map(|_| {
                            let k = *self.r.pick(&[K::N, K::S, K::L]);
                            (key(self.r), self.val(k))
                        })
                        .collect(),
                )
            }
            K::T | K::A => value(self.r, ValOpts { depth: 1, ..LITERAL }),
        }
    }

    /// parameter names and body of a template
    pub fn template(&mut self) -> (Vec<String>, Vec<Nd>) {
        let np = self.r.some(4);
        let mut params: Vec<String> = Vec::new();
        for _ in 0..np {
            let n = if self.p.calls > 0 && self.r.chance(1, 12) {
                self.name(K::T)
            } else {
                self.any_name()
            };
            params.push(n);
        }
        let vis = std::mem::replace(&mut self.vis, vec![params.clone()]);
        let np = std::mem::replace(&mut self.nparams, params.len().max(1));
        let absorb = std::mem::replace(&mut self.absorb, false);
        let b = self.body();
        self.vis = vis;
        self.nparams = np;
        self.absorb = absorb;
        (params, b)
    }

    pub fn body(&mut self) -> Vec<Nd> {
        self.nest += 1;
        let n = match self.nest > 1 {
            true if self.r.chance(1, 12) => 0,
            true => 1 + self.r.below(4),
            false => 1 + self.r.below(12),
        };
        let mut v = Vec::new();
        for _ in 0..n {
            if self.budget <= 0 {
                break;
            }
            let n = self.node();
            // what was defined is to be used as well
            let again = match &n {
                Nd::Define(k, p, _) if self.p.calls > 0 => Some((true, k.clone(), p.len())),
                Nd::Global(k, p, _) if self.p.calls > 0 => Some((false, k.clone(), p.len())),
                _ => None,
            };
            v.push(n);
            if let Some((local, k, np)) = again {
                if self.r.chance(1, 2) && self.budget > 0 {
                    let k2 = *self.r.pick(&KINDS);
                    let mut a: Vec<Ex> = (0..np).map(|_| self.ex(k2, 1)).collect();
                    let name = if local {
                        a.insert(0, var(&k));
                        "run".to_string()
                    } else {
                        k
                    };
                    v.push(Nd::Exp(Ex::Cmd(name, a)));
                }
            }
        }
        self.nest -= 1;
        if v.is_empty() && self.nest == 0 {
            v.push(text("."));
        }
        v
    }

    fn block(&mut self) -> Vec<Nd> {
        self.vis.push(vec![]);
        let b = self.body();
        self.vis.pop();
        b
    }

    fn words(&mut self) -> String {
        match self.r.below(5) {
            0 => format!(" {} ", word(self.r)),
            1 => "\n".to_string(),
            2 => text_of(self.r, 6),
            _ => word(self.r) + *self.r.pick(&["", " ", "\n", ", "]),
        }
    }

    pub fn dump(&mut self) -> Ex {
        // what several names stand for here
        let mut a = Vec::new();
        for _ in 0..1 + self.r.some(3) {
            let n = if self.r.chance(2, 3) { self.seen_name(K::A) } else { None };
            let n = n.unwrap_or_else(|| self.any_name());
            a.push(cmd("first", vec![var(&n), lit_s("?")]));
        }
        cmd("tr", vec![Ex::List(a), lit_s("~")])
    }

    fn assigns(&mut self, root: bool) -> Vec<(String, Ex)> {
        let mut v = Vec::new();
        for _ in 0..1 + self.r.weighted(&[6, 2, 1]) {
            let k = *self.r.pick(&[K::N, K::N, K::S, K::S, K::L, K::M, K::B, K::A]);
            let n = if self.r.chance(1, 3) {
                self.seen_name(k).unwrap_or_else(|| self.name(k))
            } else {
                self.name(k)
            };
            let e = self.ex(kind_of(&n), 2);
            v.push((n.clone(), e));
            if root {
                self.vis[0].push(n)
            } else {
                self.add(&n)
            }
        }
        v
    }

    pub fn node(&mut self) -> Nd {
        self.budget -= 1;
        let mut w = self.p.w;
        if self.nest > 4 {
            for i in [4, 5, 6, 7, 8, 11, 12, 14] {
                w[i] = 0
            }
        }
        match self.r.weighted(&w) {
            0 => Nd::Text(self.words()),
            1 => Nd::Comment(self.r.pick(&["", " note ", "{{$0}}", " if "]).to_string()),
            2 => {
                let k = *self.r.pick(&[K::N, K::S, K::S, K::B, K::L]);
                Nd::Exp(self.ex(k, 3))
            }
            3 => Nd::Exp(self.dump()),
            4 => {
                let b = self.block();
                match self.r.below(5) {
                    0 => Nd::Block("cat".into(), vec![], b),
                    3 => {
                        let c = *self.r.pick(&["tr", "tr", "is_null", "type_of"]);
                        let a = match self.r.below(4) {
                            0 => vec![self.ex(K::A, 2), var("@")],
                            1 => vec![var("@"), self.ex(K::A, 2)],
                            _ => vec![],
                        };
                        Nd::Block(c.into(), a, b)
                    }
                    1 => Nd::Block(
                        "cat".into(),
                        vec![lit_s("("), var("@"), lit_s(")"), self.ex(K::S, 1)],
                        b,
                    ),
                    2 => Nd::Block("len".into(), vec![], b),
                    _ => match self.some_named() {
                        Some((n, c)) => {
                            let mut a: Vec<Ex> = (0..c).map(|_| self.ex(K::A, 1)).collect();
                            if !a.is_empty() {
                                let i = self.r.below(a.len());
                                a[i] = var("@");
                            }
                            Nd::Block(n, a, b)
                        }
                        None => Nd::Block("html_esc".into(), vec![], b),
                    },
                }
            }
            5 => {
                let mut arms = Vec::new();
                for _ in 0..1 + self.r.weighted(&[5, 2, 1]) {
                    let k = *self.r.pick(&[K::B, K::B, K::B, K::N, K::S, K::L, K::A]);
                    let was = std::mem::replace(&mut self.absorb, true);
                    let c = self.ex(k, 2);
                    self.absorb = was;
                    let b = self.block();
                    arms.push((c, b));
                }
                let no = if self.r.chance(1, 2) { Some(self.block()) } else { None };
                Nd::If(arms, no)
            }
            6 => {
                let e = match self.r.below(6) {
                    0 | 1 | 2 => self.ex(K::L, 2),
                    3 => Ex::Lit(V::UInt(self.r.below(5) as u64)),
                    4 => {
                        let v = self.val(K::M);
                        match v {
                            V::Map(m) if m.len() > 1 => {
                                Ex::Map(vec![("k".into(), self.ex(K::N, 1))])
                            }
                            v => Ex::Lit(v),
                        }
                    }
                    _ => self.ex(K::N, 1),
                };
                let k = self.any_name();
                let v = self.any_name();
                self.add(&k);
                self.add(&v);
                let b = self.block();
                Nd::For(k, v, e, b)
            }
            7 => {
                let n = self.name(K::T);
                let (p, b) = self.template();
                self.add(&n);
                Nd::Define(n, p, b)
            }
            8 => {
                let n = format!("g{}", self.r.below(5));
                let (p, b) = self.template();
                self.named.push((n.clone(), p.len()));
                Nd::Global(n, p, b)
            }
            9 => Nd::Let(self.assigns(false)),
            10 => Nd::Export(self.assigns(true)),
            11 => {
                let b = self.block();
                let n = self.name(K::S);
                self.add(&n);
                Nd::AtLet(n, b)
            }
            12 => {
                let b = self.block();
                let n = self.name(K::S);
                self.vis[0].push(n.clone());
                Nd::AtExport(n, b)
            }
            13 => Nd::Return(self.ex(K::A, 2)),
            _ => self.matcher(),
        }
    }

    fn matcher(&mut self) -> Nd {
        let (e, v) = if self.r.chance(3, 4) {
            let v = value(self.r, ValOpts { depth: 2, ..LITERAL });
            (Ex::Lit(v.clone()), v)
        } else {
            let k = *self.r.pick(&KINDS);
            (self.ex(k, 2), self.val(k))
        };
        if self.r.chance(1, 2) {
            let mut caps = Vec::new();
            let p = pat_for(self.r, &v, 3, &mut caps);
            self.vis.push(caps);
            let b = self.block();
            self.vis.pop();
            Nd::As(e, p, b)
        } else {
            let n = if self.r.chance(1, 15) { 0 } else { 1 + self.r.some(3) };
            let e = if n == 0 { self.ex(K::A, 2) } else { e };
            let mut cases = Vec::new();
            for i in 0..n {
                let mut caps = Vec::new();
                let mut pats = Vec::new();
                for _ in 0..[1, 2, 3, 0][self.r.weighted(&[10, 4, 2, 1])] {
                    let v = if i + 1 < n && self.r.chance(2, 3) {
                        value(self.r, ValOpts { depth: 2, ..LITERAL })
                    } else {
                        v.clone()
                    };
                    pats.push(pat_for(self.r, &v, 3, &mut caps));
                }
                self.vis.push(caps);
                let b = self.block();
                self.vis.pop();
                cases.push((pats, b));
            }
            Nd::Switch(e, cases)
        }
    }

    fn some_named(&mut self) -> Option<(String, usize)> {
        if self.named.is_empty() {
            None
        } else {
            Some(self.r.pick(&self.named).clone())
        }
    }

    fn lit(&mut self, k: K) -> Ex {
        Ex::Lit(self.val(k))
    }

    fn call_arg(&mut self, d: usize) -> Ex {
        if self.r.chance(1, 8) {
            if let Some(t) = self.seen_name(K::T) {
                return var(&t);
            }
        }
        self.ex(K::A, d)
    }

    pub fn ex(&mut self, k: K, d: usize) -> Ex {
        let wrong = self.p.wrong * if self.absorb { 8 } else { 1 };
        if self.r.chance(wrong.min(400), 1000) {
            return match self.r.below(6) {
                0 => cmd("er", vec![self.lit(K::N)]),
                1 => {
                    if self.r.chance(1, 2) {
                        var("zz")
                    } else {
                        let n = member(self.r);
                        var(&n)
                    }
                }
                2 => cmd("nosuch", vec![self.lit(K::S)]),
                3 => Ex::Lit(V::Null),
                4 => {
                    let n = self.any_name();
                    var(&n)
                }
                _ => self.lit(K::A),
            };
        }
        if self.p.probe > 0 && self.r.chance(self.p.probe, 100) {
            let id = self.r.below(100);
            let e = if d == 0 { self.lit(k) } else { self.ex(k, d - 1) };
            return cmd("tr", vec![Ex::Lit(V::UInt(id as u64)), e]);
        }
        if d == 0 {
            return match self.seen_name(k) {
                Some(n) if self.r.chance(1, 2) => var(&n),
                _ => self.lit(k),
            };
        }
        if self.r.chance(1, 4) {
            if let Some(n) = self.seen_name(k) {
                return var(&n);
            }
        }
        if self.nparams > 0 && self.r.chance(1, 14) {
            return Ex::Var(vec![Part::N(self.r.below(self.nparams))]);
        }
        if matches!(k, K::S | K::A) && self.r.chance(self.p.calls, 100) {
            let t = self.seen_name(K::T);
            if let (Some(t), true) = (t, self.r.chance(1, 2)) {
                let mut a = vec![var(&t)];
                for _ in 0..self.r.some(4) {
                    let x = self.call_arg(d - 1);
                    a.push(x);
                }
                return cmd("run", a);
            }
            if let Some((n, c)) = self.some_named() {
                // now and then one argument too few or too many
                let c = if self.r.chance(1, 6) { self.r.below(4) } else { c };
                let a = (0..c).map(|_| self.call_arg(d - 1)).collect();
                return cmd(&n, a);
            }
        }
        if self.r.chance(1, 14) {
            let was = std::mem::replace(&mut self.absorb, true);
            let mut a = vec![self.ex(k, d - 1)];
            if self.r.chance(1, 2) {
                a.push(self.ex(k, d - 1));
            }
            self.absorb = was;
            a.push(self.lit(k));
            return cmd("first", a);
        }
        if self.r.chance(1, 18) {
            let s = if self.r.chance(1, 2) { self.ex(K::B, d - 1) } else { Ex::Lit(V::UInt(self.r.below(3) as u64)) };
            let mut a = vec![s];
            for _ in 0..2 + self.r.below(2) {
                a.push(self.ex(k, d - 1));
            }
            return cmd("select", a);
        }
        let d = d - 1;
        let nums = |g: &mut Self, n: usize| -> Vec<Ex> { (0..n).map(|_| g.ex(K::N, d)).collect() };
        match k {
            K::N => match self.r.below(8) {
                0 => {
                    let n = 1 + self.r.some(3);
                    cmd("add", nums(self, n))
                }
                1 => cmd("sub", nums(self, 2)),
                2 => cmd("mul", nums(self, 2)),
                3 => {
                    let f = *self.r.pick(&["min", "max"]);
                    cmd(f, nums(self, 2))
                }
                4 => cmd("len", vec![self.ex(K::L, d)]),
                5 => cmd("len", vec![self.ex(K::S, d)]),
                6 => {
                    let f = *self.r.pick(&["mod", "div"]);
                    cmd(f, vec![self.ex(K::N, d), Ex::Lit(V::UInt(1 + self.r.below(4) as u64))])
                }
                _ => self.lit(K::N),
            },
            K::S => match self.r.below(8) {
                0 | 1 => {
                    let n = 1 + self.r.some(3);
                    let a = (0..n)
                        .map(|_| {
                            let k = *self.r.pick(&[K::S, K::S, K::N, K::B, K::L]);
                            self.ex(k, d)
                        })
                        .collect();
                    cmd("cat", a)
                }
                2 => cmd("join_with", vec![self.ex(K::S, 0), self.ex(K::L, d)]),
                3 => cmd("type_of", vec![self.ex(K::A, d)]),
                4 => cmd("str_replace", vec![self.ex(K::S, d), self.ex(K::S, 0), self.ex(K::S, 0)]),
                5 => cmd("html_esc", vec![self.ex(K::S, d)]),
                _ => self.lit(K::S),
            },
            K::B => match self.r.below(6) {
                0 | 1 => {
                    let f = *self.r.pick(&["eq", "neq", "gt", "gte", "lt", "lte", "eq_any"]);
                    let k = *self.r.pick(&[K::N, K::N, K::S, K::A]);
                    cmd(f, vec![self.ex(k, d), self.ex(k, d)])
                }
                2 | 3 => {
                    let f = *self.r.pick(&["and", "or", "nand", "nor"]);
                    let n = 1 + self.r.some(3);
                    let a = (0..n)
                        .map(|_| {
                            let k = *self.r.pick(&[K::B, K::B, K::N, K::S]);
                            self.ex(k, d)
                        })
                        .collect();
                    cmd(f, a)
                }
                4 => {
                    let f = *self.r.pick(&["is_null", "is_num"]);
                    cmd(f, vec![self.ex(K::A, d)])
                }
                _ => self.lit(K::B),
            },
            K::L => match self.r.below(9) {
                0 | 1 => {
                    let n = self.r.some(4);
                    Ex::List(
                        (0..n)
                            .map(|_| {
                                let k = *self.r.pick(&[K::N, K::S, K::B]);
                                self.ex(k, d)
                            })
                            .collect(),
                    )
                }
                2 => cmd("append", vec![self.ex(K::L, d), self.ex(K::N, d)]),
                3 => cmd("sort", vec![self.ex(K::L, d)]),
                4 => cmd("split", vec![self.ex(K::S, d), lit_s(*self.r.pick(&[",", " ", "a", ""]))]),
                5 => cmd("groups", vec![Ex::Lit(V::UInt(self.r.below(4) as u64)), self.ex(K::L, d)]),
                6 => cmd("list", nums(self, 2)),
                _ => self.lit(K::L),
            },
            K::M => {
                if self.r.chance(1, 2) {
                    let n = 1 + self.r.weighted(&[4, 2, 1]);
                    Ex::Map(
                        (0..n)
                            .map(|_| {
                                let k = *self.r.pick(&[K::N, K::S, K::L]);
                                let e = self.ex(k, d);
                                (key(self.r), e)
                            })
                            .collect(),
                    )
                } else {
                    self.lit(K::M)
                }
            }
            K::A | K::T => match self.r.below(5) {
                0 => self.ex(K::N, d),
                1 => self.ex(K::S, d),
                2 => self.ex(K::L, d),
                3 => {
                    // into a list or map
                    let list = self.r.chance(1, 2);
                    match self.seen_name(if list { K::L } else { K::M }) {
                        Some(n) => {
                            let p = if list && self.r.chance(7, 8) { Part::N(self.r.below(3)) } else { Part::I(key(self.r)) };
                            let was = self.absorb;
                            let v = Ex::Var(vec![Part::I(n), p]);
                            self.absorb = was;
                            cmd("first", vec![v, lit_s("-")])
                        }
                        None => self.lit(K::A),
                    }
                }
                _ => self.lit(K::A),
            },
        }
    }
}

/// Number of nodes, for the evidence
pub fn count(n: &[Nd]) -> usize {
    n.iter()
        .map(|n| {
            1 + match n {
                Nd::Block(_, _, b)
                | Nd::For(_, _, _, b)
                | Nd::Define(_, _, b)
                | Nd::Global(_, _, b)
                | Nd::AtLet(_, b)
                | Nd::AtExport(_, b)
                | Nd::As(_, _, b) => count(b),
                Nd::If(a, no) => {
                    a.iter().map(|(_, b)| count(b)).sum::<usize>()
                        + no.as_ref().map_or(0, |b| count(b))
                }
                Nd::Switch(_, c) => c.iter().map(|(_, b)| count(b)).sum(),
                _ => 0,
            }
        })
        .sum()
}
