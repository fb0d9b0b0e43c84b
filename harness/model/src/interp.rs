//! Reference interpreter
use crate::ast::*;
use crate::funcs;
use crate::val::*;
use std::collections::BTreeMap;
use std::rc::Rc;

/// Why a run stopped. Limit means the case is too big to be used, not that the template fails.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Stop {
    Fail,
    Limit,
}
pub type R<T> = Result<T, Stop>;

pub struct Env {
    /// None is a manager which holds no templates, and drops those it is given
    pub temps: Option<BTreeMap<String, Rc<TDef>>>,
    /// Calls of the host functions, in order
    pub trace: Vec<String>,
    /// What the manager of templates is asked for and given, in order
    pub asked: Vec<String>,
    /// The outcome depends on something unspecified (eg. the order of a map)
    pub nondet: bool,
    pub steps: usize,
    pub depth: usize,
    pub weight: usize,
    /// what the run went through
    pub seen: BTreeMap<&'static str, u64>,
    /// names of host functions that log, answer their first argument, or fail
    pub host: bool,
    /// how much larger than usual a run may get
    pub scale: usize,
}

impl Env {
    pub fn new() -> Env {
        Env {
            temps: Some(BTreeMap::new()),
            trace: Vec::new(),
            asked: Vec::new(),
            nondet: false,
            steps: 0,
            depth: 0,
            weight: 0,
            seen: BTreeMap::new(),
            host: true,
            scale: 1,
        }
    }
    fn see(&mut self, k: &'static str) {
        *self.seen.entry(k).or_insert(0) += 1;
    }
    fn step(&mut self) -> R<()> {
        self.steps += 1;
        if self.steps > 20_000 * self.scale {
            return Err(Stop::Limit);
        }
        Ok(())
    }
    /// Values that double in size end up larger than memory
    fn weigh(&mut self, v: &V) -> R<()> {
        fn size(v: &V, most: usize) -> usize {
            match v {
                V::Str(s) => s.len() + 1,
                V::List(l) => l.iter().fold(1, |n, v| if n > most { n } else { n + size(v, most) }),
                V::Map(m) => m.iter().fold(1, |n, (k, v)| if n > most { n } else { n + k.len() + size(v, most) }),
                _ => 1,
            }
        }
        let n = size(v, 8_000 * self.scale);
        self.weight += n;
        if n > 8_000 * self.scale || self.weight > 4_000_000 * self.scale {
            return Err(Stop::Limit);
        }
        Ok(())
    }
    fn calls(&self) -> usize {
        self.trace.len() + self.asked.len()
    }
    /// A list too short or a key not there refuses the value, whether before or after the filters
    /// of the other items are asked
    fn misfit(&mut self, fits: bool, calls_before: usize) {
        if !fits && self.calls() != calls_before {
            self.nondet = true;
        }
    }
    fn show(&mut self, v: &V) -> String {
        if !v.has_display() {
            self.nondet = true;
        }
        v.to_string()
    }
}

pub struct Scope {
    pub params: Vec<V>,
    pub pnames: Vec<String>,
    pub maps: Vec<BTreeMap<String, V>>,
}

pub fn sub_get(v: &V, path: &[Part]) -> Option<V> {
    match path.first() {
        None => Some(v.clone()),
        Some(p) => match (v, p) {
            (V::Map(m), Part::I(k)) => sub_get(m.get(k)?, &path[1..]),
            (V::List(l), Part::N(n)) => sub_get(l.get(*n)?, &path[1..]),
            _ => None,
        },
    }
}

impl Scope {
    pub fn new(params: Vec<V>, pnames: Vec<String>) -> Scope {
        Scope { params, pnames, maps: vec![BTreeMap::new()] }
    }
    pub fn get(&self, path: &[Part]) -> Option<V> {
        match path.first()? {
            Part::N(n) => sub_get(self.params.get(*n)?, &path[1..]),
            Part::I(k) => {
                if let Some(m) = self.maps.iter().rev().find(|m| m.contains_key(k)) {
                    return sub_get(&m[k], &path[1..]);
                }
                let n = self.pnames.iter().position(|p| p == k)?;
                sub_get(self.params.get(n)?, &path[1..])
            }
        }
    }
    pub fn set(&mut self, k: &str, v: V) {
        self.maps.last_mut().unwrap().insert(k.to_string(), v);
    }
    pub fn set_root(&mut self, k: &str, v: V) {
        self.maps[0].insert(k.to_string(), v);
    }
}

pub fn run_template(
    def: &TDef,
    params: Vec<V>,
    env: &mut Env,
) -> R<(String, BTreeMap<String, V>)> {
    env.depth += 1;
    if env.depth > 12 * env.scale {
        return Err(Stop::Limit);
    }
    let mut sc = Scope::new(params, def.params.clone());
    let mut out = String::new();
    let mut r = Ok(());
    for n in &def.body {
        r = node(n, &mut sc, env, &mut out);
        if r.is_err() {
            break;
        }
    }
    env.depth -= 1;
    r.map(|_| (out, sc.maps.swap_remove(0)))
}

fn block(b: &[Nd], sc: &mut Scope, env: &mut Env) -> R<String> {
    let s = block_(b, sc, env)?;
    env.weight += s.len();
    if s.len() > 100_000 * env.scale {
        return Err(Stop::Limit);
    }
    Ok(s)
}

fn block_(b: &[Nd], sc: &mut Scope, env: &mut Env) -> R<String> {
    sc.maps.push(BTreeMap::new());
    let mut out = String::new();
    let mut r = Ok(());
    for n in b {
        r = node(n, sc, env, &mut out);
        if r.is_err() {
            break;
        }
    }
    sc.maps.pop();
    r.map(|_| out)
}

fn node(n: &Nd, sc: &mut Scope, env: &mut Env, out: &mut String) -> R<()> {
    env.step()?;
    match n {
        Nd::Text(t) => out.push_str(t),
        Nd::Comment(_) => env.see("comment"),
        Nd::Exp(e) => {
            let v = expr(e, sc, env)?;
            let t = env.show(&v);
            out.push_str(&t);
            env.see("print");
        }
        Nd::Let(l) => {
            for (k, e) in l {
                let v = expr(e, sc, env)?;
                if sc.maps[..sc.maps.len() - 1].iter().any(|m| m.contains_key(k)) {
                    env.see("let-shadow");
                } else if sc.maps.last().unwrap().contains_key(k) {
                    env.see("let-again");
                }
                sc.set(k, v);
                env.see("let");
            }
        }
        Nd::Export(l) => {
            for (k, e) in l {
                let v = expr(e, sc, env)?;
                env.see(if sc.maps.len() > 1 { "export-nested" } else { "export" });
                sc.set_root(k, v);
            }
        }
        Nd::Return(e) => {
            let v = expr(e, sc, env)?;
            env.see(if sc.maps[0].contains_key("return") { "return-again" } else { "return" });
            sc.set_root("return", v);
        }
        Nd::If(arms, no) => {
            for (c, b) in arms {
                let v = match expr(c, sc, env) {
                    Ok(v) => v,
                    Err(Stop::Limit) => return Err(Stop::Limit),
                    Err(Stop::Fail) => {
                        env.see("if-cond-error");
                        V::Null
                    }
                };
                if truthy(&v) == Some(true) {
                    env.see("if-true");
                    // nested arms of an elif live in one more block, which is not observable
                    out.push_str(&block(b, sc, env)?);
                    return Ok(());
                }
                env.see("if-false");
            }
            if let Some(b) = no {
                env.see("else");
                out.push_str(&block(b, sc, env)?);
            }
        }
        Nd::For(k, v, e, b) => {
            let l = expr(e, sc, env)?;
            let items: Vec<(V, V)> = match l {
                V::List(l) => {
                    env.see("for-list");
                    l.into_iter().enumerate().map(|(n, v)| (V::UInt(n as u64), v)).collect()
                }
                V::Map(m) => {
                    env.see("for-map");
                    if m.len() > 1 {
                        env.nondet = true;
                    }
                    m.into_iter().map(|(k, v)| (V::Str(k), v)).collect()
                }
                V::UInt(n) => {
                    env.see("for-uint");
                    if n as i128 > 2000 * env.scale as i128 {
                        return Err(Stop::Limit);
                    }
                    (0..n).map(|n| (V::UInt(n), V::UInt(n))).collect()
                }
                V::Int(n) => {
                    env.see("for-int");
                    if n as i128 > 2000 * env.scale as i128 {
                        return Err(Stop::Limit);
                    }
                    (0..n.max(0)).map(|n| (V::UInt(n as u64), V::Int(n))).collect()
                }
                _ => {
                    env.see("for-bad");
                    return Err(Stop::Fail);
                }
            };
            if items.is_empty() {
                env.see("for-empty");
            }
            for (a, c) in items {
                env.see("for-pass");
                sc.set(k, a);
                sc.set(v, c);
                out.push_str(&block(b, sc, env)?);
            }
        }
        Nd::Block(c, ps, b) => {
            let ch = V::Str(block(b, sc, env)?);
            let r = if ps.is_empty() {
                env.see("block");
                call(c, vec![ch], env)?
            } else {
                env.see("block-params");
                sc.set("@", ch);
                let mut a = Vec::new();
                for p in ps {
                    a.push(expr(p, sc, env)?);
                }
                call(c, a, env)?
            };
            let t = env.show(&r);
            out.push_str(&t);
        }
        Nd::AtLet(k, b) => {
            env.see("@let");
            let t = block(b, sc, env)?;
            sc.set(k, V::Str(t));
        }
        Nd::AtExport(k, b) => {
            env.see("@export");
            let t = block(b, sc, env)?;
            sc.set_root(k, V::Str(t));
        }
        Nd::Define(k, p, b) => {
            env.see("define");
            sc.set(k, V::Tmpl(Rc::new(TDef { params: p.clone(), body: b.clone() })));
        }
        Nd::Global(k, p, b) => {
            env.see("global");
            env.asked.push(format!("put {}", k));
            if let Some(t) = env.temps.as_mut() {
                t.insert(k.clone(), Rc::new(TDef { params: p.clone(), body: b.clone() }));
            }
        }
        Nd::Switch(e, cases) => {
            let v = expr(e, sc, env)?;
            for (ci, (pats, b)) in cases.iter().enumerate() {
                for (pi, p) in pats.iter().enumerate() {
                    sc.maps.push(BTreeMap::new());
                    let m = matches(p, &v, sc, env);
                    match m {
                        Err(e) => return Err(e),
                        Ok(true) => {
                            env.see(if ci > 0 || pi > 0 { "case-later" } else { "case-first" });
                            let r = block(b, sc, env);
                            sc.maps.pop();
                            out.push_str(&r?);
                            return Ok(());
                        }
                        Ok(false) => {
                            sc.maps.pop();
                        }
                    }
                }
            }
            env.see("switch-none");
        }
        Nd::As(e, p, b) => {
            let v = expr(e, sc, env)?;
            sc.maps.push(BTreeMap::new());
            let r = match matches(p, &v, sc, env) {
                Err(e) => return Err(e),
                Ok(true) => {
                    env.see("as-match");
                    block(b, sc, env)
                }
                Ok(false) => {
                    env.see("as-none");
                    Ok(String::new())
                }
            };
            sc.maps.pop();
            out.push_str(&r?);
        }
    }
    Ok(())
}

pub fn matches(p: &Pat, v: &V, sc: &mut Scope, env: &mut Env) -> R<bool> {
    env.step()?;
    Ok(match p {
        Pat::Any => true,
        Pat::Val(x) => {
            env.see("pat-val");
            veq(x, v)
        }
        Pat::List(l) => {
            env.see("pat-list");
            match v {
                V::List(vs) => {
                    if l.len() < vs.len() {
                        env.see("pat-list-prefix");
                    }
                    let fits = l.len() <= vs.len();
                    let before = env.calls();
                    let mut all = fits;
                    for (p, x) in l.iter().zip(vs) {
                        if !matches(p, x, sc, env)? {
                            all = false;
                            break;
                        }
                    }
                    env.misfit(fits, before);
                    all
                }
                _ => false,
            }
        }
        Pat::Map(m) => {
            env.see("pat-map");
            match v {
                V::Map(vs) => {
                    let fits = m.iter().all(|(k, _)| vs.contains_key(k));
                    let before = env.calls();
                    let mut all = fits;
                    for (k, p) in m {
                        match (vs.get(k), p) {
                            (None, _) => break,
                            (Some(x), None) => sc.set(k, x.clone()),
                            (Some(x), Some(p)) => {
                                if !matches(p, x, sc, env)? {
                                    all = false;
                                    break;
                                }
                            }
                        }
                    }
                    env.misfit(fits, before);
                    all
                }
                _ => false,
            }
        }
        Pat::Cap(k, p) => {
            env.see("pat-capture");
            if let Some(p) = p {
                if !matches(p, v, sc, env)? {
                    return Ok(false);
                }
            }
            sc.set(k, v.clone());
            true
        }
        Pat::Filter(e) => {
            env.see("pat-filter");
            sc.maps.push(BTreeMap::new());
            sc.set("@", v.clone());
            let r = expr(e, sc, env);
            sc.maps.pop();
            match r {
                Ok(V::Bool(true)) => true,
                Err(Stop::Limit) => return Err(Stop::Limit),
                _ => false,
            }
        }
    })
}

pub fn expr(e: &Ex, sc: &Scope, env: &mut Env) -> R<V> {
    let v = expr_(e, sc, env)?;
    env.weigh(&v)?;
    Ok(v)
}

fn expr_(e: &Ex, sc: &Scope, env: &mut Env) -> R<V> {
    env.step()?;
    match e {
        Ex::Lit(v) => Ok(v.clone()),
        Ex::Var(p) => {
            if let Some(Part::I(k)) = p.first() {
                let here = sc.maps.len() - 1;
                match sc.maps.iter().rposition(|m| m.contains_key(k)) {
                    Some(n) if n < here => env.see("var-outer"),
                    Some(_) => env.see("var-here"),
                    None => env.see(if sc.pnames.contains(k) { "var-param" } else { "var-none" }),
                }
            }
            sc.get(p).ok_or(Stop::Fail)
        }
        Ex::List(l) => {
            let mut r = Vec::new();
            for e in l {
                r.push(expr(e, sc, env)?);
            }
            Ok(V::List(r))
        }
        Ex::Map(l) => {
            let mut r = BTreeMap::new();
            for (k, e) in l {
                r.insert(k.clone(), expr(e, sc, env)?);
            }
            Ok(V::Map(r))
        }
        Ex::Cmd(c, a) if c == "first" => {
            for e in a {
                match expr(e, sc, env) {
                    Err(Stop::Limit) => return Err(Stop::Limit),
                    Err(Stop::Fail) => env.see("first-skip-error"),
                    Ok(V::Null) => env.see("first-skip-null"),
                    Ok(v) => return Ok(v),
                }
            }
            Ok(V::Null)
        }
        Ex::Cmd(c, a) if c == "select" => {
            if a.len() < 3 {
                return Err(Stop::Fail);
            }
            let s = expr(&a[0], sc, env)?;
            let n = match (as_index(&s), truthy(&s)) {
                (Some(n), _) => n.saturating_add(1),
                (None, Some(true)) => 1,
                (None, Some(false)) => 2,
                (None, None) => return Err(Stop::Fail),
            };
            env.see("select");
            match a.get(n as usize) {
                Some(e) if n <= usize::MAX as u64 => expr(e, sc, env),
                _ => Err(Stop::Fail),
            }
        }
        Ex::Cmd(c, a) => {
            let mut r = Vec::new();
            for e in a {
                r.push(expr(e, sc, env)?);
            }
            if c == "run" {
                if let Some(V::Tmpl(t)) = r.first() {
                    env.see("run");
                    let t = t.clone();
                    return sub(&t, r[1..].to_vec(), env);
                }
            }
            call(c, r, env)
        }
    }
}

fn sub(t: &TDef, args: Vec<V>, env: &mut Env) -> R<V> {
    let (s, mut m) = run_template(t, args, env)?;
    Ok(match m.remove("return") {
        Some(v) => {
            env.see("sub-return");
            v
        }
        None => V::Str(s),
    })
}

/// Other names of the functions of the host, which begin as the words of the language do
pub const ALIASES: [(&str, &str); 30] = [
    ("returning", "tr"),
    ("iffy", "tr"),
    ("ifs", "er"),
    ("if_", "tr"),
    ("elsewhere", "tr"),
    ("elif2", "tr"),
    ("forest", "tr"),
    ("for_", "er"),
    ("inner", "tr"),
    ("switching", "tr"),
    ("cases", "tr"),
    ("ascii", "tr"),
    ("as1", "tr"),
    ("defined", "tr"),
    ("globally", "tr"),
    ("letter", "tr"),
    ("exporter", "tr"),
    ("nullable", "tr"),
    ("truest", "tr"),
    ("falsely", "tr"),
    ("firsts", "tr"),
    ("selects", "er"),
    ("runs", "tr"),
    ("Tr", "er"),
    ("tr2", "tr"),
    ("tr_er", "tr"),
    ("return_", "tr"),
    ("let1", "tr"),
    ("export2", "tr"),
    ("asé", "tr"),
];

fn plain(c: &str) -> &str {
    ALIASES.iter().find(|(a, _)| *a == c).map_or(c, |(_, f)| f)
}

/// Call by name: a function, or else a template of that name
pub fn call(c: &str, a: Vec<V>, env: &mut Env) -> R<V> {
    if env.host {
        let c = plain(c);
        match c {
            "tr" | "er" => {
                env.see("host-call");
                for v in &a {
                    if let V::Tmpl(_) = v {
                        env.see("host-template");
                    }
                }
                for v in &a {
                    env.weigh(v)?;
                }
                let t = a.iter().map(tag).collect::<Vec<_>>().join(" ");
                env.trace.push(format!("{}({})", c, t));
                return match c {
                    "tr" => Ok(a.last().cloned().unwrap_or(V::Null)),
                    _ => {
                        env.see("host-error");
                        Err(Stop::Fail)
                    }
                };
            }
            _ => {}
        }
    }
    if let Some(r) = funcs::call(c, &a, &mut env.nondet) {
        if r.is_err() {
            env.see("func-error");
        }
        return r.map_err(|_| Stop::Fail);
    }
    env.asked.push(format!("get {}", c));
    let t = match env.temps.as_ref().and_then(|t| t.get(c)) {
        Some(t) => t.clone(),
        None => {
            env.see("no-such-name");
            return Err(Stop::Fail);
        }
    };
    env.see("call-template");
    sub(&t, a, env)
}


/// The exports of a template outside of any block, each evaluated with what was exported before it.
/// Those that fail are left out. No templates are to be had.
pub fn front_matter(def: &TDef, env: &mut Env) -> R<BTreeMap<String, V>> {
    env.temps = None;
    let mut sc = Scope::new(Vec::new(), def.params.clone());
    for n in &def.body {
        match n {
            Nd::AtExport(k, b) => match block(b, &mut sc, env) {
                Ok(t) => sc.set_root(k, V::Str(t)),
                Err(Stop::Limit) => return Err(Stop::Limit),
                Err(Stop::Fail) => env.see("front-error"),
            },
            Nd::Export(l) => {
                for (k, e) in l {
                    match expr(e, &sc, env) {
                        Ok(v) => {
                            env.see("front-export");
                            sc.set_root(k, v)
                        }
                        Err(Stop::Limit) => return Err(Stop::Limit),
                        Err(Stop::Fail) => env.see("front-error"),
                    }
                }
            }
            _ => {}
        }
    }
    Ok(sc.maps.swap_remove(0))
}
