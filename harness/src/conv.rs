//! Between the values of the reference and those of templito, and how templates are run
use crate::core::{guard, Violation};
use model::ast::Nd;
use model::interp::Env;
use model::print::{Printer, Style, PLAIN};
use model::rng::Rng;
use model::val::{tag, TDef, V};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;
use std::str::FromStr;
use templito::func_man::{BasicFuncs, FuncAdder, FuncManager};
use templito::temp_man::{BasicTemps, NoTemplates, TempManager};
use templito::template::TreeTemplate;
use templito::tparam::{TCow, TParam};
use templito::{TData, WithFuncs};

pub fn td(v: &V) -> TData {
    match v {
        V::Null => TData::Null,
        V::Bool(b) => TData::Bool(*b),
        V::Int(i) => TData::Int(*i as isize),
        V::UInt(i) => TData::UInt(*i as usize),
        V::Float(f) => TData::Float(*f),
        V::Str(s) => TData::String(s.clone()),
        V::Date(y, m, d) => {
            TData::Date(chrono::NaiveDate::from_ymd_opt(*y, *m, *d).expect("date"))
        }
        V::List(l) => TData::List(l.iter().map(td).collect()),
        V::Map(m) => TData::Map(m.iter().map(|(k, v)| (k.clone(), td(v))).collect()),
        V::Bytes(b) => TData::Bytes(b.clone()),
        V::Tmpl(t) => TData::Template(tree(t)),
    }
}

pub fn tree(t: &TDef) -> TreeTemplate {
    let mut r = Rng::new(1);
    let s = model::print::print(&t.body, &mut r, PLAIN);
    let mut tt = TreeTemplate::from_str(&s).expect("template of the generator");
    tt.pnames = t.params.clone();
    tt
}

pub fn val(d: &TData) -> V {
    use chrono::Datelike;
    match d {
        TData::Null => V::Null,
        TData::Bool(b) => V::Bool(*b),
        TData::Int(i) => V::Int(*i as i64),
        TData::UInt(i) => V::UInt(*i as u64),
        TData::Float(f) => V::Float(*f),
        TData::String(s) => V::Str(s.clone()),
        TData::Date(d) => V::Date(d.year(), d.month(), d.day()),
        TData::List(l) => V::List(l.iter().map(val).collect()),
        TData::Map(m) => V::Map(m.iter().map(|(k, v)| (k.clone(), val(v))).collect()),
        TData::Bytes(b) => V::Bytes(b.clone()),
        TData::Template(_) => V::Tmpl(Rc::new(TDef { params: vec![], body: vec![] })),
    }
}

pub fn map_val(m: &HashMap<String, TData>) -> BTreeMap<String, V> {
    m.iter().map(|(k, v)| (k.clone(), val(v))).collect()
}

thread_local! {
    static TRACE: RefCell<Vec<String>> = const { RefCell::new(Vec::new()) };
}

pub fn trace_take() -> Vec<String> {
    TRACE.with(|t| std::mem::take(&mut *t.borrow_mut()))
}

fn log(name: &str, a: &[TCow]) {
    let t = a.iter().map(|v| tag(&val(v))).collect::<Vec<_>>().join(" ");
    TRACE.with(|x| x.borrow_mut().push(format!("{}({})", name, t)));
}

/// The default functions, and two of the host which log their arguments. "tr" answers the last of
/// them, "er" fails.
pub fn probes() -> BasicFuncs {
    let mut f = BasicFuncs::new().with_defaults();
    let own = [("tr", "tr"), ("er", "er")];
    for (name, what) in own.iter().chain(model::interp::ALIASES.iter()) {
        let what = *what;
        f = f.with_func(
            *name,
            Box::new(move |a| {
                log(what, a);
                match what {
                    "tr" => Ok(a.last().cloned().unwrap_or(TCow::Owned(TData::Null))),
                    _ => Err(anyhow::anyhow!("probe that fails")),
                }
            }),
            "probe",
        );
    }
    f
}

/// What a run gave: output and exports, or a failure
pub type Got = Result<(String, BTreeMap<String, V>), String>;

pub fn parse(s: &str) -> Result<Result<TreeTemplate, String>, Violation> {
    guard(|| TreeTemplate::from_str(s).map_err(|e| e.to_string()))
}

pub fn run<TM: TempManager, FM: FuncManager>(
    t: &TreeTemplate,
    params: &[TData],
    tm: &mut TM,
    fm: &FM,
) -> Result<Got, Violation> {
    let p: Vec<&dyn TParam> = params.iter().map(|p| p as &dyn TParam).collect();
    guard(|| {
        t.run_exp(&p, tm, fm).map(|(s, m)| (s, map_val(&m))).map_err(|e| e.to_string())
    })
}

pub fn host_temps(m: &BTreeMap<String, Rc<TDef>>) -> BasicTemps {
    m.iter().map(|(k, t)| (k.clone(), tree(t))).collect()
}

/// Calls a function of a manager
pub fn call(fm: &BasicFuncs, name: &str, args: &[TData]) -> Result<Result<TData, String>, Violation> {
    guard(|| {
        let f = fm.get_func(name).unwrap_or_else(|| panic!("there is no function {}", name));
        let a: Vec<TCow> = args.iter().map(TCow::Borrowed).collect();
        f(&a).map(|v| v.into_owned()).map_err(|e| e.to_string())
    })
}

pub fn call_v(fm: &BasicFuncs, name: &str, args: &[V]) -> Result<Result<V, String>, Violation> {
    let a: Vec<TData> = args.iter().map(td).collect();
    Ok(call(fm, name, &a)?.map(|v| val(&v)))
}

pub fn print(n: &[Nd], r: &mut Rng, st: Style) -> (String, u64) {
    let mut p = Printer { r, st, trims: 0, noops: 0, dropped: 0 };
    let s = p.template(n);
    let c = p.trims + p.noops + p.dropped;
    (s, c)
}

/// A manager of the host, which notes what it is asked for and given
pub struct Noted<T> {
    pub inner: T,
    pub asked: Vec<String>,
}

impl<T: TempManager> TempManager for Noted<T> {
    fn insert_t(&mut self, k: String, t: TreeTemplate) {
        self.asked.push(format!("put {}", k));
        self.inner.insert_t(k, t)
    }
    fn get_t(&mut self, k: &str) -> anyhow::Result<&TreeTemplate> {
        self.asked.push(format!("get {}", k));
        self.inner.get_t(k)
    }
}

/// A manager that parses its templates when they are asked for, once
pub struct Lazy {
    pub texts: HashMap<String, TDef>,
    pub done: BasicTemps,
}

impl TempManager for Lazy {
    fn insert_t(&mut self, k: String, t: TreeTemplate) {
        self.texts.remove(&k);
        self.done.insert(k, t);
    }
    fn get_t(&mut self, k: &str) -> anyhow::Result<&TreeTemplate> {
        if let Some(t) = self.texts.remove(k) {
            self.done.insert(k.to_string(), tree(&t));
        }
        self.done.get(k).ok_or_else(|| anyhow::anyhow!("nothing of that name here"))
    }
}

/// What a manager was asked, and what it has in the end (the names, and those of the parameters)
pub struct Told {
    pub asked: Vec<String>,
    pub has: BTreeMap<String, Vec<String>>,
}

/// Asked the same, in the same order? (Asking twice in a row where once would do is all right.)
pub fn asked_like(got: &[String], want: &[String]) -> bool {
    fn runs(l: &[String]) -> Vec<(&String, usize)> {
        let mut r: Vec<(&String, usize)> = vec![];
        for x in l {
            match r.last_mut() {
                Some((y, n)) if *y == x => *n += 1,
                _ => r.push((x, 1)),
            }
        }
        r
    }
    let (g, w) = (runs(got), runs(want));
    g.len() == w.len() && g.iter().zip(&w).all(|(g, w)| g.0 == w.0 && g.1 >= w.1)
}

fn has(m: &BasicTemps) -> BTreeMap<String, Vec<String>> {
    m.iter().map(|(k, t)| (k.clone(), t.pnames.clone())).collect()
}

/// Runs with the manager the reference has
pub fn run_like(
    env: &Env,
    t: &TreeTemplate,
    params: &[V],
    fm: &BasicFuncs,
    kind: usize,
) -> Result<(Got, Vec<String>, Option<Told>), Violation> {
    let p: Vec<TData> = params.iter().map(td).collect();
    trace_take();
    let (g, told) = match (&env.temps, kind) {
        (None, 0) => (run(t, &p, &mut NoTemplates, fm)?, None),
        (None, _) => {
            let mut m = Noted { inner: NoTemplates, asked: vec![] };
            (run(t, &p, &mut m, fm)?, Some(Told { asked: m.asked, has: BTreeMap::new() }))
        }
        (Some(m), 0) => {
            let mut m = host_temps(m);
            (run(t, &p, &mut m, fm)?, None)
        }
        (Some(m), 1) => {
            let mut m = Noted { inner: host_temps(m), asked: vec![] };
            let g = run(t, &p, &mut m, fm)?;
            (g, Some(Told { asked: m.asked, has: has(&m.inner) }))
        }
        (Some(m), _) => {
            let texts = m.iter().map(|(k, t)| (k.clone(), TDef { params: t.params.clone(), body: t.body.clone() })).collect();
            let mut m = Noted { inner: Lazy { texts, done: BasicTemps::new() }, asked: vec![] };
            let g = run(t, &p, &mut m, fm)?;
            let mut h = has(&m.inner.done);
            h.extend(m.inner.texts.into_iter().map(|(k, t)| (k, t.params)));
            (g, Some(Told { asked: m.asked, has: h }))
        }
    };
    Ok((g, trace_take(), told))
}
