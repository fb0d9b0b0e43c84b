use crate::ast::Nd;
use std::collections::BTreeMap;
use std::cmp::Ordering;
use std::fmt;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub struct TDef {
    pub params: Vec<String>,
    pub body: Vec<Nd>,
}

/// The values a template handles
#[derive(Clone, Debug)]
pub enum V {
    Null,
    Bool(bool),
    Int(i64),
    UInt(u64),
    Float(f64),
    Str(String),
    Date(i32, u32, u32),
    List(Vec<V>),
    Map(BTreeMap<String, V>),
    Tmpl(Rc<TDef>),
    Bytes(Vec<u8>),
}

pub fn s<T: Into<String>>(t: T) -> V {
    V::Str(t.into())
}

impl PartialEq for V {
    fn eq(&self, o: &V) -> bool {
        veq(self, o)
    }
}

/// A number as an exact value: integers as i128, floats as f64
#[derive(Clone, Copy, Debug)]
pub enum Num {
    I(i128),
    F(f64),
}

pub fn num(v: &V) -> Option<Num> {
    match v {
        V::Int(i) => Some(Num::I(*i as i128)),
        V::UInt(i) => Some(Num::I(*i as i128)),
        V::Float(f) => Some(Num::F(*f)),
        _ => None,
    }
}

/// Exact comparison of numbers by mathematical value. None only with NaN.
pub fn num_cmp(a: Num, b: Num) -> Option<Ordering> {
    match (a, b) {
        (Num::I(a), Num::I(b)) => Some(a.cmp(&b)),
        (Num::F(a), Num::F(b)) => a.partial_cmp(&b),
        (Num::I(i), Num::F(f)) => int_float(i, f),
        (Num::F(f), Num::I(i)) => int_float(i, f).map(Ordering::reverse),
    }
}

fn int_float(i: i128, f: f64) -> Option<Ordering> {
    if f.is_nan() {
        return None;
    }
    // all the integers here are below 2^65 in magnitude
    if f >= 1e30 {
        return Some(Ordering::Less);
    }
    if f <= -1e30 {
        return Some(Ordering::Greater);
    }
    let fl = f.floor();
    let fi = fl as i128;
    Some(match i.cmp(&fi) {
        Ordering::Equal => {
            if f > fl {
                Ordering::Less
            } else {
                Ordering::Equal
            }
        }
        r => r,
    })
}

pub fn veq(a: &V, b: &V) -> bool {
    use V::*;
    if let (Some(x), Some(y)) = (num(a), num(b)) {
        return num_cmp(x, y) == Some(Ordering::Equal);
    }
    match (a, b) {
        (Null, Null) => true,
        (Bool(x), Bool(y)) => x == y,
        (Str(x), Str(y)) => x == y,
        (Date(a, b, c), Date(d, e, f)) => (a, b, c) == (d, e, f),
        (List(x), List(y)) => x.len() == y.len() && x.iter().zip(y).all(|(p, q)| veq(p, q)),
        (Map(x), Map(y)) => {
            x.len() == y.len() && x.iter().all(|(k, v)| y.get(k).map_or(false, |w| veq(v, w)))
        }
        (Tmpl(x), Tmpl(y)) => x == y,
        (Bytes(x), Bytes(y)) => x == y,
        _ => false,
    }
}

/// Same type and same content (floats by bits, NaN equal to NaN)
pub fn identical(a: &V, b: &V) -> bool {
    use V::*;
    match (a, b) {
        (Null, Null) => true,
        (Bool(x), Bool(y)) => x == y,
        (Int(x), Int(y)) => x == y,
        (UInt(x), UInt(y)) => x == y,
        (Float(x), Float(y)) => x.to_bits() == y.to_bits() || (x.is_nan() && y.is_nan()),
        (Str(x), Str(y)) => x == y,
        (Date(a, b, c), Date(d, e, f)) => (a, b, c) == (d, e, f),
        (List(x), List(y)) => x.len() == y.len() && x.iter().zip(y).all(|(p, q)| identical(p, q)),
        (Map(x), Map(y)) => {
            x.len() == y.len()
                && x.iter().zip(y).all(|((k, v), (l, w))| k == l && identical(v, w))
        }
        (Tmpl(_), Tmpl(_)) => true,
        (Bytes(x), Bytes(y)) => x == y,
        _ => false,
    }
}

/// Kinds in their order: numbers are one kind
pub fn rank(v: &V) -> u8 {
    match v {
        V::Null => 0,
        V::Tmpl(_) => 1,
        V::Map(_) => 2,
        V::List(_) => 3,
        V::Bool(_) => 4,
        V::Int(_) | V::UInt(_) | V::Float(_) => 5,
        V::Date(..) => 6,
        V::Str(_) => 7,
        V::Bytes(_) => 8,
    }
}

/// Order of values. None for NaN against a number. Lists, maps, bytes and templates have no order
/// amongst themselves (Equal).
pub fn vcmp(a: &V, b: &V) -> Option<Ordering> {
    use V::*;
    if let (Some(x), Some(y)) = (num(a), num(b)) {
        return num_cmp(x, y);
    }
    Some(match (a, b) {
        (Bool(x), Bool(y)) => x.cmp(y),
        (Str(x), Str(y)) => x.as_bytes().cmp(y.as_bytes()),
        (Date(a, b, c), Date(d, e, f)) => (a, b, c).cmp(&(d, e, f)),
        _ => rank(a).cmp(&rank(b)),
    })
}

pub fn truthy(v: &V) -> Option<bool> {
    match v {
        V::Null => Some(false),
        V::Bool(b) => Some(*b),
        V::Int(i) => Some(*i != 0),
        V::UInt(i) => Some(*i != 0),
        V::Float(f) => Some(*f != 0.0),
        V::Str(s) => Some(!s.is_empty()),
        V::List(l) => Some(!l.is_empty()),
        V::Map(m) => Some(!m.is_empty()),
        V::Date(..) | V::Tmpl(_) | V::Bytes(_) => None,
    }
}

pub fn as_index(v: &V) -> Option<u64> {
    match v {
        V::UInt(u) => Some(*u),
        V::Int(i) if *i >= 0 => Some(*i as u64),
        _ => None,
    }
}

impl V {
    pub fn type_name(&self) -> &'static str {
        match self {
            V::Null => "null",
            V::Bool(_) => "bool",
            V::Int(_) => "int",
            V::UInt(_) => "uint",
            V::Float(_) => "float",
            V::Str(_) => "string",
            V::Date(..) => "date",
            V::List(_) => "list",
            V::Map(_) => "map",
            V::Tmpl(_) => "template",
            V::Bytes(_) => "bytes",
        }
    }
    /// Is the printed form of this value specified (maps and bytes print in an internal form)
    pub fn has_display(&self) -> bool {
        match self {
            V::Map(_) | V::Bytes(_) => false,
            V::List(l) => l.iter().all(|v| v.has_display()),
            _ => true,
        }
    }
    pub fn depth(&self) -> usize {
        match self {
            V::List(l) => 1 + l.iter().map(|v| v.depth()).max().unwrap_or(0),
            V::Map(m) => 1 + m.values().map(|v| v.depth()).max().unwrap_or(0),
            _ => 0,
        }
    }
}

/// The printed form
impl fmt::Display for V {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        match self {
            V::Null => write!(f, "NULL"),
            V::Bool(b) => write!(f, "{}", if *b { "true" } else { "false" }),
            V::Int(i) => write!(f, "{}", i),
            V::UInt(i) => write!(f, "{}", i),
            V::Float(x) => write!(f, "{}", x),
            V::Str(s) => write!(f, "{}", s),
            V::Date(y, m, d) => {
                // as chrono: years outside 0..=9999 are signed
                if *y >= 0 && *y <= 9999 {
                    write!(f, "{:02}/{:02}/{:04}", d, m, y)
                } else {
                    write!(f, "{:02}/{:02}/{:+05}", d, m, y)
                }
            }
            V::List(l) => {
                write!(f, "[")?;
                for (i, v) in l.iter().enumerate() {
                    if i > 0 {
                        write!(f, ",")?;
                    }
                    write!(f, "{}", v)?;
                }
                write!(f, "]")
            }
            V::Map(m) => {
                write!(f, "{{")?;
                for (k, v) in m {
                    write!(f, "{:?}:{};", k, v)?;
                }
                write!(f, "}}")
            }
            V::Tmpl(_) => write!(f, "TEMPLATE"),
            V::Bytes(b) => write!(f, "b{:?}", b),
        }
    }
}

/// A stable text for logs: type and content
pub fn tag(v: &V) -> String {
    match v {
        V::List(l) => format!("[{}]", l.iter().map(tag).collect::<Vec<_>>().join(",")),
        V::Map(m) => format!(
            "{{{}}}",
            m.iter().map(|(k, v)| format!("{:?}:{}", k, tag(v))).collect::<Vec<_>>().join(",")
        ),
        V::Str(s) => format!("{:?}", s),
        V::Null | V::Tmpl(_) | V::Bool(_) | V::Date(..) => v.to_string(),
        V::Float(f) => format!("f{:?}", f),
        V::Int(i) => format!("i{}", i),
        V::UInt(i) => format!("u{}", i),
        V::Bytes(b) => format!("b{:?}", b),
    }
}
