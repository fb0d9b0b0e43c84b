//! Reference semantics of the default functions (those whose answer is determined by their
//! arguments). `None` is "no such function here".
use crate::val::*;
use std::cmp::Ordering;
use std::collections::BTreeMap;

pub type F = Result<V, ()>;

fn show(v: &V, nd: &mut bool) -> String {
    if !v.has_display() {
        *nd = true;
    }
    v.to_string()
}

/// Names the generator of programs may use
pub const GENERAL: &[&str] = &[
    "eq", "neq", "eq_any", "gt", "gte", "lt", "lte", "and", "nand", "or", "nor", "type_of",
    "is_null", "is_num", "add", "sub", "mul", "div", "mod", "min", "max", "list", "append", "len",
    "slice", "groups", "get", "index_of", "sort", "map", "cat", "split", "str_contains",
    "str_replace", "str_replace_n", "html_esc", "xml_esc", "join_with", "xy", "xywh", "cxyrr",
    "xy12", "fl_stk", "font", "string_from_ints",
];

pub fn call(name: &str, a: &[V], nd: &mut bool) -> Option<F> {
    Some(match name {
        "eq" | "neq" | "eq_any" | "gt" | "gte" | "lt" | "lte" => compare(name, a),
        "and" => Ok(V::Bool(a.iter().all(|v| truthy(v) == Some(true)))),
        "nand" => Ok(V::Bool(!a.iter().all(|v| truthy(v) == Some(true)))),
        "or" => Ok(V::Bool(a.iter().any(|v| truthy(v) == Some(true)))),
        "nor" => Ok(V::Bool(!a.iter().any(|v| truthy(v) == Some(true)))),
        "type_of" => match a {
            [] => Err(()),
            [v] => Ok(s(v.type_name())),
            [v, t, ..] => Ok(V::Bool(show(t, nd) == v.type_name())),
        },
        "is_null" => a.first().map(|v| V::Bool(matches!(v, V::Null))).ok_or(()),
        "is_num" => a.first().map(|v| V::Bool(num(v).is_some())).ok_or(()),
        "add" | "sub" | "mul" | "div" | "mod" | "min" | "max" => math(name, a),
        "list" => Ok(V::List(a.to_vec())),
        "append" => {
            let mut r = Vec::new();
            for v in a {
                match v {
                    V::List(l) => r.extend(l.iter().cloned()),
                    v => r.push(v.clone()),
                }
            }
            Ok(V::List(r))
        }
        "len" => Ok(V::UInt(
            a.iter()
                .map(|v| match v {
                    V::List(l) => l.len() as u64,
                    V::Map(m) => m.len() as u64,
                    V::Str(s) => s.len() as u64,
                    _ => 1,
                })
                .sum(),
        )),
        "slice" => slice(a),
        "groups" => groups(a),
        "get" => get(a),
        "index_of" => match a {
            [n, V::List(l), ..] => {
                Ok(l.iter().position(|v| veq(v, n)).map_or(V::Null, |n| V::UInt(n as u64)))
            }
            [_, _, ..] => Ok(V::Null),
            _ => Err(()),
        },
        "sort" => {
            let mut r = Vec::new();
            for v in a {
                if let V::List(l) = v {
                    r.extend(l.iter().cloned());
                }
            }
            insertion_sort(&mut r, &total_cmp);
            Ok(V::List(r))
        }
        "map" => {
            let mut r = BTreeMap::new();
            for p in a.chunks_exact(2) {
                match &p[0] {
                    V::Str(k) => r.insert(k.clone(), p[1].clone()),
                    _ => return Some(Err(())),
                };
            }
            Ok(V::Map(r))
        }
        "cat" => Ok(V::Str(a.iter().map(|v| show(v, nd)).collect())),
        "split" => match a.first() {
            Some(V::Str(t)) => {
                let sep = match a.get(1) {
                    Some(V::Str(t)) => t.as_str(),
                    _ => "\n",
                };
                Ok(V::List(split(t, sep).into_iter().map(V::Str).collect()))
            }
            _ => Err(()),
        },
        "str_contains" => {
            if a.len() < 2 {
                return Some(Err(()));
            }
            let h = show(&a[0], nd);
            // every needle that is looked at could be a map
            let mut r = false;
            for n in &a[1..] {
                let n = show(n, nd);
                r |= find(h.as_bytes(), n.as_bytes(), 0).is_some();
            }
            Ok(V::Bool(r))
        }
        "str_replace" => match a {
            [h, n, r, ..] => Ok(V::Str(replace(&show(h, nd), &show(n, nd), &show(r, nd), None))),
            _ => Err(()),
        },
        "str_replace_n" => match a {
            [h, n, r, rest @ ..] => {
                let c = rest.first().and_then(as_index).unwrap_or(1);
                Ok(V::Str(replace(&show(h, nd), &show(n, nd), &show(r, nd), Some(c))))
            }
            _ => Err(()),
        },
        "html_esc" => Ok(V::Str(a.iter().map(|v| esc(&show(v, nd), "&#39;")).collect())),
        "xml_esc" => Ok(V::Str(a.iter().map(|v| esc(&show(v, nd), "&apos;")).collect())),
        "join_with" => match a {
            [sep, V::List(l), ..] => {
                let sep = show(sep, nd);
                let mut r = String::new();
                for (i, v) in l.iter().enumerate() {
                    if i > 0 {
                        r.push_str(&sep);
                    }
                    r.push_str(&show(v, nd));
                }
                Ok(V::Str(r))
            }
            _ => Err(()),
        },
        "string_from_ints" => Ok(V::Str(
            a.iter()
                .filter_map(as_index)
                .filter(|n| *n <= 0x10FFFF)
                .filter_map(|n| char::from_u32(n as u32))
                .collect(),
        )),
        "xy" => attrs(a, &["x", "y"], 2, nd),
        "xywh" => attrs(a, &["x", "y", "width", "height"], 4, nd),
        "cxyrr" => attrs(a, &["cx", "cy", "rx", "ry"], 4, nd),
        "xy12" => attrs(a, &["x", "y", "x2", "y2"], 4, nd),
        "fl_stk" => {
            if a.len() < 3 {
                return Some(Err(()));
            }
            let u = a.get(3).map_or(String::new(), |v| show(v, nd));
            Ok(V::Str(format!(
                "fill=\"{}\" stroke=\"{}\" stroke-width=\"{}{}\"",
                show(&a[0], nd),
                show(&a[1], nd),
                show(&a[2], nd),
                u
            )))
        }
        "font" => {
            if a.is_empty() {
                return Some(Err(()));
            }
            let u = a.get(2).map_or(String::new(), |v| show(v, nd));
            let fam = match a.get(1) {
                Some(v) => format!("font-family=\"{}\" ", show(v, nd)),
                None => String::new(),
            };
            Ok(V::Str(format!("font-size=\"{}{}\" {}", show(&a[0], nd), u, fam)))
        }
        _ => return None,
    })
}

fn attrs(a: &[V], names: &[&str], n: usize, nd: &mut bool) -> F {
    if a.len() < n {
        return Err(());
    }
    let u = a.get(n).map_or(String::new(), |v| show(v, nd));
    let v: Vec<String> =
        names.iter().zip(a).map(|(k, v)| format!("{}=\"{}{}\"", k, show(v, nd), u)).collect();
    Ok(V::Str(v.join(" ")))
}

pub fn esc(t: &str, apos: &str) -> String {
    let mut r = String::new();
    for c in t.chars() {
        match c {
            '&' => r += "&amp;",
            '<' => r += "&lt;",
            '>' => r += "&gt;",
            '"' => r += "&quot;",
            '\'' => r += apos,
            c => r.push(c),
        }
    }
    r
}

/// plain search of bytes, from `at`
pub fn find(h: &[u8], n: &[u8], at: usize) -> Option<usize> {
    if n.len() > h.len() {
        return None;
    }
    (at..=h.len() - n.len()).find(|i| &h[*i..*i + n.len()] == n)
}

/// Pieces between non overlapping occurrences, left to right. An empty separator splits at every
/// character boundary, ends included.
pub fn split(t: &str, sep: &str) -> Vec<String> {
    if sep.is_empty() {
        let mut r = vec![String::new()];
        r.extend(t.chars().map(|c| c.to_string()));
        r.push(String::new());
        return r;
    }
    let mut r = Vec::new();
    let mut at = 0;
    while let Some(p) = find(t.as_bytes(), sep.as_bytes(), at) {
        r.push(t[at..p].to_string());
        at = p + sep.len();
    }
    r.push(t[at..].to_string());
    r
}

pub fn replace(h: &str, n: &str, r: &str, max: Option<u64>) -> String {
    let parts = split(h, n);
    let mut out = String::new();
    let mut done = 0u64;
    for (i, p) in parts.iter().enumerate() {
        if i > 0 {
            if max.map_or(true, |m| done < m) {
                out += r;
                done += 1;
            } else {
                out += n;
            }
        }
        out += p;
    }
    out
}

fn compare(name: &str, a: &[V]) -> F {
    let first = a.first().ok_or(())?;
    let rest = &a[1..];
    let c = |v: &V| vcmp(first, v);
    Ok(V::Bool(match name {
        "eq" => rest.iter().all(|v| veq(first, v)),
        "neq" => rest.iter().all(|v| !veq(first, v)),
        "eq_any" => rest.iter().any(|v| veq(first, v)),
        "gt" => rest.iter().all(|v| c(v) == Some(Ordering::Greater)),
        "lt" => rest.iter().all(|v| c(v) == Some(Ordering::Less)),
        "gte" => rest.iter().all(|v| matches!(c(v), Some(Ordering::Greater | Ordering::Equal))),
        _ => rest.iter().all(|v| matches!(c(v), Some(Ordering::Less | Ordering::Equal))),
    }))
}

/// The order sort uses: NaN after the other numbers
pub fn total_cmp(a: &V, b: &V) -> Ordering {
    let nan = |v: &V| matches!(v, V::Float(f) if f.is_nan());
    match vcmp(a, b) {
        Some(o) => o,
        None => nan(a).cmp(&nan(b)),
    }
}

pub fn insertion_sort(l: &mut Vec<V>, c: &dyn Fn(&V, &V) -> Ordering) {
    if l.len() > 200 {
        // (of the standard library, and stable)
        return l.sort_by(c);
    }
    for i in 1..l.len() {
        let mut j = i;
        while j > 0 && c(&l[j - 1], &l[j]) == Ordering::Greater {
            l.swap(j - 1, j);
            j -= 1;
        }
    }
}

fn math(name: &str, a: &[V]) -> F {
    if a.is_empty() {
        return Err(());
    }
    if a.len() == 1 && name == "sub" {
        return match &a[0] {
            V::UInt(n) => i64::try_from(-(*n as i128)).map(V::Int).map_err(|_| ()),
            V::Int(n) => i64::try_from(-(*n as i128)).map(V::Int).map_err(|_| ()),
            V::Float(f) => Ok(V::Float(-f)),
            _ => Err(()),
        };
    }
    let mut r = a[0].clone();
    for b in &a[1..] {
        r = math2(name, &r, b)?;
    }
    Ok(r)
}

/// Two unsigned integers give an unsigned one where it fits (sub may go negative), other pairs of
/// integers give a signed one, and anything with a float gives a float. What does not fit is an error.
pub fn math2(name: &str, a: &V, b: &V) -> F {
    let (x, y) = (num(a).ok_or(())?, num(b).ok_or(())?);
    let f = |n: Num| match n {
        Num::I(i) => i as f64,
        Num::F(f) => f,
    };
    if let (Num::I(x), Num::I(y)) = (x, y) {
        let unsigned = matches!((a, b), (V::UInt(_), V::UInt(_)));
        if !unsigned {
            // both have to be signed numbers
            i64::try_from(x).map_err(|_| ())?;
            i64::try_from(y).map_err(|_| ())?;
        }
        let r: i128 = match name {
            "add" => x + y,
            "sub" => x - y,
            "mul" => x.checked_mul(y).ok_or(())?,
            "div" => {
                if y == 0 {
                    return Err(());
                }
                x / y
            }
            "mod" => {
                if y == 0 {
                    return Err(());
                }
                // as for machine integers, the one case where the quotient overflows is an error
                if !unsigned && x == i64::MIN as i128 && y == -1 {
                    return Err(());
                }
                x % y
            }
            "min" => x.min(y),
            _ => x.max(y),
        };
        return if unsigned && r >= 0 {
            u64::try_from(r).map(V::UInt).map_err(|_| ())
        } else {
            i64::try_from(r).map(V::Int).map_err(|_| ())
        };
    }
    let (x, y) = (f(x), f(y));
    Ok(V::Float(match name {
        "add" => x + y,
        "sub" => x - y,
        "mul" => x * y,
        "div" => x / y,
        "mod" => x % y,
        "min" => x.min(y),
        _ => x.max(y),
    }))
}

fn slice(a: &[V]) -> F {
    let start = a.get(1).and_then(as_index).ok_or(())? as u128;
    let len = match &a[0] {
        V::List(l) => l.len(),
        V::Str(s) => s.len(),
        _ => return Err(()),
    } as u128;
    let end = a.get(2).and_then(as_index).map_or(len, |e| e as u128);
    if start > end || end > len {
        return Err(());
    }
    let (b, e) = (start as usize, end as usize);
    match &a[0] {
        V::List(l) => Ok(V::List(l[b..e].to_vec())),
        V::Str(s) if s.is_char_boundary(b) && s.is_char_boundary(e) => {
            Ok(V::Str(s[b..e].to_string()))
        }
        _ => Err(()),
    }
}

fn groups(a: &[V]) -> F {
    let n = a.first().and_then(as_index).ok_or(())?.max(1);
    match a.get(1) {
        Some(V::List(l)) => {
            let mut r: Vec<V> = Vec::new();
            let mut cur = Vec::new();
            for v in l {
                cur.push(v.clone());
                if cur.len() as u64 == n {
                    r.push(V::List(std::mem::take(&mut cur)));
                }
            }
            if !cur.is_empty() {
                r.push(V::List(cur));
            }
            Ok(V::List(r))
        }
        _ => Err(()),
    }
}

fn get(a: &[V]) -> F {
    if a.len() != 2 {
        return Err(());
    }
    match (&a[0], &a[1]) {
        (V::List(l), V::UInt(n)) => Ok(l.get(*n as usize).cloned().unwrap_or(V::Null)),
        (V::List(l), V::Int(n)) => {
            Ok(if *n < 0 { V::Null } else { l.get(*n as usize).cloned().unwrap_or(V::Null) })
        }
        (V::Str(t), V::UInt(_) | V::Int(_)) => {
            let n = as_index(&a[1]).ok_or(())? as usize;
            if n < t.len() && t.is_char_boundary(n) {
                Ok(V::Str(t[n..].chars().next().unwrap().to_string()))
            } else {
                Err(())
            }
        }
        (V::Map(m), V::Str(k)) => Ok(m.get(k).cloned().unwrap_or(V::Null)),
        _ => Err(()),
    }
}
