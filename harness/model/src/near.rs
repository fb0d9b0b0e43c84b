//! Values that are nearly others
use crate::rng::Rng;
use crate::val::V;

/// A value that is the same, or nearly
pub fn near(r: &mut Rng, v: &V) -> V {
    if r.chance(1, 5) {
        return v.clone();
    }
    if r.chance(1, 12) {
        // what it prints as, or just itself in a list
        return match v {
            V::List(l) if l.len() == 1 => l[0].clone(),
            V::List(_) | V::Map(_) | V::Tmpl(_) | V::Bytes(_) => V::List(vec![v.clone()]),
            v if r.chance(1, 4) => V::List(vec![v.clone()]),
            v => V::Str(v.to_string()),
        };
    }
    match v {
        V::Int(n) => match r.below(4) {
            0 if *n >= 0 => V::UInt(*n as u64),
            1 => V::Float(*n as f64),
            2 => V::Int(n.wrapping_add(r.range(-1, 1))),
            _ => V::Float(*n as f64 + r.range(-1, 1) as f64 / 2.0),
        },
        V::UInt(n) => match r.below(4) {
            0 if *n <= i64::MAX as u64 => V::Int(*n as i64),
            1 => V::Float(*n as f64),
            2 => V::UInt(n.wrapping_add(r.below(3) as u64).wrapping_sub(1)),
            _ => V::Float(*n as f64 + r.range(-1, 1) as f64 / 2.0),
        },
        V::Float(f) => match r.below(5) {
            0 => V::Int(*f as i64),
            1 => V::UInt(*f as u64),
            2 => V::Float(f64::from_bits(f.to_bits() ^ 1)),
            3 => V::Float(-f),
            _ => V::Int((*f as i64).wrapping_add(r.range(-1, 1))),
        },
        V::Bool(b) => match r.below(3) {
            0 => V::Bool(!b),
            1 => V::UInt(*b as u64),
            _ => V::Str(b.to_string()),
        },
        V::Str(s) => match r.below(9) {
            0 => V::Str(s.clone() + "a"),
            4 => V::Str(s.to_lowercase()),
            5 => V::Str(format!("{}{}", r.pick(&[" ", "\n", "_", "0", "\u{feff}", "-"]), s)),
            6 => V::Str(format!("{}{}", s, r.pick(&[" ", "\n", "_", ".0", "\0", "\u{301}"]))),
            7 => s.parse().map(V::UInt).unwrap_or(V::Bool(true)),
            8 => V::Str(s.chars().rev().collect()),
            1 => V::Str(s.to_uppercase()),
            2 => V::Bytes(s.as_bytes().to_vec()),
            _ => {
                let mut t = s.clone();
                t.pop();
                V::Str(t)
            }
        },
        V::Date(y, m, d) => match r.below(8) {
            // a hundred years apart, and day and month the other way round
            4 => V::Date((y + r.pick(&[-100, 100, -1, 4, -1000, 400])).clamp(-262_000, 262_000), *m, (*d).min(28)),
            5 if *d <= 12 => V::Date(*y, *d, *m),
            6 => V::Str(format!("{}/{}/{}", d, m, y)),
            7 => V::Str(format!("{:04}-{:02}-{:02}", y, m, d)),
            0 => V::Date(*y, *m, d % 28 + 1),
            1 => V::Date(*y, m % 12 + 1, (*d).min(28)),
            2 => V::Date(y + 1, *m, (*d).min(28)),
            _ => V::Str(v.to_string()),
        },
        V::List(l) => {
            let mut l = l.clone();
            match r.below(4) {
                0 => l.push(crate::gen::simple(r, false)),
                1 => {
                    l.pop();
                }
                2 if l.len() > 1 => {
                    let i = r.below(l.len() - 1);
                    l.swap(i, i + 1)
                }
                _ if !l.is_empty() => {
                    let i = r.below(l.len());
                    l[i] = near(r, &l[i].clone());
                }
                _ => return V::Null,
            }
            V::List(l)
        }
        V::Map(m) => {
            let mut m = m.clone();
            if m.is_empty() || r.chance(1, 3) {
                m.insert(crate::gen::key(r), crate::gen::simple(r, false));
            } else {
                let k = m.keys().nth(r.below(m.len())).unwrap().clone();
                let x = m.remove(&k).unwrap();
                match r.below(3) {
                    0 => {}
                    1 => {
                        m.insert(crate::gen::key(r), x);
                    }
                    _ => {
                        m.insert(k, near(r, &x));
                    }
                }
            }
            V::Map(m)
        }
        V::Bytes(b) => {
            let mut b = b.clone();
            if r.chance(1, 2) && !b.is_empty() {
                let i = r.below(b.len());
                b[i] ^= 1 << r.below(8);
            } else {
                b.push(0);
            }
            V::Bytes(b)
        }
        V::Null => r.pick(&[V::Bool(false), V::UInt(0), V::Str(String::new()), V::List(vec![]), V::Str("null".into()), V::Map(Default::default())]).clone(),
        V::Tmpl(_) => crate::gen::simple(r, false),
    }
}

/// One that is nearly the same, and can be written in a template or a pattern
pub fn near_literal(r: &mut Rng, v: &V) -> Option<V> {
    Some(match near(r, v) {
        V::Int(n) if n >= 0 => V::UInt(n as u64),
        V::Float(f) if !f.is_finite() => return None,
        V::List(_) | V::Map(_) | V::Bytes(_) | V::Tmpl(_) => return None,
        v => v,
    })
}
