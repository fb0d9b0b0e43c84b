//! Files: the locks, and what the functions give
use super::progs::clip;
use super::util::*;
use crate::conv::*;
use crate::core::*;
use crate::watch::{without, faulty, Faults, self, lexical, watched, Ev};
use model::gen;
use model::rng::Rng;
use model::val::{identical, tag, V};
use std::collections::BTreeMap;
use std::path::{Component, Path, PathBuf};
use templito::func_man::{func_man_folders, BasicFuncs};
use templito::temp_man::NoTemplates;
use templito::template::TreeTemplate;
use templito::{TData, WithFuncs};

/// ---- what is there ----

/// A file of the fixture, and what it declares
struct Item {
    path: String,
    data: Vec<u8>,
    front: BTreeMap<String, V>,
    dim: Option<(u64, u64)>,
}

fn bmp(w: u32, h: u32) -> Vec<u8> {
    let row = (w * 3 + 3) / 4 * 4;
    let size = row * h;
    let mut v = b"BM".to_vec();
    v.extend((54 + size).to_le_bytes());
    v.extend(0u32.to_le_bytes());
    v.extend(54u32.to_le_bytes());
    v.extend(40u32.to_le_bytes());
    v.extend(w.to_le_bytes());
    v.extend(h.to_le_bytes());
    v.extend(1u16.to_le_bytes());
    v.extend(24u16.to_le_bytes());
    v.extend([0u8; 24]);
    v.extend(vec![7u8; size as usize]);
    v
}

fn crc(b: &[u8]) -> u32 {
    let mut c = !0u32;
    for x in b {
        c ^= *x as u32;
        for _ in 0..8 {
            c = if c & 1 == 1 { c >> 1 ^ 0xedb88320 } else { c >> 1 };
        }
    }
    !c
}

fn png(w: u32, h: u32) -> Vec<u8> {
    let mut v = vec![0x89, b'P', b'N', b'G', 13, 10, 26, 10];
    let mut chunk = |t: &[u8], d: &[u8]| {
        v.extend((d.len() as u32).to_be_bytes());
        let mut b = t.to_vec();
        b.extend(d);
        v.extend(&b);
        v.extend(crc(&b).to_be_bytes());
    };
    let mut head = vec![];
    head.extend(w.to_be_bytes());
    head.extend(h.to_be_bytes());
    head.extend([8, 0, 0, 0, 0]);
    chunk(b"IHDR", &head);
    // rows of grey, not compressed
    let raw: Vec<u8> = (0..h).flat_map(|_| std::iter::once(0u8).chain((0..w).map(|x| x as u8))).collect();
    let (mut a, mut b) = (1u32, 0u32);
    for x in &raw {
        a = (a + *x as u32) % 65521;
        b = (b + a) % 65521;
    }
    let mut z = vec![0x78, 0x01, 1];
    z.extend((raw.len() as u16).to_le_bytes());
    z.extend((!(raw.len() as u16)).to_le_bytes());
    z.extend(&raw);
    z.extend((b << 16 | a).to_be_bytes());
    chunk(b"IDAT", &z);
    chunk(b"IEND", &[]);
    v
}

/// What lies outside says so
const SECRET: &str = "S3CR3T";

fn front(l: &[(&str, V)]) -> BTreeMap<String, V> {
    l.iter().map(|(k, v)| (k.to_string(), v.clone())).collect()
}

fn items() -> Vec<Item> {
    let s = |x: &str| V::Str(x.to_string());
    let mut v = vec![];
    let mut add = |path: &str, data: &[u8], f: &[(&str, V)]| {
        v.push(Item { path: path.to_string(), data: data.to_vec(), front: front(f), dim: None })
    };
    add("a.txt", b"alpha\n", &[]);
    add("b.txt", "b\u{e9}ta {{$x}}".as_bytes(), &[]);
    add("empty", b"", &[]);
    add("page.ito", b"{{export title=\"A page\"; n=3}}text", &[("title", s("A page")), ("n", V::UInt(3))]);
    add(
        "sub/c.txt",
        b"{{@export body}}in {{cat \"s\" 1}}{{/export}}{{export l=[1,2], sum=(add 1 2)}}",
        &[("body", s("in s1")), ("l", V::List(vec![V::UInt(1), V::UInt(2)])), ("sum", V::UInt(3))],
    );
    add("sub/broken.ito", b"{{if", &[]);
    add("sub/_skip.txt", b"{{export no=1}}", &[]);
    add("sub/deep/d.txt", b"{{export file=(file \"a.txt\"); ok=true}}", &[("ok", V::Bool(true))]);
    add("sub/deep/x/e.txt", b"e{{export item_file=\"mine\"}}", &[("item_file", s("mine"))]);
    add("sub/deep/x/y/f.txt", b"f", &[]);
    add("_hidden/g.txt", b"g", &[]);
    add("_top.txt", b"t", &[]);
    add("sp ace/\u{e9}\u{65e5}.txt", "\u{65e5}\u{672c}".as_bytes(), &[]);
    add("bin", &[0, 159, 146, 150, 255, 10], &[]);
    add("sub/cut", "\u{e9}".as_bytes().get(..1).unwrap(), &[]);
    add("..dots", b"dots", &[]);
    add("...", b"three", &[]);
    add("lock/a.txt", b"inner lock", &[]);
    add("bom.txt", "\u{feff}{{export n=1}}bom\r\n\u{feff}".as_bytes(), &[("n", V::UInt(1))]);
    add("crlf.ito", b"\r\n{{export n=1}}\r\nx\r\n\r", &[("n", V::UInt(1))]);
    for (path, w, h, p) in [("i.bmp", 3, 5, false), ("sub/j.png", 17, 2, true), ("sp ace/k.png", 1, 40, true)] {
        let data = if p { png(w, h) } else { bmp(w, h) };
        v.push(Item { path: path.to_string(), data, front: BTreeMap::new(), dim: Some((w as u64, h as u64)) });
    }
    v
}

struct Fix {
    outer: PathBuf,
    root: PathBuf,
    items: Vec<Item>,
}

fn put(p: &Path, d: &[u8]) {
    std::fs::create_dir_all(p.parent().unwrap()).expect("fixture");
    std::fs::write(p, d).expect("fixture");
}

/// Any tree: names and contents of every kind, few or many, deep or not
fn any_items(r: &mut Rng) -> Vec<Item> {
    let mut taken: BTreeMap<String, bool> = BTreeMap::new();
    let mut v: Vec<Item> = vec![];
    for d in ["lock", "sub", "void"] {
        taken.insert(d.into(), true);
    }
    let n = if r.chance(1, 12) { r.big(600) } else { 1 + r.below(25) };
    let deep = if r.chance(1, 12) { 40 } else { 4 };
    let mut dirs = vec![String::new()];
    let name = |r: &mut Rng| -> String {
        match r.below(10) {
            0 => format!("f{}", r.below(1000)),
            1 => format!("{}.{}", gen::word(r).replace(['/', '\0'], "-"), r.pick(&["txt", "ito", "bmp", "TXT", ""])),
            2 => "n".repeat(1 + r.below(200)),
            3 => r.pick(&["a.txt", "c.txt", "d.txt", "page.ito", "_", "__a", "_.txt", ".h", "a_b", "x_"]).to_string(),
            _ => r.pick(PARTS).to_string(),
        }
    };
    while v.len() < n {
        let mut p = r.pick(&dirs).clone();
        let down = if r.chance(1, 4) { 1 + r.below(2) } else { 0 };
        let mut fine = true;
        for k in 0..=down {
            let x = name(r);
            if x == "." || x == ".." || x.len() > 250 || p.matches('/').count() >= deep {
                fine = false;
                break;
            }
            p = if p.is_empty() { x } else { format!("{}/{}", p, x) };
            match (taken.get(&p), k < down) {
                (None, true) | (Some(true), true) => {
                    if taken.insert(p.clone(), true).is_none() {
                        dirs.push(p.clone())
                    }
                }
                (None, false) => {}
                _ => {
                    fine = false;
                    break;
                }
            }
        }
        if !fine || p.len() > 2500 {
            if r.chance(1, 200) {
                break;
            }
            continue;
        }
        taken.insert(p.clone(), false);
        let mut i = Item { path: p, data: vec![], front: BTreeMap::new(), dim: None };
        match r.below(12) {
            0 => {}
            1 => {
                let k = r.big(100_000);
                i.data = gen::text_of(r, 20).repeat(k / 20).replace("{{", "{ ").into_bytes()
            }
            2 => i.data = (0..r.below(300)).map(|_| r.u64() as u8).chain([0xff]).collect(),
            3 => {
                let wide = if r.chance(1, 8) { 700 } else { 40 };
                let (w, h) = (1 + r.below(wide) as u32, 1 + r.below(40) as u32);
                // (what an image is, its name tells)
                let is_png = r.chance(1, 2);
                let p = format!("{}.{}", i.path, if is_png { "png" } else { "bmp" });
                if p.rsplit('/').next().map_or(true, |n| n.len() > 250) || taken.insert(p.clone(), false).is_some() {
                    continue;
                }
                i.path = p;
                i.data = if is_png { png(w, h) } else { bmp(w, h) };
                i.dim = Some((w as u64, h as u64));
            }
            4 => i.data = format!("{{{{export x=1}}}}{}", r.pick(&["{{if", "{{/if}}", "{{\"", "{{(1 2"])).into_bytes(),
            _ => {
                let mut t = String::new();
                for _ in 0..r.some(5) {
                    match r.below(5) {
                        0 => {
                            t += &gen::text_of(r, 10).replace(['{', '\\'], ".");
                            t += r.pick(&["", "", "\u{feff}", "\r\n", "\n", " ", "\0"])
                        }
                        1 => t += "{{let a = 1}}{{export no=$a}}",
                        2 => {
                            t += "{{export b=$k}}";
                            if let Some(v) = i.front.get("k").cloned() {
                                i.front.insert("b".into(), v);
                            }
                        }
                        _ => {
                            let k = r.pick(&["title", "date", "n", "tags", "item_path", "draft", "k"]).to_string();
                            let v = loop {
                                let v = wild(r, 2);
                                if has_literal(&v) {
                                    break v;
                                }
                            };
                            let nd = vec![model::ast::Nd::Export(vec![(k.clone(), model::ast::Ex::Lit(v.clone()))])];
                            t += &model::print::print(&nd, r, model::print::PLAIN);
                            i.front.insert(k, v);
                        }
                    }
                }
                i.data = t.into_bytes();
            }
        }
        v.push(i);
    }
    v
}

fn build(scratch: &Path, items: Vec<Item>) -> Fix {
    let outer = scratch.join("outer");
    let root = outer.join("lock");
    for i in &items {
        put(&root.join(&i.path), &i.data);
    }
    std::fs::create_dir_all(root.join("sub")).expect("fixture");
    std::fs::create_dir_all(root.join("void")).expect("fixture");
    for p in ["a.txt", "secret.txt", "lock2/a.txt", "lockx", "sub/c.txt", "other/page.ito", "loc/a.txt"] {
        put(&outer.join(p), format!("{{{{export secret=\"{}\"}}}}{} {}", SECRET, SECRET, p).as_bytes());
    }
    put(&outer.join("other/i.bmp"), &bmp(99, 98));
    put(&scratch.join("a.txt"), SECRET.as_bytes());
    // what is no file and no folder itself
    std::os::unix::fs::symlink("../secret.txt", root.join("zlink")).expect("fixture");
    std::os::unix::fs::symlink("../../other", root.join("sub/zlinkdir")).expect("fixture");
    Fix { outer, root, items }
}

fn fix(cx: &mut Cx) -> Result<(), Violation> {
    if cx.keep.contains_key("fix") {
        return Ok(());
    }
    if let Err(e) = watch::works(&cx.scratch) {
        panic!("the watch does not see what it is to see: {}", e);
    }
    let f = build(&cx.scratch, items());
    cx.keep.insert("fix", Box::new(f));
    // libraries set themselves up
    let g = BasicFuncs::new().with_defaults();
    call_v(&g, "regex", &[V::Str("a".into()), V::Str("a".into())])?.ok();
    call_v(&g, "rand", &[])?.ok();
    call_v(&g, "len", &[])?.ok();
    Ok(())
}

/// The same over a tree that is made for it
fn grown(cx: &mut Cx, inner: fn(&mut Cx) -> Res) -> Res {
    let here = cx.scratch.clone();
    let there = fresh(cx, "grown");
    let items = any_items(&mut cx.rng);
    let names: Vec<String> = items.iter().map(|i| i.path.clone()).collect();
    cx.max("max files in a tree", items.len() as u64);
    let f = build(&there, items);
    let old = cx.keep.insert("fix", Box::new(f)).expect("fixture");
    cx.scratch = there.clone();
    std::env::set_current_dir(&there).expect("folder");
    let mut res = Ok(());
    for _ in 0..16 {
        res = inner(cx);
        if res.is_err() {
            cx.input(format!("{} with the files {:?}", cx.input, names));
            break;
        }
    }
    std::env::set_current_dir(&here).expect("folder");
    cx.scratch = here;
    cx.keep.insert("fix", old);
    let _ = std::fs::remove_dir_all(&there);
    cx.see("trees made");
    res
}

fn the(cx: &Cx) -> &Fix {
    cx.keep["fix"].downcast_ref::<Fix>().unwrap()
}

/// ---- paths ----

#[derive(Clone, Copy, Debug, PartialEq)]
enum Class {
    /// never leaves the root
    In,
    /// leads outside of it
    Out,
    /// goes out and comes back, or is spelled in another way than the root
    Open,
}

fn class(root: &str, arg: &str) -> Class {
    let p = Path::new(root).join(arg);
    if !lexical(&p).starts_with(lexical(Path::new(root))) {
        return Class::Out;
    }
    let rest = if Path::new(arg).is_absolute() {
        match p.strip_prefix(root) {
            Ok(r) => r.to_path_buf(),
            Err(_) => return Class::Open,
        }
    } else {
        PathBuf::from(arg)
    };
    let mut d = 0;
    for c in rest.components() {
        match c {
            Component::Normal(_) => d += 1,
            Component::ParentDir => d -= 1,
            _ => {}
        }
        if d < 0 {
            return Class::Open;
        }
    }
    Class::In
}

/// The ways to write the root of the lock
fn root_spelling(r: &mut Rng, scratch: &Path) -> String {
    let abs = scratch.join("outer/lock");
    let abs = abs.to_str().unwrap();
    match r.below(12) {
        0 => "outer/lock".into(),
        1 => "./outer/lock".into(),
        2 => format!("{}/", abs),
        3 => format!("{}/outer/lock2/../lock", scratch.display()),
        4 => "outer//lock/".into(),
        5 => "outer/lock/sub/..".into(),
        6 => format!("{}/.", abs),
        _ => abs.to_string(),
    }
}

fn join(r: &mut Rng, p: &[&str]) -> String {
    let mut s = String::new();
    for (i, x) in p.iter().enumerate() {
        if i > 0 {
            s += if r.chance(1, 12) { "//" } else { "/" };
        }
        if r.chance(1, 12) {
            s += "./";
        }
        s += x;
    }
    if r.chance(1, 15) {
        s += "/";
    }
    s
}

fn inner(r: &mut Rng, f: &Fix) -> String {
    let i = r.below(f.items.len() + 6);
    match f.items.get(i) {
        // now and then the folder it is in, or one above
        Some(x) if r.chance(1, 4) => {
            let n = x.path.matches('/').count();
            x.path.split('/').take(r.below(n + 1)).collect::<Vec<_>>().join("/")
        }
        Some(x) => x.path.to_string(),
        None => r.pick(&["sub", "sub/deep", "void", "", ".", "sp ace", "sub/deep/x", "missing", "sub/none"]).to_string(),
    }
}

/// The same path in a spelling that some systems read as the same: here it is another
fn disguise(r: &mut Rng, p: String) -> String {
    let all = r.chance(1, 2);
    let mut swap = |p: &str, a: &str, b: &str| if all { p.replace(a, b) } else { p.replacen(a, b, 1) };
    match r.below(16) {
        0 => swap(&p, ".", "%2e"),
        1 => swap(&p, ".", "%2E"),
        2 => swap(&p, "/", "%2f"),
        3 => swap(&swap(&p, ".", "%2e"), "/", "%2F"),
        4 | 5 => swap(&p, "/", "\\"),
        6 => swap(&p, ".", "\u{ff0e}"),
        7 => swap(&p, "/", "\u{2215}"),
        8 => swap(&p, "..", ". ."),
        9 => swap(&p, "/", "/ "),
        10 => p.to_uppercase(),
        11 => format!("{}{}", r.pick(&["file://", "file:", "~/", "$HOME/", "${PWD}/", "$PWD/", "c:", "@", "|", "<", "-", " ", "\u{feff}", "\"", "//?/"]), p),
        12 => format!("{}{}", p, r.pick(&["\0", " ", ".", "\n", "/*", "?", "#x", "::$DATA", "*", "~", "\0.txt", "\""])),
        13 => swap(&p, "a", "?"),
        14 => swap(&p, ".", "%252e"),
        _ => swap(&p, "\u{e9}", "e\u{301}"),
    }
}

/// A path, as a template may ask for it
fn a_path(r: &mut Rng, f: &Fix) -> String {
    let p = plain_path(r, f);
    if r.chance(1, 8) {
        return disguise(r, p);
    }
    p
}

fn plain_path(r: &mut Rng, f: &Fix) -> String {
    let names = [
        "..", "..", "..", ".", "sub", "deep", "lock", "lock2", "lockx", "outer", "secret.txt", "a.txt", "other", "c.txt",
        "loc", "...", "..dots", "void", "missing", "page.ito", "x", "i.bmp", "etc", "\u{e9}", " ..", ".. ", "~",
    ];
    let outer = f.outer.to_str().unwrap();
    match r.below(14) {
        0..=3 => {
            let p = inner(r, f);
            if r.chance(1, 3) {
                // a way around
                let w = *r.pick(&["sub/..", ".", "sub/deep/../..", "void/..", "missing/..", "lock/../sub/.."]);
                return format!("{}/{}", w, p);
            }
            p
        }
        4 | 5 => {
            let n = 1 + r.some(5);
            let p: Vec<&str> = (0..n).map(|_| *r.pick(&names)).collect();
            join(r, &p)
        }
        6 | 7 => {
            // up and out, or up and back
            let down = *r.pick(&["", "sub", "sub/deep", "void", "sub/deep/x"]);
            let n = down.split('/').filter(|s| !s.is_empty()).count();
            let up = n + r.below(3);
            let mut p: Vec<&str> = down.split('/').filter(|s| !s.is_empty()).collect();
            p.extend(vec![".."; up]);
            p.push(r.pick(&["a.txt", "secret.txt", "lock/a.txt", "lock2/a.txt", "other", "", "other/i.bmp", "lockx", "sub/c.txt"]));
            join(r, &p)
        }
        8 => format!("{}/{}", f.root.display(), inner(r, f)),
        9 => {
            let p = *r.pick(&["secret.txt", "lock2/a.txt", "lockx", "", "other", "a.txt", "loc/a.txt", "other/i.bmp"]);
            format!("{}/{}", outer, p)
        }
        10 => {
            let p = *r.pick(&["../a.txt", "../lock2/a.txt", "sub/../../secret.txt", "../lock/a.txt", "./../other"]);
            format!("{}/{}", f.root.display(), p)
        }
        11 => format!("{}{}", f.root.display(), r.pick(&["2/a.txt", "x", "/../lockx", "2"])),
        12 => r.pick(&["/", "/etc/hostname", "/etc", "//", "/..", "/proc/self/environ", "/tmp"]).to_string(),
        _ => {
            let s = gen::text_of(r, 8);
            s
        }
    }
}

/// ---- what is expected ----

fn list_dir(p: &Path) -> Option<V> {
    let mut v = vec![];
    for e in std::fs::read_dir(p).ok()? {
        v.push(V::Str(e.ok()?.file_name().to_str()?.to_string()));
    }
    v.sort_by_key(|v| v.to_string());
    Some(V::List(v))
}

fn scan(
    f: &Fix,
    full: &Path,
    short: &Path,
    depth: u64,
    re: &Option<(&'static str, fn(&str) -> bool)>,
    out: &mut Vec<V>,
) -> Option<()> {
    for e in std::fs::read_dir(full).ok()? {
        let e = e.ok()?;
        let name = e.file_name();
        let name = name.to_str()?;
        if name.starts_with('_') {
            continue;
        }
        let t = e.file_type().ok()?;
        let path = full.join(name);
        if t.is_file() {
            if let Some((_, m)) = re {
                if !m(path.to_str()?) {
                    continue;
                }
            }
            // what may not be opened is left out
            if std::fs::File::open(&path).is_err() {
                continue;
            }
            let mut m = BTreeMap::new();
            m.insert("item_full_path".to_string(), V::Str(path.display().to_string()));
            m.insert("item_path".to_string(), V::Str(short.display().to_string()));
            m.insert("item_file".to_string(), V::Str(name.to_string()));
            let l = lexical(&path);
            if let Some(i) = f.items.iter().find(|i| lexical(&f.root.join(&i.path)) == l) {
                m.extend(i.front.clone());
            } else if l.starts_with(lexical(&f.outer)) && path.to_str()?.ends_with(".bmp") == false {
                m.insert("secret".into(), V::Str(SECRET.into()));
            }
            out.push(V::Map(m));
        } else if t.is_dir() && depth > 0 {
            scan(f, &path, &short.join(name), depth - 1, re, out)?;
        }
    }
    Some(())
}

/// (what it matches does not depend on how the root is written)
const FILTERS: &[(&str, fn(&str) -> bool)] = &[
    (r"\.txt$", |p| p.ends_with(".txt")),
    (r"[cd]\.txt", |p| p.contains("c.txt") || p.contains("d.txt")),
    ("$", |_| true),
    ("$ no", |_| false),
    ("deep/x/", |p| p.contains("deep/x/")),
    (r"(\.ito|\.png)$", |p| p.ends_with(".ito") || p.ends_with(".png")),
    // does not compile: no filter
    ("(", |_| true),
    ("[", |_| true),
];

fn norm_scan(v: &V) -> Vec<String> {
    let l = match v {
        V::List(l) => l,
        v => return vec![format!("no list: {}", tag(v))],
    };
    let mut o: Vec<String> = l
        .iter()
        .map(|x| match x {
            V::Map(m) => {
                let mut m = m.clone();
                if let Some(V::Str(s)) = m.get("item_full_path") {
                    let s = lexical(Path::new(s)).display().to_string();
                    m.insert("item_full_path".into(), V::Str(s));
                }
                tag(&V::Map(m))
            }
            v => tag(v),
        })
        .collect();
    o.sort();
    o
}

fn norm_dirs(v: &V) -> V {
    match v {
        V::List(l) if l.iter().all(|x| matches!(x, V::Str(_))) => {
            let mut l = l.clone();
            l.sort_by_key(|v| v.to_string());
            V::List(l)
        }
        V::List(l) => V::List(l.iter().map(norm_dirs).collect()),
        v => v.clone(),
    }
}

enum Want {
    /// this value, once brought to a form that does not depend on the order of folders
    Is(V),
    Scan(Vec<String>),
    Fail,
    /// a success or a failure, as long as nothing of the outside is in there
    Any,
}

fn expect(f: &Fix, root: Option<&str>, name: &str, args: &[V]) -> Want {
    let s: Vec<String> = args.iter().map(|a| a.to_string()).collect();
    let at = |i: usize| -> PathBuf {
        match root {
            Some(r) => Path::new(r).join(&s[i]),
            None => PathBuf::from(&s[i]),
        }
    };
    let cl = |i: usize| root.map_or(Class::In, |r| class(r, &s[i]));
    let paths = if matches!(name, "scan_dir" | "file_img_dimensions") { args.len().min(1) } else { args.len() };
    match name {
        "is_file" | "is_dir" => {
            for i in 0..paths {
                match cl(i) {
                    Class::Out => return Want::Fail,
                    Class::Open => return Want::Any,
                    Class::In => {}
                }
                let ok = std::fs::metadata(at(i)).map_or(false, |m| if name == "is_file" { m.is_file() } else { m.is_dir() });
                if !ok {
                    return Want::Is(V::Bool(false));
                }
            }
            return Want::Is(V::Bool(true));
        }
        _ => {}
    }
    if (0..paths).any(|i| cl(i) == Class::Out) {
        return Want::Fail;
    }
    if name == "file_img_dimensions" && !matches!(args.first(), Some(V::Str(_))) {
        return Want::Fail;
    }
    if (0..paths).any(|i| cl(i) == Class::Open) {
        return Want::Any;
    }
    // what others may change meanwhile
    let mine: PathBuf = f.root.components().take(4).collect();
    let all: PathBuf = f.root.components().take(3).collect();
    let shared = |i: usize| match std::fs::canonicalize(at(i)) {
        Ok(p) => (p.starts_with(&all) && !p.starts_with(&mine)) || (all.starts_with(&p) && matches!(name, "dir" | "scan_dir")),
        _ => false,
    };
    if (0..paths).any(shared) {
        return Want::Any;
    }
    let r = match name {
        "file" => {
            let mut t = String::new();
            (0..paths)
                .try_for_each(|i| std::fs::read_to_string(at(i)).map(|x| t.push_str(&x)))
                .ok()
                .map(|_| V::Str(t))
        }
        "file_bytes" => {
            let mut t = vec![];
            (0..paths).try_for_each(|i| std::fs::read(at(i)).map(|x| t.extend(x))).ok().map(|_| V::Bytes(t))
        }
        "dir" if paths == 1 => list_dir(&at(0)),
        "dir" => {
            let l: Option<Vec<V>> = (0..paths).map(|i| list_dir(&at(i))).collect();
            l.map(V::List)
        }
        "file_img_dimensions" => {
            let l = lexical(&at(0));
            let d = if std::fs::metadata(at(0)).map_or(false, |m| m.is_file()) && std::fs::File::open(at(0)).is_ok() {
                f.items.iter().find(|i| lexical(&f.root.join(&i.path)) == l).and_then(|i| i.dim).or_else(|| {
                    if l == lexical(&f.outer.join("other/i.bmp")) {
                        Some((99, 98))
                    } else {
                        None
                    }
                })
            } else {
                None
            };
            d.map(|(w, h)| V::Map(front(&[("w", V::UInt(w)), ("h", V::UInt(h))])))
        }
        "scan_dir" => {
            if paths == 0 {
                return Want::Fail;
            }
            let depth = args.get(1).and_then(model::val::as_index).unwrap_or(0);
            let re = args.get(2).and_then(|a| FILTERS.iter().find(|f| f.0 == a.to_string()).copied());
            let mut out = vec![];
            return match scan(f, &at(0), Path::new(""), depth, &re, &mut out) {
                Some(()) => Want::Scan(norm_scan(&V::List(out))),
                None => Want::Fail,
            };
        }
        _ => unreachable!(),
    };
    match r {
        Some(v) => Want::Is(norm_dirs(&v)),
        None => Want::Fail,
    }
}

const READERS: &[&str] =
    &["file", "file", "file_bytes", "dir", "dir", "is_file", "is_dir", "scan_dir", "scan_dir", "file_img_dimensions"];

fn reader_args(cx: &mut Cx, name: &str, path: &mut dyn FnMut(&mut Rng, &Fix) -> String) -> Vec<V> {
    let mut r = Rng::new(cx.rng.u64());
    let f = the(cx);
    let mut args = vec![];
    let folders = matches!(name, "dir" | "scan_dir" | "is_dir");
    let mut path = |r: &mut Rng, f: &Fix| {
        let p = path(r, f);
        // mostly the folder, where folders are asked for
        match p.rfind('/') {
            Some(i) if folders && r.chance(1, 2) => p[..i].to_string(),
            _ => p,
        }
    };
    match name {
        "scan_dir" => {
            args.push(V::Str(path(&mut r, f)));
            if r.chance(3, 4) {
                args.push(match r.below(8) {
                    0 => V::Int(r.range(0, 3)),
                    1 => V::Null,
                    2 => V::UInt(u64::MAX),
                    _ => V::UInt(r.below(5) as u64),
                });
                if r.chance(1, 2) {
                    args.push(V::Str(r.pick(FILTERS).0.to_string()));
                }
            }
        }
        "file_img_dimensions" => {
            let img = f.items.iter().filter(|i| i.dim.is_some()).map(|i| i.path.clone()).collect::<Vec<_>>();
            if r.chance(1, 3) {
                args.push(V::Str(path(&mut r, f)))
            } else if !img.is_empty() && r.chance(1, 2) {
                args.push(V::Str(r.pick(&img).clone()))
            } else {
                args.push(V::Str(r.pick(&["i.bmp", "sub/j.png", "sp ace/k.png", "../other/i.bmp", "sub/../i.bmp", "a.txt"]).to_string()))
            }
        }
        _ => {
            let n = *r.pick(&[1, 1, 1, 2, 2, 3]);
            for _ in 0..n {
                args.push(V::Str(path(&mut r, f)));
            }
        }
    }
    if r.chance(1, 40) {
        args.clear();
    } else if r.chance(1, 30) {
        args[0] = tame(&mut r, 1);
        if !args[0].has_display() {
            args[0] = V::UInt(1);
        }
    }
    args
}

/// Reading and writing in steps, and sometimes not to the end
fn faults(r: &mut Rng, hard: bool, most: u64) -> Option<Faults> {
    let limit = if hard && r.chance(1, 3) {
        let most = if r.chance(1, 2) { most.min(20) } else { most };
        Some(r.below(most as usize + 1) as u64)
    } else {
        None
    };
    Some(Faults { seed: r.u64(), short: r.chance(3, 4), all: false, limit })
}

/// Calls it and gives what was asked of the system
fn observed(fm: &BasicFuncs, nowhere: &Path, name: &str, args: &[V], tmpl: bool) -> Result<(Result<V, String>, Vec<Ev>), Violation> {
    if tmpl {
        // the value comes back as an export
        let mut s = format!("{{{{export x={}", name);
        for i in 0..args.len() {
            s += &format!(" ${}", i);
        }
        s += "}}";
        let t = match parse(&s)? {
            Ok(t) => t,
            Err(e) => return fail(e),
        };
        let p: Vec<TData> = args.iter().map(td).collect();
        let (r, ev) = watched(nowhere, || run(&t, &p, &mut NoTemplates, fm));
        let r = r?.map(|(_, m)| m.get("x").cloned().unwrap_or(V::Null));
        return Ok((r, ev));
    }
    let a: Vec<TData> = args.iter().map(td).collect();
    let (r, ev) = watched(nowhere, || call(fm, name, &a));
    Ok((r?.map(|v| val(&v)), ev))
}

fn compare(name: &str, want: &Want, got: &Result<V, String>) -> Res {
    match (want, got) {
        (Want::Any, _) => Ok(()),
        (Want::Fail, Err(_)) => Ok(()),
        (Want::Fail, Ok(v)) => fail(format!("{} gave {}, expected a failure", name, show(&[v.clone()]))),
        (Want::Is(w), Ok(g)) => {
            let g = norm_dirs(g);
            ensure!(identical(w, &g), "{} gave {}, expected {}", name, show(&[g]), show(&[w.clone()]));
            Ok(())
        }
        (Want::Scan(w), Ok(g)) => {
            let g = norm_scan(g);
            ensure!(*w == g, "{} gave {:?}, expected {:?}", name, g, w);
            Ok(())
        }
        (Want::Is(w), Err(e)) => fail(format!("{} failed ({}), expected {}", name, e, show(&[w.clone()]))),
        (Want::Scan(w), Err(e)) => fail(format!("{} failed ({}), expected {:?}", name, e, w)),
    }
}

/// ---- C19: reading within the lock ----

fn confined(root: &str, ev: &[Ev]) -> Res {
    let abs = lexical(Path::new(root));
    for e in ev {
        if e.change {
            return fail(format!("asked to change {:?} ({})", e.path, e.op));
        }
        match e.op {
            "open" | "opendir" => {
                ensure!(e.path.starts_with(&abs), "{} of {:?}, outside of {:?}", e.op, e.path, abs)
            }
            "stat" => {}
            _ => return fail(format!("asked the system for {} {:?}", e.op, e.path)),
        }
    }
    Ok(())
}

pub fn c19(cx: &mut Cx) -> Res {
    fix(cx)?;
    if cx.rng.chance(1, 600) {
        return grown(cx, c19_one);
    }
    c19_one(cx)
}

fn c19_one(cx: &mut Cx) -> Res {
    let root = root_spelling(&mut cx.rng, &cx.scratch.clone());
    let name = *cx.rng.pick(READERS);
    let args = reader_args(cx, name, &mut |r, f| a_path(r, f));
    let s: Vec<String> = args.iter().map(|a| a.to_string()).collect();
    cx.input(format!("{} {} locked to {:?}", name, show(&args), root));
    let both = cx.rng.chance(1, 2);
    let fm = guard(|| if both { func_man_folders(root.clone()) } else { BasicFuncs::new().with_folder_lock(root.clone()) })?;
    let want = expect(the(cx), Some(&root), name, &args);
    let nowhere = cx.scratch.join("nowhere");
    let tmpl = cx.rng.chance(1, 6);
    let (got, ev) = observed(&fm, &nowhere, name, &args, tmpl)?;
    confined(&root, &ev)?;
    if let Ok(g) = &got {
        let shown = match g {
            V::Bytes(b) => String::from_utf8_lossy(b).to_string(),
            v => tag(v),
        };
        ensure!(!shown.contains(SECRET), "what lies outside was given: {}", show(&[g.clone()]));
    }
    // a failure of the lock is to be one, whatever else is wrong
    compare(name, &want, &got)?;
    for a in &s {
        cx.see(match class(&root, a) {
            Class::In => "paths inside",
            Class::Out => "paths outside",
            Class::Open => "paths left open",
        });
    }
    cx.add("requests to the system watched", ev.len() as u64);
    cx.see(&format!("{}: {}", name, if got.is_ok() { "values" } else { "failures" }));
    cx.decided(format!("{} {} {}", name, show(&args), root).as_bytes());
    cx.sample(|| format!("{} {} -> {}", name, show(&args), show_r(&got)));
    Ok(())
}

/// ---- C21: what files hold ----

pub fn c21(cx: &mut Cx) -> Res {
    fix(cx)?;
    match cx.rng.below(10) {
        0 => loads(cx),
        1 | 2 => free_writes(cx),
        3 if cx.rng.chance(1, 20) => grown(cx, reads),
        3 if cx.rng.chance(1, 20) => grown(cx, changes),
        _ => reads(cx),
    }
}

/// Functions over files, and where they are locked to
struct Held {
    root: Option<String>,
    fm: BasicFuncs,
}

/// Every file and folder of the tree changed last at one and the same time
fn still(p: &Path) {
    let t = std::time::UNIX_EPOCH + std::time::Duration::from_secs(1_600_000_000);
    if let Ok(d) = std::fs::read_dir(p) {
        for e in d.flatten() {
            if e.file_type().map_or(false, |t| t.is_dir()) {
                still(&e.path());
            } else if let Ok(f) = std::fs::File::open(e.path()) {
                f.set_modified(t).ok();
            }
        }
    }
    if let Ok(f) = std::fs::File::open(p) {
        f.set_modified(t).ok();
    }
}

/// Reading goes on while the files change, though neither their sizes nor their times do
fn changes(cx: &mut Cx) -> Res {
    if the(cx).items.len() < 2 {
        return reads(cx);
    }
    let scratch = cx.scratch.clone();
    let root = match cx.rng.chance(1, 2) {
        true => Some(root_spelling(&mut cx.rng, &scratch)),
        false => None,
    };
    let fm = guard(|| match &root {
        Some(r) => BasicFuncs::new().with_folder_lock(r.clone()),
        None => BasicFuncs::new().with_free_files(),
    })?;
    let held = Held { root, fm };
    let mut f = *cx.keep.remove("fix").unwrap().downcast::<Fix>().unwrap();
    let lock = f.root.clone();
    let size = 100 + cx.rng.below(200);
    for i in &mut f.items {
        while i.data.len() < size {
            let b = match i.dim {
                Some(_) => 0,
                None if std::str::from_utf8(&i.data).is_err() => 0xff,
                None => b' ',
            };
            i.data.push(b);
        }
        std::fs::write(lock.join(&i.path), &i.data).expect("fixture");
    }
    let n = f.items.len();
    cx.keep.insert("fix", Box::new(f));
    for _ in 0..6 {
        still(&lock);
        for _ in 0..4 {
            reads_by(cx, Some(&held))?;
        }
        let mut r = Rng::new(cx.rng.u64());
        let f = cx.keep.get_mut("fix").unwrap().downcast_mut::<Fix>().unwrap();
        for _ in 0..1 + r.some(4) {
            let (a, b) = (r.below(n), r.below(n));
            let ext = |i: usize| f.items[i].path.rsplit('.').next().unwrap_or("").to_lowercase();
            // (what an image is, its name tells)
            if a == b || f.items[a].dim.is_some() != f.items[b].dim.is_some() || (f.items[a].dim.is_some() && ext(a) != ext(b)) {
                continue;
            }
            let (pa, pb) = (lock.join(&f.items[a].path), lock.join(&f.items[b].path));
            let i = &mut f.items;
            let x = (std::mem::take(&mut i[a].data), std::mem::take(&mut i[a].front), i[a].dim);
            i[a].data = std::mem::take(&mut i[b].data);
            i[a].front = std::mem::take(&mut i[b].front);
            i[a].dim = i[b].dim;
            (i[b].data, i[b].front, i[b].dim) = x;
            if r.chance(1, 2) {
                std::fs::write(&pa, &i[a].data).expect("fixture");
                std::fs::write(&pb, &i[b].data).expect("fixture");
            } else {
                let c = f.outer.join("between");
                std::fs::rename(&pa, &c).expect("fixture");
                std::fs::rename(&pb, &pa).expect("fixture");
                std::fs::rename(&c, &pb).expect("fixture");
            }
        }
    }
    cx.see("trees that change");
    Ok(())
}

fn reads(cx: &mut Cx) -> Res {
    reads_by(cx, None)
}

/// Something near these that may not be opened
fn closed(cx: &mut Cx, root: Option<&str>, args: &[V]) -> Option<PathBuf> {
    let mut r = Rng::new(cx.rng.u64());
    let f = the(cx);
    let paths: Vec<&str> = args.iter().filter_map(|a| if let V::Str(s) = a { Some(&s[..]) } else { None }).collect();
    if !paths.is_empty() && r.chance(1, 2) {
        let p = *r.pick(&paths);
        let at = root.map_or(PathBuf::from(p), |r| Path::new(r).join(p));
        // what is in it rather than the folder
        match std::fs::read_dir(&at) {
            Ok(d) if r.chance(3, 4) => {
                let mut l: Vec<PathBuf> = d.flatten().map(|e| e.path()).collect();
                l.sort();
                return if l.is_empty() { Some(at) } else { Some(r.pick(&l).clone()) };
            }
            _ => return Some(at),
        }
    }
    if f.items.is_empty() {
        return None;
    }
    let n = r.below(f.items.len());
    Some(f.root.join(&f.items[n].path))
}

fn reads_by(cx: &mut Cx, held: Option<&Held>) -> Res {
    let scratch = cx.scratch.clone();
    let name = *cx.rng.pick(READERS);
    let locked = held.map_or(cx.rng.chance(1, 2), |h| h.root.is_some());
    let abs = cx.rng.chance(1, 2);
    let args;
    let made;
    let root;
    if locked {
        root = Some(match held {
            Some(h) => h.root.clone().unwrap(),
            None => root_spelling(&mut cx.rng, &scratch),
        });
        args = reader_args(cx, name, &mut |r, f| inner(r, f));
        made = guard(|| BasicFuncs::new().with_folder_lock(root.clone().unwrap()))?;
    } else {
        root = None;
        args = reader_args(cx, name, &mut |r, f| {
            let p = match r.below(6) {
                0 => return r.pick(&["outer", "outer/other", "outer/lock2/a.txt", "missing", ""]).to_string(),
                1 => return r.pick(&["outer/other/i.bmp", "outer/lock/../other", "./outer/lock/sub/j.png"]).to_string(),
                _ => inner(r, f),
            };
            if abs {
                format!("{}/{}", f.root.display(), p)
            } else {
                format!("outer/lock/{}", p)
            }
        });
        made = guard(|| BasicFuncs::new().with_free_files())?;
    }
    let fm = held.map_or(&made, |h| &h.fm);
    let mut args = args;
    if !locked && name == "file_img_dimensions" && !args.is_empty() && cx.rng.chance(2, 3) {
        let p = *cx.rng.pick(&["i.bmp", "sub/j.png", "sp ace/k.png", "a.txt", "sub"]);
        args[0] = V::Str(format!("outer/lock/{}", p));
    }
    cx.input(format!("{} {} {:?}", name, show(&args), root));
    let closed = if cx.rng.chance(1, 6) { closed(cx, root.as_deref(), &args) } else { None };
    let (want, _) = without(closed.clone(), || expect(the(cx), root.as_deref(), name, &args));
    // (a link to a file is read as the file, a link is no file to scan_dir)
    let tmpl = cx.rng.chance(1, 6);
    let hard = matches!(name, "file" | "file_bytes");
    let bad = if closed.is_none() && cx.rng.chance(1, 4) { faults(&mut cx.rng, hard, 300) } else { None };
    let nowhere = scratch.join("nowhere");
    let ((o, refused), short, failed) =
        faulty(bad, || without(closed.clone(), || observed(fm, &nowhere, name, &args, tmpl)));
    let (got, ev) = o?;
    if refused > 0 {
        cx.input(format!("{} {} {:?} where {:?} may not be opened", name, show(&args), root, closed));
        cx.see("reads where something may not be opened");
    }
    if let Some(e) = ev.iter().find(|e| e.change) {
        return fail(format!("asked to change {:?} ({})", e.path, e.op));
    }
    if failed > 0 {
        cx.input(format!("{} {} {:?} with {:?}", name, show(&args), root, bad));
        ensure!(got.is_err(), "{} gave {}, though reading failed", name, show_r(&got));
        cx.see("reads that fail on the way");
        return Ok(());
    }
    compare(name, &want, &got)?;
    if short > 0 {
        cx.see("reads in steps");
    }
    cx.see(&format!("{} {}: {}", if locked { "locked" } else { "free" }, name, if got.is_ok() { "values" } else { "failures" }));
    cx.decided(format!("{} {} {:?}", name, show(&args), root).as_bytes());
    cx.sample(|| format!("{} {} -> {}", name, show(&args), show_r(&got)));
    Ok(())
}

fn loads(cx: &mut Cx) -> Res {
    let mut r = Rng::new(cx.rng.u64());
    let p = cx.scratch.join("t.ito");
    let src: Vec<u8> = match r.below(6) {
        0 => vec![b'a', 0xff],
        1 => b"{{if".to_vec(),
        2 => gen::text_of(&mut r, 30).into_bytes(),
        _ => {
            let prog = gen::program(&mut r, gen::Profile { size: 8, ..gen::PROFILE });
            model::print::print(&prog.main.body, &mut r, model::print::NOISY).into_bytes()
        }
    };
    let src = match r.below(10) {
        0 => ["\u{feff}".as_bytes(), &src].concat(),
        1 => [b"\r\n", &src[..], b"\r\n"].concat(),
        2 => [&src[..], b"\n"].concat(),
        _ => src,
    };
    let long = r.chance(1, 80);
    let src = if long {
        let most = if r.chance(1, 2) { 3_000_000 } else { 200_000 };
        let n = r.big(most);
        let t = gen::text_of(&mut r, 12).replace(['{', '\\'], ".") + "+";
        let t = t.repeat(n / t.len() + 1);
        if r.chance(1, 2) { [&src[..], t.as_bytes()].concat() } else { [t.as_bytes(), &src[..]].concat() }
    } else {
        src
    };
    let missing = r.chance(1, 8);
    let _ = std::fs::remove_file(&p);
    if !missing {
        std::fs::write(&p, &src).expect("file");
    }
    if long {
        cx.input(format!("load {} bytes: {:?}, missing: {}", src.len(), clip(&String::from_utf8_lossy(&src)), missing));
        cx.max("max bytes loaded", src.len() as u64);
        if !missing {
            // the same to the functions that read
            let fm = guard(|| BasicFuncs::new().with_folder_lock(cx.scratch.clone()))?;
            let want = std::str::from_utf8(&src).ok().map(|s| V::Str(s.to_string()));
            let got = call(&fm, "file", &[TData::String("t.ito".into())])?.ok().map(|v| val(&v));
            ensure!(want.is_some() == got.is_some() && got.iter().zip(&want).all(|(g, w)| identical(g, w)), "file gives something else for it");
            cx.see("long files read");
        }
    } else {
        cx.input(format!("load {:?}, missing: {}", String::from_utf8_lossy(&src), missing));
    }
    let bad = if r.chance(1, 3) { faults(&mut r, true, src.len() as u64) } else { None };
    let (got, _, failed) = faulty(bad, || guard(|| TreeTemplate::load(&p)));
    let got = got?;
    let want = match std::str::from_utf8(&src) {
        Ok(s) if !missing && failed == 0 => parse(s)?.ok(),
        _ => None,
    };
    if failed > 0 {
        cx.see("loads that fail on the way");
    }
    match (&want, &got) {
        (None, Err(_)) => {}
        (Some(w), Ok(g)) => {
            // (maps are shown in any order)
            let same = |t: &TreeTemplate| {
                let mut c: Vec<char> = format!("{:?}", t).chars().collect();
                c.sort();
                c
            };
            ensure!(same(w) == same(g), "loaded {}, expected {}", clip(&format!("{:?}", g)), clip(&format!("{:?}", w)))
        }
        (w, g) => return fail(format!("loaded {}, expected {}", clip(&format!("{:?}", g)), clip(&format!("{:?}", w)))),
    }
    cx.see(if want.is_some() { "templates loaded" } else { "templates that do not load" });
    cx.decided(&src);
    Ok(())
}

/// Everything below a folder
fn snapshot(p: &Path) -> BTreeMap<String, Option<Vec<u8>>> {
    fn go(p: &Path, base: &Path, o: &mut BTreeMap<String, Option<Vec<u8>>>) {
        for e in std::fs::read_dir(p).expect("snapshot") {
            let e = e.expect("snapshot");
            let rel = e.path().strip_prefix(base).unwrap().to_str().unwrap_or("?").to_string();
            let t = e.file_type().expect("snapshot");
            if t.is_dir() {
                o.insert(rel, None);
                go(&e.path(), base, o);
            } else if t.is_file() {
                o.insert(rel, Some(std::fs::read(e.path()).expect("snapshot")));
            } else {
                o.insert(rel, Some(b"link".to_vec()));
            }
        }
    }
    let mut o = BTreeMap::new();
    go(p, p, &mut o);
    o
}

type Tree = BTreeMap<String, Option<Vec<u8>>>;

/// What writing does to a tree. None: it fails. `p` is relative, without "." and "..".
fn model_write(t: &mut Tree, p: &[String], data: &[u8]) -> bool {
    if p.is_empty() {
        return false;
    }
    let mut at = String::new();
    for (i, c) in p.iter().enumerate() {
        if i > 0 {
            at.push('/');
        }
        at += c;
        if i + 1 < p.len() {
            match t.get(&at) {
                Some(Some(_)) => return false,
                Some(None) => {}
                None => {
                    t.insert(at.clone(), None);
                }
            }
        }
    }
    if let Some(None) = t.get(&at) {
        return false;
    }
    t.insert(at, Some(data.to_vec()));
    true
}

fn show_diff(a: &Tree, b: &Tree) -> String {
    let mut s = String::new();
    for (k, v) in b {
        if a.get(k) != Some(v) {
            s += &format!(" {:?} is {:?}, expected {:?};", k, v.as_ref().map(|v| String::from_utf8_lossy(v).to_string()), a.get(k).map(|v| v.as_ref().map(|v| String::from_utf8_lossy(v).to_string())));
        }
    }
    for k in a.keys() {
        if !b.contains_key(k) {
            s += &format!(" {:?} is not there;", k);
        }
    }
    s
}

fn content(r: &mut Rng) -> V {
    match r.below(5) {
        0 => V::Str(gen::text_of(r, 20)),
        1 => loop {
            let v = wild(r, 1);
            if v.has_display() {
                break v;
            }
        },
        2 => {
            let n = r.many(6_000, 1_000_000);
            V::Str(r.pick(&["x", "line\n", "\u{e9}", "\r\n"]).repeat(n / 2))
        }
        3 => V::Str(String::new()),
        _ => V::Str(gen::word(r)),
    }
}

const PARTS: &[&str] = &["%2e%2e", "%2f", "..\\w", "\u{ff0e}\u{ff0e}", ". .", ".. ", "$HOME", "a", "b", "c d", "\u{e9}", "x.txt", "_u", "..f", "...", "n", "m", "sp ", " sp", "t\t", "l\n", "~", "-f", "A", "%41", "a.", "*", "a\\b"];

fn fresh(cx: &mut Cx, name: &str) -> PathBuf {
    let d = cx.scratch.join(name);
    assert!(d.starts_with("/tmp"));
    let _ = std::fs::remove_dir_all(&d);
    std::fs::create_dir_all(&d).expect("folder");
    d
}

fn free_writes(cx: &mut Cx) -> Res {
    let base = fresh(cx, "free");
    let fm = guard(|| BasicFuncs::new().with_free_files())?;
    let mut used: Vec<Vec<String>> = vec![];
    let mut tree = Tree::new();
    let n = 1 + cx.rng.some(6);
    let mut log = String::new();
    for _ in 0..n {
        let r = &mut cx.rng;
        let p: Vec<String> = match used.is_empty() || r.chance(2, 3) {
            true => (0..1 + r.many(3, 40)).map(|_| r.pick(PARTS).to_string()).collect(),
            false => r.pick(&used).clone(),
        };
        used.push(p.clone());
        let path = format!("{}/{}", base.display(), p.join("/"));
        let path = if r.chance(1, 3) { format!("free/{}", p.join("/")) } else { path };
        let mut args = vec![V::Str(path)];
        let k = r.many(4, 60);
        for _ in 0..k {
            args.push(content(r));
        }
        let data: String = args[1..].iter().map(|v| v.to_string()).collect();
        log += &format!("write {}\n", show(&args));
        cx.input(log.clone());
        let ok = k > 0 && model_write(&mut tree, &p, data.as_bytes());
        let bad = if cx.rng.chance(1, 4) { faults(&mut cx.rng, true, data.len() as u64) } else { None };
        let (o, _, failed) = faulty(bad, || observed(&fm, &base, "write", &args, false));
        let (got, ev) = o?;
        if failed > 0 {
            // what became of the file itself is left open
            log += "(which fails on the way)\n";
            cx.input(log.clone());
            ensure!(got.is_err(), "write gave {}, though writing failed", show_r(&got));
            let now = snapshot(&base);
            let at = p.join("/");
            for (k, v) in &tree {
                ensure!(*k == at || now.get(k) == Some(v), "a write that failed changed {:?}", k);
            }
            tree = now;
            cx.see("free write: failures on the way");
            continue;
        }
        if let Some(e) = ev.iter().find(|e| e.refused) {
            return fail(format!("asked to change {:?}", e.path));
        }
        match &got {
            Ok(_) => ensure!(ok, "write gave {}, expected a failure", show_r(&got)),
            Err(e) => ensure!(!ok, "write failed: {}", e),
        }
        let now = snapshot(&base);
        ensure!(now == tree, "after it{}", show_diff(&tree, &now));
        cx.see(if ok { "free write: written" } else { "free write: failures" });
        // read back
        if ok {
            let (got, _) = observed(&fm, &base, "file", &args[..1], false)?;
            ensure!(got == Ok(V::Str(data.clone())), "read back {}", show_r(&got));
        }
    }
    cx.decided(log.as_bytes());
    Ok(())
}

/// ---- C20: writing within the lock ----

fn write_path(r: &mut Rng, lock: &Path) -> String {
    let p = plain_write_path(r, lock);
    if r.chance(1, 10) {
        let p = disguise(r, p);
        // (the name of a file has its limits, and they are not the matter here)
        if p.split('/').all(|x| x.len() < 250) {
            return p;
        }
        return "long".into();
    }
    p
}

fn plain_write_path(r: &mut Rng, lock: &Path) -> String {
    let any = |r: &mut Rng| -> String {
        let n = 1 + r.many(3, 40);
        let p: Vec<&str> = (0..n).map(|_| *r.pick(PARTS)).collect();
        join(r, &p).trim_end_matches('/').to_string()
    };
    let outer = lock.parent().unwrap();
    match r.below(12) {
        0..=4 => any(r),
        5 => {
            // around, inside
            let a = *r.pick(PARTS);
            format!("{}/../{}", a, any(r))
        }
        6 | 7 => {
            let down: Vec<&str> = (0..r.below(3)).map(|_| *r.pick(PARTS)).collect();
            let mut p = down.clone();
            p.extend(vec![".."; down.len() + 1 + r.below(2)]);
            let last = *r.pick(&["w", "kept.txt", "lock2/w", "lockw", "new/w", "lock/a", "..", ""]);
            p.push(last);
            join(r, &p)
        }
        8 => format!("{}/{}", lock.display(), any(r)),
        9 => format!("{}/{}", outer.display(), r.pick(&["w", "kept.txt", "lock2/w", "lockw", "new/deep/w"])),
        10 => format!("{}{}", lock.display(), r.pick(&["w", "2/w", "/../w", "/../lock2/w", "/a/../../kept.txt"])),
        _ => r.pick(&["", ".", "..", "/", "/mon-escaped", "./", "../", "a/", "a/.", "a/..", "//mon-escaped", "\0", "a\0b"]).to_string(),
    }
}

pub fn c20(cx: &mut Cx) -> Res {
    fix(cx)?;
    let base = fresh(cx, "wr");
    let exists = cx.rng.chance(3, 4);
    let lock = if exists || cx.rng.chance(1, 2) { base.join("lock") } else { base.join("up/lock") };
    put(&base.join("kept.txt"), b"kept");
    put(&base.join("lock2/kept.txt"), b"kept too");
    if exists {
        std::fs::create_dir(&lock).expect("lock");
    }
    let root = match cx.rng.below(5) {
        0 => lock.strip_prefix(&cx.scratch).unwrap().display().to_string(),
        1 => format!("{}/", lock.display()),
        2 if exists => format!("{}/wr/lock2/../lock", cx.scratch.display()),
        _ => lock.display().to_string(),
    };
    let fm = guard(|| BasicFuncs::new().with_defaults().with_write_lock(root.clone()).with_folder_lock(root.clone()))?;
    let mut log = format!("locked to {:?}, there: {}\n", root, exists);
    let n = 1 + cx.rng.some(6);
    let mut used: Vec<String> = vec![];
    for _ in 0..n {
        let path = match used.is_empty() || cx.rng.chance(2, 3) {
            true => write_path(&mut cx.rng, &lock),
            false => {
                // there again, or below or above
                let r = &mut cx.rng;
                let p = r.pick(&used).clone();
                match r.below(6) {
                    0 => format!("{}/{}", p, r.pick(PARTS)),
                    1 => p.rsplit_once('/').map_or(p.clone(), |x| x.0.to_string()),
                    2 => format!("./{}", p),
                    _ => p,
                }
            }
        };
        used.push(path.clone());
        let mut args = vec![V::Str(path.clone()), content(&mut cx.rng)];
        match cx.rng.below(12) {
            0 => {
                args.truncate(1);
            }
            1 => args.push(V::Str("more".into())),
            _ => {}
        }
        log += &format!("write {}\n", show(&args));
        cx.input(log.clone());
        let cl = class(&root, &path);
        let before = snapshot(&base);
        // a write inside may make the folders that lead to the lock; a write to the lock itself may not
        let named = Path::new(&path).strip_prefix(&root).unwrap_or(Path::new(&path)).components();
        let leads = cl == Class::In && args.len() > 1 && !lock.exists() && named.clone().any(|c| matches!(c, Component::Normal(_)));
        // (changes outside of the lock are seen, and not done)
        let tmpl = cx.rng.chance(1, 4);
        let bad = if cx.rng.chance(1, 4) {
            let n = args.get(1).map_or(0, |v| v.to_string().len());
            faults(&mut cx.rng, true, n as u64)
        } else {
            None
        };
        let (o, _, failed) = faulty(bad, || observed(&fm, if leads { &base } else { &lock }, "write", &args, tmpl));
        let (got, ev) = o?;
        for e in ev.iter().filter(|e| e.change) {
            let way = e.op == "mkdir" && lock.starts_with(&e.path);
            if e.refused || !(e.path.starts_with(&lock) || way) {
                return fail(format!("asked to change {:?} ({}), outside of {:?}", e.path, e.op, lock));
            }
        }
        if let Some(e) = ev.iter().find(|e| matches!(e.op, "fork" | "exec" | "spawn" | "socket" | "setenv" | "chdir")) {
            return fail(format!("asked the system for {} {:?}", e.op, e.path));
        }
        let now = snapshot(&base);
        // nothing but the lock, and the folders that lead to it, is new or different
        let lrel = lock.strip_prefix(&base).unwrap().to_path_buf();
        for k in before.keys().chain(now.keys()) {
            let inside = Path::new(k).starts_with(&lrel);
            let above = lrel.starts_with(k) && leads;
            if !inside && !above && before.get(k) != now.get(k) {
                return fail(format!("{:?} outside of the lock is {:?}, it was {:?}", k, now.get(k), before.get(k)));
            }
        }
        match cl {
            Class::Out => {
                ensure!(got.is_err(), "a write outside gave {}", show_r(&got));
                ensure!(now == before, "a write outside changed{}", show_diff(&before, &now));
                cx.see("writes outside refused");
            }
            Class::Open => {
                cx.see("writes left open");
                continue;
            }
            Class::In if failed > 0 => {
                // it is told, and what became of the file itself is left open
                log += "(which fails on the way)\n";
                cx.input(log.clone());
                ensure!(got.is_err(), "write gave {}, though writing failed", show_r(&got));
                let at = lexical(&Path::new(&root).join(&path));
                for (k, v) in &before {
                    ensure!(now.get(k) == Some(v) || base.join(k) == at, "a write that failed changed {:?}", k);
                }
                cx.see("writes that fail on the way");
            }
            Class::In if args.len() < 2 => {
                ensure!(got.is_err() && now == before, "a write of nothing gave {}", show_r(&got));
            }
            Class::In => {
                let rel = if Path::new(&path).is_absolute() {
                    Path::new(&path).strip_prefix(&root).unwrap().to_path_buf()
                } else {
                    PathBuf::from(&path)
                };
                let plain = rel.components().all(|c| matches!(c, Component::Normal(_)))
                    && !path.ends_with('/')
                    && !path.ends_with("/.")
                    && !path.contains('\0')
                    && rel.components().count() > 0;
                let data = args[1].to_string();
                if plain {
                    let mut full: Vec<String> =
                        lrel.components().map(|c| c.as_os_str().to_str().unwrap().to_string()).collect();
                    full.extend(rel.components().map(|c| c.as_os_str().to_str().unwrap().to_string()));
                    let mut want = before.clone();
                    let ok = model_write(&mut want, &full, data.as_bytes());
                    match (&got, ok) {
                        (Ok(_), true) | (Err(_), false) => {}
                        _ => return fail(format!("write gave {}, expected success: {}", show_r(&got), ok)),
                    }
                    if ok {
                        ensure!(now == want, "after it{}", show_diff(&want, &now));
                        cx.see("writes inside done");
                        cx.add("bytes written", data.len() as u64);
                        let (back, _) = observed(&fm, &lock, "file", &args[..1], false)?;
                        ensure!(back == Ok(V::Str(data)), "read back {}", show_r(&back));
                    } else {
                        // no file is different
                        for (k, v) in &before {
                            ensure!(now.get(k) == Some(v), "a write that failed changed {:?}", k);
                        }
                        cx.see("writes inside that cannot be");
                    }
                } else {
                    // a way around: if it was written, then there
                    if got.is_ok() {
                        let p = std::fs::read(Path::new(&root).join(&path)).ok();
                        ensure!(p.as_deref() == Some(data.as_bytes()), "not there after it");
                        cx.see("writes inside done, by a way around");
                    } else {
                        for (k, v) in &before {
                            ensure!(now.get(k) == Some(v), "a write that failed changed {:?}", k);
                        }
                        cx.see("writes inside that cannot be");
                    }
                }
            }
        }
    }
    cx.decided(log.as_bytes());
    cx.sample(|| log.clone());
    Ok(())
}
