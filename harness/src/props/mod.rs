use crate::core::*;
use templito::func_man::FuncManager;
pub mod again;
pub mod data;
pub mod files;
pub mod host;
pub mod parse;
pub mod progs;
pub mod scale;
pub mod text;
pub mod util;
pub mod soup;

pub const NONE: Prop = Prop {
    id: "",
    run: |_| Ok(()),
    quick: 0,
    thorough: 0,
    need: &[],
    rule: "",
    assumptions: &[],
    workers: 0,
    drop: false,
    deadlock: false,
};

pub static ALL: &[Prop] = &[
    Prop { id: "C01", run: parse::c01, quick: 225_000, thorough: 2_000_000,
        need: &[("accepted", 1000), ("refused", 1000), ("deep nesting", 500)],
        rule: "a text counts once; it is decided when all of its readers gave a value or an error, twice the same",
        ..NONE },
    Prop { id: "C02", run: parse::c02, quick: 450_000, thorough: 6_000_000,
        need: &[("calls that gave a value", 5000), ("calls that failed", 5000), ("templates that rendered", 1000)],
        rule: "a call or a program counts once by its text and arguments; decided when it ended without a panic, twice the same",
        ..NONE },
    Prop { id: "C03", run: parse::c03, quick: 1_500_000, thorough: 6_000_000,
        need: &[("tags", 10000), ("whitespace trimmed", 1000)],
        rule: "a template counts once; decided when its output is the one its pieces make",
        ..NONE },
    Prop { id: "C26", run: parse::c26, quick: 1_500_000, thorough: 6_000_000,
        need: &[("integers", 1000), ("floats", 1000), ("dates", 1000), ("strings", 1000), ("literals refused", 1000), ("names that are nearly literals", 1000)],
        rule: "a literal counts once by its text; decided when the value is the one it was written from",
        ..NONE },
    Prop { id: "C04", run: |cx| scale::or(cx, 150, scale::c04, progs::c04), quick: 150_000, thorough: 2_000_000,
        need: &[("for-list", 1000), ("if-true", 1000), ("if-false", 1000), ("case-later", 500), ("tags that do not nest", 300), ("tags that nest", 300), ("closing tags that are nearly right refused", 20)],
        rule: "a program counts once by its text; decided when output, failure and calls of host functions are those of the reference",
        ..NONE },
    Prop { id: "C05", run: |cx| scale::or(cx, 150, scale::c05, progs::c05), quick: 150_000, thorough: 2_000_000,
        need: &[("host calls compared", 20000), ("host-error", 1000), ("first-skip-error", 1000), ("select", 1000)],
        rule: "a program counts once by its text; decided when every call of a host function, with its arguments, is in the place the reference has it",
        ..NONE },
    Prop { id: "C06", run: |cx| scale::or(cx, 150, scale::c06, progs::c06), quick: 150_000, thorough: 2_000_000,
        need: &[("let-shadow", 1000), ("var-outer", 5000), ("as-none", 500), ("runs that fail", 1000)],
        rule: "a program counts once by its text; decided as for C04",
        ..NONE },
    Prop { id: "C07", run: |cx| scale::or(cx, 150, scale::c07, progs::c07), quick: 150_000, thorough: 2_000_000,
        need: &[("call-template", 5000), ("return", 1000), ("run", 1000), ("global", 1000)],
        rule: "a program counts once by its text; decided as for C04, and by its exports",
        ..NONE },
    Prop { id: "C08", run: |cx| scale::or(cx, 150, scale::c08, progs::c08), quick: 150_000, thorough: 2_000_000,
        need: &[("exports compared", 5000), ("front matter entries", 3000), ("front-error", 1000)],
        rule: "a program counts once by its text; decided when its exports and its front matter are those of the reference",
        ..NONE },
    Prop { id: "C09", run: |cx| scale::or(cx, 200, scale::c09, progs::c09), quick: 200_000, thorough: 2_000_000,
        need: &[("pattern cases", 5000), ("pat-list", 500), ("pat-map", 500), ("pat-filter", 500), ("switch-none", 200)],
        rule: "a program counts once by its text; decided as for C04",
        ..NONE },
    Prop { id: "C11", run: |cx| scale::or(cx, 1000, scale::c11, data::c11), quick: 450_000, thorough: 2_000_000,
        need: &[("equal pairs", 5000), ("unequal pairs", 5000), ("triples in order", 10000)],
        rule: "a pair counts once; decided when equality and order are those of the reference, and consistent among triples",
        ..NONE },
    Prop { id: "C12", run: data::c12, quick: 600_000, thorough: 2_000_000,
        need: &[("sort_on: lists", 1000), ("sort: lists", 1000), ("bin_search: found", 500), ("bin_search: not found", 300)],
        rule: "a list with its criteria counts once; decided when what comes back is in order, a permutation, and stable",
        ..NONE },
    Prop { id: "C13", run: |cx| scale::or(cx, 2000, scale::c13, data::c13), quick: 2_000_000, thorough: 4_000_000,
        need: &[("slice: values", 300), ("slice: failures", 300), ("get: values", 500), ("groups joined again", 500)],
        rule: "a call counts once by its arguments; decided when the value, or the failure, is that of the reference",
        ..NONE },
    Prop { id: "C14", run: |cx| scale::or(cx, 2000, scale::c14, data::c14), quick: 2_000_000, thorough: 4_000_000,
        need: &[("exact integer results", 3000), ("add: failures", 100), ("mul: failures", 100)],
        rule: "a call counts once by its arguments; decided when it is exact, or fails where it has to",
        ..NONE },
    Prop { id: "C30", run: |cx| scale::or(cx, 1000, scale::c30, data::c30), quick: 750_000, thorough: 2_000_000,
        need: &[("truth compared", 2000), ("first", 1000), ("select", 1000)],
        rule: "a call or program counts once; decided when the value and the calls are those of the reference",
        ..NONE },
    Prop { id: "C31", run: data::c31, quick: 300_000, thorough: 400_000,
        need: &[("numbers drawn", 20000), ("ranges refused", 200), ("small ranges reached in full", 200), ("large ranges reached in each quarter", 200)],
        rule: "a range counts once; decided when all that was drawn is in it",
        ..NONE },
    Prop { id: "C15", run: text::c15, quick: 1_000_000, thorough: 2000000,
        need: &[("json round trips", 3000), ("json read", 2000), ("json refused", 1000)],
        rule: "a value or a text counts once; decided when both readers have the same",
        ..NONE },
    Prop { id: "C16", run: |cx| scale::or(cx, 1500, scale::c16, text::c16), quick: 1_000_000, thorough: 2000000,
        need: &[("characters escaped", 10000), ("escaped within a page", 500)],
        rule: "a text counts once; decided when it is safe, and gives itself back",
        ..NONE },
    Prop { id: "C17", run: |cx| scale::or(cx, 2500, scale::c17, text::c17), quick: 2_000_000, thorough: 4000000,
        need: &[("regex: matches", 500), ("split what was joined", 500), ("base64 round trips", 500)],
        rule: "a call counts once by its arguments; decided when the value, or the failure, is that of the reference",
        ..NONE },
    Prop { id: "C18", run: text::c18, quick: 1_000_000, thorough: 2000000,
        need: &[("lines", 20000), ("words kept whole", 10000), ("lines that are full", 10000)],
        rule: "a text with its width counts once; decided by its lines",
        ..NONE },
    Prop { id: "C28", run: text::c28, quick: 1_000_000, thorough: 2000000,
        need: &[("rows", 5000), ("continued rows", 1000), ("head rows", 1000)],
        rule: "a table counts once by its text; decided when its rows and cells are those written",
        ..NONE },
    Prop { id: "C29", run: text::c29, quick: 1_200_000, thorough: 1500000,
        need: &[("parent", 2000), ("hostile paths", 1000)],
        rule: "a path counts once; decided by each of its functions",
        ..NONE },
    Prop { id: "C32", run: text::c32, quick: 625_000, thorough: 2000000,
        need: &[("items kept", 1000), ("items dropped for a failure", 1000)],
        rule: "a list with its expression counts once; decided when the items kept are those of the reference",
        ..NONE },
    Prop { id: "C33", run: text::c33, quick: 800_000, thorough: 1000000,
        need: &[("markdown rendered", 2000)],
        rule: "a text counts once; decided when it is rendered as by the library",
        ..NONE },
    Prop { id: "C34", run: text::c34, quick: 1_200_000, thorough: 2000000,
        need: &[("xy: values", 300), ("font: values", 300)],
        rule: "a call counts once by its arguments; decided when the attributes are those of the reference",
        ..NONE },
    Prop { id: "C35", run: text::c35, quick: 500_000, thorough: 1000000,
        need: &[("cards read", 2000), ("cards refused", 300), ("cards as parameters", 2000)],
        rule: "a text counts once; decided when its cards are those of the library, and those written",
        ..NONE },
    Prop { id: "C10", run: host::c10, quick: 60_000, thorough: 2_000_000,
        need: &[("runs compared", 5000), ("runs in threads compared", 1000), ("runs that share a manager", 1000), ("answers in several orders compared", 5000), ("calls in threads at once compared", 10000)],
        rule: "a program counts once by its text; decided when all of its runs are the same, and nothing else changed",
        ..NONE },
    Prop { id: "C19", run: files::c19, quick: 1_000_000, thorough: 2_000_000,
        need: &[("paths inside", 3000), ("paths outside", 2000), ("requests to the system watched", 3000)],
        rule: "a call counts once by its arguments and the lock; decided when no request to the system left the lock, and the result is that of the tree",
        ..NONE },
    Prop { id: "C20", run: files::c20, quick: 30_000, thorough: 400_000, drop: true,
        need: &[("writes inside done", 500), ("writes outside refused", 500)],
        rule: "a history of writes counts once; decided when the whole tree is as expected after each",
        ..NONE },
    Prop { id: "C21", run: files::c21, quick: 150_000, thorough: 1_500_000,
        need: &[("free file: values", 50), ("locked file: values", 50), ("free write: written", 200)],
        rule: "a call counts once by its arguments; decided when the value is that of the tree",
        ..NONE },
    Prop { id: "C22", run: host::c22, quick: 500_000, thorough: 2_000_000,
        need: &[("requests denied", 1000), ("calls of default functions watched", 1000), ("programs watched", 500)],
        rule: "a call or program counts once; decided when no request to the system was made",
        ..NONE },
    Prop { id: "C23", run: host::c23, quick: 100_000, thorough: 300_000, deadlock: true,
        need: &[("exec: output compared", 200), ("exec_stdin: output compared", 200), ("looked for what is left behind", 500), ("max bytes of input", 200000)],
        rule: "a command with its input counts once; decided by what the child reports and gives",
        ..NONE },
    Prop { id: "C24", run: host::c24, quick: 1_000_000, thorough: 2_000_000,
        need: &[("paths in templates", 10000), ("json: values", 1000), ("toml: values", 1000), ("card: values", 500)],
        rule: "data with its paths counts once; decided when each path leads to what the data holds",
        ..NONE },
    Prop { id: "C25", run: host::c25, quick: 300_000, thorough: 1_000_000,
        need: &[("functions called", 500), ("functions over templates", 300), ("templates called", 500), ("names of nothing", 500)],
        rule: "a history of additions counts once; decided by each of the calls after it",
        ..NONE },
    Prop { id: "C27", run: |cx| scale::or(cx, 150, scale::c27, progs::c27), quick: 150_000, thorough: 2_000_000,
        need: &[("block", 5000), ("@export", 1000), ("@let", 1000)],
        rule: "a program counts once by its text; decided as for C07",
        ..NONE },
];

/// What is known to fail: each is one input, run in a process of its own
const PROBES: &[(&str, &str, &str)] = &[
    ("C01", "deep-brackets", "parsing {{ and 200000 times ( overflows the stack"),
    ("C01", "deep-lists", "parsing {{ and 200000 times [ overflows the stack"),
    ("C01", "deep-maps", "parsing {{ and 200000 times {a: overflows the stack"),
    ("C01", "deep-blocks", "parsing 200000 times {{if true}} overflows the stack"),
    ("C01", "deep-patterns", "parsing {{as 1 and 200000 times [ overflows the stack"),
    ("C26", "deep-data", "reading 200000 times [ as data overflows the stack"),
    ("C15", "deep-json", "r_json of 200000 times [ overflows the stack"),
    ("C07", "endless-recursion", "a template that uses itself without end overflows the stack"),
];

/// checks of known findings, and of what needs a process of its own
pub fn extra(id: &str, o: &mut Outcome) {
    let file = std::fs::read_to_string(root_dir().join("known-findings.txt")).unwrap_or_default();
    for (_, key, what) in PROBES.iter().filter(|p| p.0 == id) {
        let exe = std::env::current_exe().expect("exe");
        let mut c = std::process::Command::new(exe)
            .args(["deep", key])
            .env("RUST_BACKTRACE", "0")
            .stdin(std::process::Stdio::null())
            .stdout(std::process::Stdio::null())
            .stderr(std::process::Stdio::null())
            .spawn()
            .expect("probe");
        let begin = std::time::Instant::now();
        let end = loop {
            match c.try_wait().expect("probe") {
                Some(s) => break s.success().then_some(()).ok_or(format!("{}", s)),
                None if begin.elapsed().as_secs() > 120 => {
                    let _ = c.kill();
                    let _ = c.wait();
                    break Err("it does not end".into());
                }
                None => std::thread::sleep(std::time::Duration::from_millis(10)),
            }
        };
        o.add("inputs of known findings run", 1);
        if let Err(e) = end {
            let known = file.lines().any(|l| l.starts_with(&format!("finding: property={} input={} ", id, key)));
            if known && e.starts_with("signal: 6") {
                println!("KNOWN-FINDING: property={} {} ({})", id, what, key);
                o.add("known findings that still fail", 1);
            } else {
                o.violations.push((0, format!("{}: {} ({})", key, what, e), format!("mon deep {}", key)));
            }
        }
    }
}

/// On the stack that the main thread of a program has
pub fn deep(what: &str) -> i32 {
    use std::str::FromStr;
    use templito::prelude::*;
    unsafe {
        let lim = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &lim);
    }
    let n = 200_000;
    let th = std::thread::Builder::new().stack_size(8 << 20);
    let what = what.to_string();
    let th = th.spawn(move || {
        let fm = BasicFuncs::new().with_defaults();
        let parse = |s: String| {
            let _ = TreeTemplate::from_str(&s);
        };
        match what.as_str() {
            "deep-brackets" => parse(format!("{{{{{}", "(".repeat(n))),
            "deep-lists" => parse(format!("{{{{{}", "[".repeat(n))),
            "deep-maps" => parse(format!("{{{{{}", "{a:".repeat(n))),
            "deep-blocks" => parse("{{if true}}".repeat(n)),
            "deep-patterns" => parse(format!("{{{{as 1 {}", "[".repeat(n))),
            "deep-data" => {
                let _ = TData::from_str(&"[".repeat(n));
            }
            "deep-json" => {
                let _ = fm.get_func("r_json").expect("r_json")(&[std::borrow::Cow::Owned(TData::String("[".repeat(n)))]);
            }
            "endless-recursion" => {
                let t = TreeTemplate::from_str("{{global a}}{{a}}{{/global}}{{a}}").expect("parses");
                let _ = t.run(&[], &mut BasicTemps::new(), &fm);
            }
            _ => std::process::exit(2),
        }
    });
    let _ = th.expect("thread").join();
    0
}
