#!/usr/bin/env python3
"""Makes planted bugs from a file of them: plant.py SPECS [ID...]. Each is tried in a scratch copy of /repo (it applies, builds,
passes the tests, and its demonstration fails with it and passes without it), and then against the check of its property."""
import json, os, shutil, subprocess, sys, runpy
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCR = os.environ.get("PLANT_SCRATCH", "/tmp/plant")
BASE = "52e254a"
PRE = '''#![allow(unused)]
use std::collections::HashMap;
use std::str::FromStr;
use templito::func_man::{default_func_man, BasicFuncs, FuncAdder, FuncManager};
use templito::prelude::*;
use templito::temp_man::{BasicTemps, NoTemplates, TempManager};
use templito::*;

fn run_with<F: FuncManager>(t: &str, ps: &[&dyn TParam], fm: &F) -> Result<String, String> {
    let tt = TreeTemplate::from_str(t).map_err(|e| format!("parse: {}", e))?;
    tt.run(ps, &mut BasicTemps::new(), fm).map_err(|e| format!("run: {}", e))
}
fn run(t: &str) -> Result<String, String> {
    run_with(t, &[], &default_func_man())
}
fn ok(t: &str, want: &str) {
    assert_eq!(run(t).as_deref(), Ok(want), "{}", t);
}

'''
def sh(c, cwd=None, env=None, t=900):
    e = dict(os.environ); e.update(env or {})
    p = subprocess.run(c, shell=isinstance(c, str), cwd=cwd, env=e, capture_output=True, text=True, timeout=t)
    return p.returncode, p.stdout + p.stderr

def copy():
    os.makedirs(SCR, exist_ok=True)
    sh(f"rsync -a --delete --exclude target --exclude .git --exclude evidence --exclude seeded {ROOT}/ {SCR}/now/")  # as it is now
    subprocess.run(f"rm -rf {SCR}/repo && mkdir {SCR}/repo && cd /repo && git ls-files -z | xargs -0 cp --parents -t {SCR}/repo && cp Cargo.lock {SCR}/repo/ && cp -a .git {SCR}/repo/", shell=True, check=True)

def original(repo, patch):
    """does the patch change a line of the original repository?"""
    f = None; n = 0
    for l in patch.splitlines():
        if l.startswith("--- a/"): f = l[6:]
        elif l.startswith("@@"): n = int(l.split()[1].split(",")[0][1:])
        elif l.startswith("-") and not l.startswith("---"):
            rc, o = sh(["git", "blame", "-s", f"-L{n},{n}", "HEAD", "--", f], cwd=repo)
            c = o.split()[0].lstrip("^")
            if sh(["git", "merge-base", "--is-ancestor", c, BASE], cwd=repo)[0] == 0: return True
            n += 1
        elif l.startswith(" "): n += 1
    return False

def one(s):
    repo = f"{SCR}/repo"
    d = f"{ROOT}/seeded/{s['id']}"
    sh("git checkout -q -- .", cwd=repo)
    for f, a, b in s["edits"]:
        p = f"{repo}/src/{f}"; t = open(p).read()
        k = s.get("nth", {}).get(f)
        if t.count(a) != 1 and k is None: return f"{t.count(a)} times in {f}: {a!r}"
        if k is None: t = t.replace(a, b)
        else:
            i = -1
            for _ in range(k + 1): i = t.index(a, i + 1)
            t = t[:i] + b + t[i + len(a):]
        open(p, "w").write(t)
    _, patch = sh("git diff", cwd=repo)
    counts = original(repo, patch)
    if not counts: d = f"{SCR}/extra/{s['id']}"  # tried as the others, but not kept
    if os.path.exists(d): shutil.rmtree(d)
    os.makedirs(d)
    open(f"{d}/patch.diff", "w").write(patch)
    open(f"{d}/demo.rs", "w").write(PRE + s["demo"].strip() + "\n")
    shutil.copy(f"{ROOT}/meta/demo.sh", f"{d}/demo.sh"); os.chmod(f"{d}/demo.sh", 0o755)
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(f"{d}/meta.json", "w"), indent=1)
    tg = {"CARGO_TARGET_DIR": f"{SCR}/target"}; dm = {"DEMO_TARGET": f"{SCR}/demo"}
    rc, o = sh("cargo test --offline --no-fail-fast -- --test-threads 8", cwd=repo, env=tg)
    if rc: shutil.rmtree(d); return "tests fail:\n" + "\n".join([l for l in o.splitlines() if "error" in l or "FAILED" in l or "panicked" in l])[:600]
    rc1, o1 = sh(["bash", f"{d}/demo.sh"], cwd=repo, env=dm)
    sh("git checkout -q -- .", cwd=repo)
    rc0, o0 = sh(["bash", f"{d}/demo.sh"], cwd=repo, env=dm)
    if rc1 in (0, 3) or rc0: 
        shutil.rmtree(d); return f"demo: {rc1} with, {rc0} without\n" + (o1[:600] + o0[:600])
    return None if counts else f"changes no original line; {check(d)}"

def check(i, prop=None, tier="quick", seed="1"):
    """the check against a seeded change, in copies of both repositories"""
    d = i if i[0] == "/" else f"{ROOT}/seeded/{i}"; repo = f"{SCR}/repo"; ver = f"{SCR}/verif"
    prop = prop or json.load(open(f"{d}/meta.json"))["property"]
    sh("git checkout -q -- .", cwd=repo)
    os.makedirs(ver, exist_ok=True)
    sh(f"rsync -a --delete --exclude target --exclude .git --exclude evidence --exclude seeded {SCR}/now/ {ver}/ && mkdir -p {ver}/evidence && "
       f"sed -i 's#/repo#{repo}#g' {ver}/check.sh {ver}/harness/Cargo.toml {ver}/harness/src/core.rs")
    rc, o = sh(["git", "apply", f"{d}/patch.diff"], cwd=repo)
    if rc: return f"does not apply: {o}"
    try: rc, o = sh([f"{ver}/check.sh", prop, tier], cwd=ver, env={"VERIF_SEED": seed, "VERIF_TIER": tier})
    finally: sh("git checkout -q -- .", cwd=repo)
    v = [l for l in o.splitlines() if l.startswith("VIOLATION")]
    return "caught" if rc == 1 and v and f"property={prop}" in v[0] else f"MISSED rc={rc}\n{o[-400:]}"

if __name__ == "__main__":
    if sys.argv[1] == "check":
        copy()
        for i in sys.argv[2:] or sorted(os.listdir(f"{ROOT}/seeded")): print(i, check(i), flush=True)
        sys.exit()
    specs = runpy.run_path(sys.argv[1])["B"]
    copy()
    for s in specs:
        if len(sys.argv) > 2 and s["id"] not in sys.argv[2:]: continue
        e = one(s)
        print(s["id"], "NOT KEPT: " + e if e else "kept, " + check(s["id"]), flush=True)
