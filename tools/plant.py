#!/usr/bin/env python3
"""plant.py LANE [id...]: makes and confirms planted bugs (tools/plants_*.py) in private copy LANE of the sandbox.
A plant is kept in /verif/seeded/<id> once it compiles, passes the 81 stable tests, and its demonstration
fails with it and passes without it. plant.py LANE --check id...: also runs the property's check on it."""
import glob, json, os, re, subprocess, sys, shutil

PRELUDE = '''#![allow(unused, clippy::all)]
#[macro_use]
extern crate aegir;
use aegir::buffers::{self, shapes::{self, *}, *};
use aegir::ids::*;
use aegir::meta::*;
use aegir::ops::{self, special, *};
use aegir::*;
use aegir::{Add as _, Mul as _};

'''
PRELUDE = PRELUDE.replace("use aegir::{Add as _, Mul as _};\n", "")
SH = '''#!/bin/bash
# exits 0 when the behaviour shown in demo.rs is right
here="$(cd "$(dirname "$0")" && pwd)"
export HOME=/root RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true RUSTC_WRAPPER= CARGO_TERM_COLOR=never
work=/tmp/demo-%(id)s
rm -rf /tmp/demo-%(id)s
trap 'cd / && rm -rf /tmp/demo-%(id)s' EXIT
mkdir -p "$work/src" || exit 3
cp "$here/demo.rs" "$work/src/main.rs"
cp /repo/Cargo.lock "$work/Cargo.lock" 2>/dev/null
cat > "$work/Cargo.toml" <<'T'
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
aegir = { path = "/repo/aegir" }
paste = "1"
num-traits = "0.2"
T
cd "$work" && CARGO_TARGET_DIR="$work/target" timeout 250 cargo build --quiet --offline 2>"$work/log" || { tail -30 "$work/log"; exit %(buildfail)d; }
timeout 30 "$work/target/debug/demo"
'''

def load():
    P = {}
    def plant(id, prop, file, old, new, needs, what, demo, nth=0, count=None, more=(), prelude=True, buildfail=1):
        assert id not in P, id
        P[id] = dict(id=id, prop=prop, edits=[(file, old, new, nth, count)] + [tuple(m) + (0, None) if len(m) == 3 else tuple(m) for m in more], needs=needs, what=what, demo=demo, prelude=prelude, buildfail=buildfail)
    for f in sorted(glob.glob(os.path.join(os.path.dirname(__file__), "plants_*.py"))):
        exec(compile(open(f).read(), f, "exec"), {"plant": plant})
    return P

def sh(cmd, **k): return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)

def lane(n, script, timeout=1500):
    return subprocess.run(["/verif/tools/lane.sh", n, "bash", "-c", script], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)

def main():
    n = sys.argv[1]; args = sys.argv[2:]
    check = "--check" in args; args = [a for a in args if a != "--check"]
    P = load()
    ids = args or [i for i in P if not os.path.exists(f"/verif/seeded/{i}/patch.diff")]
    if args and args[0].startswith("part:"):
        k, m = map(int, args[0][5:].split("/")); ids = [i for i in P if not os.path.exists(f"/verif/seeded/{i}/patch.diff")][k::m]
    L = f"/tmp/mt/L{n}"
    subprocess.run(["/verif/tools/lane.sh", n, "--reset"])
    for i in ids:
        p = P[i]
        sh(f"git -C {L}/repo checkout -q -- .")
        bad = None
        for file, old, new, nth, count in p["edits"]:
            f = f"{L}/repo/{file}"; s = open(f).read()
            c = s.count(old)
            if c == 0 or (count is None and nth == 0 and c != 1): bad = f"{file}: {c} matches"; break
            pos = -1
            for _ in range(nth + 1): pos = s.index(old, pos + 1)
            open(f, "w").write(s[:pos] + new + s[pos + len(old):])
        if bad: print(f"{i}: EDIT {bad}"); continue
        diff = sh(f"git -C {L}/repo diff").stdout
        d = f"/tmp/mt/P{n}/{i}"; sh(f"mkdir -p {d}")
        open(f"{d}/demo.rs", "w").write((PRELUDE if p["prelude"] else "") + p["demo"].strip("\n") + "\n")
        open(f"{d}/demo.sh", "w").write(SH % p)
        open(f"{d}/patch.diff", "w").write(diff)
        json.dump(dict(property=p["prop"], needs=p["needs"], what_it_breaks=p["what"]), open(f"{d}/meta.json", "w"), indent=1, ensure_ascii=False)
        r = lane(n, "bash /opt/vp/build.sh")
        if r.returncode: print(f"{i}: BUILD fails\n" + "\n".join(l for l in r.stdout.splitlines() if "error" in l or "-->" in l)[:1500]); continue
        r = lane(n, f"bash /opt/vp/test.sh {L}/out.json")
        o = json.load(open(f"{L}/out.json")); base = json.load(open("/opt/vp/BASELINE.json"))
        if o["failed"] or len(o["passed"]) < 81: print(f"{i}: TESTS fail {o['failed']}"); continue
        r1 = lane(n, f"bash {d}/demo.sh")
        out = ""
        if r1.returncode == 0: print(f"{i}: DEMO passes with the patch"); ok = False
        else: ok = True
        if check:
            r = lane(n, f"cd /verif && timeout 850 ./run.sh {p['prop']}; echo rc=$?")
            v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION") or l.startswith("rc=")]
            out = " ".join(v)
            det = [l for l in r.stdout.splitlines() if l.startswith(p['prop'] + " [")]
            out += " | " + " ".join(det)[:300]
            if "rc=1" not in out: out += "   <<<<<< MISSED " + "\n".join(r.stdout.splitlines()[-12:])
        sh(f"git -C {L}/repo checkout -q -- .")
        r0 = lane(n, f"bash {d}/demo.sh")
        if r0.returncode: print(f"{i}: DEMO fails without the patch\n{r0.stdout[-1500:]}"); continue
        if not ok: print(f"   {out}"); continue
        sh(f"mkdir -p /verif/seeded/{i} && cp {d}/demo.rs {d}/demo.sh {d}/patch.diff {d}/meta.json /verif/seeded/{i}/")
        print(f"{i}: kept; demo with patch: {r1.stdout.strip()[-160:]!r} {out}", flush=True)

main()
