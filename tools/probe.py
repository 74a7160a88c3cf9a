#!/usr/bin/env python3
"""probe.py LANE SPECS.py [K/M] [id…]: quick look at whether hand-written faults are caught. SPECS.py calls
probe(id, "C01 C04", file, old, new, nth=0); each is applied in a lane, built, tested, and given to its checks."""
import json, subprocess, sys
LANE = sys.argv[1]; SPECS = sys.argv[2]; rest = sys.argv[3:]
K_, M_ = 0, 1; ids = []
for a in rest:
    if "/" in a: K_, M_ = map(int, a.split("/"))
    else: ids.append(a)
L = f"/tmp/mt/L{LANE}"; P = []
def probe(id, props, file, old, new, nth=0): P.append((id, props.split(), file, old, new, nth))
exec(open(SPECS).read())
def lane(script, timeout):
    try:
        r = subprocess.run(["/verif/tools/lane.sh", LANE, "bash", "-c", script], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired: return 124, ""
subprocess.run(["/verif/tools/lane.sh", LANE, "--reset"])
for (id, props, file, old, new, nth) in [p for p in P if not ids or p[0] in ids][K_::M_]:
    src = open(f"/repo/{file}").read()
    parts = src.split(old)
    if len(parts) <= nth + 1: print(f"{id}: NO SITE", flush=True); continue
    out = old.join(parts[:nth + 1]) + new + old.join(parts[nth + 1:])
    p = f"{L}/repo/{file}"
    open(p, "w").write(out)
    try:
        rc, o = lane("export HOME=/root RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true; cargo check --quiet --offline 2>&1 | grep -m3 -A5 -E '^error'", 300)
        if o.strip(): print(f"{id}: NOCOMPILE {o[:600]}", flush=True); continue
        lane(f"bash /opt/vp/build.sh >/dev/null 2>&1 && timeout 200 bash /opt/vp/test.sh {L}/out.json", 400)
        try: t = json.load(open(f"{L}/out.json"))
        except Exception: t = {"failed": ["?"], "passed": []}
        bad = t["failed"]
        res = []
        for c in props:
            rc, o = lane(f"cd /verif && timeout 850 ./run.sh {c}", 900)
            res.append(f"{c}:{rc}" + ("" if rc != 2 else " " + o[-300:]))
        print(f"{id}: tests-failed={len(bad)} {' '.join(res)}" + ("" if any(':1' in r for r in res) else "   <<<<< MISSED"), flush=True)
    finally:
        open(p, "w").write(src)
