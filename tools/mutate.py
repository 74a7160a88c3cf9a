#!/usr/bin/env python3
"""mutate.py LANE K/M [--seed S] [--limit N]: mutation testing of the checks in a private copy of the sandbox.
Small edits of aegir's sources are drawn; those that compile and pass the 81 tests are given to the checks of
the file until one of them reports a violation. Survivors go to /tmp/mt/surv-LANE.txt for a human to judge."""
import glob, json, os, random, re, subprocess, sys

sys.path.insert(0, os.path.dirname(__file__))
LANE = sys.argv[1]; K, M = map(int, sys.argv[2].split("/"))
SEED = int(sys.argv[sys.argv.index("--seed") + 1]) if "--seed" in sys.argv else 1
LIMIT = int(sys.argv[sys.argv.index("--limit") + 1]) if "--limit" in sys.argv else 10**9
ONLY = sys.argv[sys.argv.index("--only") + 1] if "--only" in sys.argv else ""
L = f"/tmp/mt/L{LANE}"

ORDER = {
    "dual.rs": ["C18", "C20"], "trig.rs": ["C19", "C04", "C01", "C15", "C10"], "linalg/mod.rs": ["C04", "C02", "C06", "C07", "C01", "C10", "C15", "C05", "C03"],
    "special.rs": ["C19", "C04", "C01", "C15", "C10"], "binary.rs": ["C04", "C01", "C02", "C05", "C06", "C07", "C15", "C10", "C03", "C09"],
    "unary.rs": ["C04", "C01", "C02", "C05", "C19", "C06", "C07", "C15", "C10", "C03"], "logarithmic.rs": ["C19", "C01", "C04", "C15", "C10", "C03"],
    "sigmoid.rs": ["C19", "C01", "C04", "C15", "C10", "C03"], "errors.rs": ["C07", "C13"], "fmt.rs": ["C15"], "variable.rs": ["C02", "C06", "C10", "C05", "C20", "C15", "C07"],
    "constant.rs": ["C05", "C06", "C10", "C02", "C15", "C04"], "meta/mod.rs": ["C08", "C09", "C05"], "cached.rs": ["C09", "C10", "C06", "C15"],
    "src/lib.rs": ["C20", "C08", "C05", "C06", "C10", "C07", "C18"], "runtime.rs": ["C11", "C12", "C13"], "multi_product.rs": ["C11"], "shapes/mod.rs": ["C11", "C12", "C13"],
    "compiled.rs": ["C11", "C12", "C14"], "scalars.rs": ["C12", "C13", "C14"], "zip_ops.rs": ["C13", "C04"], "arrays/mod.rs": ["C12", "C13"], "contraction_ops.rs": ["C14", "C05", "C02"],
    "arrays/buffer.rs": ["C12", "C05"], "spec.rs": ["C05", "C13"], "vecs.rs": ["C12", "C13"], "buffers/mod.rs": ["C05", "C14", "C12", "C13", "C08", "C02", "C06"], "tuples.rs": ["C12", "C13"],
    "ops/mod.rs": ["C04", "C05", "C06", "C15", "C10", "C20", "C01"],
    "aegir_derive/src/ops.rs": ["C10", "C15", "C20"], "derive.rs": ["C17", "C08"], "ctx/mod.rs": ["C17"], "ctx_type.rs": ["C17", "C08"], "aegir_derive/src/lib.rs": ["C17"], "ids.rs": ["C17", "C15"],
    "aegir_compile/src/lib.rs": ["C16"],
}
ALL = ["C%02d" % i for i in range(1, 21)]

SWAPS = [
    (r"(?<=[\w)\]]) \+ (?=[\w(&*])", " - "), (r"(?<=[\w)\]]) - (?=[\w(&*])", " + "), (r"(?<=[\w)\]]) \* (?=[\w(&*])", " / "), (r"(?<=[\w)\]]) / (?=[\w(&*])", " * "),
    (r"(?<=[\w)\]]) \+ (?=[\w(&*])", " * "), (r"(?<=[\w)\]]) \* (?=[\w(&*])", " + "),
    (r" < (?=[\w(])", " <= "), (r" <= ", " < "), (r" > (?=[\w(])", " >= "), (r" >= ", " > "), (r" == ", " != "), (r" != ", " == "), (r" == ", " <= "), (r" == ", " >= "),
    (r" && ", " || "), (r" \|\| ", " && "), (r"\btrue\b", "false"), (r"\bfalse\b", "true"),
    (r"\bF::zero\(\)", "F::one()"), (r"\bF::one\(\)", "F::zero()"), (r"\bself\.0\b", "self.1"), (r"\bself\.1\b", "self.0"),
    (r"\.left\b", ".right"), (r"\bLeft\b", "Right"), (r"\bRight\b", "Left"), (r"\brhs\b", "self"), (r"\blhs\b", "rhs"), (r"\brhs\b", "lhs"),
    (r"\bleft\b", "right"), (r"\bright\b", "left"), (r"(?<![\w.\[<;#])(\d)(?![\w.\]])", lambda m: str(int(m.group(1)) + 1)), (r"(?<![\w.\[<;#])([1-9])(?![\w.\]])", lambda m: str(int(m.group(1)) - 1)),
    (r"\bsin\(", "cos("), (r"\bcos\(", "sin("), (r"\bexp\(\)", "ln()"), (r"\bln\(\)", "exp()"), (r"\.neg\(\)", ""), (r"\bNegate\(", "Double("),
    (r"= -", "= "), (r"\(-", "("), (r"!(?=[a-z(])", ""), (r"\bif (?!let)([^{]+) \{", r"if !(\1) {"), (r"\bSome\(([^()]*)\)", "None"), (r"\bspec\(", "spec("),
    (r"\bSquare\b", "Double"), (r"\bDouble\b", "Square"), (r"\bAdd\b(?=\()", "Sub"), (r"\bSub\b(?=\()", "Add"), (r"\bMul\b(?=\()", "Add"), (r"\bDiv\b(?=\()", "Mul"),
    (r"\bFull\b", "Diagonal"), (r"\bDiagonal\b", "Full"), (r"\bzeroes\b", "ones"), (r"\bones\b", "zeroes"), (r"\beye\b", "ones"), (r"\beye\b", "zeroes"),
    (r"\bmin\(", "max("), (r"\bmax\(", "min("), (r"\.rev\(\)", ""), (r"\.enumerate\(\)", ".enumerate().skip(1)"), (r"\.iter\(\)", ".iter().skip(1)"),
    (r"\?;", "?;"), (r"\bIndices\b", "Indices"), (r"\b0\.\.", "1.."), (r"\.zip\(", ".skip(1).zip("), (r"\bA\b(?=,)", "B"), (r"\bNX\b", "NY"), (r"\bNY\b", "NX"), (r"\bl\b", "r"), (r"\br\b", "l"), (r"\bx\b", "y"), (r"\by\b", "x"),
    (r"\b(\w+)\.clone\(\)", r"\1.clone()"), (r"is_zero\(\)", "is_one()"), (r"is_one\(\)", "is_zero()"), (r"infinity\(\)", "max_value()"),
    (r"\.all\(", ".any("), (r"\.any\(", ".all("), (r"\.value\b", ".adjoint"), (r"\.adjoint\b(?!\()", ".value"), (r"\bread\(", "read_("), (r"Err\(", "Ok("),
    (r"\.squared\(\)", ""), (r"\bignore\b", ""), (r"return ", ""), (r"\bOk\(None\)", "Err(())"), (r"epsilon\(\)", "zero()"), (r"zero\(\)", "epsilon()"),
]

def sites():
    out = []
    for f in sorted(glob.glob("/repo/aegir*/src/**/*.rs", recursive=True)):
        if "ndarray" in f: continue
        rel = f[6:]
        if ONLY and ONLY not in rel: continue
        lines = open(f).read().split("\n")
        intest = False
        for i, l in enumerate(lines):
            if "#[cfg(test)]" in l: intest = True
            if intest: break_ = True; continue
            s = l.strip()
            if not s or s.startswith("//") or s.startswith("#[") or s.startswith("use ") or s.startswith("pub use") or s.startswith("where") or s.startswith("impl"): continue
            code = l.split("//")[0]
            for k, (a, b) in enumerate(SWAPS):
                for m in re.finditer(a, code):
                    new = code[:m.start()] + m.expand(b) + code[m.end():] if isinstance(b, str) else code[:m.start()] + b(m) + code[m.end():]
                    if new != code: out.append((rel, i, l, new))
            # Delete a statement.
            if re.match(r"^\s*[\w.&*]+.*;\s*$", code) and not re.match(r"^\s*(let|type|pub|return|const|fn|extern|mod|trait)\b", code):
                out.append((rel, i, l, re.match(r"^\s*", code).group(0) + ";"))
    return sorted(set(out))

def lane(script, timeout):
    try:
        r = subprocess.run(["/verif/tools/lane.sh", LANE, "bash", "-c", script], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired:
        return 124, ""

def main():
    subprocess.run(["/verif/tools/lane.sh", LANE, "--reset"])
    S = sites()
    random.Random(SEED).shuffle(S)
    S = S[K::M][:LIMIT]
    log = open(f"/tmp/mt/mut-{LANE}.log", "a")
    def say(*a):
        print(*a, flush=True); print(*a, file=log, flush=True)
    say(f"# {len(S)} mutants, seed {SEED}, {K}/{M}")
    done = set()
    try: done = set(json.load(open(f"/tmp/mt/mut-{LANE}.done")))
    except Exception: pass
    for (rel, i, old, new) in S:
        key = f"{rel}:{i+1}:{new}"
        if key in done: continue
        done.add(key); json.dump(sorted(done), open(f"/tmp/mt/mut-{LANE}.done", "w"))
        p = f"{L}/repo/{rel}"
        lines = open(f"/repo/{rel}").read().split("\n")
        if lines[i] != old: continue
        lines[i] = new
        open(p, "w").write("\n".join(lines))
        try:
            rc, out = lane("export HOME=/root RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true; cargo check --quiet --offline 2>&1 | grep -m3 -E '^error'", 300)
            if out.strip(): say(f"nocompile {key}") if False else None; continue
            rc, out = lane(f"bash /opt/vp/build.sh >/dev/null 2>&1 && timeout 200 bash /opt/vp/test.sh {L}/out.json", 400)
            if rc: say(f"tests     {key} (rc {rc})"); continue
            o = json.load(open(f"{L}/out.json"))
            if o["failed"] or len(o["passed"]) < 81: say(f"tests     {key}"); continue
            keyf = [k for k in ORDER if rel.endswith(k)]
            first = ORDER[max(keyf, key=len)] if keyf else []
            caught = None; bad = []
            for c in first + [c for c in ["C04", "C01", "C20", "C02"] if c not in first]:
                rc, out = lane(f"cd /verif && timeout 850 ./run.sh {c}", 900)
                if rc == 1 and "VIOLATION property=" + c in out: caught = c; break
                if rc != 0: bad.append(f"{c}:{rc}")
            if caught: say(f"caught {caught} {' '.join(bad)} {key}   WAS {old.strip()}")
            else:
                say(f"SURVIVED {' '.join(bad)} {key}   WAS {old.strip()}")
                open(f"/tmp/mt/surv-{LANE}.txt", "a").write(f"{' '.join(bad)} {key}\n    WAS {old.strip()}\n")
        finally:
            open(p, "w").write(open(f"/repo/{rel}").read())

main()
