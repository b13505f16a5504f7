#!/usr/bin/env python3
"""Driver: regenerate the encoding from /repo, decide a property with irsym, replay, write evidence.

  run.py check PROP quick|thorough      decide one property
  run.py setup                          build everything once
  run.py native HARNESS INPUTS [release]   run one harness natively on concrete inputs
  run.py sym HARNESS [irsym args]       run one harness symbolically (development aid)
"""
import glob, json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VH_REPO", "/repo")
SRC = os.path.join(REPO, "iOverlay", "src")
BUILD = os.environ.get("VH_BUILD", os.path.join(VERIF, "build"))
HARN = os.path.join(VERIF, "harness")
EVID = os.path.join(VERIF, "evidence")
TOOL = "stable-x86_64-unknown-linux-gnu"
ENV = dict(os.environ, RUSTUP_TOOLCHAIN=TOOL, CARGO_NET_OFFLINE="true")
ENV.pop("RUSTFLAGS", None)
LLVM_BIN = None
IRSYM = os.path.join(BUILD, "irsym", "release", "irsym")

LEAF = [  # (module, visibility, files)
    ("core", "pub", ["fill_rule", "node", "nearest_vector", "divide"]),
    ("vector", "pub", ["edge"]),
    ("float", "pub", ["source/mod"]),
    ("string", "pub", ["line", "rule", "split"]),
    ("mesh", "pub", ["math", "rotator", "style", "miter"]),
    ("split", "pub(crate)", ["cross_solver", "fragment", "line_mark", "grid_layout"]),
    ("geom", "pub(crate)", ["x_segment", "v_segment", "end", "line_range", "id_point"]),
    ("util", "pub(crate)", ["log"]),
]


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=kw.pop("env", ENV), **kw)


def put(path, text):
    """write only when different, so that cargo does not rebuild for nothing"""
    try:
        if open(path).read() == text:
            return
    except (OSError, UnicodeDecodeError):
        pass
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
        f.write(text)


def harness_files():
    r = {}
    for p in sorted(glob.glob(os.path.join(HARN, "h_*.rs"))):
        t = open(p).read()
        m = re.search(r"^//@ attach: *(\S+)", t, re.M)
        if not m:
            continue
        leaf = re.search(r"^//@ leaf", t, re.M) is not None
        names = re.findall(r"harness!\(\s*(\w+)\s*,", t)
        r[os.path.basename(p)[:-3]] = {"path": p, "text": t, "attach": "" if m.group(1) == "root" else m.group(1), "leaf": leaf, "names": names}
    return r


DEPS = """[dependencies]
i_float = { version = "~1.9.0" }
i_shape = { version = "~1.10.0" }
i_tree = { version = "~0.13.0" }
i_key_sort = { version = "~0.4.0" }
[patch.crates-io]
i_shape = { path = "%s/vendor/i_shape" }
[profile.dev]
opt-level = 1
debug = false
overflow-checks = true
debug-assertions = true
[profile.irsym]
inherits = "release"
panic = "abort"
opt-level = 1
debug = false
overflow-checks = true
debug-assertions = true
lto = "fat"
codegen-units = 1
[workspace]
""" % VERIF


def table(files, hf):
    s = "// generated\npub fn table(n: &str) -> Option<fn()> { match n {\n"
    for f in files:
        mod = "crate::" + (hf[f]["attach"].replace("/", "::") + "::" if hf[f]["attach"] else "") + f
        for n in hf[f]["names"]:
            s += '  "%s" => Some(%s::%s as fn()),\n' % (n, mod, n)
    return s + "  _ => None } }\n"


def gen_ws(kind, files, hf, ws):
    """a crate made of the current sources of /repo plus the harness modules"""
    src = os.path.join(ws, "src")
    want = set()
    for root, _, fs in os.walk(SRC):
        for f in fs:
            if f.endswith(".rs"):
                p = os.path.join(root, f)
                rel = os.path.relpath(p, SRC)
                want.add(rel)
                t = open(p).read().replace("std::collections::", "crate::vh::coll::")
                if kind == "full":
                    if rel == "lib.rs":
                        t += "\n#[macro_use]\npub mod vh;\npub mod vhl;\n#[cfg(vh_native)]\npub mod vh_table;\n"
                        t = re.sub(r"^#!\[deny\(.*$", "", t, flags=re.M)
                    for h in files:
                        a = hf[h]["attach"]
                        if (rel == "lib.rs" and a == "") or (a and rel == a + "/mod.rs"):
                            t += "\npub mod %s;\n" % h
                put(os.path.join(src, rel), t)
    vh = open(os.path.join(HARN, "vh.rs")).read()
    put(os.path.join(src, "vh.rs"), vh)
    want.add("vh.rs")
    if kind == "full":
        put(os.path.join(src, "vhl.rs"), open(os.path.join(HARN, "vhl.rs")).read())
        want.add("vhl.rs")
    put(os.path.join(src, "vh_table.rs"), table(files, hf))
    want.add("vh_table.rs")
    for h in files:
        rel = os.path.join(hf[h]["attach"], h + ".rs")
        put(os.path.join(src, rel), hf[h]["text"])
        want.add(rel)
    lib = "src/lib.rs"
    if kind == "leaf":
        s = "#![allow(dead_code, unused)]\n#[macro_use]\n#[path=\"src/vh.rs\"] pub mod vh;\n#[cfg(vh_native)]\n#[path=\"src/vh_table.rs\"] pub mod vh_table;\n"
        for m, vis, fs in LEAF:
            s += "%s mod %s {\n" % (vis, m)
            if m == "split":
                pass
            for f in fs:
                name = f.split("/")[0]
                v = "pub" if (m, name) not in () else ""
                s += '  #[path="%s/%s/%s.rs"] %s mod %s;\n' % (src, m, f, "pub" if m in ("core", "vector", "float", "string") else "pub(crate)", name)
            for h in files:
                if hf[h]["attach"] == m:
                    s += '  #[path="%s/%s/%s.rs"] pub mod %s;\n' % (src, m, h, h)
            s += "}\n"
        put(os.path.join(ws, "lib.rs"), s)
        lib = "lib.rs"
    # drop files that no longer exist in /repo
    for root, _, fs in os.walk(src):
        for f in fs:
            p = os.path.join(root, f)
            if os.path.relpath(p, src) not in want:
                os.remove(p)
    put(os.path.join(ws, "src_main", "main.rs"), """fn main() {
    #[cfg(vh_native)] {
        use std::io::BufRead;
        if std::env::var("VH_BT").is_err() { std::panic::set_hook(Box::new(|_| {})); }
        for l in std::io::stdin().lock().lines() {
            let l = l.unwrap();
            println!("{}", vh::vh::sys::run_line(&l, &vh::vh_table::table));
        }
    }
}
""")
    put(os.path.join(ws, "Cargo.toml"), """[package]
name = "vh"
version = "0.0.0"
edition = "2024"
[lib]
path = "%s"
crate-type = ["cdylib", "rlib"]
[[bin]]
name = "replay"
path = "src_main/main.rs"
[lints.rust]
unexpected_cfgs = "allow"
%s""" % (lib, DEPS))


def llvm_bin():
    global LLVM_BIN
    if LLVM_BIN is None:
        root = sh(["rustc", "--print", "sysroot"]).stdout.strip()
        LLVM_BIN = glob.glob(root + "/lib/rustlib/*/bin")[0]
    return LLVM_BIN


def build_ir(kind, ws):
    tgt = os.path.join(BUILD, "target-ir-" + kind)
    for p in set(glob.glob(tgt + "/irsym/deps/vh.*.bc") + glob.glob(tgt + "/irsym/deps/*.rcgu.*")):
        os.remove(p)
    # rustc must run again so that the temporaries are fresh
    for p in glob.glob(tgt + "/irsym/.fingerprint/vh-*"):
        shutil.rmtree(p, ignore_errors=True)
    r = sh(["cargo", "rustc", "--offline", "--profile", "irsym", "--lib", "--crate-type", "cdylib", "--target-dir", tgt, "--",
            "-C", "save-temps", "-C", "no-vectorize-loops", "-C", "no-vectorize-slp", "-A", "warnings"], cwd=ws)
    if r.returncode != 0:
        return None, r.stdout
    cand = [p for p in glob.glob(tgt + "/irsym/deps/vh.*-cgu.0.rcgu.bc")]
    cand = [p for p in cand if re.search(r"-cgu\.0\.rcgu\.bc$", p)]
    if not cand:
        return None, "no bitcode produced"
    bc = max(cand, key=os.path.getmtime)
    ll = os.path.join(BUILD, "out-%s.ll" % kind)
    r = sh([os.path.join(llvm_bin(), "llvm-dis"), bc, "-o", ll])
    if r.returncode != 0:
        return None, r.stdout
    return ll, ""


def build_native(kind, ws, release=False):
    tgt = os.path.join(BUILD, "target-native-" + kind)
    env = dict(ENV, RUSTFLAGS="--cfg vh_native -A warnings")
    r = sh(["cargo", "build", "--offline", "--bin", "replay", "--target-dir", tgt] + (["--release"] if release else []), cwd=ws, env=env)
    if r.returncode != 0:
        return None, r.stdout
    return os.path.join(tgt, "release" if release else "debug", "replay"), ""


def build_irsym():
    r = sh(["cargo", "build", "--release", "--offline", "--target-dir", os.path.join(BUILD, "irsym")], cwd=os.path.join(VERIF, "irsym"))
    if r.returncode != 0:
        print(r.stdout[-3000:])
        raise SystemExit(2)


def native_run(binp, lines, timeout=240):
    """list of 'status outs' strings; a line that kills or stalls the process is reported as such"""
    out = []
    i = 0
    while i < len(lines):
        p = subprocess.Popen([binp], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
        try:
            so, _ = p.communicate("\n".join(lines[i:]) + "\n", timeout=timeout)
            hung = False
        except subprocess.TimeoutExpired:
            p.kill()
            so, _ = p.communicate()
            hung = True
        got = so.split("\n")[:-1]
        out += got
        i += len(got)
        if i < len(lines):
            out.append("hang " if hung else "abort:%d " % (p.returncode or 0))
            i += 1
    return out


def demangle(names):
    try:
        r = subprocess.run(["c++filt"], input="\n".join(names), stdout=subprocess.PIPE, text=True)
        return r.stdout.split("\n")
    except OSError:
        return list(names)


class Crate:
    """one kind (leaf/full) with the harness files that compile"""

    def __init__(self, kind, files, hf):
        self.kind, self.hf = kind, hf
        self.ws = os.path.join(BUILD, "ws-" + kind)
        self.err = ""
        self.dropped = []
        self.ll = None
        self.files = files
        self.native = {}

    def build(self):
        gen_ws(self.kind, self.files, self.hf, self.ws)
        self.ll, self.err = build_ir(self.kind, self.ws)
        if self.ll is None and len(self.files) > 1:
            good = []
            for f in self.files:
                gen_ws(self.kind, [f], self.hf, self.ws)
                r = sh(["cargo", "check", "--offline", "--lib", "--target-dir", os.path.join(BUILD, "target-chk-" + self.kind)], cwd=self.ws)
                if r.returncode == 0:
                    good.append(f)
            self.dropped = [f for f in self.files if f not in good]
            self.files = good
            if good:
                gen_ws(self.kind, good, self.hf, self.ws)
                self.ll, self.err = build_ir(self.kind, self.ws)

    def bin(self, release=False):
        if release not in self.native:
            b, e = build_native(self.kind, self.ws, release)
            if b is None:
                self.err = e
            self.native[release] = b
        return self.native[release]


def summarize(d):
    a = {"paths": 0, "assume_ends": 0, "steps": 0, "sym_branches": 0, "quick": 0, "assert_queries": 0, "asserts_trivial": 0, "queries": 0, "sat": 0,
         "unsat": 0, "unknown": 0, "solver_time": 0.0, "max_query": 0.0}
    inc, vio, cov, fn, wit = set(), [], set(), set(), []
    for p in d["parts"]:
        for k in a:
            if k in p:
                a[k] = max(a[k], p[k]) if k == "max_query" else a[k] + p[k]
        inc |= set(p.get("inconclusive", []))
        vio += p.get("violations", [])
        cov |= set(p.get("covers", []))
        fn |= set(p.get("funcs", []))
        wit += p.get("witnesses", [])
    return a, inc, vio, cov, fn, wit


def run_irsym(ll, harness, jobs, qms, fb, budget, maxv=3, extra=()):
    with tempfile.TemporaryDirectory(prefix="irsym-", ignore_cleanup_errors=True) as tmp:
        return run_irsym_in(tmp, ll, harness, jobs, qms, fb, budget, maxv, extra)


def run_irsym_in(tmp, ll, harness, jobs, qms, fb, budget, maxv, extra):
    pr = subprocess.Popen([IRSYM, "--ll", ll, "--harness", harness, "--jobs", str(jobs), "--query-ms", str(qms), "--fallback-s", str(fb),
                           "--budget-s", str(budget), "--max-violations", str(maxv), "--fork-select", "1" if ll.endswith("full.ll") else "0"] + list(extra), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=dict(ENV, TMPDIR=tmp), start_new_session=True)
    try:
        so, se = pr.communicate(timeout=budget + fb + 60)
    except subprocess.TimeoutExpired:
        os.killpg(pr.pid, signal.SIGKILL)
        so, se = pr.communicate()
        se += " (stopped: far over its time budget)"
    for l in so.split("\n"):
        if l.startswith("{"):
            return json.loads(l), se
    return None, se + so


def known_findings():
    p = os.path.join(VERIF, "known_findings.json")
    try:
        return json.load(open(p))
    except OSError:
        return {"findings": [], "fixed": []}


def check(prop, tier):
    t0 = time.time()
    sys.path.insert(0, VERIF)
    import props
    P = props.PROPS[prop]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    hs = [h for h in P["harnesses"] if tier == "thorough" or not h.get("thorough_only")]
    hf = harness_files()
    where = {n: f for f, v in hf.items() for n in v["names"]}
    missing = [h["name"] for h in hs if h["name"] not in where]
    if missing:
        print("no such harness:", missing)
        return 2
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(EVID, exist_ok=True)
    th = threading.Thread(target=build_irsym)
    th.start()
    crates = {}
    for kind in ("leaf", "full"):
        fs = sorted({where[h["name"]] for h in hs if (kind == "leaf") == hf[where[h["name"]]]["leaf"]})
        if fs:
            crates[kind] = Crate(kind, fs, hf)
    bt = [threading.Thread(target=c.build) for c in crates.values()]
    for t in bt:
        t.start()
    for t in bt + [th]:
        t.join()
    nat = [threading.Thread(target=c.bin) for c in crates.values() if c.ll]
    for t in nat:
        t.start()
    notes, results, skipped = [], [], []
    for c in crates.values():
        if c.ll is None:
            print("NOTE: %s crate does not compile with the harness: %s" % (c.kind, c.err[-1500:]))
        for f in c.dropped:
            print("NOTE: harness file %s does not compile against this tree, its harnesses are skipped" % f)
    total_budget = P.get("budget", {}).get(tier, 240 if tier == "quick" else 780) - (time.time() - t0)
    left = [h for h in hs]
    ran = 0
    violations = []
    for k, h in enumerate(hs):
        name = h["name"]
        f = where[name]
        c = crates["leaf" if hf[f]["leaf"] else "full"]
        if c.ll is None or f not in c.files:
            skipped.append(name)
            continue
        remain = P.get("budget", {}).get(tier, 240 if tier == "quick" else 780) - (time.time() - t0)
        budget = max(15, min(h.get("budget", 10 ** 6), int(remain)))
        d, err = run_irsym(c.ll, name, h.get("jobs", 8), h.get("query_ms", 2000), h.get("fallback_s", 60), budget)
        if d is None:
            notes.append("%s: irsym gave no answer: %s" % (name, err[-600:]))
            print("NOTE:", notes[-1])
            results.append({"harness": name, "failed": True})
            continue
        a, inc, vio, cov, fn, wit = summarize(d)
        ran += 1
        miss = [x for x in h.get("covers", []) if x not in cov]
        results.append({"harness": name, "what": h["what"], "bounds": h["bounds"], "wall_s": d["wall"], "inputs": d["vars"], **{k: (round(v, 3) if isinstance(v, float) else v) for k, v in a.items()},
                        "covers_reached": sorted(cov), "covers_missing": miss, "inconclusive": sorted(inc)[:10], "functions": fn, "witnesses": wit, "crate": c.kind, "violations_raw": len(vio)})
        if miss:
            print("NOTE: %s: cover points not reached: %s" % (name, miss))
        for i in sorted(inc)[:4]:
            print("NOTE: %s: inconclusive: %s" % (name, i[:300]))
        print("%-28s paths %-7d branches %-8d asserts %-7d unsat %-8d sat %-6d unknown %-3d solver %.1fs wall %.1fs%s" % (
            name, a["paths"], a["sym_branches"] + a["quick"], a["assert_queries"] + a["asserts_trivial"], a["unsat"], a["sat"], a["unknown"], a["solver_time"], d["wall"],
            "  VIOLATIONS %d" % len(vio) if vio else ""), flush=True)
        for v in vio:
            violations.append((h, c, v))
        if vio and any(replay(c, h, v)[0] for v in vio[:3]):
            break
    for t in nat:
        t.join()
    # ---- replay ----
    code = 0
    kf = known_findings()
    reported = []
    for h, c, v in violations:
        ok, detail = replay(c, h, v)
        if not ok:
            msg = "%s: solver counterexample not reproduced natively (%s), not reported: %s %s inputs %s" % (h["name"], detail, v["kind"], v["msg"], v["inputs"])
            notes.append(msg)
            print("NOTE:", msg[:600])
            continue
        reported.append((h, c, v, detail))
    if reported:
        h, c, v, detail = reported[0]
        rp = os.path.join(EVID, "replay-%s.txt" % prop)
        with open(rp, "w") as f:
            f.write("property %s\nharness %s (%s)\nclause %s: %s\ninputs %s\nnative %s\ntrace %s\n" % (prop, h["name"], h["what"], v["kind"], v["msg"], v["inputs"], detail, " < ".join(reversed(v["trace"]))))
            f.write("reproduce: python3 /verif/run.py native %s '%s'\n" % (h["name"], v["inputs"]))
        print("counterexample: harness %s, %s %s, inputs %s, native: %s" % (h["name"], v["kind"], clause(h, v), v["inputs"], detail))
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        code = 1
    # ---- known findings: still there? ----
    for k in kf.get("findings", []):
        if k["property"] == prop:
            c = crates["leaf" if hf[where[k["harness"]]]["leaf"] else "full"] if k["harness"] in where else None
            if c and c.ll and c.bin():
                r = native_run(c.bin(), ["%s %s" % (k["harness"], k["inputs"])])[0]
                if not r.startswith("ok"):
                    print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    # ---- witnesses against the native implementation ----
    validated = mism = 0
    for r in results:
        if r.get("failed"):
            continue
        c = crates[r["crate"]]
        b = c.bin()
        ws = r.pop("witnesses")
        if not b:
            continue
        lines = ["%s %s" % (r["harness"], w.split("|")[0]) for w in ws]
        exp = [w.split("|")[1] for w in ws]
        got = native_run(b, lines) if lines else []
        bad = []
        for l, e, g in zip(lines, exp, got):
            st, _, o = g.partition(" ")
            if st == "ok" and o == e:
                validated += 1
            else:
                bad.append((l, e, g))
        r["witnesses_validated"] = len(lines) - len(bad)
        r["witness_sample"] = lines[:3]
        if bad and code == 0:
            mism += len(bad)
            notes.append("%s: %d witnesses behave differently natively, e.g. %s expected [%s] got [%s]" % (r["harness"], len(bad), *bad[0]))
            print("NOTE:", notes[-1][:600])
    # ---- evidence ----
    fns = sorted({x for r in results for x in r.pop("functions", set())})
    dem = sorted({re.sub(r"\[[0-9a-f]{16}\]", "", d) for d in demangle(fns)})
    own = [d for d in dem if re.search(r"\bvh::(core|vector|float|string|mesh|split|geom|util|segm|fill|bind)", d)]
    inconc = sum(1 for r in results if r.get("inconclusive") or r.get("failed"))
    tot = lambda k: sum(r.get(k, 0) for r in results)
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": tot("paths") + tot("assume_ends"), "transitions": tot("sym_branches") + tot("quick"),
            "traces_validated_against_impl": validated,
            "samples": [s for r in results for s in r.get("witness_sample", [])][:6] or ["none"],
            "evaluations": tot("assert_queries") + tot("asserts_trivial"),
            "functions_encoded": own[:400], "functions_encoded_total": len(dem),
            "queries_discharged": tot("queries"), "queries_sat": tot("sat"), "queries_unsat": tot("unsat"), "queries_unknown": tot("unknown"),
            "solver_time_s": round(tot("solver_time"), 2), "instructions_interpreted": tot("steps"),
            "harnesses": results, "harnesses_skipped": skipped, "harnesses_inconclusive": inconc, "notes": notes[:20],
            "explanation": "states = symbolic paths closed (each covers all inputs satisfying its path condition); transitions = conditional branches decided by entailment or SMT; every path of every harness within the stated bounds is closed unless listed under inconclusive",
        },
        "assumptions": P.get("assumptions", []) + ["encoding = optimized LLVM IR of the current /repo sources (rustc stable, opt-level 1, overflow checks and debug assertions on, multithreading feature off)",
                        "bounds as listed per harness; anything outside them is not covered", "engine builds use /verif/vendor/i_shape, i_shape 1.10.0 plus a stand-in for the missing int::dedup module (DedupContour)"],
        "wall_s": round(time.time() - t0, 2), "violations": len(reported), "violation_details": [{"harness": h["name"], "clause": clause(h, v), "inputs": v["inputs"], "native": d} for h, c, v, d in reported],
    }
    with open(os.path.join(EVID, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=list)
    if code == 0 and ran == 0:
        print("no harness of %s could be built against this tree: no verdict" % prop)
        return 2
    print("%s %s: %s, %d harnesses, %d inconclusive, %d skipped, %d witnesses validated natively, %d mismatches, %.1fs" % (
        prop, tier, "VIOLATED" if code else "held", ran, inconc, len(skipped), validated, mism, time.time() - t0))
    return code


def clause(h, v):
    m = re.search(r"\d+", v["msg"]) if v["kind"] == "assert" else None
    return "%s %s" % (v["msg"], h.get("clauses", {}).get(int(m.group()), "") if m else "")


_rp = {}


def replay(c, h, v):
    key = (h["name"], v["inputs"], v["kind"], v["msg"])
    if key not in _rp:
        res = []
        ok = False
        for rel in (False, True):
            b = c.bin(rel)
            if not b:
                res.append("no native build")
                continue
            r = native_run(b, ["%s %s" % (h["name"], v["inputs"])], timeout=60)[0].split(" ")[0]
            res.append(("release " if rel else "debug ") + r)
            if r.split(":")[0] in ("fail", "panic", "abort", "hang"):
                ok = True
                break
        _rp[key] = (ok, "; ".join(res))
    return _rp[key]


def main():
    a = sys.argv[1:]
    os.makedirs(BUILD, exist_ok=True)
    if a[0] == "check":
        sys.exit(check(a[1], a[2]))
    hf = harness_files()
    where = {n: f for f, v in hf.items() for n in v["names"]}
    if a[0] == "setup":
        build_irsym()
        for kind in ("leaf", "full"):
            fs = [f for f, v in hf.items() if (kind == "leaf") == v["leaf"]]
            c = Crate(kind, fs, hf)
            c.build()
            print(kind, "ok" if c.ll else "FAILED " + c.err[-2000:])
        return
    f = where[a[1]]
    c = Crate("leaf" if hf[f]["leaf"] else "full", [f], hf)
    if a[0] == "native":
        gen_ws(c.kind, c.files, hf, c.ws)
        b = c.bin(len(a) > 3)
        if not b:
            print(c.err)
            sys.exit(2)
        env = dict(os.environ, VH_BT="1", RUST_BACKTRACE="1")
        sys.exit(subprocess.run([b], input="%s %s\n" % (a[1], a[2]), text=True, env=env).returncode)
    if a[0] == "sym":
        build_irsym()
        c.build()
        if not c.ll:
            print(c.err)
            sys.exit(2)
        r = subprocess.run([IRSYM, "--ll", c.ll, "--harness", a[1], "--fork-select", "1" if c.kind == "full" else "0"] + a[2:], text=True, stdout=subprocess.PIPE, env=ENV)
        for l in r.stdout.split("\n"):
            if l.startswith("{"):
                d = json.loads(l)
                s, inc, vio, cov, fn, wit = summarize(d)
                print(a[1], "wall", d["wall"], s, "covers", sorted(cov), "fns", len(fn), "wit", len(wit))
                for x in sorted(inc)[:6]:
                    print("  INC", x[:500])
                for x in vio[:6]:
                    print("  VIO", x["kind"], x["msg"], x["inputs"][:400], x["trace"][-5:])
            elif l:
                print(l)


if __name__ == "__main__":
    main()
