#!/usr/bin/env python3
"""Driver of the checks: `nv.py setup` builds everything, `nv.py check C01` decides one property.

A check regenerates LLVM IR of the harnesses plus the real cfg-noodle crate from /repo's working
tree, executes every harness of the property symbolically (symex + SMT solver), re-runs a sample of
the explored paths natively and compares the observations, and replays every counterexample
natively before it reports it.

Exit 0: held on everything explored.  Exit 1: VIOLATION line, reproduced on the real code.
Exit 2: no verdict (build failure, unsupported construct, time limit, solver unknown, vacuity).
"""
import fcntl, hashlib, json, os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
B = os.path.join(V, ".build")
EVID = os.path.join(V, "evidence")
LL = os.path.join(B, "t/release/deps/nh.ll")
REPLAY = os.path.join(B, "tr/debug/replay")
SYMEX = os.path.join(B, "symex")
sys.path.insert(0, V)
from plan import PLAN, GLOBAL_ASSUMPTIONS  # noqa: E402


def env(target):
    e = dict(os.environ)
    e.update(CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=target, CARGO_TERM_COLOR="never",
             RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu")
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_RUSTFLAGS"):
        e.pop(k, None)
    return e


def tree_hash(*roots):
    h = hashlib.sha256()
    for root in roots:
        for d, ds, fs in os.walk(root):
            ds[:] = sorted(x for x in ds if x not in ("target", ".git"))
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(p.encode() + b"\0")
                with open(p, "rb") as fh:
                    h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()


def run(cmd, cwd, e=None, timeout=600):
    r = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                       timeout=timeout)
    return r.returncode, r.stdout


class Inconclusive(Exception):
    pass


def stamp(name, value=None):
    p = os.path.join(B, name + ".stamp")
    if value is None:
        try:
            return open(p).read()
        except OSError:
            return None
    with open(p, "w") as f:
        f.write(value)


def build_symex():
    h = tree_hash(os.path.join(V, "symex/src"))
    if os.path.exists(SYMEX) and stamp("symex") == h:
        return
    rc, out = run(["rustc", "--edition", "2021", "-C", "opt-level=3", "-C", "debuginfo=0", "-A", "dead_code",
                   "-A", "warnings", "-o", SYMEX, "main.rs"], os.path.join(V, "symex/src"), env(B))
    if rc:
        raise Inconclusive("the executor does not build:\n" + out[-4000:])
    stamp("symex", h)


def forget(target, kind, pkgs):
    """Make cargo rebuild `pkgs` whatever the file times say."""
    fp = os.path.join(target, kind, ".fingerprint")
    if os.path.isdir(fp):
        for d in os.listdir(fp):
            if any(d.startswith(p + "-") for p in pkgs):
                shutil.rmtree(os.path.join(fp, d), ignore_errors=True)


def build_ir(h):
    t = os.path.join(B, "t")
    if stamp("ir") == h and os.path.exists(LL):
        return
    forget(t, "release", ["cfg-noodle", "nh"])
    if os.path.exists(LL):
        os.unlink(LL)
    rc, out = run(["cargo", "rustc", "--release", "--lib", "--", "--emit=llvm-ir", "-C", "no-vectorize-loops",
                   "-C", "no-vectorize-slp"], os.path.join(V, "harness"), env(t))
    if rc or not os.path.exists(LL):
        raise Inconclusive("the harnesses do not build against /repo:\n" + out[-4000:])
    stamp("ir", h)


def build_replay(h):
    t = os.path.join(B, "tr")
    if stamp("replay") == h and os.path.exists(REPLAY):
        return
    forget(t, "debug", ["cfg-noodle", "nh"])
    rc, out = run(["cargo", "build", "--bin", "replay", "--features", "replay"], os.path.join(V, "harness"), env(t))
    if rc or not os.path.exists(REPLAY):
        raise Inconclusive("the native replayer does not build against /repo:\n" + out[-4000:])
    stamp("replay", h)


def build():
    os.makedirs(B, exist_ok=True)
    with open(os.path.join(B, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        h = tree_hash(os.path.join(REPO, "crates/cfg-noodle"), os.path.join(V, "harness"))
        for f in ("Cargo.toml", "Cargo.lock"):
            p = os.path.join(REPO, f)
            if os.path.exists(p):
                h = hashlib.sha256((h + open(p).read()).encode()).hexdigest()
        with ThreadPoolExecutor(3) as ex:
            fs = [ex.submit(build_symex), ex.submit(build_ir, h), ex.submit(build_replay, h)]
            for f in fs:
                f.result()


# ------------------------------------------------------------------ source map of the IR

class DebugMap:
    """!dbg id -> the /repo functions (with inlining) it belongs to."""

    def __init__(self, path):
        self.loc, self.scope, self.sub, self.file, self.ns = {}, {}, {}, {}, {}
        r = re.compile(r"^!(\d+) = (?:distinct )?!(DILocation|DILexicalBlock(?:File)?|DISubprogram|DIFile|DINamespace|DICompositeType)\((.*)\)$")
        with open(path) as f:
            for l in f:
                if not l.startswith("!"):
                    continue
                m = r.match(l.rstrip("\n"))
                if not m:
                    continue
                i, k, b = int(m.group(1)), m.group(2), m.group(3)

                def g(n):
                    x = re.search(r"(?:^|, )" + n + r": !(\d+)", b)
                    return int(x.group(1)) if x else None

                def s(n):
                    x = re.search(r"(?:^|, )" + n + r": \"([^\"]*)\"", b)
                    return x.group(1) if x else ""
                if k == "DILocation":
                    x = re.search(r"line: (\d+)", b)
                    self.loc[i] = (int(x.group(1)) if x else 0, g("scope"), g("inlinedAt"))
                elif k.startswith("DILexicalBlock"):
                    self.scope[i] = g("scope")
                elif k == "DISubprogram":
                    x = re.search(r"line: (\d+)", b)
                    self.sub[i] = (s("name"), g("scope"), g("file"), int(x.group(1)) if x else 0)
                elif k == "DIFile":
                    self.file[i] = s("filename") if s("filename").startswith("/") else s("directory") + "/" + s("filename")
                else:
                    self.ns[i] = (s("name"), g("scope"))

    def path(self, sc):
        out = []
        while sc in self.ns:
            n, sc = self.ns[sc]
            out.append(n)
        return [x for x in reversed(out) if x]

    def functions(self, ids):
        fns, lines = set(), set()
        seen = set()
        todo = list(ids)
        while todo:
            i = todo.pop()
            if i in seen or i not in self.loc:
                continue
            seen.add(i)
            line, sc, at = self.loc[i]
            if at is not None:
                todo.append(at)
            while sc in self.scope:
                sc = self.scope[sc]
            if sc in self.sub:
                name, up, fl, ln = self.sub[sc]
                f = self.file.get(fl, "")
                if f.startswith(REPO + "/"):
                    f = f[len(REPO) + 1:]
                    p = [x for x in self.path(up) if not x.startswith("{impl")]
                    fns.add("::".join(p + [re.sub(r"<.*", "", name) if not name.startswith("{") else name]) + f" ({f.split('/src/')[-1]}:{ln})")
                    lines.add((f, line))
        return sorted(fns), len(lines)


# ------------------------------------------------------------------ one harness

def symex(entry, o, tier, seed, budget):
    out = os.path.join(B, f"out_{entry}.json")
    if os.path.exists(out):
        os.unlink(out)
    cmd = [SYMEX, "--ll", LL, "--entry", entry, "--out", out, "--workers", str(min(8, os.cpu_count() or 4)),
           "--timeout", str(int(budget)), "--samples", str(o.get("samples", 2)), "--max-viol", "3", "--seed", str(seed),
           "--query-ms", str(o.get("query_ms", 60000)), "--max-steps", str(o.get("max_steps", 20_000_000))]
    t0 = time.time()
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=budget + 60)
    except subprocess.TimeoutExpired:
        subprocess.run(["pkill", "-f", f"--entry {entry} "], check=False)
        raise Inconclusive(f"{entry}: the executor exceeded its time limit")
    tot = {"entry": entry, "wall_s": 0.0}
    try:
        rows = [json.loads(l) for l in open(out)]
    except (OSError, ValueError):
        rows = []
    if p.returncode != 0 or not rows:
        raise Inconclusive(f"{entry}: executor failed: {p.stderr[-800:]}")
    for d in rows:
        for k, v in d.items():
            if isinstance(v, bool):
                tot[k] = tot.get(k, False) or v
            elif isinstance(v, (int, float)):
                tot[k] = max(tot.get(k, 0), v) if k.startswith("max") else tot.get(k, 0) + v
            elif isinstance(v, dict):
                t = tot.setdefault(k, {})
                for a, b in v.items():
                    t[a] = t.get(a, 0) + b
            elif k in ("dbg", "funcs"):
                tot.setdefault(k, set()).update(v)
            else:
                tot.setdefault(k, []).extend(v)
    tot["wall_s"] = round(time.time() - t0, 2)
    os.unlink(out)
    return tot


def native(entry, vals, timeout=60, wrap=()):
    f = os.path.join(B, f"vals_{entry}.txt")
    with open(f, "w") as h:
        h.write("\n".join(str(v) for v in vals) + "\n")
    return native_file(entry, f, timeout, wrap)


def native_file(entry, f, timeout=60, wrap=()):
    try:
        p = subprocess.run([*wrap, REPLAY, entry, f], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                           timeout=timeout, errors="replace")
    except subprocess.TimeoutExpired:
        return {"result": "timeout", "log": [], "text": "no progress natively within %d s" % timeout}
    logs, res, txt = [], None, []
    for l in p.stdout.splitlines():
        if l.startswith("LOG "):
            _, v, n = l.split(" ", 2)
            logs.append([n, int(v)])
        elif l.startswith("RESULT "):
            res = l[7:]
        else:
            txt.append(l)
    if res is None:
        res = f"crash({p.returncode})"
        txt.append(p.stderr[-500:])
    if wrap and p.returncode == 97:
        res = "memory"
        txt.append(p.stderr[-1500:])
    return {"result": res, "log": logs, "text": "\n".join(txt)}


def confirm(entry, v):
    """Replay a counterexample on the real code; the native verdict, or None if it does not reproduce."""
    vals = [x for _, x, _ in v["vars"]]
    r = native(entry, vals)
    if r["result"] in ("assert", "panic", "timeout") or r["result"].startswith("crash"):
        return r
    if v["kind"] in ("memory", "ub", "abort") and shutil.which("valgrind"):
        r2 = native(entry, vals, 300, ("valgrind", "-q", "--error-exitcode=97"))
        if r2["result"] != "ok":
            return r2
    return None


def write_replay(prop, entry, v, r):
    d = os.path.join(EVID, "replays")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, f"{prop}_{entry}.txt")
    with open(p, "w") as f:
        f.write(f"# property {prop}, harness {entry} (see /verif/harness/src)\n")
        f.write(f"# symbolic execution: {v['kind']}: {v['msg']}\n")
        for s in v["stack"]:
            f.write(f"#    in {s}\n")
        f.write(f"# native replay on the real code: {r['result']}\n")
        for l in r["text"].splitlines():
            f.write(f"#    {l}\n")
        for n, x in r["log"]:
            f.write(f"#    log {n} = {x}\n")
        f.write(f"# reproduce: {REPLAY} {entry} {p}\n")
        for w, x, l in v["vars"]:
            f.write(f"{x} # {l}:u{w}\n")
    return p


def known_findings():
    out = []
    try:
        for l in open(os.path.join(V, "known_findings.txt")):
            if l.startswith("finding:"):
                m = re.match(r"finding: property=(\S+) entry=(\S+) msg=\"([^\"]*)\" (.*)", l.strip())
                if m:
                    out.append(m.groups())
    except OSError:
        pass
    return out


def check(prop, tier, seed):
    t0 = time.time()
    P = PLAN[prop]
    os.makedirs(EVID, exist_ok=True)
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": {"states": 0},
          "assumptions": GLOBAL_ASSUMPTIONS + P.get("assumptions", []), "wall_s": 0.0, "violations": 0}
    evp = os.path.join(EVID, prop + ".json")
    if os.path.exists(evp):
        os.unlink(evp)
    problems, viols, known, rows = [], [], [], []

    def finish(code):
        ev["wall_s"] = round(time.time() - t0, 2)
        ev["violations"] = len(viols)
        if problems:
            ev["coverage"]["inconclusive"] = problems
        with open(evp, "w") as f:
            json.dump(ev, f, indent=1)
        for k in known:
            print(f"KNOWN-FINDING: property={prop} {k}")
        for p, what in viols:
            print(f"  {what}")
            print(f"VIOLATION property={prop} replay={p}")
        for p in problems:
            print(f"INCONCLUSIVE property={prop} {p}")
        sys.stdout.flush()
        return code

    try:
        build()
    except Inconclusive as e:
        problems.append(str(e))
        return finish(2)
    build_s = time.time() - t0
    entries = list(P["quick"]) + (list(P.get("thorough", [])) if tier == "thorough" else [])
    total = P.get("budget", 420) if tier == "quick" else P.get("thorough_budget", 7200)
    validated = mismatches = 0
    samples = []
    for e in entries:
        o = dict(P.get("opts", {}), **e.get("opts", {}))
        left = total - (time.time() - t0)
        if left < 5:
            problems.append(f"{e['entry']}: not run, the time budget is used up")
            continue
        try:
            r = symex(e["entry"], o, tier, seed, min(left, o.get("timeout", 1800)))
        except Inconclusive as x:
            problems.append(str(x))
            continue
        rows.append((e, r))
        for v in r["violations"]:
            c = confirm(e["entry"], v)
            what = f"{e['entry']}: {v['kind']}: {v['msg']}"
            if c is None:
                problems.append(f"{what}: the counterexample does not reproduce natively (executor defect?): "
                                f"{[[l, x] for _, x, l in v['vars']]}")
                continue
            k = [d for p, en, m, d in known_findings() if p == prop and en == e["entry"] and m == v["msg"]]
            if k:
                if k[0] not in known:
                    known.append(k[0])
                continue
            viols.append((write_replay(prop, e["entry"], v, c), f"{what} (native replay: {c['result']})"))
            break
        bad = {k: n for k, n in r.get("errors", {}).items()}
        if not r["violations"]:
            if bad:
                problems.append(f"{e['entry']}: {sum(bad.values())} paths not executed: {list(bad)[:2]}")
            if r.get("timed_out"):
                problems.append(f"{e['entry']}: time limit")
            if r.get("dropped"):
                problems.append(f"{e['entry']}: {r['dropped']} paths dropped")
            if r.get("unknown"):
                problems.append(f"{e['entry']}: solver gave no answer to {r['unknown']} queries")
            for lab in e.get("reach", []):
                if not r.get("reach", {}).get(lab):
                    problems.append(f"{e['entry']}: vacuity: no path reaches '{lab}'")
            # re-run explored paths natively and compare what they observe
            for s in r.get("samples", [])[: o.get("validate", 12)]:
                c = native(e["entry"], [x for _, x, _ in s["vars"]])
                validated += 1
                if c["result"] != "ok" or c["log"] != s["log"]:
                    mismatches += 1
                    problems.append(f"{e['entry']}: native run of an explored path differs: {c['result']} "
                                    f"{c['text'][:200]} {[[l, x] for _, x, l in s['vars']]}")
                elif len(samples) < 4:
                    samples.append({"harness": e["entry"], "inputs": [[l, x] for _, x, l in s["vars"]],
                                    "observed": s["log"]})
        if viols:
            break
    # -------- evidence
    dm = DebugMap(LL)
    ids = set()
    for _, r in rows:
        ids |= set(r.get("dbg", ()))
    fns, nlines = dm.functions(ids)
    S = lambda k: sum(r.get(k, 0) for _, r in rows)  # noqa: E731
    ev["coverage"] = {
        "states": S("blocks"), "transitions": S("steps"), "traces_validated_against_impl": validated - mismatches,
        "samples": samples or [{"harness": e["entry"], "paths": r["paths"]} for e, r in rows[:1]],
        "paths": S("paths"), "infeasible_branches_pruned": S("pruned"),
        "assertions_decided_concretely_on_a_path": S("asserts_conc"),
        "assertions_decided_by_solver": S("asserts_sym"),
        "queries": S("queries"), "queries_answered_from_cache": S("cache_hits"),
        "sat": S("sat"), "unsat": S("unsat"), "unknown": S("unknown"),
        "solver_s": round(S("solver_s"), 2), "build_s": round(build_s, 1),
        "solver": solver_version(),
        "functions_encoded": fns, "source_lines_executed": nlines,
        "bounds": P["bounds"],
        "harnesses": [{"entry": e["entry"], "what": e.get("what", ""), "paths": r["paths"], "steps": r["steps"],
                       "queries": r["queries"], "solver_s": round(r["solver_s"], 2), "wall_s": r["wall_s"],
                       "max_symbolic_inputs": r.get("max_vars", 0), "reached": r.get("reach", {})}
                      for e, r in rows],
        "exhaustive": not problems and not viols,
        "explanation": "states = basic blocks executed symbolically, transitions = IR instructions executed "
                       "symbolically; every path of every harness within the bounds, each with all values of its "
                       "symbolic inputs at once",
    }
    if known:
        ev["coverage"]["known_findings"] = known
    if viols:
        return finish(1)
    return finish(2 if problems else 0)


def solver_version():
    try:
        return subprocess.run(["z3-new", "--version"], stdout=subprocess.PIPE, text=True).stdout.strip() + \
            " + GF(2) elimination for CRC terms (symex/src/lin.rs)"
    except OSError:
        return "z3-new"


def main():
    a = sys.argv[1:]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    if a[:1] == ["setup"]:
        try:
            build()
        except Inconclusive as e:
            print(e)
            return 2
        return 0
    if a[:1] == ["check"]:
        if len(a) > 2:
            tier = a[2]
        return check(a[1], tier, seed)
    print(__doc__)
    return 2


if __name__ == "__main__":
    sys.exit(main())
