#!/usr/bin/env python3
"""Decide one property:  check.py P01 [--tier quick|thorough]
setup:                   check.py --setup

Builds the harness crate against /repo's current tree, lowers it to LLVM IR,
executes the property's entry points symbolically (rsym), replays any
counterexample against the native build of the same code, and writes the
evidence file.
"""
import hashlib, json, os, re, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SHPOOL_REPO", "/repo")
WORK = os.environ.get("SHPOOL_WORK", os.path.join(HERE, "work"))
sys.path.insert(0, HERE)
from props import PROPS, GROUPS

ENV = dict(os.environ, RUSTUP_TOOLCHAIN="1.85.0", CARGO_NET_OFFLINE="true", RUSTC_WRAPPER="",
           RUSTFLAGS="--cfg shpool_verif")
HT = os.path.join(WORK, "ht")


def err(msg):
    print("ERROR " + msg, file=sys.stderr)
    sys.exit(3)


def tree_hash(paths):
    h = hashlib.sha256()
    for p in paths:
        if os.path.isfile(p):
            files = [p]
        else:
            files = []
            for d, ds, fs in os.walk(p):
                ds[:] = sorted(x for x in ds if x not in ("target", "work", ".git", "__pycache__"))
                files += [os.path.join(d, f) for f in sorted(fs)]
        for f in files:
            h.update(f.encode() + b"\0")
            try:
                h.update(open(f, "rb").read())
            except OSError:
                pass
            h.update(b"\0")
    return h.hexdigest()


def build_rsym():
    env = dict(os.environ, RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true", RUSTC_WRAPPER="")
    env.pop("RUSTFLAGS", None)
    st = os.path.join(WORK, "rsym.hash")
    h = tree_hash([os.path.join(HERE, "rsym")])
    exe = os.path.join(WORK, "rt/release/rsym")
    if os.path.exists(exe) and os.path.exists(st) and open(st).read() == h:
        return exe
    r = subprocess.run(["cargo", "build", "--release", "--target-dir", os.path.join(WORK, "rt")],
                       cwd=os.path.join(HERE, "rsym"), env=env, capture_output=True, text=True)
    if r.returncode:
        err("rsym build failed\n" + r.stderr[-4000:])
    open(st, "w").write(h)
    return exe


def build_harness(groups):
    """IR and native binary of the harness; tries all groups first."""
    os.makedirs(WORK, exist_ok=True)
    h = tree_hash([os.path.join(REPO, x) for x in
                   ("libshpool", "shpool-protocol", "Cargo.toml", "Cargo.lock")]
                  + [os.path.join(HERE, "harness")])
    st = os.path.join(WORK, "harness.hash")
    ir, exe = os.path.join(WORK, "harness.ll"), os.path.join(WORK, "harness.bin")
    if os.path.exists(st) and os.path.exists(ir) and os.path.exists(exe):
        got = open(st).read().split()
        if got and got[0] == h and set(groups) <= set(got[1:]):
            return ir, exe, 0.0
    t0 = time.time()
    if os.path.exists(st):
        os.remove(st)
    subprocess.run(["cargo", "clean", "--release", "--target-dir", HT, "-p", "libshpool", "-p", "shpool-protocol",
                    "-p", "harness"], cwd=os.path.join(HERE, "harness"), env=ENV, capture_output=True)
    last = None
    for gs in (list(GROUPS), sorted(groups)):
        for d in (os.path.join(HT, "release/deps"), ):
            if os.path.isdir(d):
                for f in os.listdir(d):
                    if f.startswith("harness-"):
                        os.remove(os.path.join(d, f))
        r = subprocess.run(
            ["cargo", "rustc", "--offline", "--release", "--bin", "harness", "--target-dir", HT, "--no-default-features",
             "--features", ",".join(gs), "--config", 'profile.release.lto="fat"', "--",
             "--emit=llvm-ir,link", "-C", "no-vectorize-loops", "-C", "no-vectorize-slp"],
            cwd=os.path.join(HERE, "harness"), env=ENV, capture_output=True, text=True)
        if r.returncode == 0:
            d = os.path.join(HT, "release/deps")
            lls = [f for f in os.listdir(d) if f.startswith("harness-") and f.endswith(".ll")]
            if len(lls) != 1:
                err("expected one IR file, found %r" % lls)
            os.replace(os.path.join(d, lls[0]), ir)
            tmp = exe + ".tmp"
            subprocess.run(["cp", os.path.join(HT, "release/harness"), tmp], check=True)
            os.replace(tmp, exe)
            open(st, "w").write(" ".join([h] + list(gs)))
            return ir, exe, time.time() - t0
        last = r
        if set(gs) == set(groups):
            break
    err("harness build failed\n" + last.stderr[-6000:])


def demangle(s):
    m = re.match(r"_ZN(.*)E(\.llvm\.\d+)?$", s)
    if not m:
        return s
    t, out = m.group(1), []
    while t:
        k = re.match(r"(\d+)", t)
        if not k:
            break
        n = int(k.group(1))
        t = t[len(k.group(1)):]
        out.append(t[:n])
        t = t[n:]
    if out and re.match(r"h[0-9a-f]{16}$", out[-1]):
        out.pop()
    r = "::".join(out)
    for a, b in (("$LT$", "<"), ("$GT$", ">"), ("$u20$", " "), ("$RF$", "&"), ("$u7b$", "{"), ("$u7d$", "}"),
                 ("$C$", ","), ("$LP$", "("), ("$RP$", ")"), ("..", "::"), ("$BP$", "*"), ("$u5b$", "["), ("$u5d$", "]")):
        r = r.replace(a, b)
    return r


def trace_lines(trace):
    out = []
    for t in trace:
        if t["choose"]:
            out.append("C %s %d" % (t["name"], int(t["bytes"][:2], 16) if isinstance(t["bytes"], str) else t["bytes"][0]))
        elif t["bytes"]:
            b = t["bytes"]
            out.append("S %s %s" % (t["name"], b if isinstance(b, str) else "".join("%02x" % x for x in b)))
    return out


def replay(exe, entry, path):
    try:
        r = subprocess.run([exe, entry, path], capture_output=True, text=True, timeout=60,
                           env={"PATH": "/usr/bin:/bin", "HOME": "/nonexistent"}, errors="replace")
        return r.returncode, (r.stdout + r.stderr)[-2000:]
    except subprocess.TimeoutExpired:
        return 124, "native replay timed out"


def known_findings(pid):
    out = []
    p = os.path.join(HERE, "known_findings.jsonl")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("{"):
                k = json.loads(line)
                if k.get("property") == pid and k.get("status") == "known":
                    out.append(k)
    return out


def main():
    a = sys.argv[1:]
    if a and a[0] == "--setup":
        build_rsym()
        build_harness(GROUPS)
        return 0
    pid = a[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    P = PROPS[pid]
    t0 = time.time()
    rsym = build_rsym()
    ir, exe, bt = build_harness(P["groups"])
    entries = [e for e in P["entries"] if tier == "thorough" or not e.get("thorough_only")]
    edir = os.path.join(WORK, "runs", pid)
    os.makedirs(edir, exist_ok=True)
    kf = known_findings(pid)

    def go(e):
        out = os.path.join(edir, e["entry"] + ".json")
        if os.path.exists(out):
            os.remove(out)
        dl = e.get("deadline", 240) * (4 if tier == "thorough" else 1)
        cmd = [rsym, "--ir", ir, "--entry", e["entry"], "--deadline", str(dl), "--out", out,
               "--workers", str(e.get("workers", 8)), "--keep-going"]
        r = subprocess.run(cmd, capture_output=True, text=True, errors="replace")
        try:
            return e, json.load(open(out)), r.stderr[-3000:]
        except Exception as x:
            return e, {"status": "error", "errors": "no result (%s) rc=%s" % (x, r.returncode)}, r.stderr[-3000:]

    par = P.get("parallel", 1)
    with ThreadPoolExecutor(par) as tp:
        res = list(tp.map(go, entries))

    bad, nviol, seen_known = [], 0, []
    viol_lines = []
    validated = 0
    samples = []
    tot = {}
    funcs = set()
    for e, r, serr in res:
        for k in ("paths", "killed", "forks", "insts", "asserts_symbolic", "asserts_concrete", "z3_queries",
                  "cached_queries", "domain_queries", "audited_queries", "solver_us"):
            tot[k] = tot.get(k, 0) + r.get(k, 0)
        tot["max_query_us"] = max(tot.get("max_query_us", 0), r.get("max_query_us", 0))
        funcs |= set(r.get("functions", []))
        tried = {}
        for v in r.get("violations", []):
            msg = v.get("message", v.get("msg", ""))
            if tried.get(msg) or len(tried) > 12:
                continue
            lines = trace_lines(v["trace"])
            rp = os.path.join(edir, "%s-%s.replay" % (e["entry"], hashlib.sha1(("\n".join(lines)).encode()).hexdigest()[:10]))
            with open(rp, "w") as f:
                f.write("\n".join(lines) + "\n")
            rc, text = replay(exe, e["entry"], rp)
            with open(rp + ".txt", "w") as f:
                f.write("entry %s\nmessage %s\nnative rc %d\n%s\nbacktrace %s\n" % (e["entry"], msg, rc, text, v.get("backtrace", "")))
            if rc == 101:
                tried[msg] = True
                hit = [k for k in kf if k["entry"] == e["entry"] and re.fullmatch(k["message"], msg)]
                if hit:
                    if hit[0] not in seen_known:
                        seen_known.append(hit[0])
                else:
                    nviol += 1
                    viol_lines.append((msg, rp))
            else:
                bad.append("%s: counterexample did not reproduce natively (rc %d): %s\n%s" % (e["entry"], rc, msg, text[-400:]))
        if r["status"] not in ("ok", "violation"):
            bad.append("%s: %s %s %s" % (e["entry"], r["status"], r.get("errors", "")[:1500], serr[:1500]))
        elif r["status"] == "violation" and not r.get("violations"):
            bad.append("%s: violation without a trace" % e["entry"])
        elif r.get("errors"):
            bad.append("%s: %s" % (e["entry"], r["errors"][:1500]))
        if r["status"] == "ok":
            for tag in ["END"] + e.get("reach", []):
                if not r.get("reached", {}).get(tag):
                    bad.append("%s: vacuous, tag %s never reached" % (e["entry"], tag))
            # translation validation: completed paths replay natively to the same end
            for s in r.get("samples", []):
                rp = os.path.join(edir, "sample.replay")
                with open(rp, "w") as f:
                    f.write("\n".join(trace_lines(s["trace"])) + "\n")
                rc, text = replay(exe, e["entry"], rp)
                if rc != 0:
                    bad.append("%s: a completed path does not replay natively (rc %d): %s" % (e["entry"], rc, text[-300:]))
                else:
                    validated += 1
                    if len(samples) < 6:
                        samples.append({"entry": e["entry"], "inputs": trace_lines(s["trace"])[:60]})
    repo_funcs = sorted({demangle(f) for f in funcs if "libshpool" in f or "shpool_protocol" in f or "shpool_vt100" in f})
    if not repo_funcs:
        bad.append("no function of /repo was executed")
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": tot.get("paths", 0), "transitions": tot.get("insts", 0),
            "traces_validated_against_impl": validated,
            "samples": samples,
            "rule": "states = feasible symbolic paths run to their end; transitions = LLVM IR instructions executed "
                    "symbolically; validated = completed paths whose solver model was replayed against the native build",
            "functions_encoded": repo_funcs[:400], "functions_encoded_count": len(repo_funcs),
            "functions_total": len(funcs),
            "entries": [{"entry": e["entry"], "bounds": e["bounds"], "status": r["status"], "paths": r.get("paths"),
                         "wall_s": r.get("wall_s"), "reached": r.get("reached")} for e, r, _ in res],
            "solver_queries": tot.get("z3_queries", 0), "queries_decided_by_finite_domains": tot.get("domain_queries", 0),
            "of_which_also_put_to_z3": tot.get("audited_queries", 0),
            "queries_cached": tot.get("cached_queries", 0),
            "solver_time_s": round(tot.get("solver_us", 0) / 1e6, 3),
            "max_query_s": round(tot.get("max_query_us", 0) / 1e6, 3),
            "assertions_symbolic": tot.get("asserts_symbolic", 0), "assertions_concrete": tot.get("asserts_concrete", 0),
            "forks": tot.get("forks", 0), "build_s": round(bt, 1),
        },
        "assumptions": P.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": nviol,
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k in seen_known:
        print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    for msg, rp in viol_lines:
        print("# " + msg)
        print("VIOLATION property=%s replay=%s" % (pid, rp))
    if viol_lines:
        return 1
    for e, r, _ in res:
        print("%s %s paths=%s wall=%ss" % (e["entry"], r["status"], r.get("paths"), r.get("wall_s")))
    if bad:
        err("\n".join(bad))
    return 0


sys.exit(main())
