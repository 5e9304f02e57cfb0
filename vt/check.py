#!/usr/bin/env python3
"""One property's check: (1) weave the contracts into /repo's current source and let Verus discharge every obligation of the
functions the property rests on; (2) run the bounded stand-in (drv) for what is not under contract; (3) write the evidence.

Exit 0: everything explored held.  Exit 1 + VIOLATION line: a named obligation failed and/or a failing input was found.
A tool limit (construct outside the verifier's dialect, lost anchor, resource limit) is never reported as a violation: the
function is listed as undecided in the evidence and the bounded stand-in decides.
"""
import argparse, fnmatch, resource, glob, json, os, re, shutil, subprocess, sys, tempfile, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VP_REPO", "/repo")
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
import weave as W
from props import PROPS

BUILD = os.path.join(VERIF, ".build")
DEPS = os.path.join(BUILD, "deps")
FLAGS = {"64": "--cfg ibig_verif", "32": '--cfg ibig_verif --cfg force_bits="32"', "16": '--cfg ibig_verif --cfg force_bits="16"'}


def sh(cmd, timeout=None, **kw):
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, start_new_session=True, **kw)
    try:
        o, e = p.communicate(timeout=timeout)
        return p.returncode, o, e
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except ProcessLookupError:
            pass
        o, e = p.communicate()
        return None, o, e


# ---------------------------------------------------------------- bounded stand-in
def build_drv(width):
    """Builds the driver against /repo's working tree; returns the binary or an error text."""
    env = dict(os.environ, RUSTFLAGS=FLAGS[width], CARGO_TARGET_DIR=os.path.join(BUILD, "drv" + width), CARGO_NET_OFFLINE="true")
    manifest = os.path.join(VERIF, "drv", "Cargo.toml")
    if REPO != "/repo":
        d = os.path.join(BUILD, "drvsrc" + width)
        shutil.rmtree(d, ignore_errors=True)
        shutil.copytree(os.path.join(VERIF, "drv"), d, ignore=shutil.ignore_patterns("target"))
        t = open(os.path.join(d, "Cargo.toml")).read().replace('"/repo"', json.dumps(REPO))
        open(os.path.join(d, "Cargo.toml"), "w").write(t)
        manifest = os.path.join(d, "Cargo.toml")
    rc, o, e = sh(["cargo", "build", "--release", "--offline", "--manifest-path", manifest], timeout=600, env=env)
    b = os.path.join(BUILD, "drv" + width, "release", "drv")
    if rc != 0 or not os.path.exists(b):
        return None, e[-3000:]
    return b, None


def run_drv(binary, prop, secs, seed, threads):
    """-> (json or None, failure dict or None)"""
    cmd = [binary, "--property", prop, "--seconds", str(secs), "--seed", str(seed), "--threads", str(threads)]
    lim = lambda: resource.setrlimit(resource.RLIMIT_AS, (20 << 30, 20 << 30))
    rc, o, e = sh(cmd, timeout=secs + 120, preexec_fn=lim)
    try:
        j = json.loads(o.strip().split("\n")[-1])
    except Exception:
        j = None
    if j is not None:
        return j, j.get("failure")
    # the process died (abort, overflowed stack, hang): the driver writes each case before running it in --trace mode
    for t in range(2):
        d = tempfile.mkdtemp(dir=BUILD)
        try:
            rc2, o2, e2 = sh(cmd[:-2] + ["--threads", str(threads), "--trace", d], timeout=secs + 30, preexec_fn=lim)
            if rc2 in (0, 1):
                try:
                    j = json.loads(o2.strip().split("\n")[-1])
                    if j.get("failure"):
                        return j, j["failure"]
                except Exception:
                    pass
                continue
            for f in sorted(os.listdir(d)):
                op, _, args = open(os.path.join(d, f)).read().partition("\n")
                if not op:
                    continue
                open(os.path.join(d, "args"), "w").write(args.strip())
                rc3, o3, e3 = sh([binary, "--property", prop, "--op", op, "--args-file", os.path.join(d, "args")], timeout=20, preexec_fn=lim)
                if rc3 != 0:
                    m = "does not terminate within 20 s" if rc3 is None else ("the process dies: " + (e3.strip().split("\n") or [""])[0][:200] if rc3 not in (1,) else o3.strip()[:500])
                    return {"evaluations": 1, "distinct_nontrivial": 1, "samples": [op + " " + args[:300]]}, {"op": op, "args": args.strip(), "message": m}
        finally:
            shutil.rmtree(d, ignore_errors=True)
    return None, None


# ---------------------------------------------------------------- verifier
def deps_ready():
    if not (os.path.exists(os.path.join(DEPS, "libcfg_if.rlib")) and os.path.exists(os.path.join(DEPS, "libstatic_assertions.rlib"))):
        rc, o, e = sh(["bash", os.path.join(HERE, "deps.sh"), DEPS], timeout=120)
        if rc != 0:
            raise RuntimeError("deps.sh: " + e[-500:])


def modpath(rel):
    rel = re.sub(r"^arch/(x86_64|generic\w*)/", "arch/arch_impl/", rel)
    p = rel[:-3].split("/")
    if p[-1] == "mod":
        p = p[:-1]
    return "::".join(p)


OBLIGATION = re.compile(r"precondition not satisfied|postcondition not satisfied|invariant not satisfied|assertion failed|possible arithmetic|possible division|possible bit shift|decreases not satisfied|failed to satisfy|unreachable|not satisfied|may fail|might fail|index out of|requires not satisfied|split assertion", re.I)
LIMIT = re.compile(r"rlimit|resource limit|timed? ?out|could not prove termination of|solver .*(died|crash)", re.I)


def verify(width, prop, tier, deadline, log):
    """Runs the verifier on the woven crate; falls back function by function when the front end refuses something."""
    cfg = PROPS[prop]
    contracts = sorted(glob.glob(os.path.join(VERIF, "contracts", "*.vc"))) + sorted(glob.glob(os.path.join(VERIF, "contracts", prop, "*.vc")))
    demote, drop, notes = set(), set(), []
    res = {"width": width, "notes": notes, "failed": [], "undecided": {}, "functions": {}, "obligations": 0, "discharged": 0, "solver_ms": 0, "ran": False}
    out = os.path.join(BUILD, f"w-{prop}-{width}-{os.getpid()}")
    extra = ["--rlimit", "60" if tier == "quick" else "200"]
    for attempt in range(14):
        shutil.rmtree(out, ignore_errors=True)
        w = W.Weave(REPO, out, width, contracts, demote=demote, drop=drop)
        try:
            rep = w.run()
        except Exception as ex:
            notes.append(f"weaver: {ex!r}")
            res["undecided"]["*"] = f"the weaver could not process the source: {ex!r}"
            break
        fids = {f: i for f, i in rep["functions"].items()}
        match = lambda pats: {f for f in fids if any(fnmatch.fnmatch(f, p) for p in pats)}
        own, deps = match(cfg["own"]), match(cfg["deps"])
        lostf = {x[0]: x[1] for x in rep["lost"]}
        if set(lostf) - demote - drop & set(fids):
            new = (set(lostf) & set(fids)) - demote - drop
            if new:
                for f in new:
                    res["undecided"][f] = "anchor lost: " + str(lostf[f])
                demote |= new
                continue
        files = {f.split("::")[0] for f in own | deps}
        mods = sorted({modpath(f) for f in files} | {os.path.basename(f)[:-3] for f in glob.glob(os.path.join(out, "vp_*.rs"))} | {m for m in cfg.get("mods", [])})
        cmd = ["verus", "lib.rs", "--crate-type", "lib", "--triggers-mode", "silent", "--error-format=json", "--output-json", "--time-expanded",
               "--extern", f"cfg_if={DEPS}/libcfg_if.rlib", "--extern", f"static_assertions={DEPS}/libstatic_assertions.rlib", *extra]
        for m in mods:
            cmd += ["--verify-only-module", m]
        t0 = time.time()
        budget = deadline - time.time()
        if budget < 10:
            res["undecided"]["*"] = "time budget exhausted"
            break
        rc, o, e = sh(cmd, timeout=budget, cwd=out)
        res["checker_cmd"] = " ".join(cmd)
        log(f"verus {width} attempt {attempt}: rc={rc} {time.time() - t0:.1f}s")
        if rc is None:
            res["undecided"]["*"] = "verifier timed out"
            break
        diags = []
        for line in e.split("\n"):
            if line.startswith("{"):
                try:
                    d = json.loads(line)
                except Exception:
                    continue
                if d.get("level") == "error":
                    diags.append(d)
        try:
            j = json.loads(o[o.index("{"):])
        except Exception:
            j = {}
        vr = j.get("verification-results", {})

        def fids_of(d):
            """Functions whose woven text contains a primary span of the diagnostic."""
            r, anyf = [], set()
            todo = [d] + d.get("children", [])
            for x in todo:
                for s in x.get("spans", []):
                    f, ln = os.path.normpath(s["file_name"]), s["line_start"]
                    anyf.add(f)
                    for a, b, fid in w.linemap.get(f, []):
                        if a <= ln <= b:
                            (r.insert(0, fid) if s["is_primary"] else r.append(fid))
            return r, anyf
        front = [d for d in diags if not OBLIGATION.search(d["message"]) and not LIMIT.search(d["message"]) and not d["message"].startswith("aborting")]
        if (vr.get("encountered-vir-error") or not vr or "verified" not in vr) and (front or rc != 0):
            # the front end refused the program: leave the offending functions unverified (assumed), say so, go on
            new = set()
            for d in front:
                ids, anyf = fids_of(d)
                prim = [i for i in ids[:1]]
                for i in prim:
                    if i not in demote:
                        new.add(("d", i, d["message"]))
                    elif i not in drop:
                        new.add(("x", i, d["message"]))
                if not prim:
                    for f in anyf:
                        for a, b, fid in w.linemap.get(f, []):
                            if fid not in demote:
                                new.add(("d", fid, "front-end error in the same file: " + d["message"]))
            if not new:
                notes.append("front end: " + "; ".join(d["message"] for d in front)[:600] + (e[-300:] if not front else ""))
                res["undecided"]["*"] = "the verifier's front end refused the program: " + "; ".join(d["message"] for d in front)[:300]
                break
            for k, i, m in new:
                res["undecided"][i] = ("not expressible: " if k == "d" else "contract no longer fits: ") + m[:200]
                (demote if k == "d" else drop).add(i)
            continue
        res["ran"] = True
        bad = {}
        for d in diags:
            if d["message"].startswith("aborting"):
                continue
            ids, anyf = fids_of(d)
            who = ids[0] if ids else (sorted(anyf)[0] + "::?" if anyf else "?")
            if LIMIT.search(d["message"]):
                res["undecided"].setdefault(who, "resource limit")
            else:
                bad.setdefault(who, []).append((d["message"], d.get("rendered", "")[:1500]))
        lemma_fail = [k for k in bad if k.endswith("::?") or k == "?"]
        for k in lemma_fail:
            notes.append(f"lemma outside any function failed in {k}: {bad[k][0][0]}")
        for k, v in bad.items():
            if k in res["undecided"] or k in lemma_fail and not any(fnmatch.fnmatch(k, p) for p in cfg["own"]):
                continue
            mine = k in own or k in lemma_fail
            if k in own and cfg.get("own_filter") and not any(fnmatch.fnmatch(k, p) for p in cfg["own_any"]):
                # the property is one aspect of the contract: only obligations about it count here, the others are other properties' own
                mine = any(re.search(cfg["own_filter"], m + t) for m, t in v)
            res["failed"].append({"function": k, "own": mine, "errors": v})
        badf = set(bad)
        sm = j.get("times-ms", {}).get("smt", {}).get("smt-run-module-times", [])
        nq = ok = 0
        per = {}
        for m in sm:
            for f in m.get("function-breakdown", []):
                nq += 1
                ok += bool(f["success"])
                per[f["function"]] = f["time-micros"] / 1000
        res["obligations"], res["discharged"] = nq, ok
        res["verified_items"], res["error_items"] = vr.get("verified"), vr.get("errors")
        res["solver_ms"] = j.get("times-ms", {}).get("smt", {}).get("smt-run", 0)
        res["queries_ms"] = {k: round(v, 1) for k, v in sorted(per.items(), key=lambda x: -x[1])[:25]}
        break
    try:
        res["functions"] = {f: ("trusted" if fids[f]["trusted"] else "undecided" if f in demote or f in drop or f in res["undecided"] else "failed" if any(x["function"] == f for x in res["failed"]) else "proved" if res["ran"] else "undecided") for f in sorted(own | deps)}
        res["own"] = sorted(own)
        res["missing"] = [m for m in rep["missing"]]
        res["rewrites"] = sorted({f"{a}: `{b}` => `{c}`" for a, b, c in rep["rewrites"] if a in own | deps})
        res["dropped"] = rep["dropped"]
        for m in rep["missing"]:
            notes.append("contracted item no longer in the source: " + m)
        res["assumed"] = scan_assumed(out)
    except NameError:
        pass
    res["out"] = out
    return res


def scan_assumed(out):
    """Every unproved assumption in the woven text."""
    r = []
    for d, _, fl in os.walk(out):
        for f in fl:
            if f.endswith(".rs"):
                t = open(os.path.join(d, f)).read()
                rel = os.path.relpath(os.path.join(d, f), out)
                for m in re.finditer(r"assume_specification(?:<[^\[]*>)?\s*\[\s*([^\]]*?)\s*\]", t):
                    r.append("assumed contract of " + m.group(1))
                for m in re.finditer(r"#\[verifier::external_body\]\s*(?:#\[[^\]]*\]\s*)*(?:/\*@FN (.*?)\*/)?\s*(?:pub(?:\([a-z]+\))?\s+)?(?:const\s+|unsafe\s+|broadcast\s+|proof\s+)*(?:fn|struct)\s+(\w+)", t):
                    if (m.group(2)) != "vp_panic":
                        r.append(f"trusted contract (body not verified): {m.group(1) or rel + '::' + m.group(2)}")
                for m in re.finditer(r"\b(assume|admit)\s*\(", t):
                    r.append(f"{m.group(1)}() in {rel} at offset {m.start()}")
    return sorted(set(r))


# ---------------------------------------------------------------- main
def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--no-drv", action="store_true")
    ap.add_argument("--no-verus", action="store_true")
    a = ap.parse_args()
    prop, tier = a.prop, a.tier
    thorough = tier == "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    os.makedirs(BUILD, exist_ok=True)
    for old in glob.glob(os.path.join(BUILD, f"w-{prop}-*")):
        shutil.rmtree(old, ignore_errors=True)
    logs = []
    log = lambda s: (logs.append(s), print(f"[{time.time() - t0:6.1f}s] {s}", file=sys.stderr))
    cfg = PROPS[prop]
    wid_v = [] if a.no_verus or not (cfg["own"] or cfg["deps"]) else (["x86_64", "g64", "g32", "g16"] if thorough else cfg.get("quick_widths", ["x86_64"]))
    wid_d = [] if a.no_drv else (["64", "32", "16"] if thorough else cfg.get("drv_widths", ["64", "16"]))
    secs = (150 if thorough else cfg.get("drv_seconds", 12))
    bins, builderr = {}, {}

    def builds():
        ths = []
        for w in wid_d:
            def f(w=w):
                bins[w], builderr[w] = build_drv(w)
            t = threading.Thread(target=f)
            t.start()
            ths.append(t)
        for t in ths:
            t.join()
    bt = threading.Thread(target=builds)
    bt.start()
    ver = []
    vdead = t0 + (3 * 3600 if thorough else 420)
    if wid_v:
        deps_ready()
        for w in wid_v:
            ver.append(verify(w, prop, tier, vdead, log))
    bt.join()
    log("driver built: " + ", ".join(f"{w}={'ok' if bins.get(w) else 'FAILED'}" for w in wid_d))
    runs, failure = {}, None

    def explore(secs, seed):
        nonlocal failure
        for w in wid_d:
            if not bins.get(w) or failure:
                continue
            j, f = run_drv(bins[w], prop, secs, seed, os.cpu_count() or 4)
            log(f"driver {w}: {j and j['evaluations']} evaluations, failure={bool(f)}")
            if j:
                r = runs.setdefault(w, {"evaluations": 0, "distinct_nontrivial": 0, "samples": []})
                r["evaluations"] += j["evaluations"]
                r["distinct_nontrivial"] += j["distinct_nontrivial"]
                r["samples"] = (r["samples"] + j["samples"])[:4]
            if f:
                failure = dict(f, width=w)
    explore(secs, seed)
    failed_own = [x for v in ver for x in v["failed"] if x["own"]]
    failed_dep = [x for v in ver for x in v["failed"] if not x["own"]]
    if (failed_own or failed_dep) and not failure:
        # an obligation failed: look for an input that shows it on the real code
        for k in range(1, 4):
            if time.time() - t0 > (600 if not thorough else 1e9) or failure:
                break
            explore(max(secs, 25), seed + 1000 * k)
    # ---- evidence
    vio = 1 if failure or failed_own else 0
    trusted = sorted({x for v in ver for x in v.get("assumed", [])})
    assumptions = list(cfg.get("assumptions", [])) + [
        "Verus (front end, AIR, Z3), rustc and the weaver's text insertion are trusted",
        "the weaver drops #[cfg(test)] items; of the modules rand, serde, num_traits it takes only the functions under contract (as free functions, external traits replaced by stand-ins with assumed contracts); every rewrite it made is listed in coverage.rewrites",
    ]
    fn_all = {}
    for v in ver:
        for f, s in v["functions"].items():
            fn_all.setdefault(f, {})[v["width"]] = s
    obligations = sum(v["obligations"] for v in ver)
    discharged = sum(v["discharged"] for v in ver)
    level = cfg.get("level", "other")
    cov = {
        "obligations": obligations, "discharged": discharged,
        "checker_cmd": ver[0].get("checker_cmd", "") if ver else "",
        "backend": "Verus 0.2026.09.13 / Z3 4.12.5 (bundled)",
        "solver_ms": sum(v["solver_ms"] for v in ver),
        "verified_widths": [v["width"] for v in ver if v["ran"]],
        "functions_under_contract": {f: s for f, s in sorted(fn_all.items())},
        "own_functions": sorted({f for v in ver for f in v.get("own", [])}),
        "undecided": {v["width"]: v["undecided"] for v in ver if v["undecided"]},
        "missing": {v["width"]: v.get("missing") for v in ver if v.get("missing")},
        "trusted_base": trusted,
        "rewrites": sorted({r for v in ver for r in v.get("rewrites", [])}),
        "slowest_queries_ms": ver[0].get("queries_ms", {}) if ver else {},
        "bounded_standin": {"label": "bounded: not counted as proved", "functions": cfg.get("bounded", "everything the property depends on that is not listed in functions_under_contract"),
                            "widths": runs, "seconds_per_width": secs},
        "evaluations": sum(r["evaluations"] for r in runs.values()),
        "distinct_nontrivial": sum(r["distinct_nontrivial"] for r in runs.values()),
        "rule": "generated arguments (structured word patterns: runs of 0/1 bits, words near 0 and MAX, lengths around the algorithm thresholds) evaluated against an independent reference; distinct = distinct (operation, arguments), non-trivial = at least one argument longer than one word or at a boundary value",
        "samples": [s for r in runs.values() for s in r["samples"]][:6] or ["(no driver run)"],
        "explanation": "contract-based deductive verification of the woven real source (Verus) plus a bounded stand-in for the functions outside its reach",
        "log": logs,
    }
    ev = {"property": prop, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": seed, "level": level, "coverage": cov,
          "assumptions": assumptions, "wall_s": round(time.time() - t0, 2), "violations": vio}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for v in ver:
        if "out" in v and not os.environ.get("VP_KEEP"):
            shutil.rmtree(v["out"], ignore_errors=True)
    for w in wid_d:
        if not bins.get(w):
            print(f"driver for {w}-bit words did not build: {builderr.get(w)}", file=sys.stderr)
    if wid_d and not any(bins.values()):
        print("no driver could be built against /repo: the tree does not compile with the hooks")
        sys.exit(2)
    for v in ver:
        for f, why in v["undecided"].items():
            print(f"UNDECIDED property={prop} width={v['width']} {f}: {why}")
    if vio:
        rd = os.path.join(VERIF, "replays")
        os.makedirs(rd, exist_ok=True)
        rp = os.path.join(rd, prop + ".json")
        json.dump({"property": prop, "failing_input": failure, "failed_obligations": failed_own + failed_dep,
                   "how_to_replay": failure and f"python3 {HERE}/replay.py {rp}"}, open(rp, "w"), indent=1)
        for x in failed_own + failed_dep:
            print(f"FAILED OBLIGATION {x['function']}: {x['errors'][0][0]}")
        if failure:
            print(f"FAILING INPUT width={failure['width']} {failure['op']} {failure['args'][:400]}: {failure['message'][:400]}")
        print(f"VIOLATION property={prop} replay={rp}" + ("" if failure else " no-failing-input-found"))
        sys.exit(1)
    for x in failed_dep:
        print(f"NOTE property={prop}: obligation of a dependency failed, no input breaking this property found: {x['function']}: {x['errors'][0][0]}")
    for l in open(os.path.join(VERIF, "known_findings.txt")) if os.path.exists(os.path.join(VERIF, "known_findings.txt")) else []:
        if l.startswith(f"known: property={prop} "):
            print("KNOWN-FINDING: " + l[len("known: "):].strip())
    und = sum(len(v["undecided"]) for v in ver)
    print(f"OK property={prop} obligations={discharged}/{obligations} undecided={und} evaluations={cov['evaluations']} wall={ev['wall_s']}s")


if __name__ == "__main__":
    main()
