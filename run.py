#!/usr/bin/env python3
"""Discharge the proof units of one property against /repo's current source.

  run.py C01                 check a property (VERIF_TIER=quick|thorough)
  run.py C01 -u unit         only the named unit(s) (development)
  run.py --replay FILE       re-run a recorded counterexample on the real code
"""
import argparse, concurrent.futures, importlib.util, json, os, re, resource
import shutil, signal, subprocess, sys, tempfile, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VP_REPO", "/repo")
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
OUT = os.path.join(HERE, "out")

DEFS = ["-std=gnu11", "-DHAVE_CONFIG_H", "-D_GNU_SOURCE", "-DNVC_VERIFY=1", "-w"]
INCS = [f"-I{HERE}/lib", f"-I{HERE}/shim", f"-I{REPO}/src", f"-I{REPO}/thirdparty",
        f"-I{REPO}"]
# Default set of safety obligations; units may switch some off (with a reason).
CBMC_BASE = ["--no-malloc-may-fail", "--object-bits", "10", "--drop-unused-functions",
             "--no-signed-overflow-check", "--no-undefined-shift-check"]

# A run must give an answer: on the quick tier no unit may run past the budget
# (what is left is reported as undecided)
T0 = time.time()
BUDGET = float(os.environ.get("VP_BUDGET", "760" if TIER == "quick" else "1e9"))

def left():
    return max(1.0, BUDGET - (time.time() - T0))

def fuzz_time():
    full = float(os.environ.get("VP_FUZZ_S", "60"))
    return min(full if left() > BUDGET * 0.7 else full / 6, left() - 20)

class Undecided(Exception):
    pass

def limits(mem_gb):
    def f():
        os.setsid()
        if mem_gb < 1e5:
            b = int(mem_gb * (1 << 30))
            resource.setrlimit(resource.RLIMIT_AS, (b, b))
    return f

def run(cmd, timeout, cwd=None, mem_gb=9, env=None):
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=cwd,
                         preexec_fn=limits(mem_gb), env=env)
    try:
        o, e = p.communicate(timeout=timeout)
        return p.returncode, o.decode("utf-8", "replace"), e.decode("utf-8", "replace")
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        p.communicate()
        return None, "", "timeout"

def load_units(prop):
    path = os.path.join(HERE, "harness", prop, "units.py")
    spec = importlib.util.spec_from_file_location("units_" + prop, path)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    units = []
    for u in m.UNITS:
        d = dict(DEFAULT_UNIT)
        d.update(getattr(m, "DEFAULTS", {}))
        d.update(u)
        d["dir"] = os.path.dirname(path)
        d["prop"] = prop
        units.append(d)
    return m, units

DEFAULT_UNIT = dict(file=None, defs=[], unwind=None, unwindset=[], flags=[], loops=False,
                    dfcc=False, enforce=[], replace=[], solver=None, timeout=240, level="proof",
                    bound=None, functions=[], tier="quick", native=True, fatal_ok=False,
                    fuzz=3000, known=None, shim=True, weight=1, stubs=True, nofallback=False,
                    src=[], xform_native=False, optional=False, drop=[], inline_lc=False, xform={})

def stub_defs(u):
    d = list(u["defs"])
    if u["fatal_ok"]:
        d.append("-DVP_FATAL_OK")
    return d

def rewritten(u, wd):
    incs = []
    for rel, subs in u["xform"].items():
        # Mechanical rewriting of one source file for the verifier's benefit
        # only; what it changes is stated where the substitution is defined
        text = open(os.path.join(REPO, "src", rel), encoding="utf-8", errors="surrogateescape").read()
        for pat, rep in subs:
            text = re.sub(pat, rep, text, flags=re.M)
        dst = os.path.join(wd, "x-" + u["id"], rel)
        os.makedirs(os.path.dirname(dst), exist_ok=True)
        open(dst, "w", encoding="utf-8", errors="surrogateescape").write(text)
        incs = [f"-I{wd}/x-{u['id']}"]
    return incs

def build_goto(u, wd, lc):
    src = os.path.join(u["dir"], u["file"])
    gb = os.path.join(wd, u["id"] + ".gb")
    srcs = [src] + ([os.path.join(HERE, "lib", "vp_stubs.c")] if u["stubs"] else [])
    incs = ([f"-I{HERE}/shim/cbmc"] if u["shim"] else [])
    incs += rewritten(u, wd)
    incs = incs + INCS + [f"-I{u['dir']}"]
    cmd = ["goto-cc", "-DVP_CBMC=1", "-o", gb, "--function", "harness"] + DEFS + stub_defs(u) + incs + srcs + u["src"]
    if lc:
        cmd.insert(1, "-DVP_LOOP_CONTRACTS=1")
    rc, o, e = run(cmd, 120)
    if rc != 0:
        raise Undecided("goto-cc: " + (e + o)[-1500:])
    for fn in u["drop"]:
        rc, o, e = run(["goto-instrument", "--remove-function-body", fn, gb, gb], 120)
    if u["dfcc"]:
        gb2 = gb + "2"
        cmd = ["goto-instrument", "--dfcc", "harness"]
        for f in u["enforce"]:
            cmd += ["--enforce-contract", f]
        for f in u["replace"]:
            cmd += ["--replace-call-with-contract", f]
        if lc:
            cmd += ["--apply-loop-contracts"]
        rc, o, e = run(cmd + [gb, gb2], 300)
        if rc != 0:
            raise Undecided("goto-instrument: " + (e + o)[-1500:])
        gb = gb2
    elif lc:
        gb2 = gb + "2"
        rc, o, e = run(["goto-instrument", "--apply-loop-contracts", gb, gb2], 300)
        if rc != 0:
            raise Undecided("goto-instrument: " + (e + o)[-1500:])
        gb = gb2
    return gb

def cbmc_cmd(u, gb, scale=1, json_ui=True, solver=None):
    cmd = ["cbmc", gb] + [x for x in CBMC_BASE if "--" + x[5:] not in u["flags"]] + (["--json-ui"] if json_ui else [])
    if u["unwind"]:
        cmd += ["--unwind", str(u["unwind"] * scale)]
    if u["unwindset"]:
        cmd += ["--unwindset", ",".join(u["unwindset"])]
    s = solver or u["solver"]
    if s in ("cvc5", "z3"):
        cmd += ["--" + s]
    elif s:
        cmd += ["--sat-solver", s]
    return cmd + u["flags"]

def parse_cbmc(out):
    try:
        msgs = json.loads(out)
    except json.JSONDecodeError:
        raise Undecided("cbmc gave no parsable result: " + out[-800:])
    results = None
    err = []
    for m in msgs:
        if "result" in m:
            results = m["result"]
        if m.get("messageType") == "ERROR":
            err.append(m.get("messageText", ""))
    if results is None:
        raise Undecided("cbmc: " + "; ".join(err)[-800:])
    return results

def parse_text(out):
    """Result lines of the plain interface (JSON output is unusable with SMT
    back ends, where cbmc fails to print some trace values)."""
    results = []
    for m in re.finditer(r"^\[([^\]]+)\] (?:line \d+ )?(.*): (SUCCESS|FAILURE|UNKNOWN|ERROR)$", out, re.M):
        results.append(dict(property=m.group(1), description=m.group(2), status=m.group(3)))
    if not results or not re.search(r"^\*\* \d+ of %d failed" % len(results), out, re.M):
        raise Undecided("cbmc: " + out[-300:])
    return results

def is_unwind(r):
    return ".unwind." in r["property"] or "unwinding assertion" in r.get("description", "") \
        or ".recursion" in r["property"]

def inputs_from_trace(trace):
    vals = []
    for st in trace:
        if st.get("stepType") == "assignment" and st.get("lhs") == "vp_in" and \
           st.get("assignmentType") != "actual-parameter":
            v = st.get("value", {})
            if "binary" in v:
                vals.append(int(v["binary"], 2))
            else:
                m = re.match(r"(\d+)", v.get("data", "0"))
                vals.append(int(m.group(1)) if m else 0)
    # the first assignment is the static initialiser
    return vals[1:] if vals else []

NATIVE_LOCK = threading.Lock()

def build_native(u, wd):
    exe = os.path.join(wd, u["id"] + ".native")
    src = os.path.join(u["dir"], u["file"])
    srcs = [src] + ([os.path.join(HERE, "lib", "vp_stubs.c")] if u["stubs"] else [])
    cmd = ["gcc", "-g", "-O1", "-o", exe, "-fsanitize=address,bounds,null,integer-divide-by-zero",
           "-fno-sanitize-recover=all", "-fno-omit-frame-pointer",
           "-no-pie", "-msse4.1", "-mavx2", "-msha",
           ] + DEFS + stub_defs(u) + (rewritten(u, wd) if u["xform_native"] else []) + INCS + \
          [f"-I{u['dir']}"] + srcs + u["src"] + ["-lm", "-lpthread"]
    NATIVE_LOCK.acquire()
    try:
        if os.path.exists(exe):
            return exe
        env = dict(os.environ, LC_ALL="C")
        rc, o, e = run(cmd, 180, mem_gb=1e6, env=env)
        if rc != 0 and "undefined reference to" in e:
            # Parts of nvc the unit does not reach: any call of one traps
            syms = sorted(set(re.findall(r"undefined reference to `([A-Za-z_0-9]+)'", e)))
            stub = os.path.join(wd, u["id"] + ".undef.s")
            with open(stub, "w") as f:
                f.write(".section .note.GNU-stack,\"\",@progbits\n.text\n")
                for x in syms:
                    f.write(".globl %s\n%s: ud2\n" % (x, x))
            rc, o, e = run(cmd + [stub], 180, mem_gb=1e6, env=env)
        if rc != 0:
            raise Undecided("gcc: " + (e + o)[-1500:])
        return exe
    finally:
        NATIVE_LOCK.release()

NENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1:abort_on_error=0:exitcode=67",
            UBSAN_OPTIONS="print_stacktrace=1")

def native_run(exe, args, timeout=20):
    p = subprocess.Popen([exe] + args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=NENV,
                         preexec_fn=os.setsid)
    try:
        o, e = p.communicate(timeout=timeout)
        return p.returncode, e.decode("utf-8", "replace")
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.communicate()
        return "hang", "no result within %d s" % timeout

def native_bad(rc):
    return rc not in (0, 77)

def native_fuzz(u, wd, n, deadline):
    """Random search for a failing input, used where the verifier gave no answer."""
    exe = build_native(u, wd)
    ran = 0
    dump = os.path.join(wd, u["id"] + ".dump")
    for i in range(n):
        if time.time() > deadline:
            break
        rc, e = native_run(exe, ["-r", str(SEED * 1000003 + i), dump])
        ran += rc == 0
        if native_bad(rc):
            rc2, e2 = native_run(exe, [dump])
            if native_bad(rc2):
                vals = [int(x) for x in open(dump).read().split()]
                return ran, vals, "exit %s " % rc2 + e2
    return ran, None, ""

def check_unit(u, wd):
    """Returns a dict: status in ok / violation / undecided plus measurements."""
    t0 = time.time()
    res = dict(id=u["id"], level=u["level"], functions=u["functions"], bound=u["bound"],
               obligations=0, discharged=0, solver_s=0.0, status="ok", solver=u["solver"] or "minisat2",
               notes=[])
    lc = u["loops"]
    try:
        if left() < 30:
            raise Undecided("not attempted: time budget used up")
        gb = build_goto(u, wd, lc)
        scale = 1
        tv = time.time()
        smt = u["solver"] in ("cvc5", "z3")
        parse = parse_text if smt else parse_cbmc
        rc, o, e = run(cbmc_cmd(u, gb, json_ui=not smt), min(left(), int(os.environ.get("VP_TIMEOUT", 0)) or u["timeout"]))
        res["solver_s"] = round(time.time() - tv, 2)
        if rc is None:
            raise Undecided("verifier timeout (%d s)" % u["timeout"])
        if rc not in (0, 10):
            try:
                parse(o)
            except Undecided as x:
                raise Undecided("cbmc exit %s: %s %s" % (rc, x, e[-300:]))
        results = parse(o)
        reach = [r for r in results if r.get("description", "").startswith("REACH:")]
        obl = [r for r in results if r not in reach]
        failed = [r for r in obl if r["status"] == "FAILURE"]
        other = [r for r in obl if r["status"] not in ("SUCCESS", "FAILURE")]
        res["obligations"] = len(obl)
        res["discharged"] = len([r for r in obl if r["status"] == "SUCCESS"])
        res["ensures"] = [r["description"][9:] for r in obl if r.get("description", "").startswith("ENSURES:")]
        unreached = [r["description"] for r in reach if r["status"] != "FAILURE"]
        unw = [r for r in failed if is_unwind(r)]
        real = [r for r in failed if not is_unwind(r)]
        if real:
            # postconditions first, then the code's own assertions, then memory safety
            def rank(r):
                d = r.get("description", "")
                if d.startswith("ENSURES"): return 0
                if "assertion" in d: return 1
                return 2
            real.sort(key=rank)
            res["status"] = "violation"
            res["failed"] = [(r["property"], r.get("description", "")) for r in real]
            res["replayed"] = False
            if lc and not u["nofallback"]:
                # The inductive step failed: look for an input on the real loop
                res["induction"] = True
            # Counterexample for the leading obligation(s)
            for r in real[:3]:
                if not u["native"] or lc:
                    break
                rc2, o2, e2 = run(cbmc_cmd(u, gb, solver="cadical" if smt else None) +
                                 ["--trace", "--property", r["property"]], min(left(), 60 if smt else u["timeout"]))
                if rc2 is None:
                    continue
                try:
                    rr = [x for x in parse_cbmc(o2) if x["property"] == r["property"]]
                except Undecided:
                    continue
                if not rr or "trace" not in rr[0]:
                    continue
                vals = inputs_from_trace(rr[0]["trace"])
                res["values"] = vals
                try:
                    exe = build_native(u, wd)
                except Undecided as x:
                    res["notes"].append("native build: " + str(x)[-300:])
                    break
                vf = os.path.join(wd, u["id"] + ".vals")
                open(vf, "w").write("\n".join(map(str, vals)) + "\n")
                rcn, en = native_run(exe, [vf])
                if native_bad(rcn):
                    res["replayed"] = True
                    res["native_output"] = en[-3000:]
                    res["failed"].insert(0, (r["property"], r.get("description", "")))
                    break
            if not res["replayed"] and u["native"]:
                try:
                    ran, vals, en = native_fuzz(u, wd, u["fuzz"], time.time() + min(40, left() - 20))
                    if vals is not None:
                        res["replayed"] = True
                        res["values"] = vals
                        res["native_output"] = en[-3000:]
                except Undecided:
                    pass
        elif unw:
            raise Undecided("loop bound exceeded: " + ", ".join(r["property"] for r in unw[:4]))
        elif other:
            raise Undecided("obligations without verdict: " + ", ".join(r["property"] for r in other[:4]))
        elif unreached:
            raise Undecided("postcondition no longer reachable: " + "; ".join(unreached))
        elif not reach:
            raise Undecided("unit has no reachability witness")
        elif not obl:
            raise Undecided("unit generated no obligations")
    except Undecided as x:
        res["status"] = "undecided"
        res["notes"].append(str(x))
        if u["native"] and left() > 30:
            try:
                ran, vals, en = native_fuzz(u, wd, u["fuzz"], time.time() + fuzz_time())
                res["fallback_runs"] = ran
                if vals is not None:
                    res.update(status="violation", replayed=True, values=vals, native_output=en[-3000:],
                               failed=[("native", en.strip().split("\n")[0][:300])])
            except Undecided as y:
                res["notes"].append(str(y)[-400:])
    res["wall_s"] = round(time.time() - t0, 2)
    return res

def known_findings():
    path = os.path.join(HERE, "known-findings.json")
    if os.path.exists(path):
        return json.load(open(path))
    return {"known": [], "fixed": []}

def git_head():
    try:
        return subprocess.run(["git", "-C", REPO, "rev-parse", "HEAD"], capture_output=True,
                              text=True).stdout.strip()
    except Exception:
        return ""

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("-u", "--unit", action="append")
    ap.add_argument("-v", "--verbose", action="store_true")
    ap.add_argument("-k", "--keep", action="store_true")
    ap.add_argument("-j", type=int, default=int(os.environ.get("VP_JOBS", "8")))
    ap.add_argument("--fuzz", type=int, help="development: only run units natively on N random inputs")
    ap.add_argument("--replay")
    a = ap.parse_args()

    if a.replay:
        r = json.load(open(a.replay))
        _, units = load_units(r["property"])
        u = [u for u in units if u["id"] == r["unit"]][0]
        wd = tempfile.mkdtemp(prefix="vp-")
        try:
            exe = build_native(u, wd)
            vf = os.path.join(wd, "vals")
            open(vf, "w").write("\n".join(map(str, r.get("values") or [])) + "\n")
            rc, e = native_run(exe, [vf])
            print(e)
            print("native exit:", rc)
            return 1 if native_bad(rc) else 0
        finally:
            shutil.rmtree(wd)

    t0 = time.time()
    mod, units = load_units(a.prop)
    if a.unit:
        units = [u for u in units if any(re.fullmatch(x, u["id"]) for x in a.unit)]
    elif TIER == "quick":
        units = [u for u in units if u["tier"] == "quick"]
    os.makedirs(OUT, exist_ok=True)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    wd = tempfile.mkdtemp(prefix="vp-")
    if a.fuzz:
        def one(u):
            try:
                return u["id"], native_fuzz(u, wd, a.fuzz, time.time() + 300)
            except Undecided as x:
                return u["id"], str(x)
        with concurrent.futures.ThreadPoolExecutor(max_workers=a.j) as ex:
            for uid, r in ex.map(one, units):
                print(uid, str(r)[-1200:])
        shutil.rmtree(wd)
        return 0
    try:
        units.sort(key=lambda u: -u["weight"])
        with concurrent.futures.ThreadPoolExecutor(max_workers=a.j) as ex:
            futs = {ex.submit(check_unit, u, wd): u for u in units}
            results = []
            for f in concurrent.futures.as_completed(futs):
                r = f.result()
                r["unit"] = futs[f]
                results.append(r)
                if a.verbose or r["status"] != "ok":
                    print("%-28s %-10s %4d/%-4d solver %7.2fs wall %7.2fs %s" % (
                        r["id"], r["status"], r["discharged"], r["obligations"], r["solver_s"],
                        r["wall_s"], "; ".join(r["notes"]).replace("\n", " ")[-300:]), file=sys.stderr)
                    for p, d in r.get("failed", [])[:6]:
                        print("      failed:", p, d, file=sys.stderr)
    finally:
        if not a.keep:
            shutil.rmtree(wd, ignore_errors=True)
        else:
            print("kept", wd, file=sys.stderr)
    results.sort(key=lambda r: r["id"])
    rc = report(a.prop, mod, results, time.time() - t0, partial=bool(a.unit))
    return rc

def report(prop, mod, results, wall, partial):
    viol = 0
    lines = []
    ids = {r["id"]: r for r in results}
    for r in results:
        u = r["unit"]
        if u["known"] and r["status"] == "violation":
            # Unit restricted to one recorded failing input or call site
            entry = [k for k in known_findings()["known"] if k["id"] == u["known"] and k["property"] == prop]
            if entry:
                lines.append("KNOWN-FINDING: property=%s %s" % (prop, entry[0]["what"]))
                r["status"] = "known"
                continue
        if r["status"] != "violation":
            continue
        # An inductive proof that fails is backed by its bounded twin
        twin = u.get("twin")
        if not r["replayed"] and twin and twin in ids and ids[twin]["status"] == "violation" \
           and ids[twin]["replayed"]:
            continue
        viol += 1
        path = os.path.join(OUT, "%s-%s.json" % (prop, r["id"]))
        rec = dict(property=prop, unit=r["id"], failed_obligation=r["failed"][0],
                   all_failed=r["failed"], values=r.get("values"), replayed=r["replayed"],
                   native_output=r.get("native_output", ""), notes=r["notes"],
                   rerun="python3 %s/run.py --replay %s" % (HERE, path))
        json.dump(rec, open(path, "w"), indent=1)
        lines.append("VIOLATION property=%s replay=%s%s" % (
            prop, path, "" if r["replayed"] else " no-failing-input-found"))
    und = [r for r in results if r["status"] == "undecided"]
    for r in und:
        lines.append("UNDECIDED: property=%s unit=%s %s" % (prop, r["id"], r["notes"][0][:160].replace("\n", " ")))
    proof_units = [r for r in results if r["unit"]["level"] == "proof" and r["status"] == "ok"]
    bounded = [r for r in results if r["unit"]["level"] != "proof" and r["status"] == "ok"]
    level = mod.LEVEL
    cov = dict(
        obligations=sum(r["obligations"] for r in results),
        discharged=sum(r["discharged"] for r in results),
        proved_obligations=sum(r["discharged"] for r in proof_units),
        bounded_obligations=sum(r["discharged"] for r in bounded),
        checker_cmd="goto-cc + cbmc 6.11 per unit (see units)",
        trusted_base=getattr(mod, "TRUSTED", []) + [
            "cbmc 6.11 front end, symbolic execution and SAT/SMT back ends",
            "allocation wrappers never fail and locks are uncontended (lib/vp_stubs.c)",
            "config.h as committed in /verif/shim (x86-64 Linux, DEBUG on)"],
        functions_under_contract=sorted({f for r in results for f in r["functions"]}),
        back_ends=sorted({r["solver"] for r in results}),
        solver_s=round(sum(r["solver_s"] for r in results), 2),
        units=[dict(id=r["id"], level="proved for all inputs" if r["level"] == "proof" else "bounded",
                    bound=r["bound"], status=r["status"], obligations=r["obligations"],
                    discharged=r["discharged"], solver_s=r["solver_s"], wall_s=r["wall_s"],
                    postconditions=sorted(set(r.get("ensures", []))), notes=[n[:300] for n in r["notes"]],
                    fallback_native_runs=r.get("fallback_runs", 0)) for r in results],
        explanation=getattr(mod, "EXPLANATION", ""),
    )
    ev = dict(property=prop, tier=TIER if TIER in ("quick", "thorough") else "quick", seed=SEED,
              level=level, coverage=cov, assumptions=getattr(mod, "ASSUMPTIONS", []),
              wall_s=round(wall, 2), violations=viol)
    if not partial:
        json.dump(ev, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1)
    for l in dict.fromkeys(lines):
        print(l)
    print("property=%s units=%d obligations=%d discharged=%d undecided=%d violations=%d wall=%.1fs" % (
        prop, len(results), cov["obligations"], cov["discharged"], len(und), viol, wall))
    if viol:
        return 1
    if results and len(und) == len(results) and not any(r.get("fallback_runs") for r in und):
        return 2
    return 0

if __name__ == "__main__":
    sys.exit(main())
