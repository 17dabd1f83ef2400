#!/usr/bin/env python3
"""Decides one property: compiles the current sources of /repo against the
symbolic scalar, runs every contract of the property, discharges the
obligations, replays any counterexample on the machine-double build of the
same sources, writes evidence/<id>.json."""
import argparse, glob, hashlib, json, os, random, re, shutil, subprocess, sys, threading, time
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(V, "build"))
PFX = sorted(glob.glob("/opt/bezdeps/*/lib/python3*/site-packages/cmeel.prefix"))
MAIN = [p for p in PFX if os.path.isdir(p + "/include/ndcurves")][0]
HCD = [p for p in PFX if os.path.isdir(p + "/include/hpp/centroidal-dynamics")][0]
PROPS = json.load(open(os.path.join(V, "contracts", "index.json")))
JOBS = 8


def sh(cmd, timeout=600, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                          timeout=timeout, **kw)


def digest(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()[:24]


def headers():
    out = []
    for root in (REPO + "/include", REPO + "/src"):
        for d, _, fs in os.walk(root):
            out += [os.path.join(d, f) for f in fs if re.search(r"\.(hh|hpp|h|inl|hxx|ipp)$", f)]
    return out


def engine_headers():
    return (glob.glob(V + "/engine/*.hh") + glob.glob(V + "/contracts/*.hh") +
            glob.glob(V + "/engine/pystub/**/*.hpp", recursive=True))


def overlay():
    d = BUILD + "/overlay"
    if not os.path.isdir(d + "/ndcurves"):
        tmp = d + ".tmp%d" % os.getpid()
        os.makedirs(tmp, exist_ok=True)
        shutil.copytree(MAIN + "/include/ndcurves", tmp + "/ndcurves")
        p = tmp + "/ndcurves/curve_constraint.h"
        s = open(p).read()
        s = s.replace("\n  curve_constraints(const size_t", "\n  explicit curve_constraints(const size_t")
        open(p, "w").write(s)
        try:
            os.rename(tmp, d)
        except OSError:
            shutil.rmtree(tmp, ignore_errors=True)
    return d


def flags(mode):
    f = ["-std=gnu++17", "-O0", "-w", "-fPIC", "-fsemantic-interposition", "-DNDEBUG",
         "-DUSE_GLPK_SOLVER=1", "-D_GLIBCXX_ASSERTIONS", "-fno-strict-aliasing",
         "-ftemplate-depth=2048"]
    if mode == "sym":
        f += ["-I" + overlay()]
    f += ["-I" + V + "/engine", "-I" + V + "/contracts", "-I" + REPO + "/include", "-I" + REPO + "/src",
          "-isystem", MAIN + "/include", "-isystem", MAIN + "/include/eigen3",
          "-isystem", HCD + "/include", "-isystem", HCD + "/include/cddlib",
          "-isystem", HCD + "/include/coin"]
    f += ["-include", V + "/engine/" + ("shim.hh" if mode == "sym" else "native_shim.hh")]
    return f


class BuildError(Exception):
    pass


def compile_one(src, mode, weaken, extra=None, cxx="clang++"):
    """object for one translation unit, cached on the content of everything it can include"""
    fl = flags(mode) if mode in ("sym", "native") else ["-std=gnu++17", "-O2", "-w", "-fPIC", "-I" + V + "/engine"]
    fl = (extra or []) + fl
    dep = [src] + (engine_headers() + headers() if mode in ("sym", "native") else glob.glob(V + "/engine/*.hh"))
    key = digest(dep, " ".join(fl) + mode + str(weaken) + cxx)
    os.makedirs(BUILD + "/obj", exist_ok=True)
    out = "%s/obj/%s-%s.o" % (BUILD, os.path.basename(src).replace(".", "_"), key)
    if os.path.exists(out):
        return out
    tmp = out + ".tmp%d_%d.o" % (os.getpid(), threading.get_ident())
    r = sh([cxx] + fl + ["-c", src, "-o", tmp], timeout=700)
    if r.returncode:
        raise BuildError("compilation of %s (%s) failed:\n%s" % (src, mode, r.stdout[:6000]))
    if weaken:
        r = sh(["objcopy", "--weaken", tmp])
        if r.returncode:
            raise BuildError(r.stdout)
    os.rename(tmp, out)
    return out


def build(prop, mode):
    info = PROPS[prop]
    jobs = []
    repo_src = sorted(glob.glob(REPO + "/src/*.cpp"))
    skip = set(info.get("skip_src", []))
    # sources outside src/ (the Python interface) against the stand-in for Boost.Python
    inc = ["-I" + V + "/engine/pystub"] if info.get("pystub") else None
    for s in info.get("repo_extra", []):
        jobs.append((REPO + "/" + s, mode, True, inc, "clang++"))
    repo_src = [s for s in repo_src if os.path.basename(s) not in skip]
    for s in repo_src:
        jobs.append((s, mode, True, None, "clang++"))
    for s in info["contracts"] + ["glp_stub.cc"] + info.get("stubs", []):
        jobs.append((V + "/contracts/" + s, mode, False, inc if s in info["contracts"] else None, "clang++"))
    overlay()
    if mode == "sym":
        jobs += [(V + "/engine/sym.cc", "engine", False, None, "g++"),
                 (V + "/engine/main_sym.cc", "engine", False, None, "g++"),
                 (V + "/engine/oob.cc", "engine", False, None, "g++")]
    else:
        jobs += [(V + "/engine/main_native.cc", "native", False, None, "clang++"),
                 (V + "/engine/oob.cc", "engine", False, None, "g++")]
    # heaviest first
    jobs.sort(key=lambda j: -os.path.getsize(j[0]) - (1 << 20) * ("waypoints_definition" in j[0]))
    with ThreadPoolExecutor(JOBS) as ex:
        objs = list(ex.map(lambda j: compile_one(*j), jobs))
    exe = "%s/%s-%s-%s" % (BUILD, prop, mode, digest([], " ".join(sorted(objs))))
    if not os.path.exists(exe):
        libs = ["-lz3", "-lgmpxx", "-lgmp"] if mode == "sym" else []
        tmp = exe + ".tmp%d" % os.getpid()
        order = list(objs)
        r = sh(["g++", "-o", tmp] + order + libs)
        if r.returncode:
            raise BuildError("link failed:\n" + r.stdout[-6000:])
        os.rename(tmp, exe)
    return exe


def known_findings():
    p = V + "/known_findings.json"
    return json.load(open(p)) if os.path.exists(p) else {"findings": [], "fixed": []}


def match_known(prop, fail, known):
    for k in known["findings"]:
        if k["property"] != prop or not re.fullmatch(k["obligation"], fail["name"]):
            continue
        if all(fail["choices"].get(c) == v for c, v in k.get("choices", {}).items()):
            return k
    return None


def contract_of(fail):
    return fail.get("contract", "")


def write_case(path, contract, choices, witness):
    with open(path, "w") as f:
        f.write("k %s\n" % contract)
        for c, v in choices.items():
            f.write("c %s %d\n" % (c, v))
        for n, v in (witness or {}).items():
            f.write("v %s %.17g\n" % (n, v))


def run_native(exe, args, timeout, env=None):
    try:
        r = subprocess.run([exe] + args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                           timeout=timeout, errors="replace")
        return r.returncode, r.stdout[-20000:] + r.stderr[-3000:]
    except subprocess.TimeoutExpired:
        return None, "timeout"


def run_symbolic(exe, prop, tier, seed, only, stop=True):
    """every contract, split over processes by the first case distinction; merged report"""
    budget, wall = (300, 420) if tier == "quick" else (2400, 3000)
    base = [exe, "--prop", prop, "--tier", tier, "--seed", str(seed), "--budget", str(budget)]
    names = sh(base + ["--list", "1"]).stdout.split()
    names = [n for n in names if not only or n == only]
    if not names:
        return None, "no contract to check"
    end = time.time() + wall
    # a definite failure ends the exploration a little later (not when listed findings could be what fails)
    flag = "%s/failing-%s-%d" % (BUILD, prop, os.getpid())
    if stop:
        base += ["--stop", flag]

    def one(task):
        name, shard = task
        if os.path.exists(flag) and time.time() > os.path.getmtime(flag) + 15:
            return None, ""
        outp = "%s/report-%s-%d-%s-%d.json" % (BUILD, prop, os.getpid(), name.replace("/", "_"), shard)
        try:
            r = subprocess.run(base + ["--only", name, "--shard", str(shard), "--shards", str(JOBS), "--out", outp],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace",
                               timeout=max(1, end - time.time()))
        except subprocess.TimeoutExpired:
            return None, "%s: verifier run timed out" % name
        rep, err = None, ""
        if os.path.exists(outp):
            try:
                rep = json.load(open(outp))
                err = rep["error"]
            except ValueError:
                err = "%s: unreadable report" % name
            os.unlink(outp)
        if r.returncode:
            err = "%s: verifier run ended with status %s %s" % (name, r.returncode, r.stdout[-1500:])
        return rep, err

    with ThreadPoolExecutor(JOBS) as ex:
        res = list(ex.map(one, [(n, i) for i in range(JOBS) for n in names]))
    if os.path.exists(flag):
        os.unlink(flag)
    errs = [e for _, e in res if e]
    reps = [r for r, _ in res if r]
    if not reps:
        return None, errs[0] if errs else "no report"
    out = {"error": errs[0] if errs else "", "contracts": [], "obligations": [], "failures": [], "fail_count": 0,
           "nonzero_assumed": [], "generic_assumed": 0, "z3_queries": 0, "z3_unknown": 0, "solver_s": 0, "cuts": {}}
    cs, obs = {}, {}
    for r in reps:
        for c in r["contracts"]:
            d = cs.setdefault(c["name"], dict(c, paths=0, completed=0, cut=0, wall_s=0, nonvacuous=False))
            for k in ("paths", "completed", "cut", "wall_s"):
                d[k] += c[k]
            d["nonvacuous"] = d["nonvacuous"] or c["nonvacuous"]
        bound = any(c["bound"] for c in r["contracts"])
        for o in r["obligations"]:
            d = obs.setdefault((o["name"], bound), {"name": o["name"], "bounded": bound, "count": 0, "discharged": 0, "backends": {}})
            d["count"] += o["count"]
            d["discharged"] += o["discharged"]
            for k, n in o["backends"].items():
                d["backends"][k] = d["backends"].get(k, 0) + n
        out["failures"] += r["failures"]
        for k in ("fail_count", "generic_assumed", "z3_queries", "z3_unknown", "solver_s"):
            out[k] += r[k]
        for k, n in r["cuts"].items():
            out["cuts"][k] = out["cuts"].get(k, 0) + n
        out["nonzero_assumed"] += [x for x in r["nonzero_assumed"] if x not in out["nonzero_assumed"]]
    out["contracts"] = [cs[k] for k in sorted(cs)]
    out["obligations"] = [obs[k] for k in sorted(obs)]
    return out, out["error"]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?", default="")
    ap.add_argument("--setup", action="store_true")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--only", default="")
    ap.add_argument("--replay", default="")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    prop, tier = a.prop, a.tier if a.tier in ("quick", "thorough") else "quick"
    t0 = time.time()
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(V + "/evidence", exist_ok=True)
    os.makedirs(V + "/replays", exist_ok=True)
    if a.setup:  # prebuild what does not depend on /repo
        overlay()
        with ThreadPoolExecutor(JOBS) as ex:
            list(ex.map(lambda n: compile_one(V + "/engine/" + n, "engine", False, None, "g++"),
                        ["sym.cc", "main_sym.cc", "oob.cc"]))
        return
    if a.replay:
        exe = build(prop, "native")
        case = [l for l in open(a.replay) if l[:2] in ("k ", "c ", "v ")]
        tmp = BUILD + "/case.%d" % os.getpid()
        open(tmp, "w").write("".join(case))
        rc, out = run_native(exe, ["--replay", tmp], 300)
        print(out)
        sys.exit(1 if rc else 0)

    info = PROPS[prop]
    known = known_findings()
    hit_known = {}
    note = []
    rep = None
    sym_err = ""
    # ---- deciding step: the symbolic contracts
    try:
        exe = build(prop, "sym")
        rep, sym_err = run_symbolic(exe, prop, tier, a.seed, a.only,
                                    not any(k["property"] == prop for k in known["findings"]))
    except BuildError as e:
        sym_err = str(e)
    except subprocess.TimeoutExpired:
        sym_err = "compilation timed out"

    failures = []
    if rep:
        for f in rep["failures"]:
            k = match_known(prop, f, known)
            if k:
                hit_known[k["id"]] = k
            else:
                failures.append(f)
    definite = [f for f in failures if not f["unknown"]]
    if a.v:
        for f in failures:
            print("  FAILED %s %s%s: %s" % (f["name"], f["choices"], " (undecided)" if f["unknown"] else "", f["detail"].replace("\n", " | ")[:260]))

    violation = None
    native_runs = 0
    bounded = False
    native_log = ""
    knownfile = "%s/known-%s" % (BUILD, prop)
    with open(knownfile, "w") as f:
        for k in known["findings"]:
            if k["property"] == prop:
                f.write(k["obligation"] + "\n")

    def replay_path(tag):
        return "%s/replays/%s-%s.replay" % (V, prop, tag)

    def finish_replay(path, head, body):
        with open(path, "w") as f:
            f.write("# property %s\n# %s\n" % (prop, head.replace("\n", "\n# ")))
            f.write("# replay with: python3 %s/check.py %s --replay %s\n" % (V, prop, path))
            f.write(body)

    nexe = None
    nerr = ""
    try:
        nexe = build(prop, "native")
    except (BuildError, subprocess.TimeoutExpired) as e:
        nerr = str(e)
    if failures and nexe:
        # counterexamples replayed against the real code (machine doubles)
        for f in sorted(failures, key=lambda f: f["unknown"])[:12]:
            if f["witness"] is None and not f["choices"]:
                pass
            case = "%s/case-%s-%d" % (BUILD, prop, os.getpid())
            write_case(case, f["contract"], f["choices"], f["witness"])
            rc, out = run_native(nexe, ["--replay", case, "--tier", tier], 120)
            native_runs += 1
            if rc not in (0, 3, None):
                p = replay_path(hashlib.sha1((f["name"] + str(f["choices"])).encode()).hexdigest()[:10])
                finish_replay(p, "failed obligation: %s\nverifier: %s\nnative replay (exit %s):\n%s" %
                              (f["name"], f["detail"], rc, out[-3000:]), open(case).read())
                violation = (p, True)
                break
    if definite and nexe and not violation:
        # the values of the verifier may lie where both sides agree: others around them
        rnd = random.Random(a.seed)
        for f in [f for f in definite if f["witness"]][:3]:
            for scale, keep in [(s, k) for s in (0.3, 1e-2, 1e-4, 9e-7) for k in (1, s) for _ in range(4)]:
                if violation:
                    break
                w = {n: keep * v + scale * rnd.uniform(-1, 1) for n, v in f["witness"].items()}
                case = "%s/case-%s-%d" % (BUILD, prop, os.getpid())
                write_case(case, f["contract"], f["choices"], w)
                rc, out = run_native(nexe, ["--replay", case, "--tier", tier], 60)
                native_runs += 1
                if rc == 1:
                    p = replay_path(hashlib.sha1((f["name"] + str(f["choices"])).encode()).hexdigest()[:10])
                    finish_replay(p, "failed obligation: %s\nverifier: %s\nnative replay near the verifier's values (exit %s):\n%s" %
                                  (f["name"], f["detail"], rc, out[-3000:]), open(case).read())
                    violation = (p, True)

    def sweep(samples):
        nonlocal native_runs, native_log, violation
        dump = "%s/dump-%s-%d" % (BUILD, prop, os.getpid())
        args = ["--prop", prop, "--samples", str(samples), "--dump", dump, "--tier", tier, "--seed", str(a.seed),
                "--known", knownfile]
        if a.only:
            args += ["--only", a.only]
        rc, out = run_native(nexe, args, 200 if tier == "quick" else 1200)
        native_log = out
        if rc not in (0, 3, None):
            p = replay_path("native%d" % a.seed)
            body = open(dump).read() if os.path.exists(dump) else ""
            finish_replay(p, "bounded native run of the contracts failed (exit %s)\n%s\nverifier status: %s" %
                          (rc, out[-4000:], sym_err), body)
            violation = (p, True)
        return rc
    swept = None
    if not violation and nexe and (failures or sym_err or not rep or tier == "thorough" or info.get("native_always")):
        swept = sweep(info.get("samples", 4) * (1 if tier == "quick" else 6))
    # ---- calls one after another in one process (bounded): no call may change what another answers
    hist = {"calls": 0, "processes": 0, "differing_from_the_exact_run": 0}

    def histories(seed):
        dump = "%s/hist-%s-%d-%d" % (BUILD, prop, os.getpid(), seed)
        args = ["--prop", prop, "--history", "8" if tier == "quick" else "150", "--dump", dump, "--tier", tier, "--seed", str(seed),
                "--known", knownfile]
        if a.only:
            args += ["--only", a.only]
        rc, out = run_native(nexe, args, 120 if tier == "quick" else 600)
        body = open(dump).read() if os.path.exists(dump) else ""
        for x in (dump, dump + ".h"):
            if os.path.exists(x):
                os.unlink(x)
        return rc, out, body, seed
    if not violation and not failures and nexe:
        with ThreadPoolExecutor(4) as ex:
            for rc, out, body, seed in ex.map(histories, range(a.seed, a.seed + 4)):
                m = re.search(r"histories: calls (\d+) .* alone (\d+)", out)
                if m:
                    hist["processes"] += 1
                    hist["calls"] += int(m.group(1))
                    hist["differing_from_the_exact_run"] += int(m.group(2))
                if rc not in (0, None) and not violation:
                    p = replay_path("history%d" % seed)
                    finish_replay(p, "calls in sequence failed (exit %s)\n%s" % (rc, out[-4000:]), body)
                    violation = (p, True)
    if not violation and definite:
        f = definite[0]
        p = replay_path(hashlib.sha1((f["name"] + str(f["choices"])).encode()).hexdigest()[:10])
        finish_replay(p, "failed obligation: %s\nverifier: %s\nno failing machine-double input was found%s" %
                      (f["name"], f["detail"], (" (native build: %s)" % nerr[:2000]) if nerr else ""),
                      "k %s\n" % f["contract"] + "".join("c %s %d\n" % x for x in f["choices"].items()) +
                      "".join("v %s %.17g\n" % x for x in (f["witness"] or {}).items()))
        violation = (p, False)
    undecided = [f for f in failures if f["unknown"]]
    fallback = bool(sym_err) or not rep or (bool(undecided) and not violation)
    if not violation and fallback and (nexe is None or swept in (3, None)):
        print("CHECK-ERROR property=%s neither the symbolic build nor the native build gave an answer:\n%s\n%s" %
              (prop, sym_err[:4000], nerr[:2000]))
        sys.exit(2)

    # ---- evidence
    obs = rep["obligations"] if rep else []
    cons = rep["contracts"] if rep else []
    total, disc = (sum(o[k] for o in obs) for k in ("count", "discharged"))

    def part(bounded):
        sel = [o for o in obs if o["bounded"] == bounded]
        bk = {}
        for o in sel:
            for b, n in o["backends"].items():
                bk[b] = bk.get(b, 0) + n
        return sel, sum(o["count"] for o in sel), sum(o["discharged"] for o in sel), bk
    free, free_n, free_d, free_b = part(False)
    bnd, bnd_n, bnd_d, bnd_b = part(True)
    backends = {b: free_b.get(b, 0) + bnd_b.get(b, 0) for b in list(free_b) + list(bnd_b)}

    def fns(bounded):
        return sorted(set(w for c in cons if bool(c["bound"]) == bounded for w in c["functions"].split()))
    level = info["level"] if not fallback else "other"
    cov = {
        "checker_cmd": "python3 check.py %s --tier %s" % (prop, tier),
        "trusted_base": info.get("trusted", []) + COMMON_TRUSTED,
        "solver_time_s": rep["solver_s"] if rep else 0,
        "solver_queries": rep["z3_queries"] if rep else 0,
        "contracts": cons,
        "contracts_without_satisfiability_witness": [c["name"] for c in cons if not c["nonvacuous"]],
        "cut_paths": rep["cuts"] if rep else {},
        "divisors_assumed_nonzero": rep["nonzero_assumed"][:60] if rep else [],
        "generic_position_assumed": rep["generic_assumed"] if rep else 0,
        "bounded_fallback_used": fallback,
        "verifier_status": sym_err[:3000] or "complete",
        "native_replays": native_runs,
        "native_histories": hist,
        "native_sweep": native_log.strip().split("\n")[-1] if native_log else "",
        "undecided_obligations": [f["name"] for f in undecided][:20],
        "known_findings": sorted(hit_known),
    }
    if free:
        cov["obligations"] = free_n
        cov["discharged"] = 0 if not rep else free_d
        cov["distinct_obligations"] = len(free)
        cov["back_ends"] = free_b
        cov["functions_under_contract"] = fns(False)
    if bnd:
        # every value is arbitrary; the sizes named in `bounds` are enumerated, so none of these is counted as proved
        cov["bounded"] = {
            "obligations_at_the_stated_sizes": bnd_n, "discharged_at_the_stated_sizes": bnd_d, "names": len(bnd),
            "back_ends": bnd_b, "functions": fns(True),
            "bounds": sorted(set("%s: %s" % (c["name"], c["bound"]) for c in cons if c["bound"]))}
    cov["explanation"] = " ".join(x for x in [
        info.get("explanation", ""),
        "Contracts without a bound hold for every input; their obligations are the ones counted as discharged." if free else "",
        "Contracts with a bound (coverage.bounded) are decided for every real value of the inputs at each enumerated size "
        "(numbers of phases, rows, points, variables); larger sizes are not covered, so they are labelled bounded." if bnd else "",
        "THIS RUN FELL BACK to the bounded native execution of the contracts; nothing is counted as proved." if fallback else ""] if x)
    ev = {"property": prop, "tier": tier, "seed": a.seed, "level": level, "coverage": cov,
          "assumptions": info.get("assumptions", []) + COMMON_ASSUMPTIONS,
          "wall_s": round(time.time() - t0, 2), "violations": 1 if violation else 0}
    with open(V + "/evidence/%s.json" % prop, "w") as f:
        json.dump(ev, f, indent=1)
    for k in hit_known.values():
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    print("%s: %d obligations (%d distinct), %d discharged, back ends %s, %.1fs%s" %
          (prop, total, len(obs), disc, backends, time.time() - t0, " [bounded fallback: %s]" % sym_err[:300] if fallback else ""))
    if violation:
        print("VIOLATION property=%s replay=%s%s" % (prop, violation[0], "" if violation[1] else " no-failing-input-found"))
        sys.exit(1)
    sys.exit(0)


COMMON_TRUSTED = [
    "engine/sym.cc: polynomial normal form, path enumeration, discharge",
    "engine/shim.hh: re-instantiation of the sources of /repo with an exact-real scalar in place of double",
    "GMP rational arithmetic", "z3 (feasibility of branches and inequality obligations)",
    "clang/gcc front ends", "Eigen 3.4 and ndcurves 1.4 templates instantiated at the symbolic scalar are executed, not assumed",
]
COMMON_ASSUMPTIONS = [
    "machine doubles are treated as exact reals (decimal constants of the sources keep their exact double value; coefficients are compared up to a relative tolerance)",
    "divisors listed under coverage.divisors_assumed_nonzero are nonzero",
]
if __name__ == "__main__":
    main()
