#!/usr/bin/env python3-vt
"""run_check.py <property>: decides one property for /repo's working tree.

1. vcgen (deductive verifier) generates and discharges the obligations of the
   property from the current source.
2. The replay harness (the real code, compiled from the current source) checks
   the same contract on concrete inputs: it supplies the failing input of a
   failed obligation and is the labelled, bounded stand-in for functions out of
   the verifier's reach.
3. Listed findings are re-run and printed while they still fail.
"""
import concurrent.futures as cf
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"

LIB = ["object", "proposition", "state", "pddl", "action", "axiom",
       "derived_predicate", "formula", "normal_form", "predicate",
       "planning/planner", "utils/parameter_generator"]
FLAGS = ["-std=c++17", "-O1", "-DNDEBUG", "-g0", "-fsanitize=address",
         "-DDOCTEST_CONFIG_DISABLE", "-w", "-I" + HERE + "/stub",
         "-I" + REPO + "/include", "-I" + REPO + "/src"]

# property -> (harness source, extra defines, run arguments, needs the library)
HARNESS = {p: ("h_domain.cc", [], ["--mode", p], True)
           for p in "C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C18".split()}
HARNESS.update({
    "C01": ("h_state.cc", [], [], True),
    "C02": ("h_state.cc", [], [], True),
    "C03": ("h_state.cc", [], [], True),
    "C04": ("h_state.cc", ["-DC04"], [], True),
    "C05": ("h_comb.cc", ["-DREVERSE_ARITH"], [], False),
    "C16": ("h_search.cc", ["-DC16"], [], False),
    "C17": ("h_search.cc", ["-DC17"], [], False),
})
LEVELS = json.load(open(os.path.join(HERE, "levels.json")))


def sh(cmd, timeout=None, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                          timeout=timeout, **kw)


def findings(prop):
    out = []
    for line in open(os.path.join(HERE, "known_findings.txt")):
        if line.startswith("KNOWN-FINDING: property=%s " % prop):
            w = line.split("witness=")[1].split()[0]
            out.append((w, line.split("witness=" + w)[1].strip()))
    return out


class BuildError(Exception):
    pass


def build(prop, work):
    """Compiles the harness and the real code; returns (harness, known or None)."""
    src, defs, _, lib = HARNESS[prop]
    jobs = [([*FLAGS, *defs], os.path.join(HERE, "harness", src), "harness.o")]
    need_known = bool(findings(prop))
    if lib or need_known:
        jobs += [(FLAGS, os.path.join(REPO, "src", f + ".cc"),
                  os.path.basename(f) + ".o") for f in LIB]
        jobs.append((FLAGS, os.path.join(HERE, "stub/val_stub.cc"), "val_stub.o"))
    if need_known:
        jobs.append((FLAGS, os.path.join(HERE, "harness/h_known.cc"), "known.o"))
    # Any new source file of the library that the above would not link.
    if lib or need_known:
        have = {os.path.join(REPO, "src", f + ".cc") for f in LIB}
        for root, _, fs in os.walk(os.path.join(REPO, "src")):
            for f in fs:
                p = os.path.join(root, f)
                if (f.endswith(".cc") and p not in have
                        and f not in ("doctest.cc", "main.cc")
                        and "python" not in root and "apps" not in root):
                    jobs.append((FLAGS, p, "x_" + f.replace(".cc", ".o")))

    def one(job):
        flags, s, o = job
        r = sh(["g++", *flags, "-c", s, "-o", os.path.join(work, o)])
        return (o, r.returncode, r.stderr.decode(errors="replace"))

    with cf.ThreadPoolExecutor(8) as ex:
        res = list(ex.map(one, jobs))
    for o, rc, err in res:
        if rc and not o.startswith("x_"):
            raise BuildError(o + ": " + err[:4000])
    objs = [os.path.join(work, o) for o, rc, _ in res
            if rc == 0 and o not in ("harness.o", "known.o")]
    exe = os.path.join(work, "harness")
    r = sh(["g++", "-fsanitize=address", os.path.join(work, "harness.o"),
            *objs, "-o", exe])
    if r.returncode:
        raise BuildError(r.stderr.decode(errors="replace")[:4000])
    known = None
    if need_known:
        known = os.path.join(work, "known")
        r = sh(["g++", "-fsanitize=address", os.path.join(work, "known.o"),
                *objs, "-o", known])
        if r.returncode:
            raise BuildError(r.stderr.decode(errors="replace")[:4000])
    return exe, known


def harness(exe, prop, work, seconds, seed, par, only=None):
    """Runs `par` processes with different seeds. Returns (stats list, failure)."""
    args = HARNESS[prop][2]
    procs = []
    for k in range(par):
        st = os.path.join(work, "stats%d_%d.json" % (seed, k))
        cmd = [exe, *args, "--seed", str(seed + 1000003 * k), "--seconds",
               str(seconds), "--stats", st]
        if only is not None:
            cmd += ["--case", str(only)]
        fo = open(os.path.join(work, "out%d_%d" % (seed, k)), "w+b")
        procs.append((subprocess.Popen(cmd, stdout=fo, stderr=fo, cwd=work),
                      fo, st, seed + 1000003 * k))
    stats, fail = [], None
    for p, fo, st, sd in procs:
        hung = False
        try:
            p.wait(seconds * 2 + 60)
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            hung = True
        fo.seek(0)
        out = fo.read().decode(errors="replace")
        fo.close()
        if p.returncode == 0 and os.path.exists(st):
            stats.append(json.load(open(st)))
        elif fail is None and ("HARNESS-FAIL" in out or p.returncode not in (0, 2) or hung):
            i = out.find("HARNESS-FAIL")
            j = out.find("HARNESS-END", i)
            case = None
            if i >= 0:
                case = out[i:].split("case=")[1].split()[0]
            text = out[i:j] if i >= 0 else out[-6000:]
            asan = [l for l in out.splitlines() if "ERROR: AddressSanitizer" in l or l.strip().startswith("#")][:25]
            fail = {"seed": sd, "case": case, "text": text, "sanitizer": asan}
    return stats, fail


def write_replay(prop, body):
    d = os.path.join(HERE, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s.txt" % prop)
    with open(path, "w") as f:
        f.write(body)
    return path


def main():
    if len(sys.argv) < 2 or sys.argv[1] not in HARNESS:
        print("usage: run_check.py C01..C18", file=sys.stderr)
        return 2
    prop = sys.argv[1]
    t0 = time.time()
    work = tempfile.mkdtemp(prefix="verif_%s_" % prop)
    try:
        return run(prop, work, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def run(prop, work, t0):
    thorough = TIER == "thorough"
    from vcgen import verify
    with cf.ThreadPoolExecutor(2) as ex:
        fv = ex.submit(verify.run, prop, REPO, work, thorough)
        fb = ex.submit(build, prop, work)
        try:
            exe, known = fb.result()
            build_err = None
        except BuildError as e:
            exe = known = None
            build_err = str(e)
        stats, fail = [], None
        if exe:
            stats, fail = harness(exe, prop, work, 120 if thorough else 6, SEED,
                                  8 if thorough else 3)
        proof = fv.result()
    failed = [o for o in proof["obligations"] if o["status"] != "proved"]
    if failed and exe and fail is None:
        # Look harder for an input that shows the failed obligation.
        s2, fail = harness(exe, prop, work, 300 if thorough else 60, SEED + 7, 8)
        stats += s2
    violated = bool(fail or failed)

    # Listed findings.
    for w, what in findings(prop):
        if known:
            r = sh([known, w], timeout=60)
            if r.returncode == 1:
                print("KNOWN-FINDING: property=%s %s (witness %s)" % (prop, what, w))
            elif r.returncode == 0:
                print("note: listed finding %s no longer fails" % w)

    n_obl = len(proof["obligations"])
    n_ok = n_obl - len(failed)
    level = LEVELS[prop]["level"]
    cov = {
        "obligations": n_obl,
        "discharged": n_ok,
        "functions_under_contract": proof["functions"],
        "lemmas": proof["lemmas"],
        "bounded_stand_ins": proof["bounded"],
        "out_of_reach_this_run": proof["unsupported"],
        "backends": proof["backends"],
        "solver_s": round(proof["solver_s"], 2),
        "vacuity_checks": proof["vacuity"],
        "failed_obligations": [o["name"] for o in failed],
        "checker_cmd": "python3-vt /verif/run_check.py " + prop,
        "trusted_base": proof["trusted"],
        "evaluations": sum(s["evaluations"] for s in stats),
        "distinct_nontrivial": sum(s["distinct_nontrivial"] for s in stats),
        "harness_cases": sum(s["cases"] for s in stats),
        "rule": "replay harness %s: random cases of the property's contract run "
                "against the real code and compared with a reference "
                "implementation; a case is non-trivial when it reaches the "
                "property's interesting outcome (see hv::H::nontrivial calls) "
                "and is counted once per distinct description" % HARNESS[prop][0],
        "samples": [x for s in stats for x in s["samples"]][:3],
        "explanation": LEVELS[prop]["note"],
    }
    if build_err:
        cov["harness_build_error"] = build_err
    ev = {"property": prop, "tier": TIER, "seed": SEED, "level": level,
          "coverage": cov, "assumptions": proof["assumptions"],
          "wall_s": round(time.time() - t0, 2), "violations": int(violated)}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")

    print("property %s: %d/%d obligations discharged over %d functions, "
          "%d bounded stand-ins, %d out of reach, %d harness cases, %.1fs" %
          (prop, n_ok, n_obl, len(proof["functions"]), len(proof["bounded"]),
           len(proof["unsupported"]), cov["harness_cases"], time.time() - t0))
    for u in proof["unsupported"]:
        print("  out of reach:", u)
    if not violated:
        if build_err and (proof["unsupported"] or proof["bounded"]):
            print("error: the replay harness does not build and not every "
                  "function is proved:\n" + build_err, file=sys.stderr)
            return 2
        return 0
    body = ["property %s violated on %s" % (prop, REPO), ""]
    for o in failed:
        body.append("failed obligation: %s (%s)\n  at %s\n  %s" %
                    (o["name"], o["status"], o.get("where", "?"), o.get("detail", "")))
    if fail:
        body += ["", "failing input found by the replay harness (real code):",
                 fail["text"], *fail["sanitizer"], "",
                 "re-run: build as run_check.py does, then: harness %s --seed %s --case %s"
                 % (" ".join(HARNESS[prop][2]), fail["seed"], fail["case"])]
    else:
        body += ["", "no failing input found by the replay harness" +
                 (" (it does not build: %s)" % build_err if build_err else "")]
    path = write_replay(prop, "\n".join(body) + "\n")
    for o in failed[:12]:
        print("  failed obligation: %s (%s)" % (o["name"], o["status"]))
    if fail:
        print("  failing input: " + fail["text"][:1500].replace("\n", "\n    "))
    print("VIOLATION property=%s replay=%s%s" %
          (prop, path, "" if fail else " no-failing-input-found"))
    return 1


if __name__ == "__main__":
    sys.path.insert(0, HERE)
    sys.exit(main())
