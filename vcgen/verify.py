"""Runs the verification tasks of one property in a pool of processes."""
import importlib
import multiprocessing as mp
import os
import queue
import time
import traceback

from .ast import ExtractionError, Program, norm, sig_text
from .engine import Spec
from .task import FnTask
from .values import Unsupported

# property -> modules under specs/ whose tasks(prop) belong to it
MODULES = {
    "C01": ["sets"], "C02": ["sets"], "C03": ["sets"], "C04": ["sets"],
    "C08": ["prop"], "C05": ["comb"], "C09": ["form"], "C10": ["form"], "C11": ["eff"], "C12": ["axm"], "C13": ["der"], "C18": ["plan"], "C06": ["par", "comb"], "C07": ["idx", "comb"], "C15": ["node"], "C16": ["search"], "C17": ["search"],
}

COMMON_ASSUMPTIONS = [
    "integer +, * do not overflow (machine arithmetic is treated as mathematical); "
    "size_t subtraction and int<->size_t conversions wrap exactly",
    "reference parameters of one call do not alias each other unless the contract says so",
    "termination is not proved (partial correctness), nor is absence of memory exhaustion",
    "iterators and references into a vector are not used after the vector reallocates "
    "(lifetimes are not modelled; index validity is an obligation)",
    "clang's AST is the program that is compiled (same flags as the build, doctest disabled)",
]


class Task:
    """kind 'fn': contract + function; kind 'lemma': Lemma object;
    kind 'py': callable(spec) -> Result."""

    def __init__(self, kind, label, spec=None, contract=None, fn=None, obj=None):
        self.kind, self.label = kind, label
        self.spec, self.contract, self.fn, self.obj = spec, contract, fn, obj


def execute(t, thorough):
    from . import stl
    t0 = time.time()
    stl.USED.clear()
    if t.kind == "fn":
        T = FnTask(t.spec, t.fn, t.contract, t.label)
        r = T.run()
        inv = getattr(T, "invariants", [])
    elif t.kind == "lemma":
        r = t.obj.run(t.spec)
        inv = []
    else:
        r = t.obj(t.spec)
        inv = []
    return {"label": t.label, "kind": t.kind, "obligations": r.obligations,
            "unsupported": r.unsupported, "tb": getattr(r, "tb", None),
            "paths": r.paths, "solver_s": r.solver_s, "wall": time.time() - t0,
            "contracts": sorted(r.contracts), "inlined": sorted(r.inlined),
            "vacuity": r.vacuity, "used": sorted(set(r.used) | set(stl.USED)),
            "invariants": inv, "where": t.where if hasattr(t, "where") else "",
            "trivial": getattr(r, "trivial", 0)}


def worker(t, thorough, q, k):
    try:
        q.put((k, execute(t, thorough)))
    except BaseException as e:  # report, never hang the parent
        q.put((k, {"label": t.label, "kind": t.kind, "obligations": [],
                   "unsupported": "%s: %s" % (type(e).__name__, e),
                   "tb": traceback.format_exc(), "paths": 0, "solver_s": 0.0,
                   "wall": 0.0, "contracts": [], "inlined": [], "vacuity": 0,
                   "used": [], "invariants": [], "where": "", "trivial": 0}))


def pool(tasks, thorough, limit, nproc):
    ctx = mp.get_context("fork")
    q = ctx.Queue()
    pending = list(enumerate(tasks))
    running, out = {}, {}
    while pending or running:
        while pending and len(running) < nproc:
            k, t = pending.pop(0)
            p = ctx.Process(target=worker, args=(t, thorough, q, k), daemon=True)
            p.start()
            running[k] = (p, time.time(), t)
        try:
            k, r = q.get(timeout=0.5)
            out[k] = r
            p = running.pop(k)[0]
            p.join(5)
            continue
        except queue.Empty:
            pass
        for k, (p, t0, t) in list(running.items()):
            dead = not p.is_alive()
            if dead:
                try:
                    kk, r = q.get(timeout=1)
                    out[kk] = r
                    running.pop(kk)[0].join(5)
                    continue
                except queue.Empty:
                    pass
            if dead or time.time() - t0 > limit:
                p.kill()
                p.join()
                running.pop(k)
                out[k] = {"label": t.label, "kind": t.kind, "obligations": [],
                          "unsupported": "the verifier process ended" if dead else
                          "time limit of %d s" % limit,
                          "tb": None, "paths": 0, "solver_s": 0.0, "wall": time.time() - t0,
                          "contracts": [], "inlined": [], "vacuity": 0, "used": [],
                          "invariants": [], "where": "", "trivial": 0}
    return [out[k] for k in range(len(tasks))]


def fn_tasks(sp, contracts, missing, prop=None):
    """One task per function of the current source that a contract names."""
    out = []
    for k in contracts:
        if k.trusted:
            continue
        if prop is not None and prop not in getattr(k, "props", (prop,)):
            continue
        fns = [f for f in sp.prog.find(k.qname, k.sig) if sp.contract_for(f) is k]
        if not fns:
            missing.append("%s%s: no such function in the current source" %
                           (k.qname, sig_text(k.sig)))
        for f in fns:
            t = Task("fn", "%s [%s]" % (sp.prog.qfn(f), norm(f["type"]["qualType"])), sp, k, f)
            t.where = sp.prog.where(f)
            out.append(t)
    return out


def tasks_for(prop, repo):
    tasks, missing, trusted, assume = [], [], [], []
    for m in MODULES.get(prop, ()):
        mod = importlib.import_module("vcgen.specs." + m)
        try:
            tasks += mod.tasks(prop, repo, missing, trusted, assume)
        except (ExtractionError, Unsupported) as e:
            missing.append("%s: %s" % (m, e))
    return tasks, missing, trusted, assume


def run(prop, repo, work, thorough, nproc=None, only=None):
    tasks, missing, trusted, assume = tasks_for(prop, repo)
    if only:
        tasks = [t for t in tasks if only in t.label]
    t0 = time.time()
    res = pool(tasks, thorough, 780 if thorough else 420, nproc or int(os.environ.get("VERIF_PROCS", "7")))
    # An obligation the solver gives up on is attempted once more in a fresh
    # process with another seed before it is reported.
    again = [i for i, r in enumerate(res) if r["unsupported"] == "the verifier process ended" or
             any(o["status"] != "proved" for o in r["obligations"])]
    if again and time.time() - t0 < 200:
        from . import task
        task.SEED0 = 101
        for i, r2 in zip(again, pool([tasks[i] for i in again], thorough, 240,
                                     nproc or int(os.environ.get("VERIF_PROCS", "7")))):
            if not r2["unsupported"] and all(o["status"] == "proved" for o in r2["obligations"]):
                res[i] = r2
        task.SEED0 = 0
    obl, fns, lem, uns, used = [], [], [], list(missing), set()
    solver, vac = 0.0, 0
    trivial = 0
    for t, r in zip(tasks, res):
        if r["unsupported"]:
            uns.append("%s: %s" % (r["label"], r["unsupported"]))
            continue
        obl += r["obligations"]
        solver += r["solver_s"]
        vac += r["vacuity"]
        trivial += r["trivial"]
        used |= set(r["used"])
        bad = sum(1 for o in r["obligations"] if o["status"] != "proved")
        ent = {"name": r["label"], "obligations": len(r["obligations"]),
               "discharged": len(r["obligations"]) - bad, "paths": r["paths"],
               "solver_s": round(r["solver_s"], 2), "wall_s": round(r["wall"], 2)}
        if r["kind"] == "fn":
            ent["loop_invariants"] = r["invariants"]
            ent["uses_contracts"] = r["contracts"]
            ent["inlined"] = r["inlined"]
            fns.append(ent)
        else:
            lem.append(ent)
    import z3
    return {"obligations": obl, "functions": fns, "lemmas": lem,
            "bounded": ["replay harness on the real code (random inputs, bounded)"],
            "unsupported": uns,
            "backends": ["vcgen (this repository) with z3 %s" % z3.get_version_string()] if tasks else [],
            "solver_s": solver, "vacuity": vac,
            "trusted": sorted(used) + sorted(set(trusted)),
            "assumptions": COMMON_ASSUMPTIONS + sorted(set(assume)) if tasks else []}


if __name__ == "__main__":
    import sys
    t0 = time.time()
    tasks, missing, _, _ = tasks_for(sys.argv[1], os.environ.get("VERIF_REPO", "/repo"))
    if len(sys.argv) > 2:
        tasks = [t for t in tasks if any(w in t.label for w in sys.argv[2:])]
    print("tasks", len(tasks), "%.1fs" % (time.time() - t0), missing)
    for t, r in zip(tasks, pool(tasks, False, 900, 8)):
        bad = [o for o in r["obligations"] if o["status"] != "proved"]
        print("%-9s %s obl=%d bad=%d %.1fs" % (
            "UNSUP" if r["unsupported"] else ("FAIL" if bad else "ok"), r["label"],
            len(r["obligations"]), len(bad), r["wall"]))
        if r["unsupported"]:
            print("     ", r["unsupported"])
            if r["tb"] and "-v" in os.environ.get("VFLAGS", ""):
                print(r["tb"])
        for o in bad[:int(os.environ.get("NBAD", "6"))]:
            print("     ", o["status"], o["name"][-160:], o["where"])
            print("         ", o["detail"].replace("\n", " ")[:int(os.environ.get("DLEN", "220"))])
        if os.environ.get("INV"):
            for i in r["invariants"]:
                print("       inv", i)
    print("total %.1fs" % (time.time() - t0))
