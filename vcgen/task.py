"""Verification of one function against its contract, and of lemmas."""
import time
import traceback

import z3

from .engine import *
from .ast import sig_text
from .values import *


class Result:
    def __init__(self, name):
        self.name = name
        self.obligations = []     # dicts: name, status, where, detail
        self.unsupported = None
        self.paths = 0
        self.solver_s = 0.0
        self.contracts = set()
        self.inlined = set()
        self.vacuity = 0
        self.kind = "function"
        self.used = set()


def has_quant(f, cache={}):
    i = f.get_id()
    if i in cache and cache[i][0].eq(f):
        return cache[i][1]
    if z3.is_quantifier(f):
        r = True
    else:
        r = any(has_quant(x) for x in f.children())
    cache[i] = (f, r)
    return r


import os
RL = float(os.environ.get("RL", "2500"))
PROF = os.environ.get("PROF")
SEED0 = 0
QI = float(os.environ.get("QI", "10"))


class Solver:
    def __init__(self, axioms, timeout_ms, res):
        self.axioms, self.timeout, self.res = axioms, timeout_ms, res
        self.tag = ""

    def check(self, hyps, goal, timeout=None, seed=0):
        """'proved' | 'sat' | 'unknown'"""
        t0 = time.time()
        s = z3.SimpleSolver()
        # Resource limits are deterministic; the wall-clock limit is a backstop.
        ms = timeout or self.timeout
        s.set("rlimit", int(ms * RL))
        s.set("timeout", ms * 100)
        if seed or SEED0:
            s.set("random_seed", seed + SEED0)
        s.set("auto_config", False)
        s.set("smt.mbqi", False)
        s.set("smt.qi.eager_threshold", QI)
        s.set("smt.qi.lazy_threshold", 4 * QI)
        for a in self.axioms:
            s.add(a)
        for h in hyps:
            s.add(h)
        s.add(z3.Not(goal))
        r = s.check()
        self.res.solver_s += time.time() - t0
        if PROF:
            print("Q %.2f %s %s" % (time.time() - t0, r, self.tag))
        self.last = s
        if os.environ.get("RLSTAT"):
            st = s.statistics()
            print("RL", r, "%.2f" % (time.time() - t0), [st.get_key_value(k) for k in st.keys() if k == "rlimit count"], ms)
        if r == z3.unsat:
            return "proved"
        return "sat" if r == z3.sat else "unknown"


class FnTask:
    MAXPATHS = 3000

    def __init__(self, spec, fn, contract, name=None):
        self.spec, self.fn, self.contract = spec, fn, contract
        self.res = Result(name or contract.label if hasattr(contract, "label") else
                          contract.qname + sig_text(contract.sig))
        self.havoc, self.dropped, self.all_lits = {}, set(), set()
        self.solver = Solver(spec.axioms, spec.timeout_ms, self.res)
        self.ntriv = 0
        self.fcache = {}
        self.droplog = []
        self.unbegun = set()

    # callbacks from Ctx
    def trivial(self, name):
        self.ntriv += 1

    def note_write(self, key, root, path):
        h = self.havoc.setdefault(key, set())
        for k in range(len(path) + 1):
            if (root, path[:k]) in h:
                return
        for (r, p) in list(h):
            if r == root and p[:len(path)] == path:
                h.discard((r, p))
        h.add((root, path))
        raise Restart()

    def all_havoc(self):
        return set().union(*self.havoc.values()) if self.havoc else set()

    def used_contract(self, k):
        self.res.contracts.add(k.qname + sig_text(k.sig))
        if k.trusted:
            self.res.used.add("assumed contract: " + k.qname)

    def inlined(self, q):
        self.res.inlined.add(q)

    def enum_value(self, d, n):
        # Position within its enumeration.
        full = self.spec.prog.byid.get(d["id"])
        if full is None:
            raise Unsupported("enumerator " + d.get("name", "?"))
        par = self.spec.prog.parent[full["id"]]
        v = -1
        for e in kids(par):
            if e.get("kind") == "EnumConstantDecl":
                ini = [x for x in kids(e) if x["kind"] == "ConstantExpr"]
                v = int(ini[0]["value"]) if ini else v + 1
                if e["id"] == d["id"]:
                    return v
        raise Unsupported("enumerator")

    def feasible(self, hyps, f):
        s = z3.SimpleSolver()
        s.set("rlimit", int(500 * RL))
        s.set("timeout", 20000)
        for a in self.spec.feas_axioms if hasattr(self.spec, "feas_axioms") else ():
            s.add(a)
        for h in hyps:
            if isinstance(h, Guarded):
                continue
            if not has_quant(h):
                s.add(h)
        if has_quant(f):
            return True
        s.add(f)
        return s.check() != z3.unsat

    # -------------------------------------------------------------- paths
    def explore(self):
        work = [[]]
        obls, npaths, ends = [], 0, []
        while work:
            script = work.pop()
            c = Ctx(self, script)
            npaths += 1
            if npaths > self.MAXPATHS:
                raise Unsupported("more than %d paths" % self.MAXPATHS)
            self.run_path(c, ends)
            obls += c.obls
            work += c.pending
        return obls, npaths, ends

    def run_path(self, c, ends):
        k, fn = self.contract, self.fn
        top = Frame(None, None, "")
        c.frames.append(top)
        this, args = k.enter(c)
        tp = None
        if this is not None:
            tp = c.new_root("this", this) if not isinstance(this, Place) else this
        aps = []
        ps = self.spec.prog.params(fn)
        for i, (p, a) in enumerate(zip(ps, args)):
            if isinstance(a, Place):
                aps.append(a)
            elif norm(p["type"]["qualType"]).endswith("&"):
                aps.append(c.new_root("arg%d:%s" % (i, p.get("name", "")), a))
            else:
                aps.append(a)
        old = Snap(c.rv(tp) if tp is not None else None, [c.rv(a) for a in aps], tp, aps)
        c.entry = old
        for nm, f in k.pre(c, old):
            c.assume(f)
        c.pre_hyps = list(c.hyps)
        t = k.throws(c, old)
        where = fn
        try:
            if fn["kind"] == "CXXConstructorDecl":
                cls, rec = c.class_of(self.spec.prog.qname(self.spec.prog.scope(
                    self.spec.prog.byid.get(fn.get("previousDecl"), fn))))
                obj = c.temp(Rec(cls, {f["name"]: UNINIT for f in c.all_fields(rec)}))
                c.run_ctor(cls, rec, fn, aps, obj)
                ret = c.read(obj)
                new = Snap(ret, [c.rv(a) for a in aps], obj, aps)
            else:
                ret = c.call_top(fn, tp, aps)
                new = Snap(c.rv(tp) if tp is not None else None, [c.rv(a) for a in aps], tp, aps)
        except Kill:
            return
        except CppThrow as e:
            ends.append(list(c.hyps))
            if k.may_throw:
                new = Snap(c.rv(tp) if tp is not None else None, [c.rv(a) for a in aps], tp, aps)
                for nm, f in k.on_throw(c, old, new, e):
                    c.check("on throw: " + nm, f, where)
                c.check("reaches a throw", z3.BoolVal(True), where)
            elif t is None:
                c.check("does not throw (%s)" % e.what, z3.BoolVal(False), where)
            else:
                c.check("throws only when specified", t, where)
                new = Snap(c.rv(tp) if tp is not None else None, [c.rv(a) for a in aps], tp, aps)
                for nm, f in k.on_throw(c, old, new, e):
                    c.check("on throw: " + nm, f, where)
            return
        ends.append(list(c.hyps))
        try:
            self.finish(c, t, k, fn, where, old, new, ret, tp, aps)
        except Kill:
            return

    def finish(self, c, t, k, fn, where, old, new, ret, tp, aps):
        if t is not None:
            c.check("throws when specified", z3.Not(t), where)
        if k.returns_this:
            ok = isinstance(ret, Place) and ret.root == tp.root and ret.path == tp.path
            c.check("returns *this", z3.BoolVal(ok), where)
        for nm, f in k.steps(c, old, new, ret):
            c.check(nm, f, where)
        for nm, f in k.post(c, old, new, ret):
            c.check("ensures " + nm, f, where)
        # frame
        mods = set(k.modifies)
        if tp is not None and "this" not in mods and fn["kind"] != "CXXConstructorDecl":
            c.check("frame: *this is unchanged", same_value(c, old.this, new.this), where)
        for i, a in enumerate(aps):
            if isinstance(a, Place) and i not in mods:
                c.check("frame: argument %d is unchanged" % i,
                        same_value(c, old.args[i], new.args[i]), where)

    # -------------------------------------------------------------- proving
    def hyps_of(self, o):
        out = []
        for h in o.hyps:
            if isinstance(h, Guarded):
                if h.lit not in self.dropped:
                    out.append(h.f)
            else:
                out.append(h)
        return out

    def houdini(self, obls):
        inv = [o for o in obls if o.kind == "inv"]
        # Candidates never checked in some loop visit are fine: they are only
        # assumed where the same literal was generated.
        proved = {}
        rounds = 0
        while True:
            rounds += 1
            dropped = False
            groups = {}
            for o in inv:
                if o.lit in self.dropped:
                    continue
                groups.setdefault(id(o.hyps[0]) if False else (tuple(id(h) for h in o.hyps)), []).append(o)
            for g in groups.values():
                g = [o for o in g if o.lit not in self.dropped]
                if not g:
                    continue
                hy = self.hyps_of(g[0])
                active = frozenset(h.lit for h in g[0].hyps if isinstance(h, Guarded) and h.lit not in self.dropped)
                todo = [o for o in g if proved.get(id(o)) != active]
                if not todo:
                    continue
                r = self.solver.check(hy, z3.And([o.goal for o in todo]), timeout=4000)
                if r == "proved":
                    for o in todo:
                        proved[id(o)] = active
                    continue
                bad = []
                for o in todo:
                    self.solver.tag = o.lit.split("|", 1)[1] + " " + o.name
                    r = self.solver.check(hy, o.goal, timeout=1500 if has_quant(o.goal) else 400)
                    if r == "proved":
                        proved[id(o)] = active
                        continue
                    if has_quant(o.goal):
                        r = self.solver.check(hy, o.goal, timeout=self.spec.inv_timeout_ms, seed=5)
                        if r == "proved":
                            proved[id(o)] = active
                            continue
                    bad.append(o)
                for o in bad:
                    self.dropped.add(o.lit)
                    self.droplog.append((rounds, o, list(hy)))
                    dropped = True
            if not dropped:
                return rounds

    def run(self):
        try:
            for _ in range(60):
                try:
                    obls, n, ends = self.explore()
                    break
                except Restart:
                    continue
            else:
                raise Unsupported("loop effects do not stabilise")
            self.res.paths = n
            self.houdini(obls)
            if os.environ.get("UNBEGUN") and self.unbegun:
                print(*sorted("UNBEGUN " + x.split("|")[-1] for x in self.unbegun), sep="\n")
            if os.environ.get("DROPS"):
                for rd, o, hy in self.droplog:
                    if has_quant(o.goal):
                        print("DROP", rd, o.name, o.where)
                        if os.environ["DROPS"] in o.name:
                            print("GOAL", o.goal, *[str(h)[:400] for h in hy if "ForAll" not in str(h)], sep="\n  H ")
            seen = set()
            for o in obls:
                if o.kind != "assert":
                    continue
                hy = self.hyps_of(o)
                r = self.solver.check(hy, o.goal)
                if r != "proved":
                    r = self.retry(hy, o.goal, r)
                self.add(o.name, r, o.where, hy, o.goal)
            live = sorted({o.lit.split("|", 1)[1] for o in obls if o.kind == "inv" and o.lit not in self.dropped})
            self.invariants = live
            for o in obls:
                if o.kind == "inv" and o.lit not in self.dropped:
                    self.res.obligations.append({"name": self.res.name + ": " + o.name, "status": "proved",
                                                 "where": o.where, "detail": "", "n": 1})
            for k in range(self.ntriv):
                pass
            if self.ntriv:
                self.res.trivial = self.ntriv
            # Vacuity: at least one path reaches the end without contradiction.
            self.vacuity(ends)
        except Unsupported as e:
            self.res.unsupported = str(e)
        except RecursionError:
            self.res.unsupported = "recursion limit"
        except (AttributeError, KeyError, TypeError, IndexError, z3.Z3Exception, ValueError) as e:
            self.res.unsupported = "%s: %s" % (type(e).__name__, e)
            self.res.tb = traceback.format_exc()
        return self.res

    def retry(self, hy, goal, r):
        for seed in (7, 23):
            x = self.solver.check(hy, goal, timeout=self.spec.timeout_ms, seed=seed)
            if x == "proved":
                return x
        return r

    def add(self, name, r, where, hy, goal):
        self.res.obligations.append({
            "name": self.res.name + ": " + name, "status": r, "where": where,
            "detail": "" if r == "proved" else "goal: %s" % str(goal)[:600]})

    def vacuity(self, ends):
        if not ends and not getattr(self.contract, "never_returns", False):
            self.res.obligations.append({"name": self.res.name + ": vacuity (some path ends)",
                                         "status": "sat", "where": "", "detail": "no path reaches the end"})
            return
        for hy in ends[:40]:
            h2 = [h for h in hy if not isinstance(h, Guarded)]
            r = self.solver.check(h2, z3.BoolVal(False), timeout=1500)
            self.res.vacuity += 1
            if r != "proved":
                return
        self.res.obligations.append({"name": self.res.name + ": vacuity (hypotheses are consistent)",
                                     "status": "sat", "where": "", "detail": "all paths are contradictory"})


def same_value(c, a, b):
    if a is b:
        return z3.BoolVal(True)
    if z3.is_expr(a) and z3.is_expr(b):
        if z3.eq(a, b):
            return z3.BoolVal(True)
        return a == b
    if isinstance(a, Vec) and isinstance(b, Vec):
        if z3.eq(a.arr, b.arr):
            return a.len == b.len
        from .stl import seq_eq
        return seq_eq(c, a, b)
    if isinstance(a, Rec) and isinstance(b, Rec):
        return z3.And([same_value(c, a.fields[f], b.fields[f]) for f in a.fields] + [z3.BoolVal(True)])
    if isinstance(a, It) and isinstance(b, It):
        return a.idx == b.idx
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        return c.equal(a, b)
    if isinstance(a, Opt) and isinstance(b, Opt):
        return z3.And(a.has == b.has, z3.Implies(a.has, same_value(c, a.val, b.val)))
    if isinstance(a, Abs) and hasattr(a.model, "same"):
        return a.model.same(c, a, b)
    raise Unsupported("frame of %r" % (a,))


class Lemma:
    """A formula proved from the axioms (and earlier lemmas); by induction the
    base case and step are separate obligations."""

    def __init__(self, name, obligations, axioms=()):
        self.name, self.obls, self.axioms = name, obligations, axioms

    def run(self, spec):
        res = Result("lemma " + self.name)
        res.kind = "lemma"
        s = Solver(list(spec.base_axioms) + list(self.axioms), spec.timeout_ms, res)
        for nm, hyps, goal in self.obls:
            r = s.check(hyps, goal)
            if hyps and not z3.is_false(goal) and s.check(hyps, z3.BoolVal(False), timeout=1000) == "proved":
                res.obligations.append({"name": "lemma %s: %s: its hypotheses are consistent" % (self.name, nm),
                                        "status": "sat", "where": "", "detail": "contradictory hypotheses"})
            res.vacuity += 1
            if r != "proved":
                for seed in (7, 23):
                    if s.check(hyps, goal, seed=seed) == "proved":
                        r = "proved"
                        break
            res.obligations.append({"name": "lemma %s: %s" % (self.name, nm), "status": r,
                                    "where": "", "detail": "" if r == "proved" else str(goal)[:600]})
        return res
