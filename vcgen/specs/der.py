"""Derived predicates: the result is a fixpoint of the rules (C13)."""
import z3

from .eff import *
from . import dom, eff, form, prop, val
from .prop import KPROP

SOURCE = '''
#include "derived_predicate.cc"
#include "action.cc"
#include "axiom.cc"
#include "formula.cc"
#include "proposition.cc"
#include "pddl.cc"
'''

KDER = KRec("symbolic::DerivedPredicate", [("symbol_", KSYM), ("pddl_", KPDDL), ("name_", KSTR), ("parameters_", KVOBJ),
                                           ("param_gen_", KGEN), ("Preconditions_", KFORM)])
KDER.real = True
KVDER = KVec("vector", KDER)
D = KDER.sort()
fix = z3.Function("settled", STR, GEN, FF, STATE, B)
fixw = z3.Function("w_settled", STR, GEN, FF, STATE, SEQ)
own = z3.Function("derivedBy", STR, GEN, ATOM, B)
ownw = z3.Function("w_derivedBy", STR, GEN, ATOM, SEQ)
jfix = z3.Function("allSettled", KVDER.sort(), STATE, B)
jfixw = z3.Function("w_allSettled", KVDER.sort(), STATE, IS)
jown = z3.Function("derivedByAny", KVDER.sort(), ATOM, B)
jownw = z3.Function("w_derivedByAny", KVDER.sort(), ATOM, IS)
dersOf = z3.Function("derivedPredicatesOf", PDDL, KVDER.sort())
dwf = z3.Function("rulesAreWellFormed", KVDER.sort(), B)
G_ = z3.Const("G_", GEN)
F_ = z3.Const("F_", FF)
v_ = z3.Const("v_", KVDER.sort())


def key(d):
    """(name, generator, body) of a packed derived predicate."""
    return KDER.get(d, "name_"), KDER.get(d, "param_gen_"), KFORM.get(KDER.get(d, "Preconditions_"), "P_")


def rkey(r):
    f = r.fields
    return f["name_"], f["param_gen_"], f["Preconditions_"].fields["P_"]


def shape(n, g_, f):
    return z3.And(slen(gvs(g_)) > 0, arF(f) == slen(gvs(g_)))


def right(n, g_, f, t, s):
    """The atom of tuple t is in s exactly when the body holds there."""
    return holds(s, atomS(n, t)) == evF(f, t, s)


W = fixw(st_, G_, F_, S_)
FX = fix(st_, G_, F_, S_)
OW = own(st_, G_, a_)
V_ = KVDER.arr_of(v_)
_at = lambda i: key(V_[i])
der_defs = [
    FA([st_, G_, F_, S_, t_], z3.Implies(z3.And(FX, tc(gpd(G_), gvs(G_), t_)), right(st_, G_, F_, t_, S_)),
       [z3.MultiPattern(FX, tc(gpd(G_), gvs(G_), t_))]),
    FA([st_, G_, F_, S_], z3.Or(FX, z3.And(tc(gpd(G_), gvs(G_), W), z3.Not(right(st_, G_, F_, W, S_)))), [FX]),
    FA([st_, G_, a_, t_], z3.Implies(z3.And(tc(gpd(G_), gvs(G_), t_), a_ == atomS(st_, t_)), OW),
       [z3.MultiPattern(OW, tc(gpd(G_), gvs(G_), t_))]),
    FA([st_, G_, a_], z3.Implies(OW, z3.And(tc(gpd(G_), gvs(G_), ownw(st_, G_, a_)), a_ == atomS(st_, ownw(st_, G_, a_)))), [OW]),
    FA([v_, S_, ii], z3.Implies(z3.And(jfix(v_, S_), 0 <= ii, ii < KVDER.len_of(v_)), fix(*_at(ii), S_)),
       [z3.MultiPattern(jfix(v_, S_), V_[ii])]),
    FA([v_, S_], z3.Or(jfix(v_, S_), z3.And(0 <= jfixw(v_, S_), jfixw(v_, S_) < KVDER.len_of(v_),
                                            z3.Not(fix(*_at(jfixw(v_, S_)), S_)))), [jfix(v_, S_)]),
    FA([v_, a_, ii], z3.Implies(z3.And(0 <= ii, ii < KVDER.len_of(v_), own(*_at(ii)[:2], a_)), jown(v_, a_)),
       [z3.MultiPattern(jown(v_, a_), V_[ii])]),
    FA([v_, a_], z3.Implies(jown(v_, a_), z3.And(0 <= jownw(v_, a_), jownw(v_, a_) < KVDER.len_of(v_),
                                                 own(*_at(jownw(v_, a_))[:2], a_))), [jown(v_, a_)]),
    FA([v_, ii], z3.Implies(z3.And(dwf(v_), 0 <= ii, ii < KVDER.len_of(v_)), shape(*_at(ii))), [z3.MultiPattern(dwf(v_), V_[ii])]),
    FA([pd], z3.And(dwf(dersOf(pd)), KVDER.len_of(dersOf(pd)) >= 0), [dersOf(pd)]),
]


def outcome(S, R, ret, settled, owned):
    """What computing rules on S does; R: the state after it."""
    out = [("every derived atom is there exactly when its body holds", settled(R)),
           ("all other atoms are as before", FA([a_], z3.Implies(z3.Not(owned(a_)), holds(R, a_) == holds(S, a_)), [holds(R, a_)])),
           ("a state that is settled already stays as it is", z3.Implies(settled(S), R == S))]
    if ret is not None:
        out.append(("reports a change exactly when the state changed", ret == (R != S)))
    return out


class DerApply(Contract):
    """One rule, in place"""
    qname = "symbolic::DerivedPredicate::Apply"
    modifies = ()

    def enter(self, c):
        d = KDER.fresh(c, "rule")
        s = c.new_root("ext/state", c.fresh_const("state", STATE))
        return d, [Ptr(s)]

    def pre(self, c, s):
        return [("the rule has parameters", shape(*rkey(s.this)))]

    def ret(self, c, s):
        return c.fresh_const("changed", B)

    def state(self, c, s):
        return c.read(c.deref(s.args[self.pos]))
    pos = 0

    def fns(self, s):
        k = rkey(s.this)
        return (lambda x: fix(*k, x)), (lambda a: own(*k[:2], a))

    def call_post(self, c, o, nw, ret):
        pl = c.deref(o.args[self.pos])
        S = c.read(pl)
        R = c.fresh_const("state", STATE)
        c.write(pl, R)
        return outcome(S, R, ret, *self.fns(o))

    def post(self, c, o, nw, ret):
        S = z3.Const("state!0", STATE)
        return outcome(S, self.state(c, o), c.rv(ret), *self.fns(o))


class DerAll(DerApply):
    """All rules, in place"""
    pos = 1

    def enter(self, c):
        v = KVDER.fresh(c, "rules")
        r = c.new_root("ext/rules", v)
        c.assume(v.len >= 0)
        s = c.new_root("ext/state", c.fresh_const("state", STATE))
        return None, [r, Ptr(s)]

    def pre(self, c, s):
        return [("every rule has parameters", dwf(KVDER.pack(s.args[0])))]

    def fns(self, s):
        v = KVDER.pack(s.args[0])
        return (lambda x: jfix(v, x)), (lambda a: jown(v, a))


class DerValue(DerAll):
    """All rules, by value"""
    def enter(self, c):
        v = KVDER.fresh(c, "rules")
        c.assume(v.len >= 0)
        return None, [c.new_root("ext/state", c.fresh_const("state", STATE)), c.new_root("ext/rules", v)]

    def rules(self, s):
        return KVDER.pack(s.args[1])

    def pre(self, c, s):
        return [("every rule has parameters", dwf(self.rules(s)))]

    def fns(self, s):
        v = self.rules(s)
        return (lambda x: jfix(v, x)), (lambda a: jown(v, a))

    def ret(self, c, s):
        return c.fresh_const("state", STATE)

    def call_post(self, c, o, nw, ret):
        return outcome(o.args[0], ret, None, *self.fns(o))

    def post(self, c, o, nw, ret):
        return outcome(o.args[0], c.rv(ret), None, *self.fns(o)) + [
            ("the state given is unchanged", nw.args[0] == o.args[0])]


class DerivedState(DerValue):
    qname = "symbolic::Pddl::DerivedState"

    def enter(self, c):
        return c.fresh_const("pddl", PDDL), [c.new_root("ext/state", c.fresh_const("state", STATE))]

    def rules(self, s):
        return dersOf(s.this)

    def pre(self, c, s):
        return []


class DerCtor(Contract):
    """DerivedPredicate(pddl, rule)"""
    qname = "symbolic::DerivedPredicate::DerivedPredicate"

    def enter(self, c):
        return None, [c.new_root("ext/pddl", c.fresh_const("pddl", PDDL)), c.fresh_const("rule", SYM)]

    def pre(self, c, s):
        y_ = KSYM.pack(s.args[1])
        h = field("get_head", y_)
        return [("the rule is well-formed", z3.And(y_ != nullS, h != nullS, field("head", h) != nullS,
                                                   field("args", h, KSYML) != nullL, wf(s.args[0], field("get_body", y_))))]

    def ret(self, c, s):
        return KDER.fresh(c, "rule")

    def post(self, c, o, nw, ret):
        f = ret.fields
        p_, y_ = o.args[0], KSYM.pack(o.args[1])
        h = field("get_head", y_)
        P = vseq(f["parameters_"])
        out = [("has the name of its head", f["name_"] == nameS(field("head", h))),
               ("has the parameters of its head", P == olist(p_, field("args", h, KSYML))),
               ("enumerates the arguments of its parameters", f["param_gen_"] == genOf(p_, P))]
        return out + [("evaluates its body", x) for x in meaning(f["Preconditions_"].fields, p_, field("get_body", y_), P)]


def der_candidates(c, lp):
    moved = [r for r in lp.entry if r in c.mem and any(h[0] == r for h in lp.havoc)]
    recs = [(r, c.mem[r]) for r in c.mem if isinstance(c.mem[r], Rec) and c.mem[r].cls == KDER.cls and r not in c.dead]
    vecs = [(r, c.mem[r]) for r in c.mem if isinstance(c.mem[r], Vec) and c.mem[r].ek is KDER and r not in c.dead]
    bools = [(r, c.mem[r], lp.entry[r]) for r in moved if z3.is_expr(c.mem[r]) and c.mem[r].sort() == B]
    states = [(r, c.mem[r], lp.entry[r]) for r in moved if z3.is_expr(c.mem[r]) and c.mem[r].sort() == STATE]
    pos = []
    for r in moved:
        x = c.mem[r]
        if isinstance(x, It):
            pos.append((r, x.idx, x))
        elif z3.is_expr(x) and x.sort() == IS and "/tmp" not in r:
            pos.append((r, x, None))
    rules = [(r, lambda x, k=rkey(v): fix(*k, x), lambda a, k=rkey(v): own(*k[:2], a)) for r, v in recs]
    rules += [(r, lambda x, v=KVDER.pack(v): jfix(v, x), lambda a, v=KVDER.pack(v): jown(v, a)) for r, v in vecs]
    for rs, R, S in states:
        for rb, b, e in bools:
            for sign in (True, False):
                q = b if sign else z3.Not(b)
                qe = e if sign else z3.Not(e)
                n = rb if sign else "not " + rb
                yield "%s is as it was unless %s" % (rs, n), lambda q=q, R=R, S=S: z3.Or(q, R == S)
                for rd, fx, _ in rules:
                    yield "%s only when %s was not settled for %s" % (n, rs, rd), lambda q=q, qe=qe, fx=fx, S=S: \
                        z3.Implies(q, z3.Or(qe, z3.Not(fx(S))))
                    yield "%s is settled for %s unless %s" % (rs, rd, n), lambda q=q, fx=fx, R=R: z3.Or(q, fx(R))
                for ri, i, it in pos:
                    for rd, v in recs:
                        k = rkey(v)
                        yield "%s is settled for %s before %s unless %s" % (rs, rd, ri, n), lambda q=q, R=R, i=i, k=k: z3.Or(q, FA(
                            [ii], z3.Implies(z3.And(0 <= ii, ii < i), right(*k, tup_seq(gpd(k[1]), gvs(k[1]), ii), R)),
                            [gtup(gpd(k[1]), gvs(k[1]), ii)]))
                    for rv_, v in vecs:
                        yield "%s is settled for the rules of %s before %s unless %s" % (rs, rv_, ri, n), \
                            lambda q=q, R=R, i=i, v=v: z3.Or(q, FA([ii], z3.Implies(
                                z3.And(0 <= ii, ii < i), fix(*key(v.arr[ii]), R)), [v.arr[ii]]))
        for rd, _, ow in rules:
            yield "%s is as it was but for the atoms of %s" % (rs, rd), lambda R=R, S=S, ow=ow: FA(
                [a_], z3.Implies(z3.Not(ow(a_)), holds(R, a_) == holds(S, a_)), [holds(R, a_)])


def pddl_rules(c, qn, fn, this, args, node):
    if this is not None and qn == "symbolic::Pddl::derived_predicates":
        v = c.rv(this)
        if z3.is_expr(v) and v.sort() == PDDL:
            return c.new_root("ext/rules", KVDER.unpack(dersOf(v)))
    return NotImplemented


def contracts():
    return [DerApply(sig=lambda t: t.startswith("bool(State*)")), DerAll(sig=lambda t: t.startswith("bool(const")),
            DerValue(sig=lambda t: t.startswith("State(constState&,conststd::vector<Deriv")),
            DerivedState(), DerCtor(sig=lambda t: "derivation_rule" in t or "_val_" in t or "val" in t.lower())]


def install(sp):
    eff.install(sp)
    sp.kinds["symbolic::DerivedPredicate"] = sp.kinds["DerivedPredicate"] = KDER
    sp.hooks[:0] = [pddl_rules]
    sp.base_axioms = sp.base_axioms + der_defs
    sp.axioms = sp.axioms + der_defs
    sp.cands = sp.cands + [der_candidates]


def tasks(prop_, repo, missing, trusted, assume):
    from ..ast import Program
    from ..verify import Task, fn_tasks
    prog = Program(SOURCE, repo)
    sp = Spec(prog)
    install(sp)
    use = contracts()
    sp.contracts = use + assumed_here()
    assume += domain_assumptions() + [
        "a derived predicate has at least one parameter (nullary ones are excluded)",
        "the rules settle: termination of the iteration is not proved",
        "formulas evaluate to their meaning (C09); states insert and erase as proved in C01",
        "states with the same atoms are the same abstract state"]
    return fn_tasks(sp, use, missing, prop_)
