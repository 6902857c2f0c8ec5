"""Normal forms (C14): conversion to a disjunction of conjunctions keeps the meaning.

Everything is stated for one arbitrary complete state (ANY) of one domain (PD0):
both are constants about which nothing is assumed, so a claim holds for all.
"""
import z3

from .form import *
from . import dom, eff, form, idx, prop, val
from .idx import KVU, empty_state, katom, nitems, patom, sidx, sitem, state_facts, state_item, state_iteration
from .par import seen, SEEN

SOURCE = '''
#include "normal_form.cc"
'''

MP = z3.MultiPattern
ANY = z3.Const("anyState", STATE)
PD0 = z3.Const("theDomain", PDDL)
AXH = z3.Bool("theAxiomsHoldInAnyState")

KPS = KRec("symbolic::PartialState", [("pos_", KSTATE), ("neg_", KSTATE)])
KVPS = KVec("vector", KPS)
KDNF = KRec("symbolic::DisjunctiveFormula", [("conjunctions", KVPS)])
KCNF = KRec("symbolic::ConjunctiveFormula", [("disjunctions", KVPS)])
for k in (KPS, KDNF, KCNF):
    k.real = True
KVD = KVec("vector", KDNF)
KPV = KPrim(KVPS.sort(), "pointer to conjunctions")      # a pointer to const is what it points to
KVPV = KVec("vector", KPV)
PSS, VPS, DS = KPS.sort(), KVPS.sort(), KDNF.sort()
CG = z3.DeclareSort("Combinations")
KCG = KPrim(CG, "CombinationGenerator")
ArrC, ArrV, ArrD, ArrSy = [z3.ArraySort(IS, s) for s in (PSS, VPS, DS, SYM)]
cg_of = z3.Function("combinationsOf", ArrV, IS, CG)
cg_a = z3.Function("combinationOptions", CG, ArrV)
cg_n = z3.Function("combinationLength", CG, IS)
cg_size = z3.Function("combinationCount", CG, IS)
cg_item = z3.Function("combinationAt", CG, IS, VPS)
cg_pick = z3.Function("combinationChoice", CG, IS, IS, IS)
cg_hit = z3.Function("combinationOfTrueConjunctions", CG, IS)

tr = z3.Function("isTrue", ATOM, B)              # in ANY
okA = z3.Function("hasItsArity", ATOM, B)
allT = z3.Function("allTrue", STATE, B)
noneT = z3.Function("noneTrue", STATE, B)
okS = z3.Function("allHaveTheirArity", STATE, B)
w_allT, w_noneT, w_okS = [z3.Function("w_" + n, STATE, ATOM) for n in ("allTrue", "noneTrue", "arity")]
apart = z3.Function("areDisjoint", STATE, STATE, B)
w_apart = z3.Function("w_areDisjoint", STATE, STATE, ATOM)
CT = z3.Function("conjunctionHolds", PSS, B)
CL = z3.Function("clauseHolds", PSS, B)
okC = z3.Function("isProper", PSS, B)            # some atom, each with its arity
DV = z3.Function("normalFormHolds", VPS, B)
okV = z3.Function("isProperForm", VPS, B)
conV = z3.Function("isConsistentForm", VPS, B)

x_ = z3.Const("x_", PSS)
ca, cb = z3.Consts("ca cb", ArrC)
va, vb = z3.Consts("va vb", ArrV)
da, db = z3.Consts("da db", ArrD)
ga = z3.Const("ga", ArrSy)
G_ = z3.Const("G_", CG)
v_ = z3.Const("v_", VPS)
s_, s2_ = z3.Consts("s_ s2_", STATE)
a_ = z3.Const("a_", ATOM)
n_ = z3.Const("n_", STR)
t_ = z3.Const("t_", SEQ)
V_ = z3.Const("V_", SEQ)
y_ = z3.Const("y_", SYM)
nn, mm, kk = z3.Ints("nn mm kk")


def FA(vs, f, *pats):
    return z3.ForAll(vs, f, patterns=list(pats))


def pos(x):
    return KPS.get(x, "pos_")


def neg(x):
    return KPS.get(x, "neg_")


def form_of(d):
    return KDNF.get(d, "conjunctions")


vlen, varr = KVPS.len_of, KVPS.arr_of
defs = []


def prefix(name, params, every, elem, trig, arrays=None):
    """name(params, n): every / some k below n satisfies elem(k)."""
    F = z3.Function(name, *[p.sort() for p in params], IS, B)
    W = z3.Function("w_" + name, *[p.sort() for p in params], IS, IS)
    f, w = F(*params, nn), W(*params, nn)
    sign = (lambda t: t) if every else z3.Not
    # sign(f): every k below n has sign(elem)
    defs.append(FA(params + [nn, kk], z3.Implies(z3.And(sign(f), 0 <= kk, kk < nn), sign(elem(*params, kk))), MP(f, trig(*params, kk))))
    defs.append(FA(params + [nn], z3.Or(sign(f), z3.And(0 <= w, w < nn, z3.Not(sign(elem(*params, w))))), f))
    defs.append(FA(params + [nn], z3.Implies(z3.And(sign(f), nn > 0), sign(elem(*params, nn - 1))), f))
    if arrays is not None:
        a, b = arrays
        g = F(b, *params[1:], mm)
        wg = W(b, *params[1:], mm)
        f = F(a, *params[1:], nn)
        defs.append(FA([a, b] + params[1:] + [nn, mm], z3.Implies(z3.And(sign(f), z3.Not(sign(g)), wg < nn), a[wg] != b[wg]), MP(f, g)))
    return F


DTn = prefix("someConjunctionHolds", [ca], False, lambda a, k: CT(a[k]), lambda a, k: a[k], (ca, cb))
ACn = prefix("allConjunctionsHold", [ca], True, lambda a, k: CT(a[k]), lambda a, k: a[k], (ca, cb))
ALc = prefix("allClausesHold", [ca], True, lambda a, k: CL(a[k]), lambda a, k: a[k], (ca, cb))
okN = prefix("allProper", [ca], True, lambda a, k: okC(a[k]), lambda a, k: a[k], (ca, cb))
conN = prefix("allConsistent", [ca], True, lambda a, k: apart(pos(a[k]), neg(a[k])), lambda a, k: a[k], (ca, cb))
allO = prefix("allOptionsHold", [va], True, lambda a, k: DTn(varr(a[k]), vlen(a[k])), lambda a, k: a[k], (va, vb))
okO = prefix("allOptionsProper", [va], True, lambda a, k: z3.And(vlen(a[k]) > 0, okN(varr(a[k]), vlen(a[k]))), lambda a, k: a[k], (va, vb))
allD = prefix("allFormsHold", [da], True, lambda a, k: DV(form_of(a[k])), lambda a, k: a[k], (da, db))
anyD = prefix("someFormHolds", [da], False, lambda a, k: DV(form_of(a[k])), lambda a, k: a[k], (da, db))
okD = prefix("allFormsProper", [da], True, lambda a, k: okV(form_of(a[k])), lambda a, k: a[k], (da, db))
neD = prefix("noFormIsEmpty", [da], True, lambda a, k: vlen(form_of(a[k])) > 0, lambda a, k: a[k], (da, db))
meets = lambda y, P, A: sem(y, PD0, P, A, ANY)
allG = prefix("allGoalsHold", [ga, P_, A_], True, lambda a, P, A, k: meets(a[k], P, A), lambda a, P, A, k: a[k])
anyG = prefix("someGoalHolds", [ga, P_, A_], False, lambda a, P, A, k: meets(a[k], P, A), lambda a, P, A, k: a[k])
at_tuple = lambda y, P, A, V, k: meets(y, P, scat(A, tup_seq(PD0, V, k)))
tup_trig = lambda y, P, A, V, k: gtup(PD0, V, k)
allU = prefix("holdsForAllTuples", [y_, P_, A_, V_], True, at_tuple, tup_trig)
anyU = prefix("holdsForSomeTuple", [y_, P_, A_, V_], False, at_tuple, tup_trig)
somePos = prefix("someItemTrue", [s_], False, lambda s, k: tr(katom(sitem(s, k))), lambda s, k: sitem(s, k))
someNeg = prefix("someItemFalse", [s_], False, lambda s, k: z3.Not(tr(katom(sitem(s, k)))), lambda s, k: sitem(s, k))
someCombo = prefix("someCombinationHolds", [G_], False, lambda g, k: ACn(varr(cg_item(g, k)), cg_n(g)), lambda g, k: cg_item(g, k))

TA = atomS(n_, t_)
defs += [
    FA([n_, t_], tr(TA) == z3.If(n_ == EQ, nm(sat(t_, 0)) == nm(sat(t_, 1)),
                                 z3.If(inh(PD0, n_), isaT(typeO(sat(t_, 0)), n_), holds(ANY, TA))), tr(TA)),
    FA([n_, t_], okA(TA) == z3.And(z3.Implies(n_ == EQ, slen(t_) == 2), z3.Implies(inh(PD0, n_), slen(t_) == 1)), okA(TA)),
    z3.Not(inh(PD0, EQ)),
    FA([x_], CT(x_) == z3.And(allT(pos(x_)), noneT(neg(x_))), CT(x_)),
    FA([x_], CL(x_) == z3.Or(z3.Not(noneT(pos(x_))), z3.Not(allT(neg(x_)))), CL(x_)),
    FA([x_], okC(x_) == z3.And(nitems(pos(x_)) + nitems(neg(x_)) > 0, nitems(pos(x_)) >= 0, nitems(neg(x_)) >= 0,
                               okS(pos(x_)), okS(neg(x_))), okC(x_)),
    FA([v_], DV(v_) == z3.Or(vlen(v_) <= 0, DTn(varr(v_), vlen(v_))), DV(v_)),
    FA([v_], okV(v_) == z3.And(vlen(v_) >= 0, okN(varr(v_), vlen(v_))), okV(v_)),
    FA([v_], conV(v_) == conN(varr(v_), vlen(v_)), conV(v_)),
    FA([s_, s2_, a_], z3.Implies(apart(s_, s2_), z3.Not(z3.And(holds(s_, a_), holds(s2_, a_)))),
       MP(apart(s_, s2_), holds(s_, a_)), MP(apart(s_, s2_), holds(s2_, a_))),
    FA([s_, s2_], z3.Or(apart(s_, s2_), z3.And(holds(s_, w_apart(s_, s2_)), holds(s2_, w_apart(s_, s2_)))), apart(s_, s2_)),
]
for f, w, e in ((allT, w_allT, tr), (noneT, w_noneT, lambda a: z3.Not(tr(a))), (okS, w_okS, okA)):
    defs += [FA([s_, a_], z3.Implies(z3.And(f(s_), holds(s_, a_)), e(a_)), MP(f(s_), holds(s_, a_))),
             FA([s_], z3.Or(f(s_), z3.And(holds(s_, w(s_)), z3.Not(e(w(s_))))), f(s_))]

OPT = cg_a(G_)[kk]
IT = cg_item(G_, nn)
# what C05 proves about combinations
combos = [
    FA([va, nn], z3.And(cg_a(cg_of(va, nn)) == va, cg_n(cg_of(va, nn)) == nn), cg_of(va, nn)),
    FA([G_], z3.And(cg_size(G_) >= 0, z3.Implies(cg_n(G_) == 0, cg_size(G_) == 0)), cg_size(G_)),
    FA([G_, nn], z3.Implies(z3.And(0 <= nn, nn < cg_size(G_)), vlen(IT) == cg_n(G_)), IT),
    FA([G_, nn, kk], z3.Implies(z3.And(0 <= nn, nn < cg_size(G_), 0 <= kk, kk < cg_n(G_)), z3.And(
        0 <= cg_pick(G_, nn, kk), cg_pick(G_, nn, kk) < vlen(OPT),
        varr(IT)[kk] == varr(OPT)[cg_pick(G_, nn, kk)])), varr(IT)[kk]),
]
w_DTn = z3.Function("w_someConjunctionHolds", ArrC, IS, IS)
HIT = cg_hit(G_)
# every choice occurs, so that of a true conjunction from each option does
combos += [
    FA([G_], z3.Implies(z3.And(cg_n(G_) > 0, allO(cg_a(G_), cg_n(G_))), z3.And(0 <= HIT, HIT < cg_size(G_))), allO(cg_a(G_), cg_n(G_)), cg_size(G_)),
    FA([G_, kk], z3.Implies(z3.And(allO(cg_a(G_), cg_n(G_)), 0 <= kk, kk < cg_n(G_)),
                            varr(cg_item(G_, HIT))[kk] == varr(OPT)[w_DTn(varr(OPT), vlen(OPT))]), varr(cg_item(G_, HIT))[kk]),
]


# ------------------------------------------------------------------ contracts

def packed(v):
    return KPS.pack(v)


def vec(v):
    """The conjunctions of a normal form."""
    return v.fields["conjunctions"]


def truth(v):
    return z3.Or(v.len <= 0, DTn(v.arr, v.len))


def proper(v):
    return okN(v.arr, v.len)


def consistent(v):
    return conN(v.arr, v.len)


def outcome(ret, want):
    """has a value with the wanted meaning, or none where it does not hold"""
    out = [("no value only where the condition does not hold", z3.Implies(z3.Not(ret.has), z3.Not(want)))]
    if ret.val is not None and isinstance(ret.val, Rec):
        v = vec(ret.val)
        out += [("the normal form holds exactly where the condition does", z3.Implies(ret.has, truth(v) == want)),
                ("every disjunct is a proper conjunction", z3.Implies(ret.has, z3.And(v.len >= 0, proper(v)))),
                ("every disjunct is consistent", z3.Implies(ret.has, consistent(v)))]
    else:
        out += [("has a value", z3.Not(ret.has))]
    return out


def some_form(c):
    return Opt(c.fresh_const("has", B), KDNF.fresh(c, "dnf"))


class NF(Contract):
    """(pddl, ...)"""
    def enter(self, c):
        return None, [c.new_root("ext/pddl", PD0)] + self.arguments(c)

    def pre(self, c, s):
        out = [("is about the domain considered", s.args[0] == PD0)] + self.requires(c, s)
        if z3.is_expr(s.args[-1]) and s.args[-1].sort() == B:
            out.append(("applies axioms only where states satisfy them", z3.Implies(s.args[-1], AXH)))
        return out

    def requires(self, c, s):
        return []

    def ret(self, c, s):
        return some_form(c)


def fresh_flag(c):
    return c.fresh_const("apply_axioms", B)


def fresh_conj(c):
    return KPS.fresh(c, "conj")


class EvalAtom(Contract):
    """EvaluateEquals(prop), EvaluateType(pddl, prop): the value, if it can be told."""
    typ = False

    def enter(self, c):
        pr = KPROP.fresh(c, "prop")
        for _, f in prop.wfprop(c, pr):
            c.assume(f)
        a = [c.new_root("ext/prop", pr)]
        return None, ([c.new_root("ext/pddl", PD0)] if self.typ else []) + a

    def at(self, s):
        return patom(s.args[-1].fields)

    def pre(self, c, s):
        return ([("is about the domain considered", s.args[0] == PD0)] if self.typ else []) + [
            ("has its arity", okA(self.at(s)))]

    def ret(self, c, s):
        return Opt(c.fresh_const("known", B), c.fresh_const("value", B))

    def post(self, c, o, nw, ret):
        if ret.val is None:
            return [("has no value", z3.Not(ret.has))]
        return [("a value is the atom's", z3.Implies(ret.has, ret.val == tr(self.at(o))))]


class EvalConj(Contract):
    """The same for a conjunction of one atom."""
    typ = False

    def enter(self, c):
        a = [c.new_root("ext/conj", fresh_conj(c))]
        return None, ([c.new_root("ext/pddl", PD0)] if self.typ else []) + a

    def pre(self, c, s):
        x = s.args[-1].fields
        return ([("is about the domain considered", s.args[0] == PD0)] if self.typ else []) + [
            ("has one atom", nitems(x["pos_"]) + nitems(x["neg_"]) == 1), ("is proper", okC(packed(s.args[-1])))]

    ret = EvalAtom.ret

    def post(self, c, o, nw, ret):
        if ret.val is None:
            return [("has no value", z3.Not(ret.has))]
        return [("a value is the conjunction's", z3.Implies(ret.has, ret.val == CT(packed(o.args[-1]))))]


class Evaluate(NF):
    qname = "symbolic::Evaluate"

    def arguments(self, c):
        return [c.new_root("ext/conj", fresh_conj(c)), fresh_flag(c)]

    def requires(self, c, s):
        return [("the conjunction is proper", okC(packed(s.args[1])))]

    ret = EvalAtom.ret

    def post(self, c, o, nw, ret):
        x = o.args[1]
        out = [("no value only for a consistent conjunction", z3.Implies(z3.Not(ret.has), apart(x.fields["pos_"], x.fields["neg_"])))]
        if ret.val is not None:
            out.append(("a value is the conjunction's", z3.Implies(ret.has, ret.val == CT(packed(x)))))
        return out


class IsSubset(Contract):
    qname = "IsSubset"

    def enter(self, c):
        return None, [c.new_root("ext/sub", fresh_conj(c)), c.new_root("ext/super", fresh_conj(c))]

    def ret(self, c, s):
        return c.fresh_const("is_subset", B)

    def post(self, c, o, nw, ret):
        r = c.rv(ret)
        x, y = o.args
        out = []
        for f in ("pos_", "neg_"):
            s, t = x.fields[f], y.fields[f]
            out.append(("yes only when every atom of %s is in the other" % f, z3.Implies(r, FA(
                [a_], z3.Implies(holds(s, a_), holds(t, a_)), holds(s, a_), holds(t, a_)))))
        return out



class InPlace(Contract):
    """Works on the vector its last argument points to."""
    kind = KVPS

    def vector(self, c):
        self.v0 = KVPS.fresh(c, "conjunctions")
        return Ptr(c.new_root("ext/conjunctions", self.v0))

    def post(self, c, o, nw, ret):
        return self.law(c, o, self.v0, c.read(c.deref(o.args[-1])), c.rv(ret))

    def call_post(self, c, o, nw, ret):
        pl = c.deref(o.args[-1])
        old = c.read(pl)
        new = KVPS.fresh(c, "conjunctions")
        c.write(pl, new)
        return self.law(c, o, old, new, ret)


class SortUnique(InPlace):
    qname = "SortUnique"

    def enter(self, c):
        return None, [self.vector(c)]

    def law(self, c, o, v, w, ret):
        return [("keeps the meaning", DTn(w.arr, w.len) == DTn(v.arr, v.len)),
                ("is empty only if it was", z3.And(w.len >= 0, (w.len > 0) == (v.len > 0))),
                ("keeps proper conjunctions", z3.Implies(okN(v.arr, v.len), okN(w.arr, w.len))),
                ("keeps consistent conjunctions", z3.Implies(conN(v.arr, v.len), conN(w.arr, w.len)))]


class TryInsert(InPlace):
    qname = "TryInsertSubset"

    def enter(self, c):
        return None, [c.new_root("ext/conj", fresh_conj(c)), self.vector(c)]

    def pre(self, c, s):
        x = s.args[0]
        v = c.read(c.deref(s.args[1]))
        return [("the conjunction is proper", okC(packed(x))), ("it is consistent", apart(x.fields["pos_"], x.fields["neg_"])),
                ("the others are proper", proper(v)), ("the others are consistent", consistent(v))]

    def ret(self, c, s):
        return c.fresh_const("inserted", B)

    def law(self, c, o, v, w, ret):
        x = CT(packed(o.args[0]))
        return [("yes: the disjunction has the conjunction added", z3.Implies(ret, DTn(w.arr, w.len) == z3.Or(x, DTn(v.arr, v.len)))),
                ("no: nothing changes", z3.Implies(z3.Not(ret), z3.And(DTn(w.arr, w.len) == DTn(v.arr, v.len), (w.len > 0) == (v.len > 0)))),
                ("yes: there is a disjunct", z3.And(w.len >= 0, z3.Implies(ret, w.len > 0))),
                ("keeps proper conjunctions", proper(w)), ("keeps consistent conjunctions", consistent(w))]


class Simplify(NF):
    qname = "symbolic::Simplify"
    modifies = (1,)

    def arguments(self, c):
        return [c.new_root("ext/dnf", KDNF.fresh(c, "dnf")), fresh_flag(c)]

    def requires(self, c, s):
        return [("the disjuncts are proper", proper(vec(s.args[1])))]

    def post(self, c, o, nw, ret):
        return outcome(ret, truth(vec(o.args[1])))


class Disjoin(NF):
    qname = "symbolic::Disjoin"
    modifies = (1,)
    every = False

    def arguments(self, c):
        return [c.new_root("ext/dnfs", KVD.fresh(c, "dnfs")), fresh_flag(c)]

    def requires(self, c, s):
        v = s.args[1]
        return [("the disjuncts are proper", okD(v.arr, v.len))]

    def post(self, c, o, nw, ret):
        v = o.args[1]
        return outcome(ret, (allD if self.every else anyD)(v.arr, v.len))


class Conjoin(Disjoin):
    qname = "symbolic::Conjoin"
    modifies = ()
    every = True


class Flip(Contract):
    qname = "symbolic::Flip"
    modifies = (0,)

    def enter(self, c):
        return None, [c.new_root("ext/dnf", KDNF.fresh(c, "dnf"))]

    def ret(self, c, s):
        return KCNF.fresh(c, "cnf")

    def post(self, c, o, nw, ret):
        v, w = vec(o.args[0]), c.rv(ret).fields["disjunctions"]
        return [("has the same parts", z3.And(w.len == v.len, w.arr == v.arr))]


class Convert(Contract):
    qname = "symbolic::Convert"
    modifies = (0,)

    def enter(self, c):
        return None, [c.new_root("ext/cnf", KCNF.fresh(c, "cnf"))]

    def pre(self, c, s):
        v = s.args[0].fields["disjunctions"]
        return [("the clauses are proper", okN(v.arr, v.len))]

    def ret(self, c, s):
        return KVD.fresh(c, "dnfs")

    def post(self, c, o, nw, ret):
        v, w = o.args[0].fields["disjunctions"], c.rv(ret)
        return [("all hold exactly when every clause does", allD(w.arr, w.len) == ALc(v.arr, v.len)),
                ("all are proper", okD(w.arr, w.len))]


class OfClauses(NF):
    """DisjunctiveFormula::Create(pddl, cnf)"""
    qname = "symbolic::DisjunctiveFormula::Create"
    modifies = (1,)

    def arguments(self, c):
        return [c.new_root("ext/cnf", KCNF.fresh(c, "cnf")), fresh_flag(c)]

    def requires(self, c, s):
        v = s.args[1].fields["disjunctions"]
        return [("the clauses are proper", okN(v.arr, v.len))]

    def post(self, c, o, nw, ret):
        v = o.args[1].fields["disjunctions"]
        return outcome(ret, ALc(v.arr, v.len))


class NegateForm(NF):
    qname = "symbolic::Negate"
    modifies = (1,)

    def arguments(self, c):
        return [c.new_root("ext/dnf", KDNF.fresh(c, "dnf"))]

    def requires(self, c, s):
        return [("the disjuncts are proper", proper(vec(s.args[1])))]

    def post(self, c, o, nw, ret):
        return outcome(ret, z3.Not(truth(vec(o.args[1]))))


class OfGoal(NF):
    """DisjunctiveFormula::Create(pddl, goal, parameters, arguments)"""
    qname = "symbolic::DisjunctiveFormula::Create"

    def arguments(self, c):
        y = c.fresh_const("symbol", SYM)
        c.assume(z3.And(opened(y), opened(sub(y))))
        return [y, c.new_root("ext/parameters", KVOBJ.fresh(c, "parameters")),
                c.new_root("ext/arguments", KVOBJ.fresh(c, "arguments")), fresh_flag(c)]

    def requires(self, c, s):
        return [("the goal is well-formed", wf(PD0, KSYM.pack(s.args[1]))),
                ("an argument for every parameter", s.args[2].len == s.args[3].len)]

    def post(self, c, o, nw, ret):
        return outcome(ret, meets(KSYM.pack(o.args[1]), vseq(o.args[2]), vseq(o.args[3])))


class OfFormula(OfGoal):
    """the same for a formula"""
    def arguments(self, c):
        return [c.new_root("ext/formula", form.KFORM.fresh(c, "formula"))] + OfGoal.arguments(self, c)[1:]

    def goal_of(self, s):
        return KSYM.pack(s.args[1].fields["symbol_"])

    def requires(self, c, s):
        return [("the goal is well-formed", wf(PD0, self.goal_of(s))),
                ("an argument for every parameter", s.args[2].len == s.args[3].len)]

    def post(self, c, o, nw, ret):
        return outcome(ret, meets(self.goal_of(o), vseq(o.args[2]), vseq(o.args[3])))


class Consistent(Contract):
    """PartialState::IsConsistent"""
    qname = "symbolic::PartialState::IsConsistent"

    def enter(self, c):
        return fresh_conj(c), []

    def ret(self, c, s):
        return c.fresh_const("consistent", B)

    def post(self, c, o, nw, ret):
        x = o.this.fields
        return [("is whether no atom is both true and false", c.rv(ret) == apart(x["pos_"], x["neg_"]))]


class AxiomsConsistent(Contract):
    qname = "symbolic::Axiom::IsConsistent"
    trusted = "a conjunction that contradicts an axiom holds in no state that satisfies the axioms (C12)"

    def ret(self, c, s):
        return c.fresh_const("consistent", B)

    def post(self, c, o, nw, ret):
        return [("", z3.Implies(z3.And(AXH, z3.Not(ret)), z3.Not(CT(packed(o.args[1])))))]


# ------------------------------------------------------------------ operations

def as_state(c, v):
    """State{...}: the state of the listed propositions"""
    S = empty_state(c)
    if not isinstance(v, Vec) or not z3.is_int_value(z3.simplify(v.len)):
        raise Unsupported("State from a list")
    for i in range(z3.simplify(v.len).as_long()):
        S = with_atom(c, S, KPROP.unpack(z3.simplify(z3.Select(v.arr, i))).fields)
    return S


def with_atom(c, S, x):
    c.check("the hash belongs to the proposition", x["hash_"] == prop.ghash(x["name_"], x["arguments_"]))
    at = patom(x)
    new = c.fresh_const("state", STATE)
    c.assume(FA([a_], holds(new, a_) == z3.Or(a_ == at, holds(S, a_)), holds(new, a_), holds(S, a_)))
    c.assume(holds(new, at))
    c.assume(z3.And(nitems(new) >= 1, nitems(new) >= nitems(S), nitems(S) >= 0))
    return new


def state_ctor(c, t, ct, args, n, into):
    if strip_cv(t).split("::")[-1] != "State" or "initializer_list" not in ct:
        return NotImplemented
    idx.used("State{...} holds the listed propositions (C01, C02)")
    v = as_state(c, c.rv(c.ev(args[0])))
    if into is not None:
        c.write_init(into, v)
    return v


def nf_state(c, qn, fn, this, args, node):
    """insert of one proposition or of a range, and contains"""
    if this is None:
        return NotImplemented
    v = c.rv(this)
    if not z3.is_expr(v) or v.sort() != STATE:
        return NotImplemented
    nme = fn.get("name")
    if nme == "insert" and len(args) == 1:
        x = c.rv(args[0]).fields
        new = with_atom(c, v, x)
        c.write(Place(this.root, this.path), new)
        return z3.Not(holds(v, patom(x)))
    if nme == "insert" and len(args) == 2:
        f, l = [c.rv(a) for a in args]
        if not (isinstance(f, It) and isinstance(l, It)):
            raise Unsupported("insert range")
        src = c.read(f.place)
        if not (z3.is_expr(src) and src.sort() == STATE):
            raise Unsupported("insert range")
        c.check("the whole state is inserted", z3.And(f.idx == 0, l.idx == nitems(src)), node)
        idx.used("inserting a state's propositions gives the union (C01, C03)")
        new = c.fresh_const("state", STATE)
        c.assume(FA([a_], holds(new, a_) == z3.Or(holds(v, a_), holds(src, a_)), holds(new, a_), holds(v, a_), holds(src, a_)))
        c.assume(z3.And(nitems(new) >= nitems(v), nitems(new) >= nitems(src), nitems(v) >= 0, nitems(src) >= 0))
        c.write(Place(this.root, this.path), new)
        return c.fresh_const("inserted", B)
    if nme == "reserve":
        return VOID
    return NotImplemented


def moved_item(c, v, s, rest, new):
    """A proposition of a state is moved from: the others stay."""
    S = c.fresh_const("state", STATE)
    i = s[1]
    c.assume(nitems(S) == nitems(v))
    c.assume(FA([kk], z3.Implies(kk != i, sitem(S, kk) == sitem(v, kk)), sitem(S, kk), sitem(v, kk)))
    return S


def combos_ctor(c, t, ct, args, n, into):
    if "CombinationGenerator<" not in t or len(args) != 1:
        return NotImplemented
    w = c.rv(c.ev(args[0]))
    if isinstance(w, Vec) and w.ek is KPV:
        idx.used("CombinationGenerator enumerates every combination (C05); their number fits an int")
        c.check("no option list is empty", okO(w.arr, w.len), n)
        v = cg_of(w.arr, w.len)
    elif z3.is_expr(w) and w.sort() == CG:
        v = w
    else:
        return NotImplemented
    if into is not None:
        c.write_init(into, v)
    return v


def combos_ops(c, qn, fn, this, args, node):
    xs = ([this] if this is not None else []) + list(args)
    vs_ = [c.rv(a) for a in xs]
    if not vs_:
        return NotImplemented
    x = vs_[0]
    if this is not None and z3.is_expr(x) and x.sort() == CG:
        nme = fn.get("name")
        if nme in ("begin", "cbegin", "end", "cend"):
            return It(Place(this.root, this.path), z3.IntVal(0) if "begin" in nme else cg_size(x))
        if nme == "size":
            return cg_size(x)
        raise Unsupported("combinations: " + str(nme))
    if isinstance(x, It) and fn.get("name", "").startswith("operator"):
        h = c.read(x.place)
        if not (z3.is_expr(h) and h.sort() == CG):
            return NotImplemented
        o = fn["name"][len("operator"):]
        if o in ("==", "!="):
            r = c.equal(x, vs_[1])
            return r if o == "==" else z3.Not(r)
        if o in ("++", "--"):
            c.write(xs[0], It(x.place, x.idx + 1 if o == "++" else x.idx - 1, x.rev))
            return x if len(xs) > 1 else xs[0]
        if o == "*":
            return c.deref_it(x, node)
    return NotImplemented


def combo_item(c, v, i):
    r = KVPS.unpack(cg_item(v, i))
    c.assume(r.len >= 0)
    return r


def address_of(c, p):
    v = c.read(p)
    if isinstance(v, Vec) and v.ek is KPS:
        return KVPS.pack(v)
    return None


def pointer_kind(t):
    h, a = split_targs(strip_cv(t))
    if h.split("::")[-1] == "vector" and a and strip_cv(a[0]).split("::")[-1] in ("Conjunction", "PartialState"):
        return KPV
    return val.pointer_kind(t)


def move_iterator(c, argnodes, n):
    """make_move_iterator: the elements are taken, what is left is unspecified."""
    it = c.val(argnodes[0])
    if not isinstance(it, It):
        raise Unsupported("make_move_iterator")
    key = "ext/moving/" + it.place.root + repr(it.place.path)
    v = c.read(it.place)
    if not isinstance(v, Vec):
        raise Unsupported("make_move_iterator")
    if not z3.eq(it.idx, v.len) or key not in c.mem:
        c.mem[key] = v
        left = KVPS.fresh(c, "left") if v.ek is KPS else None
        if left is None:
            raise Unsupported("make_move_iterator")
        c.write(it.place, Vec(v.cls, v.ek, v.len, left.arr))
    return It(Place(key), it.idx)


perm = z3.Function("sortedFrom", ArrC, IS, IS)
perm_inv = z3.Function("sortedTo", ArrC, IS, IS)


def std_sort(c, argnodes, n):
    """std::sort: the same elements in another order"""
    f, l = [c.val(a) for a in argnodes[:2]]
    if len(argnodes) != 2 or not (isinstance(f, It) and isinstance(l, It)):
        raise Unsupported("sort")
    v = c.read(f.place)
    c.check("sort: the whole vector", z3.And(f.idx == 0, l.idx == v.len), n)
    idx.used("std::sort permutes the elements")
    new = c.fresh_const("sorted", v.arr.sort())
    p, q = perm(new, kk), perm_inv(new, kk)
    c.assume(FA([kk], z3.Implies(z3.And(0 <= kk, kk < v.len), z3.And(0 <= p, p < v.len, new[kk] == v.arr[p])), new[kk]))
    c.assume(FA([kk], z3.Implies(z3.And(0 <= kk, kk < v.len), z3.And(0 <= q, q < v.len, new[q] == v.arr[kk])), v.arr[kk]))
    c.write(f.place, Vec(v.cls, v.ek, v.len, new))
    return VOID


def std_unique(c, argnodes, n):
    """std::unique: drops elements equal to the one before; equal conjunctions have the same atoms"""
    f, l = [c.val(a) for a in argnodes[:2]]
    if len(argnodes) != 2 or not (isinstance(f, It) and isinstance(l, It)):
        raise Unsupported("unique")
    v = c.read(f.place)
    c.check("unique: the whole vector", z3.And(f.idx == 0, l.idx == v.len), n)
    idx.used("std::unique keeps one of neighbouring equal elements")
    new = c.fresh_const("unique", v.arr.sort())
    m = c.fresh_const("last", IS)
    c.assume(z3.And(0 <= m, m <= v.len, (m > 0) == (v.len > 0)))
    p, q = perm(new, kk), perm_inv(new, kk)
    same = lambda S, T: FA([a_], holds(S, a_) == holds(T, a_), holds(S, a_), holds(T, a_))
    x, y = v.arr[kk], new[q]
    c.assume(FA([kk], z3.Implies(z3.And(0 <= kk, kk < m), z3.And(0 <= p, p < v.len, new[kk] == v.arr[p])), new[kk]))
    c.assume(FA([kk], z3.Implies(z3.And(0 <= kk, kk < v.len), z3.And(0 <= q, q < m)), v.arr[kk]))
    c.assume(FA([kk, a_], z3.Implies(z3.And(0 <= kk, kk < v.len), z3.And(
        holds(pos(x), a_) == holds(pos(y), a_), holds(neg(x), a_) == holds(neg(y), a_))),
        MP(v.arr[kk], holds(pos(x), a_)), MP(v.arr[kk], holds(neg(x), a_)), MP(v.arr[kk], holds(pos(y), a_)), MP(v.arr[kk], holds(neg(y), a_))))
    c.write(f.place, Vec(v.cls, v.ek, v.len, new))
    return It(f.place, m)


# ------------------------------------------------------------------ invariants

def parts(c, mem, kind_):
    """The vectors of conjunctions in variables: (name, path, vector)"""
    for r in list(mem):
        if r not in c.mem or "/tmp" in r or r in c.dead:
            continue
        v = mem[r]
        if isinstance(v, Vec) and v.ek is kind_:
            yield r, v
        elif isinstance(v, Rec) and kind_ is KPS:
            for f, x in v.fields.items():
                if isinstance(x, Vec) and x.ek is KPS:
                    yield r + "." + f, x


def candidates(c, lp):
    moved = [r for r in lp.entry if r in c.mem and any(h[0] == r for h in lp.havoc)]
    here = lambda nme: any(nme == r or nme.startswith(r + ".") for r in moved)
    ps = []
    for r in lp.entry:
        x = c.mem.get(r)
        if r in moved and isinstance(x, It):
            ps.append((r, x.idx, x))
        elif r in moved and z3.is_expr(x) and x.sort() == IS and "/tmp" not in r:
            ps.append((r, x, None))
    ent = lambda kind_: dict(parts(c, lp.entry, kind_))
    cur = lambda kind_: [(r, v) for r, v in parts(c, c.mem, kind_)]
    e_c, e_d = ent(KPS), ent(KDNF)
    flags = [(r, c.mem[r]) for r in moved if z3.is_expr(c.mem[r]) and c.mem[r].sort() == B and "/tmp" not in r]
    conjs = [(r, c.mem[r]) for r in c.mem if isinstance(c.mem[r], Rec) and c.mem[r].cls.split("::")[-1] == "PartialState" and
             set(c.mem[r].fields) == {"pos_", "neg_"} and "/tmp" not in r and r not in moved]
    for r, v in cur(KPS):
        if not here(r):
            continue
        yield r + " has proper conjunctions", lambda v=v: okN(v.arr, v.len)
        yield r + " has consistent conjunctions", lambda v=v: conN(v.arr, v.len)
        e = e_c.get(r)
        for ri, i, it in ps:
            for rs, w in e_c.items():
                yield "%s holds as %s did before %s" % (r, rs, ri), lambda v=v, w=w, i=i: DTn(v.arr, v.len) == DTn(w.arr, i)
            for rs, w in e_d.items():
                yield "%s holds as some of %s did before %s" % (r, rs, ri), lambda v=v, w=w, i=i: DTn(v.arr, v.len) == anyD(w.arr, i)
            if e is not None:
                yield "%s is as it was from %s on" % (r, ri), lambda v=v, e=e, i=i: z3.And(v.len == e.len, FA(
                    [kk], z3.Implies(i <= kk, v.arr[kk] == e.arr[kk]), v.arr[kk], e.arr[kk]))
                yield "%s is swapped before %s" % (r, ri), lambda v=v, e=e, i=i: FA([kk], z3.Implies(z3.And(0 <= kk, kk < i), z3.And(
                    pos(v.arr[kk]) == neg(e.arr[kk]), neg(v.arr[kk]) == pos(e.arr[kk]))), v.arr[kk], e.arr[kk])
                yield "%s has grown with %s" % (r, ri), lambda v=v, e=e, i=i: v.len == e.len + i
            if it is not None:
                G = c.read(it.place)
                if z3.is_expr(G) and G.sort() == CG:
                    yield "%s holds as some combination before %s" % (r, ri), lambda v=v, G=G, i=i: DTn(v.arr, v.len) == someCombo(G, i)
        if e is not None:
            for rf, b in flags:
                for rx, x in conjs:
                    yield "%s has %s added if %s" % (r, rx, rf), lambda v=v, e=e, b=b, x=x: DTn(v.arr, v.len) == z3.Or(
                        DTn(e.arr, e.len), z3.And(b, CT(packed(x))))
    for r, v in cur(KPV):
        if not here(r):
            continue
        yield r + " has proper options", lambda v=v: okO(v.arr, v.len)
        for ri, i, it in ps:
            for rs, w in cur(KDNF):
                yield "%s hold as %s before %s" % (r, rs, ri), lambda v=v, w=w, i=i: allO(v.arr, v.len) == allD(w.arr, i)
    pvs = [(r, c.mem[r]) for r in lp.entry if isinstance(c.mem.get(r), Vec) and c.mem[r].ek is KOBJ and "/tmp" not in r]
    for r, v in cur(KDNF):
        if not here(r):
            continue
        yield r + " has proper forms", lambda v=v: okD(v.arr, v.len)
        e = e_d.get(r)
        for ri, i, it in ps:
            if e is not None:
                yield "%s is as it was from %s on" % (r, ri), lambda v=v, e=e, i=i: z3.And(v.len == e.len, FA(
                    [kk], z3.Implies(i <= kk, v.arr[kk] == e.arr[kk]), v.arr[kk], e.arr[kk]))
                yield "none of %s was empty before %s" % (r, ri), lambda e=e, i=i: neD(e.arr, i)
            for rs, w in e_c.items():
                yield "%s hold as the clauses %s before %s" % (r, rs, ri), lambda v=v, w=w, i=i: allD(v.arr, v.len) == ALc(w.arr, i)
            if it is None:
                continue
            L = c.read(it.place)
            if isinstance(L, Vec) and L.ek is KSYM:
                for rp, P in pvs:
                    for ra, A in pvs:
                        if rp == ra:
                            continue
                        yield "%s hold as the goals before %s under %s, %s" % (r, ri, rp, ra),                             lambda v=v, i=i, L=L, P=P, A=A: allD(v.arr, v.len) == allG(L.arr, vseq(P), vseq(A), i)
                        yield "some of %s holds as one of the goals before %s under %s, %s" % (r, ri, rp, ra),                             lambda v=v, i=i, L=L, P=P, A=A: anyD(v.arr, v.len) == anyG(L.arr, vseq(P), vseq(A), i)
            if z3.is_expr(L) and L.sort() == GEN:
                ys = unique([c.mem[q_] for q_ in c.mem if z3.is_expr(c.mem[q_]) and c.mem[q_].sort() == SYM and "/tmp" not in q_])
                for y in ys:
                    for rp, P in pvs:
                        for ra, A in pvs:
                            if rp == ra:
                                continue
                            yield "%s hold as %s for the tuples before %s under %s, %s" % (r, y, ri, rp, ra),                                 lambda v=v, i=i, L=L, P=P, A=A, y=y: allD(v.arr, v.len) == allU(y, vseq(P), vseq(A), gvs(L), i)
                            yield "some of %s holds as %s for a tuple before %s under %s, %s" % (r, y, ri, rp, ra),                                 lambda v=v, i=i, L=L, P=P, A=A, y=y: anyD(v.arr, v.len) == anyU(y, vseq(P), vseq(A), gvs(L), i)
    sts = [(r, c.mem[r]) for r in moved if z3.is_expr(c.mem[r]) and c.mem[r].sort() == STATE and "/tmp" not in r]
    for ri, i, it in ps:
        if it is None:
            continue
        L = c.read(it.place)
        if isinstance(L, Vec) and L.ek is KPS:
            for rp, S in sts:
                yield "%s has atoms of their arity" % rp, lambda S=S: okS(S)
                for rn, R in sts:
                    if rp == rn:
                        continue
                    yield "%s and %s hold as the conjunctions before %s" % (rp, rn, ri),                         lambda S=S, R=R, L=L, i=i: z3.And(allT(S), noneT(R)) == ACn(L.arr, i)
                    yield "%s and %s have an atom after %s" % (rp, rn, ri), lambda S=S, R=R, i=i: z3.And(
                        nitems(S) >= 0, nitems(R) >= 0, z3.Implies(i > 0, nitems(S) + nitems(R) > 0))
        if z3.is_expr(L) and L.sort() == STATE and it.place.root in lp.entry:
            try:
                E = c._descend(lp.entry[it.place.root], it.place.path)
            except Unsupported:
                continue
            yield "the items of %s from %s on are as they were" % (it.place.shape(), ri), lambda L=L, E=E, i=i: z3.And(
                nitems(L) == nitems(E), FA([kk], z3.Implies(i <= kk, sitem(L, kk) == sitem(E, kk)), sitem(L, kk), sitem(E, kk)))
            for r, v in cur(KPS):
                e = e_c.get(r)
                if e is None or not here(r):
                    continue
                yield "%s holds with a true item before %s" % (r, ri), lambda v=v, e=e, E=E, i=i:                     DTn(v.arr, v.len) == z3.Or(DTn(e.arr, e.len), somePos(E, i))
                yield "%s holds with a false item before %s" % (r, ri), lambda v=v, e=e, E=E, i=i:                     DTn(v.arr, v.len) == z3.Or(DTn(e.arr, e.len), someNeg(E, i))
            # the vector that the state is part of
            cut = [k_ for k_, x in enumerate(it.place.path) if x[0] == "i"]
            if cut:
                at = it.place.path[cut[-1]][1]
                pre = it.place.path[:cut[-1]]
                fld = it.place.path[cut[-1] + 1:]
                v, e = c._descend(c.mem[it.place.root], pre), c._descend(lp.entry[it.place.root], pre)
                if isinstance(v, Vec) and v.ek is KPS:
                    yield "elements other than that of %s are as they were" % ri, lambda v=v, e=e, at=at: z3.And(v.len == e.len, FA(
                        [kk], z3.Implies(kk != at, v.arr[kk] == e.arr[kk]), v.arr[kk], e.arr[kk]))
                    for f, g in (("pos_", pos), ("neg_", neg)):
                        if fld and fld[-1][1] != f:
                            yield "%s is as it was beside %s" % (f, ri), lambda v=v, e=e, at=at, g=g: g(v.arr[at]) == g(e.arr[at])


for x in (KPS.sort(), VPS, DS):
    pass


def in_state(t):
    return "goal*" in t


def contracts():
    out = [EvalAtom(qname="EvaluateEquals", sig=lambda t: "Proposition" in t),
           EvalConj(qname="EvaluateEquals", sig=lambda t: "PartialState" in t),
           EvalAtom(qname="EvaluateType", sig=lambda t: "Proposition" in t, typ=True),
           EvalConj(qname="EvaluateType", sig=lambda t: "PartialState" in t, typ=True),
           IsSubset(), SortUnique(), TryInsert(), Consistent(), Evaluate(), Simplify(), Disjoin(), Conjoin(), Flip(), Convert(),
           OfClauses(sig=lambda t: "ConjunctiveFormula" in t), NegateForm(),
           OfGoal(sig=lambda t: "goal*" in t), OfFormula(sig=lambda t: "constFormula&" in t)]
    return out


def install(sp):
    form.install(sp)
    for n, k in (("PartialState", KPS), ("DisjunctiveFormula", KDNF), ("ConjunctiveFormula", KCNF), ("Conjunction", KPS),
                 ("Disjunction", KPS), ("CombinationGenerator", lambda args: KCG)):
        sp.kinds["symbolic::" + n] = sp.kinds[n] = k
    sp.hooks[:0] = [nf_state, state_iteration, combos_ops]
    sp.ctor_hooks = [state_ctor, combos_ctor] + sp.ctor_hooks
    KSTATE.default = empty_state
    sp.pointer_kind = pointer_kind
    sp.address_of = address_of
    sp.both_ways = True
    sp.functions = {"make_move_iterator": move_iterator, "sort": std_sort, "unique": std_unique}
    sp.sort_ops[("State", "len")] = lambda c, v: nitems(v)
    sp.sort_ops[("State", "item")] = state_item
    sp.sort_ops[("State", "upd")] = moved_item
    sp.sort_ops[("Combinations", "len")] = lambda c, v: cg_size(v)
    sp.sort_ops[("Combinations", "item")] = combo_item
    more = defs + combos + state_facts[:3] + [x for _, x in SEEN.values()]
    sp.base_axioms = sp.base_axioms + more
    sp.axioms = sp.axioms + more
    sp.cands = sp.cands + [candidates]


def tasks(prop_, repo, missing, trusted, assume):
    from ..ast import Program
    from ..verify import Task, fn_tasks
    sp = Spec(Program(SOURCE, repo))
    install(sp)
    use = contracts()
    sp.contracts = use + [AxiomsConsistent()] + form.assumed() + [CreateList(), CreateApplication()]
    assume += domain_assumptions() + [
        "goals are well-formed: =/2, type predicates are unary, a quantifier has variables (see known_findings.txt); no type is called =",
        "objects with the same name have the same type",
        "iterating a state visits each of its propositions once (C03); inserting adds atoms (C01, C02)",
        "CombinationGenerator enumerates every combination once (C05; the template is the same for every element type); "
        "their number fits an int",
        "operator< of partial states is a strict weak order; equal partial states have the same atoms (C04)",
        "with apply_axioms only states that satisfy the axioms are considered",
        "parse trees are finite: the claim for a goal follows from the claims for its parts (structural induction)"]
    return fn_tasks(sp, use, missing, prop_)
