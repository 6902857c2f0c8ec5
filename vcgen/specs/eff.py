"""Effects of actions: application to complete and partial states (C11).

One application is considered in an arbitrary context: the state it starts from
(BASE) and two disjoint sets of atoms, addc and delc, that contain everything the
action adds and deletes.  Choosing them as exactly the ground effects of the
action gives the property for every action whose effects do not conflict.
"""
import z3

from .form import *
from . import dom, form, prop, val

SOURCE = '''
#include "action.cc"
#include "axiom.cc"
#include "formula.cc"
#include "proposition.cc"
'''

LIST, FORALL, ADD, DEL, COND = range(5)
KNAMES = {LIST: None, FORALL: "forall_effects", ADD: "add_effects", DEL: "del_effects", COND: "cond_effects"}
k_ = z3.Int("k_")
e_ = z3.Const("e_", SYM)
a_ = z3.Const("a_", ATOM)
addc = z3.Function("addedByAction", ATOM, B)
delc = z3.Function("deletedByAction", ATOM, B)
AXM = z3.DeclareSort("AxiomPtr")
AAF = z3.DeclareSort("AxiomApplication")
KAX = KPrim(AXM, "AxiomPtr")
KVAX = KVec("vector", KAX)
KAAF = KPrim(AAF, "AxiomApplication")
hasAx = z3.Function("hasAxioms", PDDL, STR, B)
axItems = z3.Function("axiomsOf", PDDL, STR, KVAX.sort())
axParams = z3.Function("axiomParams", AXM, KVOBJ.sort())
axTerms = z3.Function("axiomTerms", AXM, KVOBJ.sort())
matches = z3.Function("matches", SEQ, SEQ, SEQ, B)      # axiom parameters, context terms, ground arguments
aafP, aafT, aafAP, aafAT = [z3.Function("aaf" + n, AAF, SEQ) for n in ("P", "T", "AP", "AT")]
aafNull = z3.Function("aafNull", AAF, SEQ, B)
strcat = z3.Function("strcat", STR, STR, STR)
subst = z3.Function("substitute", SEQ, SEQ, SEQ, SEQ)  # parameters, arguments, terms
ax_ = z3.Const("ax_", AXM)
al_ = z3.Const("al_", KVAX.sort())
listed = z3.Function("listed", AXM, KVAX.sort(), B)
triggered = z3.Function("axiomIsTriggered", PDDL, STR, SEQ, B)


def vs(x):
    return seqO(KVOBJ.arr_of(x), KVOBJ.len_of(x))


axiom_defs = [
    z3.ForAll([pd, li, p, q], inst(pd, li, p, q) == subst(p, q, olist(pd, li)), patterns=[inst(pd, li, p, q)]),
    # triggered(key, G): an axiom registered for the signed predicate has a context that G matches
    z3.ForAll([pd, st_, p, ax_], z3.Implies(z3.And(
        hasAx(pd, st_), listed(ax_, axItems(pd, st_)), matches(vs(axParams(ax_)), vs(axTerms(ax_)), p)), triggered(pd, st_, p)),
        patterns=[z3.MultiPattern(triggered(pd, st_, p), listed(ax_, axItems(pd, st_)))]),
    z3.ForAll([ax_, al_, ii], z3.Implies(z3.And(0 <= ii, ii < KVAX.len_of(al_), KVAX.arr_of(al_)[ii] == ax_), listed(ax_, al_)),
              patterns=[z3.MultiPattern(listed(ax_, al_), KVAX.arr_of(al_)[ii])]),
    z3.ForAll([pd, st_], KVAX.len_of(axItems(pd, st_)) >= 0, patterns=[axItems(pd, st_)]),
    z3.ForAll([ax_], z3.And(KVOBJ.len_of(axParams(ax_)) >= 0, KVOBJ.len_of(axTerms(ax_)) >= 0),
              patterns=[axParams(ax_), axTerms(ax_)]),
]


def ehead(e):
    return nameS(field("head", field("prop", e)))


def eterms(e):
    return field("args", field("prop", e), KSYML)


def elist(k, e):
    return field(KNAMES[k], e, KSYML)


def eff(e):
    return field("getEffects", e)


def evars(e):
    return field("getVarsList", e, KSYML)


def econd(e):
    return field("getCondition", e)


EIN = inst(pd, eterms(e_), P_, A_)
ENV = olist(pd, evars(e_))
EATOM = atomS(ehead(e_), EIN)
normal = z3.And(ehead(e_) != EQ, z3.Not(inh(pd, ehead(e_))))


touch = z3.Function("touch", SEQ, B)


class Eff:
    """Vocabulary for one kind of state."""

    def __init__(self, part):
        self.part = part
        s = "P" if part else ""
        self.S = PSTATE if part else STATE
        self.sort = z3.DeclareSort("EffectsFunction" + s)
        self.K = KPrim(self.sort, "EffectsFunction" + s)
        self.K.default = lambda c: c.fresh_const("no_effects", self.sort)
        self.knd = z3.Function("kindOf" + s, self.sort, IS)
        self.sym = z3.Function("nodeOf" + s, self.sort, SYM)
        self.epd = z3.Function("pddlOf" + s, self.sort, PDDL)
        self.eP = z3.Function("paramsOf" + s, self.sort, SEQ)
        self.base = z3.Const("before" + s, self.S)
        arg = (IS, SYM, PDDL, SEQ, SEQ)
        self.addE = z3.Function("adds" + s, *arg, ATOM, B)
        self.delE = z3.Function("deletes" + s, *arg, ATOM, B)
        self.ok = z3.Function("applies" + s, *arg, B)
        self.cov = z3.Function("covered" + s, *arg, B)
        self.okX = z3.Function("applies_unfolds" + s, *arg, B)
        self.addX = z3.Function("adds_unfolds" + s, *arg, ATOM, B)
        self.delX = z3.Function("deletes_unfolds" + s, *arg, ATOM, B)
        self.agree = z3.Function("agrees" + s, self.S, B)
        self.level = z3.Function("level" + s, self.S, self.S, IS)
        self.wit = {n: z3.Function("w_%s%s" % (n, s), *arg, ATOM, IS) for n in ("kind_add", "kind_del", "idx_add", "idx_del")}
        self.witT = {n: z3.Function("wt_%s%s" % (n, s), *arg, ATOM, SEQ) for n in ("add", "del")}
        self.witC = z3.Function("w_cov" + s, *arg, ATOM)
        self.witA = z3.Function("w_agree" + s, self.S, ATOM)
        self.witL = z3.Function("w_level" + s, self.S, self.S, ATOM)
        ar = z3.ArraySort(IS, self.sort)
        self.arr = ar
        self.up = {n: z3.Function("%s_up%s" % (n, s), ar, IS, SEQ, ATOM, B) for n in ("add", "del")}
        self.upw = {n: z3.Function("%s_upw%s" % (n, s), ar, IS, SEQ, ATOM, IS) for n in ("add", "del")}
        self.upg = {n: z3.Function("%s_upg%s" % (n, s), self.sort, PDDL, SEQ, IS, SEQ, ATOM, B) for n in ("add", "del")}
        self.upgw = {n: z3.Function("%s_upgw%s" % (n, s), self.sort, PDDL, SEQ, IS, SEQ, ATOM, IS) for n in ("add", "del")}

    def E(self, n):
        return self.addE if n == "add" else self.delE

    def X(self, n):
        return self.addX if n == "add" else self.delX

    def node(self, F):
        return (self.knd(F), self.sym(F), self.epd(F), self.eP(F))

    def fires(self, e, pd_, P, A):
        """The condition of e holds in the state before the action."""
        if self.part:
            return psem(econd(e), pd_, P, A, self.base) == 1
        return sem(econd(e), pd_, P, A, self.base)

    def values(self, S, a):
        return (pin(S, a), nin(S, a)) if self.part else (holds(S, a),)

    def same(self, S, R, a):
        return z3.And([x == y for x, y in zip(self.values(S, a), self.values(R, a))])

    def flipped(self, S, R, a):
        return z3.Or(z3.And(pin(S, a), nin(R, a)), z3.And(nin(S, a), pin(R, a)))

    def update(self, S, R, a, add, dele):
        """What R says of a after adding / deleting on S."""
        if self.part:
            return z3.And(pin(R, a) == z3.Or(add, z3.And(pin(S, a), z3.Not(dele))),
                          nin(R, a) == z3.Or(dele, z3.And(nin(S, a), z3.Not(add))))
        return holds(R, a) == z3.Or(add, z3.And(holds(S, a), z3.Not(dele)))

    def about(self, R, a):
        return list(self.values(R, a))

    def defs(self):
        s_ = z3.Const("s_", self.S)
        r = z3.Const("r!", self.S)
        KA = (e_, pd, P_, A_)
        EV = [e_, pd, P_, A_]
        op = opened(e_)
        out = []
        okv = lambda k: self.ok(z3.IntVal(k), *KA)
        okx = lambda k: self.okX(z3.IntVal(k), *KA)
        covv = self.cov(k_, *KA)
        # markers
        out.append(FA([k_] + EV, self.okX(k_, *KA), [z3.MultiPattern(op, self.ok(k_, *KA))]))
        for n in ("add", "del"):
            out.append(FA([k_] + EV + [a_], self.X(n)(k_, *KA, a_), [z3.MultiPattern(op, self.E(n)(k_, *KA, a_))]))
        # the ground effects: adds(kind, node, pddl, parameters, arguments, atom)
        for n in ("add", "del"):
            E, X = self.E(n), self.X(n)
            wk, wi, wt = self.wit["kind_" + n], self.wit["idx_" + n], self.witT[n]
            for k in (FORALL, ADD, DEL, COND):
                c_ = E(z3.IntVal(k), lit(elist(k, e_), ii), pd, P_, A_, a_)
                out.append(FA(EV + [ii, a_], z3.Implies(z3.And(0 <= ii, ii < llen(elist(k, e_)), c_), E(z3.IntVal(LIST), *KA, a_)),
                              [z3.MultiPattern(op, c_)]))
                i = wi(z3.IntVal(LIST), *KA, a_)
                out.append(FA(EV + [a_], z3.Implies(z3.And(E(z3.IntVal(LIST), *KA, a_), wk(z3.IntVal(LIST), *KA, a_) == k), z3.And(
                    0 <= i, i < llen(elist(k, e_)), E(z3.IntVal(k), lit(elist(k, e_), i), pd, P_, A_, a_))),
                    [X(z3.IntVal(LIST), *KA, a_)]))
            out.append(FA(EV + [a_], z3.Implies(E(z3.IntVal(LIST), *KA, a_), z3.And(
                1 <= wk(z3.IntVal(LIST), *KA, a_), wk(z3.IntVal(LIST), *KA, a_) <= 4)), [X(z3.IntVal(LIST), *KA, a_)]))
            # universal: every type-correct tuple
            u = lambda t: E(z3.IntVal(LIST), eff(e_), pd, scat(P_, ENV), scat(A_, t), a_)
            out.append(FA(EV + [t_, a_], z3.Implies(z3.And(tc(pd, ENV, t_), u(t_)), E(z3.IntVal(FORALL), *KA, a_)),
                          [z3.MultiPattern(op, u(t_))]))
            w = wt(z3.IntVal(FORALL), *KA, a_)
            out.append(FA(EV + [a_], z3.Implies(E(z3.IntVal(FORALL), *KA, a_), z3.And(tc(pd, ENV, w), u(w))),
                          [X(z3.IntVal(FORALL), *KA, a_)]))
            # conditional
            out.append(FA(EV + [a_], E(z3.IntVal(COND), *KA, a_) == z3.And(
                self.fires(e_, pd, P_, A_), E(z3.IntVal(LIST), eff(e_), pd, P_, A_, a_)), [X(z3.IntVal(COND), *KA, a_)]))
            c_ = E(z3.IntVal(LIST), eff(e_), pd, P_, A_, a_)
            out.append(FA(EV + [a_], z3.Implies(z3.And(self.fires(e_, pd, P_, A_), c_), E(z3.IntVal(COND), *KA, a_)),
                          [z3.MultiPattern(op, c_)]))
            # simple
            out.append(FA(EV + [a_], E(z3.IntVal(ADD), *KA, a_) == (
                z3.And(normal, a_ == EATOM) if n == "add" else z3.BoolVal(False)), [X(z3.IntVal(ADD), *KA, a_)]))
            out.append(FA(EV + [a_], E(z3.IntVal(DEL), *KA, a_) == (
                z3.And(normal, a_ == EATOM) if n == "del" else z3.BoolVal(False)), [X(z3.IntVal(DEL), *KA, a_)]))
        # covered: everything the node adds and deletes is in the two sets
        out.append(FA([k_] + EV + [a_], z3.Implies(covv, z3.And(
            z3.Implies(self.addE(k_, *KA, a_), addc(a_)), z3.Implies(self.delE(k_, *KA, a_), delc(a_)))),
            [z3.MultiPattern(covv, self.addE(k_, *KA, a_)), z3.MultiPattern(covv, self.delE(k_, *KA, a_))]))
        w = self.witC(k_, *KA)
        out.append(FA([k_] + EV, z3.Or(covv, z3.And(self.addE(k_, *KA, w), z3.Not(addc(w))),
                                       z3.And(self.delE(k_, *KA, w), z3.Not(delc(w)))), [covv]))
        # applies: no conflicting condition, no illegal effect, no axiom is triggered
        for k in (FORALL, ADD, DEL, COND):
            out.append(FA(EV + [ii], z3.Implies(z3.And(okv(LIST), 0 <= ii, ii < llen(elist(k, e_))),
                          self.ok(z3.IntVal(k), lit(elist(k, e_), ii), pd, P_, A_)),
                          [z3.MultiPattern(okx(LIST), lit(elist(k, e_), ii))]))
        out.append(FA(EV, touch(scat(P_, ENV)), [okx(FORALL)]))
        out.append(FA(EV + [t_], z3.Implies(z3.And(okv(FORALL), tc(pd, ENV, t_)),
                      self.ok(z3.IntVal(LIST), eff(e_), pd, scat(P_, ENV), scat(A_, t_))),
                      [z3.MultiPattern(okx(FORALL), tc(pd, ENV, t_))]))
        out.append(FA(EV, z3.Implies(z3.And(okv(COND), self.fires(e_, pd, P_, A_)),
                      self.ok(z3.IntVal(LIST), eff(e_), pd, P_, A_)), [okx(COND)]))
        sm = (psem if self.part else sem)
        out.append(FA(EV + [s_], z3.Implies(z3.And(okv(COND), self.agree(s_)),
                      sm(econd(e_), pd, P_, A_, s_) == sm(econd(e_), pd, P_, A_, self.base)),
                      [z3.MultiPattern(okx(COND), sm(econd(e_), pd, P_, A_, s_))]))
        for k in (ADD, DEL):
            eq = nm(sat(EIN, 0)) == nm(sat(EIN, 1))
            ty_ = isaT(typeO(sat(EIN, 0)), ehead(e_))
            if k == DEL:
                eq, ty_ = z3.Not(eq), z3.Not(ty_)
            sign = val.strlit("+" if k == ADD else "-")
            out.append(FA(EV, z3.Implies(okv(k), z3.If(ehead(e_) == EQ, eq, z3.If(inh(pd, ehead(e_)), ty_, z3.Not(
                triggered(pd, strcat(sign, ehead(e_)), EIN))))), [okx(k)]))
        # states that agree with the state before the action, up to what it changes
        for x in self.about(s_, a_):
            out.append(FA([s_, a_], z3.Implies(z3.And(self.agree(s_), z3.Not(addc(a_)), z3.Not(delc(a_))),
                                               self.same(s_, self.base, a_)), [z3.MultiPattern(self.agree(s_), x)]))
        w = self.witA(s_)
        out.append(FA([s_], z3.Or(self.agree(s_), z3.And(z3.Not(addc(w)), z3.Not(delc(w)), z3.Not(self.same(s_, self.base, w)))),
                      [self.agree(s_)]))
        # how much R differs from S
        L = self.level(s_, r)
        w = self.witL(s_, r)
        out.append(FA([s_, r], z3.And(0 <= L, L <= (2 if self.part else 1)), [L]))
        out.append(FA([s_, r], z3.Implies(L == 1, z3.Not(self.same(s_, r, w))), [L]))
        for x in self.about(s_, a_) + self.about(r, a_):
            out.append(FA([s_, r, a_], z3.Implies(z3.Not(self.same(s_, r, a_)), L >= 1), [z3.MultiPattern(L, x)]))
        if self.part:
            out.append(FA([s_, r], z3.Implies(L == 2, self.flipped(s_, r, w)), [L]))
            for x in self.about(s_, a_) + self.about(r, a_):
                out.append(FA([s_, r, a_], z3.Implies(self.flipped(s_, r, a_), L == 2), [z3.MultiPattern(L, x)]))
        # what the first n functions of a list / the first n tuples of a function add and delete
        ar = z3.Const("ar", self.arr)
        F = z3.Const("F_", self.sort)
        for n in ("add", "del"):
            E, U, G = self.E(n), self.up[n](ar, nn_, A_, a_), self.upg[n](F, pd, V, nn_, A_, a_)
            f = lambda i: E(*self.node(ar[i]), A_, a_)
            i = self.upw[n](ar, nn_, A_, a_)
            out.append(FA([ar, nn_, A_, a_], z3.Implies(U, z3.And(0 <= i, i < nn_, f(i))), [U]))
            out.append(FA([ar, nn_, A_, a_, ii], z3.Implies(z3.And(0 <= ii, ii < nn_, f(ii)), U), [z3.MultiPattern(U, f(ii))]))
            out.append(FA([ar, nn_, A_, a_, ii], z3.Implies(z3.And(0 <= ii, ii < nn_, f(ii)), U), [z3.MultiPattern(U, ar[ii])]))
            g_ = lambda i: E(*self.node(F), scat(A_, tup_seq(pd, V, i)), a_)
            i = self.upgw[n](F, pd, V, nn_, A_, a_)
            out.append(FA([F, pd, V, nn_, A_, a_], z3.Implies(G, z3.And(0 <= i, i < nn_, g_(i))), [G]))
            out.append(FA([F, pd, V, nn_, A_, a_, ii], z3.Implies(z3.And(0 <= ii, ii < nn_, g_(ii)), G),
                          [z3.MultiPattern(G, gtup(pd, V, ii))]))
        return out

    # -------------------------------------------------------------- the law
    def law(self, nd, A, S, R, st):
        """(name, formula) facts of applying the node nd to S."""
        ad, de = self.addE(*nd, A, a_), self.delE(*nd, A, a_)
        return [("adds exactly its add effects and deletes exactly its delete effects",
                 FA([a_], self.update(S, R, a_, ad, de), self.about(R, a_))),
                ("leaves everything else as it was", self.agree(R)),
                ("reports exactly the change made", st == self.level(S, R))]

    def given(self, nd, A, S):
        return [self.ok(*nd, A), self.cov(*nd, A), self.agree(S)]

    def call(self, c, a, args, state):
        """Effects(arguments, state)"""
        F = c.rv(a)
        v = c.rv(args)
        p = c.rv(state)
        pl = c.deref(p)
        S = c.read(pl)
        c.check("an argument for every parameter", v.len == slen(self.eP(F)))
        if not (z3.is_expr(S) and S.sort() == self.S):
            raise Unsupported("effects on %r" % (S,))
        R = c.fresh_const("state", self.S)
        st = c.fresh_const("status", IS)
        A = vseq(v)
        giv = self.given(self.node(F), A, S)
        for nm_, f in zip(("effects apply", "effects are covered", "the state agrees"), giv):
            c.hint("before applying effects: " + nm_, f)
        for _, f in self.law(self.node(F), A, S, R, st):
            c.assume(z3.Implies(z3.And(giv), f))
        c.write(pl, R)
        return st

    def change(self, c, pl, t, add):
        """state->insert(t) / erase(t): the status and the new state."""
        S = c.read(pl)
        R = c.fresh_const("state", self.S)
        no = z3.BoolVal(False)
        c.assume(FA([a_], self.update(S, R, a_, a_ == t if add else no, no if add else a_ == t), self.about(R, a_)))
        # a state is the set of its atoms
        c.assume(z3.Implies(self.values(S, t)[0 if add or not self.part else 1] == z3.BoolVal(add or self.part), R == S))
        c.write(pl, R)
        if not self.part:
            return z3.Not(holds(S, t)) if add else holds(S, t)
        x, y = (pin, nin) if add else (nin, pin)
        return z3.If(x(S, t), z3.IntVal(0), z3.If(y(S, t), z3.IntVal(2), z3.IntVal(1)))


COMPLETE, PARTIAL = Eff(False), Eff(True)
KINDS = (COMPLETE, PARTIAL)
state_defs = [FA([a_], z3.Not(z3.And(addc(a_), delc(a_))), [addc(a_), delc(a_)]),
              FA([PS_, a_], z3.Not(z3.And(pin(PS_, a_), nin(PS_, a_))), [pin(PS_, a_), nin(PS_, a_)])]

wfE = z3.Function("wellFormedEffect", PDDL, IS, SYM, B)
wfEX = z3.Function("wellFormedEffect_unfolds", PDDL, IS, SYM, B)


def wfe(k):
    return wfE(pd, z3.IntVal(k), e_)


wfe_defs = [FA([e_], elist(k, e_) != nullL, [elist(k, e_)]) for k in (FORALL, ADD, DEL, COND)]
wfe_defs += [FA([pd, k_, e_], wfEX(pd, k_, e_), [z3.MultiPattern(opened(e_), wfE(pd, k_, e_))]),
            FA([pd, k_, e_], z3.Implies(wfE(pd, k_, e_), e_ != nullS), [wfEX(pd, k_, e_)]),
            FA([pd, e_], z3.Implies(wfe(FORALL), z3.And(evars(e_) != nullL, llen(evars(e_)) > 0,
                                                        wfE(pd, z3.IntVal(LIST), eff(e_)))), [wfEX(pd, z3.IntVal(FORALL), e_)]),
            FA([pd, e_], z3.Implies(wfe(COND), z3.And(wf(pd, econd(e_)), wfE(pd, z3.IntVal(LIST), eff(e_)))),
               [wfEX(pd, z3.IntVal(COND), e_)])]
for k in (FORALL, ADD, DEL, COND):
    wfe_defs.append(FA([pd, e_, ii], z3.Implies(z3.And(wfe(LIST), 0 <= ii, ii < llen(elist(k, e_))),
                       wfE(pd, z3.IntVal(k), lit(elist(k, e_), ii))),
                       [z3.MultiPattern(wfEX(pd, z3.IntVal(LIST), e_), lit(elist(k, e_), ii))]))
    if k in (ADD, DEL):
        wfe_defs.append(FA([pd, e_], z3.Implies(wfe(k), z3.And(
            field("prop", e_) != nullS, field("head", field("prop", e_)) != nullS,
            z3.Implies(ehead(e_) == EQ, llen(eterms(e_)) == 2),
            z3.Implies(z3.And(ehead(e_) != EQ, inh(pd, ehead(e_))), llen(eterms(e_)) == 1))),
            [wfEX(pd, z3.IntVal(k), e_)]))


class CreateEff(Contract):
    """CreateX<T>(pddl, effect, parameters): a function that applies the effect."""
    m = COMPLETE
    k = LIST

    def enter(self, c):
        e = c.fresh_const("effect", SYM)
        c.assume(opened(e))
        return None, [c.new_root("ext/pddl", c.fresh_const("pddl", PDDL)), e, KVOBJ.fresh(c, "parameters")]

    def pre(self, c, s):
        return [("the effect is well-formed", wfE(s.args[0], z3.IntVal(self.k), KSYM.pack(s.args[1])))]

    def ret(self, c, s):
        return c.fresh_const("F", self.m.sort)

    def node(self, o):
        return (z3.IntVal(self.k), KSYM.pack(o.args[1]), o.args[0], vseq(o.args[2]))

    def call_post(self, c, o, nw, ret):
        return [("", z3.And([x == y for x, y in zip(self.m.node(ret), self.node(o))]))]

    def post(self, c, o, nw, ret):
        m = self.m
        F = c.rv(ret)
        if z3.is_expr(F):
            return self.call_post(c, o, nw, F)
        c.retire([F])
        for r_ in heap_vectors(c):
            c.mem[r_] = c.fresh_like(c.mem[r_], "buffer")
        av = KVOBJ.fresh(c, "arguments")
        c.assume(av.len == o.args[2].len)
        a = c.new_root("ext/arguments", av)
        S = c.fresh_const("state", m.S)
        s = c.new_root("ext/state", S)
        A = vseq(av)
        nd = self.node(o)
        for f in m.given(nd, A, S):
            c.assume(f)
        try:
            R = c.rv(call_fn(c, F, [a, Ptr(s)]))
        except CppThrow as e:
            return [("applying the effect does not throw (%s)" % e.what, z3.BoolVal(False))]
        if z3.is_bool(R):
            R = b2i(R)
        return m.law(nd, A, S, c.read(s), R) + [("the arguments are unchanged", z3.BoolVal(c.read(a) is av))]


def state_writes(c, qn, fn, this, args, node):
    """insert and erase of states: see C01, C02 and C04."""
    if this is None or fn.get("name") not in ("insert", "erase") or len(args) != 1:
        return NotImplemented
    v = c.rv(this)
    if not z3.is_expr(v) or v.sort() not in (STATE, PSTATE):
        return NotImplemented
    pr = c.rv(args[0])
    n_, as_, h_ = prop.prop_value(c, pr)
    c.check("the hash belongs to the proposition", h_ == prop.ghash(n_, as_), node)
    m = PARTIAL if v.sort() == PSTATE else COMPLETE
    return m.change(c, Place(this.root, this.path), atom_of(n_, as_), fn["name"] == "insert")


class AxiomMap:
    def method(self, c, b, v, name, argnodes, n):
        k = c.val(argnodes[0])
        if name == "count":
            return z3.If(hasAx(v.data, k), z3.IntVal(1), z3.IntVal(0))
        if name == "at":
            if not c.branch(hasAx(v.data, k)):
                raise CppThrow("std::out_of_range")
            return c.new_root("ext/axioms", KVAX.unpack(axItems(v.data, k)))
        if name == "find":
            return Abs(AxiomIt(), (v.data, k))
        if name in ("end", "cend"):
            return Abs(AxiomIt(), (v.data, None))
        raise Unsupported("axiom map " + name)

    def same(self, c, a, b):
        return a.data == b.data

    def __repr__(self):
        return "axiom_map"


class AxiomIt:
    def present(self, v):
        return z3.BoolVal(False) if v.data[1] is None else hasAx(v.data[0], v.data[1])

    def operator(self, c, a, x, op, argnodes, n):
        if op in ("==", "!="):
            y = c.val(argnodes[1])
            if x.data[1] is not None and y.data[1] is not None:
                raise Unsupported("comparison of map positions")
            r = x.model.present(x) == y.model.present(y)
            return r if op == "==" else z3.Not(r)
        if op in ("->", "*"):
            c.check("the position is dereferenced when it is one", self.present(x), n)
            pl = c.new_root("ext/axiom_entry", Rec("pair", {"first": x.data[1], "second": KVAX.unpack(axItems(*x.data))}))
            return Ptr(pl) if op == "->" else pl
        raise Unsupported("map iterator " + op)

    def __repr__(self):
        return "axiom_it"


def axiom_ops(c, qn, fn, this, args, node):
    if this is None:
        return NotImplemented
    v = c.rv(this)
    if z3.is_expr(v) and v.sort() == PDDL and qn == "symbolic::Pddl::axiom_map":
        return c.new_root("ext/amap", Abs(AxiomMap(), v))
    if z3.is_expr(v) and v.sort() == AXM:
        if qn.endswith("::parameters"):
            return c.new_root("ext/axiom_params", KVOBJ.unpack(axParams(v)))
        if qn.endswith("::context"):
            return c.new_root("ext/axiom_context", Rec("context", {"of": v}))
        if qn.endswith("Action::Apply"):
            p = c.rv(args[1])
            pl = c.deref(p)
            c.write(pl, c.fresh_like(c.read(pl), "axiom"))
            used("what an axiom that an action triggers does is not specified here (see C12)")
            return c.fresh_const("status", IS if c.read(pl).sort() == PSTATE else B)
    if isinstance(v, Rec) and v.cls == "context" and qn.endswith("::arguments"):
        return c.new_root("ext/axiom_terms", KVOBJ.unpack(axTerms(v.fields["of"])))
    return NotImplemented


def aaf_call(c, a, args):
    """AxiomApply(arguments): null, or a buffer with the axiom's arguments."""
    F = c.rv(a)
    v = c.rv(args)
    c.check("an argument for every parameter", v.len == slen(aafP(F)))
    A = vseq(v)
    c.assume(z3.Implies(z3.Not(aafNull(F, A)), matches(aafAP(F), aafAT(F), subst(aafP(F), A, aafT(F)))))
    if c.branch(aafNull(F, A)):
        return Ptr(None)
    res = KVOBJ.fresh(c, "axiom_args")
    root = "ext/axiom_args/" + F.sexpr()
    if root not in c.mem:
        c.mem[root] = res
    c.write(Place(root), res)
    return Ptr(Place(root))


class AxiomApplication(Contract):
    """See C12."""
    qname = "symbolic::Axiom::CreateApplicationFunction"

    def ret(self, c, s):
        return Opt(c.fresh_const("has", B), c.fresh_const("AxiomApply", AAF))

    def post(self, c, o, nw, ret):
        F = ret.val
        return [("", z3.And([f(F) == vseq(x) for f, x in zip((aafP, aafT, aafAP, aafAT), o.args)]))]


class FindOp(Contract):
    """GetSymbol(pddl, name): the operator of that name"""
    qname = "GetSymbol"

    def enter(self, c):
        p = c.fresh_const("pddl", PDDL)
        return None, [c.new_root("ext/pddl", p), c.new_root("ext/name", c.fresh_const("name", STR))]

    def pre(self, c, s):
        l = self.ops(s)
        return [("the domain has operators", z3.And(l != nullL, FA([ii], z3.Implies(z3.And(0 <= ii, ii < llen(l)), z3.And(
            lit(l, ii) != nullS, field("name", lit(l, ii)) != nullS)), [lit(l, ii)])))]

    def ops(self, o):
        return field("ops", field("the_domain", analysis(o.args[0])), KSYML)

    def ret(self, c, s):
        return c.fresh_const("symbol", SYM)

    def throws(self, c, s):
        return z3.Not(opnamed(s.args[0], s.args[1]))

    def post(self, c, o, nw, ret):
        y_ = KSYM.pack(ret)
        return [("has the name asked for", nameS(field("name", y_)) == o.args[1]),
                ("is an operator of the domain", z3.Exists([ii], z3.And(0 <= ii, ii < llen(self.ops(o)), y_ == lit(self.ops(o), ii))))]


opnamed = z3.Function("hasOperator", PDDL, STR, B)
_ops = field("ops", field("the_domain", analysis(pd)), KSYML)
_wo = z3.Function("w_operator", PDDL, STR, IS)
op_defs = [FA([pd, st_, ii], z3.Implies(z3.And(0 <= ii, ii < llen(_ops), nameS(field("name", lit(_ops, ii))) == st_), opnamed(pd, st_)),
              [z3.MultiPattern(opnamed(pd, st_), lit(_ops, ii))]),
           FA([pd, st_], z3.Implies(opnamed(pd, st_), z3.And(0 <= _wo(pd, st_), _wo(pd, st_) < llen(_ops), nameS(field(
               "name", lit(_ops, _wo(pd, st_)))) == st_)), [opnamed(pd, st_)])]


KACTION = KRec("symbolic::Action", [("symbol_", KSYM), ("pddl_", KPDDL), ("name_", KSTR), ("parameters_", KVOBJ),
                                    ("param_gen_", KGEN), ("Preconditions_", KFORM), ("Apply_", COMPLETE.K),
                                    ("ApplyPartial_", PARTIAL.K)])
KACTION.real = True


def action_facts(f, p_):
    """What the constructor establishes about an action of the domain p_."""
    y_ = KSYM.pack(f["symbol_"])
    P = vseq(f["parameters_"])
    out = [("has the name of its symbol", f["name_"] == nameS(field("name", y_))),
           ("has the parameters of its symbol", P == olist(p_, field("parameters", y_, KSYML))),
           ("enumerates the arguments of its parameters", f["param_gen_"] == genOf(p_, P))]
    out += [("evaluates its precondition", x) for x in meaning(f["Preconditions_"].fields, p_, field("precondition", y_), P)]
    out += [("keeps its precondition", KSYM.pack(f["Preconditions_"].fields["symbol_"]) == field("precondition", y_))]
    for m, n in ((COMPLETE, "Apply_"), (PARTIAL, "ApplyPartial_")):
        out.append(("applies its effects", z3.And([x == y for x, y in zip(m.node(f[n]), (
            z3.IntVal(LIST), field("effects", y_), p_, P))])))
    return out


def wf_operator(p_, y_):
    return z3.And(y_ != nullS, field("name", y_) != nullS, wf(p_, field("precondition", y_)),
                  wfE(p_, z3.IntVal(LIST), field("effects", y_)))


class ActionCtor(Contract):
    qname = "symbolic::Action::Action"

    def enter(self, c):
        return None, [c.new_root("ext/pddl", c.fresh_const("pddl", PDDL)), c.fresh_const("symbol", SYM)]

    def pre(self, c, s):
        return [("the operator is well-formed", wf_operator(s.args[0], KSYM.pack(s.args[1])))]

    def ret(self, c, s):
        return KACTION.fresh(c, "action")

    def post(self, c, o, nw, ret):
        f = ret.fields
        return [("is the action of the symbol", KSYM.pack(f["symbol_"]) == KSYM.pack(o.args[1]))] + action_facts(f, o.args[0])


class ActionByName(Contract):
    """Action(pddl, "name(arguments)"): the operator of that name"""
    qname = "symbolic::Action::Action"

    def enter(self, c):
        p_ = c.fresh_const("pddl", PDDL)
        return None, [c.new_root("ext/pddl", p_), c.new_root("ext/call", c.fresh_const("call", STR))]

    def pre(self, c, s):
        l = field("ops", field("the_domain", analysis(s.args[0])), KSYML)
        return [("the domain has operators", z3.And(l != nullL, FA([ii], z3.Implies(
            z3.And(0 <= ii, ii < llen(l)), wf_operator(s.args[0], lit(l, ii))), [lit(l, ii)])))]

    def throws(self, c, s):
        return z3.Not(opnamed(s.args[0], prop.head(s.args[1])))

    def ret(self, c, s):
        return KACTION.fresh(c, "action")

    def post(self, c, o, nw, ret):
        f = ret.fields
        return [("has the name asked for", f["name_"] == prop.head(o.args[1]))] + action_facts(f, o.args[0])


class ActionApply(Contract):
    """Apply, in place and by value"""
    qname = "symbolic::Action::Apply"
    m = COMPLETE
    inplace = True

    def enter(self, c):
        m = self.m
        f = KACTION.fresh(c, "action")
        p_ = c.fresh_const("pddl", PDDL)
        for _, x in action_facts(f.fields, p_):
            c.assume(x)
        av = KVOBJ.fresh(c, "arguments")
        a = c.new_root("ext/arguments", av)
        s = c.new_root("ext/state", m.base)
        nd = self.node(f.fields)
        c.assume(m.ok(*nd, vseq(av)))
        c.assume(m.cov(*nd, vseq(av)))
        c.assume(z3.And(m.agree(m.base), av.len == f.fields["parameters_"].len))
        return f, ([a, Ptr(s)] if self.inplace else [s, a])

    def node(self, f):
        return self.m.node(f["ApplyPartial_" if self.m.part else "Apply_"])

    def post(self, c, o, nw, ret):
        m = self.m
        A = vseq(o.args[0 if self.inplace else 1])
        r = c.rv(ret)
        y_ = KSYM.pack(o.this.fields["symbol_"])
        p_ = m.epd(o.this.fields["ApplyPartial_" if m.part else "Apply_"])
        nd = (z3.IntVal(LIST), field("effects", y_), p_, vseq(o.this.fields["parameters_"]))
        if self.inplace:
            R = c.read(Place("ext/state"))
            st = r if z3.is_int(r) else b2i(r)
            return m.law(nd, A, m.base, R, st)
        return m.law(nd, A, m.base, r, m.level(m.base, r))[:2] + [
            ("the state given is unchanged", z3.BoolVal(c.read(Place("ext/state")) is m.base))]


class ActionValid(Contract):
    """IsValid: the value of the precondition"""
    qname = "symbolic::Action::IsValid"
    m = COMPLETE

    def enter(self, c):
        f = KACTION.fresh(c, "action")
        p_ = c.fresh_const("pddl", PDDL)
        self_p = p_
        for _, x in action_facts(f.fields, p_):
            c.assume(x)
        av = KVOBJ.fresh(c, "arguments")
        c.assume(av.len == f.fields["parameters_"].len)
        return f, [c.fresh_const("state", self.m.S), av]

    def post(self, c, o, nw, ret):
        f = o.this.fields
        r = c.rv(ret)
        y_, p_ = KSYM.pack(f["symbol_"]), COMPLETE.epd(f["Apply_"])
        args = (field("precondition", y_), p_, vseq(f["parameters_"]), vseq(o.args[1]), o.args[0])
        if not self.m.part:
            return [("is the value of the precondition", r == sem(*args))]
        w = psem(*args)
        return [("is known exactly when the precondition is", r.has == (w != 2)),
                ("is the value of the precondition", z3.Implies(r.has, r.val == (w == 1)))]


# ------------------------------------------------------------------ loops

def eff_candidates(c, lp):
    moved = [r for r in lp.entry if r in c.mem and any(h[0] == r for h in lp.havoc)]
    pos = []
    for r in moved:
        x = c.mem[r]
        if isinstance(x, It):
            pos.append((r, x.idx, x))
        elif z3.is_expr(x) and x.sort() == IS and "/tmp" not in r:
            pos.append((r, x, None))
    vecs = [(r, c.mem[r]) for r in c.mem if isinstance(c.mem[r], Vec) and r not in c.dead]
    pds = unique([c.mem[r] for r in c.mem if z3.is_expr(c.mem[r]) and c.mem[r].sort() == PDDL])
    ovs = [(r, v) for r, v in vecs if v.ek is KOBJ and "/tmp" not in r]
    lists = [(r, v) for r, v in vecs if r.startswith("vallist/") and v.ek is KSYM]
    for m in KINDS:
        # building
        for rw in moved:
            w, e = c.mem[rw], lp.entry[rw]
            if not (isinstance(w, Vec) and w.ek is m.K and isinstance(e, Vec)):
                continue
            if not z3.is_const(e.arr) or e.arr.decl().kind() != z3.Z3_OP_UNINTERPRETED:
                pass
            else:
                yield "%s still begins with what it had" % rw, lambda w=w, e=e: FA(
                    [ii], z3.Implies(z3.And(0 <= ii, ii < e.len), w.arr[ii] == e.arr[ii]), [e.arr[ii]])
            for rl, L in lists:
                for x in pds:
                    for ro, pv in ovs:
                        for k in (FORALL, ADD, DEL, COND):
                            def body(F, j, k=k, L=L, x=x, pv=pv, m=m):
                                return z3.And([a == b for a, b in zip(m.node(F), (z3.IntVal(k), L.arr[j], x, vseq(pv)))])
                            yield "%s has the %s of %s under %s" % (rw, KNAMES[k], rl, ro), \
                                lambda w=w, e=e, body=body: FA([ii], z3.Implies(
                                    z3.And(e.len <= ii, ii < w.len), body(w.arr[ii], ii - e.len)), [w.arr[ii]])
                            yield "%s has the %s of %s (from %s) under %s" % (rw, KNAMES[k], rl, rl, ro), \
                                lambda w=w, e=e, body=body, L=L: FA([jj], z3.Implies(
                                    z3.And(0 <= jj, jj < w.len - e.len), body(w.arr[e.len + jj], jj)), [L.arr[jj]])
        # applying
        for rs in moved:
            R, S = c.mem[rs], lp.entry[rs]
            if not (z3.is_expr(R) and R.sort() == m.S):
                continue
            yield "%s is as it was" % rs, lambda R=R, S=S: R == S
            yield "%s agrees with the state before" % rs, lambda R=R, m=m: m.agree(R)
            for ri, _, it in pos:
                if it is None:
                    v, e = c.mem[ri], lp.entry[ri]
                    yield "%s is the change of %s" % (ri, rs), lambda v=v, e=e, R=R, S=S, m=m: \
                        v == z3.If(m.level(S, R) >= e, m.level(S, R), e)
            for rb in moved:
                v, e = c.mem[rb], lp.entry[rb]
                if z3.is_expr(v) and v.sort() == B:
                    yield "%s is whether %s changed" % (rb, rs), lambda v=v, e=e, R=R, S=S, m=m: \
                        v == z3.Or(e, m.level(S, R) > 0)
            for ri, i, it in pos:
                for ra, av in ovs:
                    for rf, w in vecs:
                        if w.ek is not m.K:
                            continue
                        yield "%s has the effects of %s before %s on %s" % (rs, rf, ri, ra), \
                            lambda R=R, S=S, w=w, i=i, av=av, m=m: FA([a_], m.update(
                                S, R, a_, m.up["add"](w.arr, i, vseq(av), a_), m.up["del"](w.arr, i, vseq(av), a_)), m.about(R, a_))
                    if it is None:
                        continue
                    G = c.read(it.place)
                    if not (z3.is_expr(G) and G.sort() == GEN):
                        continue
                    for F in unique([c.mem[r] for r in c.mem if z3.is_expr(c.mem[r]) and c.mem[r].sort() == m.sort and r not in c.dead]):
                        yield "%s has the effects of %s for the tuples before %s on %s" % (rs, F.decl().name(), ri, ra), \
                            lambda R=R, S=S, F=F, G=G, i=i, av=av, m=m: FA([a_], m.update(
                                S, R, a_, m.upg["add"](F, gpd(G), gvs(G), i, vseq(av), a_),
                                m.upg["del"](F, gpd(G), gvs(G), i, vseq(av), a_)), m.about(R, a_))
    # axioms found for a signed predicate
    for rw in moved:
        w, e = c.mem[rw], lp.entry[rw]
        if not (isinstance(w, Vec) and isinstance(w.ek, KRec) and w.ek.cls == "pair" and w.ek.flds[1][1] is KAAF):
            continue
        for rl, L in vecs:
            if L.ek is not KAX:
                continue
            for ro, pv in ovs:
                for rt, tv in ovs:
                    if rt == ro:
                        continue
                    yield "%s has applications of axioms of %s from %s, %s" % (rw, rl, ro, rt), \
                        lambda w=w, L=L, pv=pv, tv=tv: app_inv(w, L, pv, tv)
    for r in lp.entry:
        s = c.mem.get(r)
        if z3.is_expr(s) and s.sort() == STR:
            for ri, i, it in pos:
                for rl, L in lists:
                    yield "none of %s before %s is named %s" % (rl, ri, r), lambda s=s, i=i, L=L: FA(
                        [ii], z3.Implies(z3.And(0 <= ii, ii < i), nameS(field("name", L.arr[ii])) != s), [L.arr[ii]])


def app_inv(w, L, pv, tv):
    F, x = w.ek.get(w.arr[ii], "second"), w.ek.get(w.arr[ii], "first")
    return FA([ii], z3.Implies(z3.And(0 <= ii, ii < w.len), z3.And(
        aafP(F) == vseq(pv), aafT(F) == vseq(tv), listed(x, KVAX.pack(L)),
        aafAP(F) == vs(axParams(x)), aafAT(F) == vs(axTerms(x)))), [w.arr[ii]])


def function_kind(args):
    t = args[0].replace(" ", "") if args else ""
    if t.startswith("int("):
        return PARTIAL.K if "PartialState" in t else COMPLETE.K
    if t.split("(")[0].endswith("*"):
        return KAAF
    return form.function_kind(args)


def ptr_kind(args):
    if args and args[0].split("::")[-1].strip() == "Axiom":
        return KAX
    raise Unsupported("shared pointer to " + str(args))


def contracts():
    out = []
    for m in KINDS:
        sg = (lambda t: "PartialState" in t and t.startswith("EffectsFunction")) if m.part else (
            lambda t: "PartialState" not in t and t.startswith("EffectsFunction"))
        for fn, k in (("CreateForall", FORALL), ("CreateAdd", ADD), ("CreateDel", DEL), ("CreateCond", COND),
                      ("CreateEffectsFunction", LIST)):
            out.append(CreateEff(qname=fn, k=k, m=m, sig=sg))
    out += [FindOp(), ActionCtor(sig=lambda t: "operator_" in t), ActionByName(sig=lambda t: "string" in t)]
    for m in KINDS:
        n = "PartialState" if m.part else "State"
        out += [ActionApply(m=m, sig=lambda t, n=n: t.endswith(",%s*)const" % n) or t.endswith(",%s*)" % n)),
                ActionApply(m=m, inplace=False, sig=lambda t, n=n: "(const%s&" % n in t),
                ActionValid(m=m, sig=lambda t, n=n: "(const%s&" % n in t)]
    return out


def assumed_here():
    out = [k for k in form.contracts() if isinstance(k, (FormulaCtor, Eval, CreateList, CreateApplication))]
    return out + form.assumed() + [AxiomApplication()]


def install(sp):
    form.install(sp)
    sp.kinds["symbolic::Action"] = sp.kinds["Action"] = KACTION
    sp.kinds["function"] = sp.kinds["std::function"] = function_kind
    for n in ("weak_ptr", "shared_ptr"):
        sp.kinds[n] = sp.kinds["std::" + n] = ptr_kind
    for m in KINDS:
        sp.sort_ops[(str(m.sort), "@()")] = m.call
    sp.sort_ops[("AxiomApplication", "@()")] = aaf_call
    sp.sort_ops[("AxiomPtr", ".lock")] = lambda c, v: v
    sp.sort_ops[("AxiomPtr", "@->")] = lambda c, a: c.rv(a)
    sp.sort_ops[("AxiomPtr", "@*")] = lambda c, a: c.new_root("ext/axiom", c.rv(a))
    sp.sort_ops[("AxiomPtr", "deref")] = lambda c, v: c.new_root("ext/axiom", v)
    sp.sort_ops[("Str", "+")] = lambda c, x, y: strcat(x, y)
    sp.hooks[:0] = [state_writes, axiom_ops, lambda c, q, fn, this, args, node: prop.head(c.rv(args[0]))
                    if q == "symbolic::PropositionBase::ParseHead" else NotImplemented]
    defs = state_defs + wfe_defs + axiom_defs + op_defs + COMPLETE.defs() + PARTIAL.defs()
    sp.base_axioms = sp.base_axioms + defs
    sp.axioms = sp.axioms + defs
    sp.cands = sp.cands + [eff_candidates]


def tasks(prop_, repo, missing, trusted, assume):
    from ..ast import Program
    from ..verify import Task, fn_tasks
    prog = Program(SOURCE, repo)
    sp = Spec(prog)
    install(sp)
    use = contracts()
    sp.contracts = use + assumed_here()
    assume += domain_assumptions() + [
        "operators are well-formed: =/2, type predicates unary, quantified effects have variables (see known_findings.txt)",
        "the state before, and two disjoint sets containing all added and all deleted atoms, are arbitrary: choosing "
        "the ground effects gives the property for every action without conflicts",
        "formulas evaluate to their meaning (C09, C10); states insert and erase as proved in C01, C02 and C04",
        "an axiom application function returns null unless the axiom's context matches (C12)",
        "parse trees are finite: the claim for an effect follows from the claims for its parts (structural induction)"]
    return fn_tasks(sp, use, missing, prop_)
