"""Axioms: application, validity, and closure of states (C12).

An effect is satisfied by a state when applying it would neither change the
state nor throw; a state is closed under an axiom when every type-correct
instance whose context holds has its consequences satisfied.  Besides, every
application is considered together with an arbitrary bound: two sets of atoms,
the possible additions and the possible deletions, that contain what the
axioms prescribe in every state between the bounds.  Choosing the least such
sets gives the closure of the state under the axioms.
"""
import z3

from .eff import *
from . import dom, form, maps, prop, val
from . import eff as effmod
from .prop import KSIGNED

SOURCE = '''
#include <algorithm>
namespace std {
template <class It, class P>
bool anonymous_all_of(It first, It last, P pred) {
  for (; first != last; ++first) {
    if (!pred(*first)) return false;
  }
  return true;
}
}  // namespace std
#define all_of anonymous_all_of
#include "action.cc"
#include "axiom.cc"
#include "formula.cc"
#include "proposition.cc"
#include "pddl.cc"
'''

LOG = z3.DeclareSort("Applications")                  # ghost: axiom instances applied so far
ranY = z3.Function("wasApplied", LOG, SYM, SEQ, B)
ran = z3.Function("axiomWasApplied", LOG, AXM, STR, SEQ, B)   # to arguments for which its context is that atom
canFit = z3.Function("canFit", SEQ, SEQ, SEQ, B)       # axiom parameters, context terms, ground arguments
noFit = z3.Function("neverFits", SEQ, SEQ, SEQ, SEQ, B)  # action parameters, terms, axiom parameters, context terms
lg_, lh_ = z3.Consts("lg_ lh_", LOG)
KVARGS = KVec("vector", KVOBJ)
KAXIOM = KRec("symbolic::Axiom", KACTION.flds + [("arguments_", KVARGS), ("context_", KSIGNED), ("formula_", KSTR)])
KAXIOM.real = True
axRec = z3.Function("axiomAt", AXM, KAXIOM.sort())
domAx = z3.Function("isAxiomOf", PDDL, AXM, B)
axsOf = z3.Function("allAxiomsOf", PDDL, KVAX.sort())
tco = z3.Function("typesFit", SEQ, SEQ, B)             # parameters, arguments
tcow = z3.Function("w_typesFit", SEQ, SEQ, IS)
unsgn = z3.Function("withoutSign", STR, STR)
sgn = z3.Function("signOf", STR, B)
ArrW = z3.ArraySort(IS, KVOBJ.sort())
inlist = z3.Function("isListed", ArrW, IS, SEQ, B)
lpos = z3.Function("positionInList", ArrW, IS, SEQ, IS)
axsPd = z3.Function("domainOfAxioms", KVAX.sort(), PDDL)
wa, wb = z3.Consts("wa wb", ArrW)
m_ = z3.Int("m_")
IL, LP, LQ = inlist(wa, nn_, q), lpos(wa, nn_, q), inlist(wb, m_, q)
BOUNDED = z3.Const("withinTheBound", B)
PLUS, MINUS = val.strlit("+"), val.strlit("-")
y_ = z3.Const("y_", SYM)
va_ = z3.Const("va_", KVARGS.sort())
AS_ = z3.Const("AS_", KVARGS.arr_of(va_).sort())
AXS_ = z3.Const("AXS_", KVAX.arr_of(al_).sort())


def params_of(p_, y):
    return olist(p_, field("parameters", y, KSYML))


def pre_of(y):
    return field("precondition", y)


def eff_of(y):
    return field("effects", y)


axm_defs = [
    FA([p, q], z3.Implies(tco(p, q), slen(p) == slen(q)), [tco(p, q)]),
    FA([p, q, ii], z3.Implies(z3.And(tco(p, q), 0 <= ii, ii < slen(p)), isaT(typeO(sat(q, ii)), tnm(typeO(sat(p, ii))))),
       [z3.MultiPattern(tco(p, q), sat(q, ii))]),
    FA([p, q], z3.Or(tco(p, q), slen(p) != slen(q), z3.And(0 <= tcow(p, q), tcow(p, q) < slen(p), z3.Not(
        isaT(typeO(sat(q, tcow(p, q))), tnm(typeO(sat(p, tcow(p, q)))))))), [tco(p, q)]),
    # what C06 establishes about the arguments that are enumerated
    FA([pd, V, T], z3.Implies(tc(pd, V, T), tco(V, T)), [tc(pd, V, T)]),
    FA([st_], z3.And(unsgn(strcat(PLUS, st_)) == st_, sgn(strcat(PLUS, st_))), [strcat(PLUS, st_)]),
    FA([st_], z3.And(unsgn(strcat(MINUS, st_)) == st_, z3.Not(sgn(strcat(MINUS, st_)))), [strcat(MINUS, st_)]),
    FA([ax_], axParams(ax_) == KAXIOM.get(axRec(ax_), "parameters_"), [axParams(ax_), axRec(ax_)]),
    FA([ax_], axTerms(ax_) == KSIGNED.get(KAXIOM.get(axRec(ax_), "context_"), "arguments_"), [axTerms(ax_), axRec(ax_)]),
    # the axiom map lists axioms of the domain under their signed predicate
    FA([pd, st_, ax_], z3.Implies(z3.And(hasAx(pd, st_), listed(ax_, axItems(pd, st_))), z3.And(
        domAx(pd, ax_), st_ == strcat(z3.If(ctx(ax_, "is_pos_"), PLUS, MINUS), ctx(ax_, "name_"))))
       if False else z3.BoolVal(True), [listed(ax_, axItems(pd, st_))]),
    FA([pd, ii], z3.Implies(z3.And(0 <= ii, ii < KVAX.len_of(axsOf(pd))), domAx(pd, KVAX.arr_of(axsOf(pd))[ii])),
       [KVAX.arr_of(axsOf(pd))[ii]]),
    FA([pd], z3.And(KVAX.len_of(axsOf(pd)) >= 0, axsPd(axsOf(pd)) == pd), [axsOf(pd)]),
    # triggered axioms
    FA([ax_, lg_, st_, p, t_], z3.Implies(z3.And(ranY(lg_, KAXIOM.get(axRec(ax_), "symbol_"), t_), tco(vs(axParams(ax_)), t_), atomS(
        st_, subst(vs(axParams(ax_)), t_, vs(axTerms(ax_)))) == atomS(st_, p)), ran(lg_, ax_, st_, p)),
       [z3.MultiPattern(ran(lg_, ax_, st_, p), ranY(lg_, KAXIOM.get(axRec(ax_), "symbol_"), t_))]),
    FA([p, q, r_, t_, T], z3.Not(z3.And(noFit(p, q, r_, t_), canFit(r_, t_, subst(p, T, q)))),
       [z3.MultiPattern(noFit(p, q, r_, t_), canFit(r_, t_, subst(p, T, q)))]),
    # lists of argument lists
    FA([wa, nn_, q], z3.Implies(IL, z3.And(0 <= LP, LP < nn_, vs(wa[LP]) == q)), [IL]),
    FA([wa, nn_, q, ii], z3.Implies(z3.And(0 <= ii, ii < nn_, vs(wa[ii]) == q), IL), [z3.MultiPattern(IL, wa[ii])]),
    FA([wa, nn_, wb, m_, q], z3.Implies(z3.And(IL, LP < m_, wa[LP] == wb[LP]), LQ), [z3.MultiPattern(IL, LQ)]),
    FA([wb, m_, q], z3.Implies(z3.And(m_ > 0, vs(wb[m_ - 1]) == q), LQ), [LQ]),
]


def ctx(ax, n):
    return KSIGNED.get(KAXIOM.get(axRec(ax), "context_"), n)


axm_defs = [d for d in axm_defs if not z3.is_true(d.body())]
axm_defs.append(FA([pd, st_, ax_], z3.Implies(z3.And(hasAx(pd, st_), listed(ax_, axItems(pd, st_))), z3.And(
    domAx(pd, ax_), sgn(st_) == ctx(ax_, "is_pos_"), unsgn(st_) == ctx(ax_, "name_"))), [listed(ax_, axItems(pd, st_))]))


class Law:
    """Vocabulary for one kind of state."""

    def __init__(self, m):
        self.m = m
        self.part = m.part
        s = "P" if m.part else ""
        S = self.S = m.S
        arg = (IS, SYM, PDDL, SEQ, SEQ)
        self.base = z3.Const("beforeAx" + s, S)
        self.add = z3.Function("mayBeAdded" + s, ATOM, B)
        self.dele = z3.Function("mayBeDeleted" + s, ATOM, B)
        self.sat = z3.Function("satisfied" + s, *arg, S, B)
        self.satX = z3.Function("satisfied_unfolds" + s, *arg, S, B)
        self.wk = z3.Function("w_sat_kind" + s, *arg, S, IS)
        self.wi = z3.Function("w_sat_idx" + s, *arg, S, IS)
        self.wt = z3.Function("w_sat_tuple" + s, *arg, S, SEQ)
        self.cov = z3.Function("bounded" + s, *arg, B)
        self.covX = z3.Function("bounded_unfolds" + s, *arg, B)
        self.bnd = z3.Function("isWithin" + s, S, B)
        self.bndw = z3.Function("w_isWithin" + s, S, ATOM)
        self.keeps = z3.Function("keepsKnowledge" + s, S, S, B)
        self.keepsw = z3.Function("w_keepsKnowledge" + s, S, S, ATOM)
        # axioms
        self.clo = z3.Function("closedUnder" + s, PDDL, SYM, S, B)
        self.clow = z3.Function("w_closedUnder" + s, PDDL, SYM, S, SEQ)
        self.rule = z3.Function("ruleIsBounded" + s, PDDL, SYM, B)
        self.fire = z3.Function("contextHolds" + s, PDDL, SYM, SEQ, S, B)
        # lists of functions, tuples, argument lists, axioms
        ar = self.m.arr
        self.upF = z3.Function("satisfiedUpTo" + s, ar, IS, SEQ, S, B)
        self.upFw = z3.Function("w_satisfiedUpTo" + s, ar, IS, SEQ, S, IS)
        self.upG = z3.Function("tuplesSatisfiedUpTo" + s, m.sort, PDDL, SEQ, IS, SEQ, S, B)
        self.upGw = z3.Function("w_tuplesSatisfiedUpTo" + s, m.sort, PDDL, SEQ, IS, SEQ, S, IS)
        self.upA = z3.Function("instancesSatisfiedUpTo" + s, PDDL, SYM, AS_.sort(), IS, S, B)
        self.upAw = z3.Function("w_instancesSatisfiedUpTo" + s, PDDL, SYM, AS_.sort(), IS, S, IS)
        self.upX = z3.Function("axiomsSatisfiedUpTo" + s, PDDL, AXS_.sort(), IS, S, B)
        self.upXw = z3.Function("w_axiomsSatisfiedUpTo" + s, PDDL, AXS_.sort(), IS, S, IS)
        self.rules = z3.Function("rulesAreBounded" + s, PDDL, AXS_.sort(), IS, B)
        self.ext = z3.Function("hasClosedExtension" + s, PDDL, SYM, S, B)
        self.extX = z3.Function("hasExtensionClosedUnderAll" + s, PDDL, AXS_.sort(), IS, S, B)

    def fires(self, gl, pd_, P, A, S):
        if self.part:
            return psem(gl, pd_, P, A, S) == 1
        return sem(gl, pd_, P, A, S)

    def values(self, S, a):
        return self.m.values(S, a)

    def inst(self, p_, y, t, S):
        """The instance t of the axiom y is satisfied in S."""
        P = params_of(p_, y)
        return z3.Implies(self.fires(pre_of(y), p_, P, t, S), self.sat(z3.IntVal(LIST), eff_of(y), p_, P, t, S))

    def defs(self):
        s_ = z3.Const("s_", self.S)
        r = z3.Const("r!", self.S)
        KA = (e_, pd, P_, A_)
        EV = [e_, pd, P_, A_]
        EVS = EV + [s_]
        op = opened(e_)
        out = []
        I = z3.IntVal
        sv = lambda k: self.sat(I(k), *KA, s_)
        sx = lambda k: self.satX(I(k), *KA, s_)
        cv = lambda k: self.cov(I(k), *KA)
        cx = lambda k: self.covX(I(k), *KA)
        out.append(FA([k_] + EVS, self.satX(k_, *KA, s_), [z3.MultiPattern(op, self.sat(k_, *KA, s_))]))
        out.append(FA([k_] + EV, self.covX(k_, *KA), [z3.MultiPattern(op, self.cov(k_, *KA))]))
        # lists
        wk, wi, wt = self.wk(I(LIST), *KA, s_), self.wi(I(LIST), *KA, s_), self.wt(I(FORALL), *KA, s_)
        for k in (FORALL, ADD, DEL, COND):
            c_ = lambda i: self.sat(I(k), lit(elist(k, e_), i), pd, P_, A_, s_)
            rng = lambda i: z3.And(0 <= i, i < llen(elist(k, e_)))
            out.append(FA(EVS + [ii], z3.Implies(z3.And(sv(LIST), rng(ii)), c_(ii)), [z3.MultiPattern(sx(LIST), lit(elist(k, e_), ii))]))
            out.append(FA(EVS, z3.Implies(z3.And(z3.Not(sv(LIST)), wk == k), z3.And(rng(wi), z3.Not(c_(wi)))), [sx(LIST)]))
            out.append(FA(EV + [ii], z3.Implies(z3.And(cv(LIST), rng(ii)), self.cov(I(k), lit(elist(k, e_), ii), pd, P_, A_)),
                          [z3.MultiPattern(cx(LIST), lit(elist(k, e_), ii))]))
        out.append(FA(EVS, z3.Implies(z3.Not(sv(LIST)), z3.And(1 <= wk, wk <= 4)), [sx(LIST)]))
        # universal
        un = lambda t: (I(LIST), eff(e_), pd, scat(P_, ENV), scat(A_, t))
        out.append(FA(EVS + [t_], z3.Implies(z3.And(sv(FORALL), tc(pd, ENV, t_)), self.sat(*un(t_), s_)),
                      [z3.MultiPattern(sx(FORALL), tc(pd, ENV, t_))]))
        out.append(FA(EVS, z3.Implies(z3.Not(sv(FORALL)), z3.And(tc(pd, ENV, wt), z3.Not(self.sat(*un(wt), s_)))), [sx(FORALL)]))
        out.append(FA(EV, touch(scat(P_, ENV)), [cx(FORALL)]))
        out.append(FA(EVS, touch(scat(P_, ENV)), [sx(FORALL)]))
        out.append(FA(EV + [t_], z3.Implies(z3.And(cv(FORALL), tc(pd, ENV, t_)), self.cov(*un(t_))),
                      [z3.MultiPattern(cx(FORALL), tc(pd, ENV, t_))]))
        # conditional
        out.append(FA(EVS, sv(COND) == z3.Implies(self.fires(econd(e_), pd, P_, A_, s_),
                                                  self.sat(I(LIST), eff(e_), pd, P_, A_, s_)), [sx(COND)]))
        sm = (psem if self.part else sem)(econd(e_), pd, P_, A_, s_)
        out.append(FA(EVS, z3.Implies(z3.And(cv(COND), self.bnd(s_), self.fires(econd(e_), pd, P_, A_, s_)),
                                      self.cov(I(LIST), eff(e_), pd, P_, A_)), [z3.MultiPattern(cx(COND), sm)]))
        # simple
        for k in (ADD, DEL):
            eq = nm(sat(EIN, 0)) == nm(sat(EIN, 1))
            ty_ = isaT(typeO(sat(EIN, 0)), ehead(e_))
            if k == DEL:
                eq, ty_ = z3.Not(eq), z3.Not(ty_)
            v = self.values(s_, EATOM)
            has = v[0] if k == ADD else (v[1] if self.part else z3.Not(v[0]))
            may = self.add(EATOM) if k == ADD else self.dele(EATOM)
            out.append(FA(EVS, sv(k) == z3.If(ehead(e_) == EQ, eq, z3.If(inh(pd, ehead(e_)), ty_, has)), [sx(k)]))
            out.append(FA(EV, z3.Implies(cv(k), z3.If(ehead(e_) == EQ, eq, z3.If(inh(pd, ehead(e_)), ty_, may))), [cx(k)]))
        # within the bound
        if self.part:
            out.append(FA([a_], z3.Not(z3.And(self.add(a_), self.dele(a_))), [self.add(a_), self.dele(a_)]))
            within = lambda x, a: z3.And(z3.Implies(pin(x, a), self.add(a)), z3.Implies(nin(x, a), self.dele(a)))
        else:
            within = lambda x, a: z3.And(z3.Implies(holds(x, a), z3.Or(holds(self.base, a), self.add(a))),
                                         z3.Implies(holds(self.base, a), z3.Or(holds(x, a), self.dele(a))))
        w = self.bndw(s_)
        out.append(FA([s_], z3.Or(self.bnd(s_), z3.Not(within(s_, w))), [self.bnd(s_)]))
        for x in self.values(s_, a_):
            out.append(FA([s_, a_], z3.Implies(self.bnd(s_), within(s_, a_)), [z3.MultiPattern(self.bnd(s_), x)]))
        if self.part:
            kn = lambda x, a: z3.Or(pin(x, a), nin(x, a))
            K, w = self.keeps(s_, r), self.keepsw(s_, r)
            out.append(FA([s_, r], z3.Or(K, z3.And(kn(s_, w), z3.Not(kn(r, w)))), [K]))
            for x in self.values(s_, a_) + self.values(r, a_):
                out.append(FA([s_, r, a_], z3.Implies(z3.And(K, kn(s_, a_)), kn(r, a_)), [z3.MultiPattern(K, x)]))
        # lists of functions
        ar, F = z3.Const("ar", self.m.arr), z3.Const("F_", self.m.sort)

        def upto(vs, U, w, f, trig):
            out.append(FA(vs, z3.Or(U, z3.And(0 <= w, w < nn_, z3.Not(f(w)))), [U]))
            for t in trig:
                out.append(FA(vs + [ii], z3.Implies(z3.And(U, 0 <= ii, ii < nn_), f(ii)), [z3.MultiPattern(U, t)]))
        upto([ar, nn_, A_, s_], self.upF(ar, nn_, A_, s_), self.upFw(ar, nn_, A_, s_),
             lambda i: self.sat(*self.m.node(ar[i]), A_, s_), [ar[ii]])
        upto([F, pd, V, nn_, A_, s_], self.upG(F, pd, V, nn_, A_, s_), self.upGw(F, pd, V, nn_, A_, s_),
             lambda i: self.sat(*self.m.node(F), scat(A_, tup_seq(pd, V, i)), s_), [gtup(pd, V, ii)])
        upto([pd, y_, AS_, nn_, s_], self.upA(pd, y_, AS_, nn_, s_), self.upAw(pd, y_, AS_, nn_, s_),
             lambda i: self.inst(pd, y_, vs(AS_[i]), s_), [AS_[ii]])
        upto([pd, AXS_, nn_, s_], self.upX(pd, AXS_, nn_, s_), self.upXw(pd, AXS_, nn_, s_),
             lambda i: self.clo(pd, KAXIOM.get(axRec(AXS_[i]), "symbol_"), s_), [AXS_[ii]])
        # axioms
        C_, w = self.clo(pd, y_, s_), self.clow(pd, y_, s_)
        out.append(FA([pd, y_, s_], z3.Or(C_, z3.And(tc(pd, params_of(pd, y_), w), z3.Not(self.inst(pd, y_, w, s_)))), [C_]))
        out.append(FA([pd, y_, s_, t_], z3.Implies(z3.And(C_, tc(pd, params_of(pd, y_), t_)), self.inst(pd, y_, t_, s_)),
                      [z3.MultiPattern(C_, tc(pd, params_of(pd, y_), t_))]))
        R_ = self.rule(pd, y_)
        P = params_of(pd, y_)
        out.append(FA([pd, y_, s_, t_], z3.Implies(z3.And(R_, tco(P, t_), self.bnd(s_), self.fires(pre_of(y_), pd, P, t_, s_)),
                                                   self.cov(I(LIST), eff_of(y_), pd, P, t_)),
                      [z3.MultiPattern(R_, tco(P, t_), self.bnd(s_))]))
        U = self.rules(pd, AXS_, nn_)
        out.append(FA([pd, AXS_, nn_, ii], z3.Implies(z3.And(U, 0 <= ii, ii < nn_), self.rule(
            pd, KAXIOM.get(axRec(AXS_[ii]), "symbol_"))), [z3.MultiPattern(U, AXS_[ii])]))
        if self.part:
            K = self.keeps(s_, r)
            X = self.ext(pd, y_, s_)
            out.append(FA([pd, y_, s_, r], z3.Implies(z3.And(K, self.clo(pd, y_, r)), X), [z3.MultiPattern(X, K)]))
            X = self.extX(pd, AXS_, nn_, s_)
            out.append(FA([pd, AXS_, nn_, s_, r], z3.Implies(z3.And(K, self.upX(pd, AXS_, nn_, r)), X), [z3.MultiPattern(X, K)]))
        # every axiom of the domain is within the bound
        out.append(FA([pd, ax_], z3.Implies(BOUNDED, self.rule(pd, KAXIOM.get(axRec(ax_), "symbol_"))), [domAx(pd, ax_)]))
        return out

    # -------------------------------------------------------------- the law
    def law(self, nd, A, S, R, st):
        return self.facts(self.sat(*nd, A, S), self.cov(*nd, A), S, R, st)

    def facts(self, sat_, cov_, S, R, st, closed="satisfied"):
        mx = 2 if self.part else 1
        out = [("a state that is %s already stays as it is" % closed, z3.Implies(sat_, z3.And(R == S, st == 0))),
               ("reports no change only when the state is %s and unchanged" % closed, z3.Implies(st == 0, z3.And(R == S, sat_))),
               ("the status is in range", z3.And(0 <= st, st <= mx)),
               ("stays within the bound", z3.Implies(z3.And(self.bnd(S), cov_), self.bnd(R)))]
        if self.part:
            out += [("contradicts nothing within the bound", z3.Implies(z3.And(self.bnd(S), cov_), st <= 1)),
                    ("forgets nothing", self.keeps(S, R))]
        return out

    def refusal(self, sat_, cov_, S):
        return [("the state is not satisfied already", z3.Not(sat_)),
                ("not within the bound", z3.Not(z3.And(self.bnd(S), cov_)))]

    def throwing(self, nd, A, S):
        return self.refusal(self.sat(*nd, A, S), self.cov(*nd, A), S)

    def apply(self, c, nd, A, pl, n):
        """Applying the node nd to the state at pl."""
        S = c.read(pl)
        if not (z3.is_expr(S) and S.sort() == self.S):
            raise Unsupported("effects on %r" % (S,))
        c.hint("before applying effects: they are bounded", z3.Implies(BOUNDED, self.cov(*nd, A)), n)
        c.hint("before applying effects: the state is within the bound", z3.Implies(BOUNDED, self.bnd(S)), n)
        if c.branch(c.fresh_const("throws", B)):
            for _, f in self.throwing(nd, A, S):
                c.assume(f)
            c.write(pl, c.fresh_const("state", self.S))
            raise CppThrow("std::runtime_error")
        R = c.fresh_const("state", self.S)
        st = c.fresh_const("status", IS)
        for _, f in self.law(nd, A, S, R, st):
            c.assume(f)
        c.write(pl, R)
        return st

    def call(self, c, a, args, state):
        """Effects(arguments, state)"""
        F = c.rv(a)
        v = c.rv(args)
        c.check("an argument for every parameter", v.len == slen(self.m.eP(F)))
        return self.apply(c, self.m.node(F), vseq(v), c.deref(c.rv(state)), None)


LAWS = [Law(m) for m in KINDS]


def axiom_facts(f, p_):
    """What the constructor establishes about an axiom of the domain p_."""
    out = action_facts(f, p_)
    y = KSYM.pack(f["symbol_"])
    P = vseq(f["parameters_"])
    x = f["context_"].fields
    cn, ct, pos = x["name_"], vseq(x["arguments_"]), x["is_pos_"]
    out += kept(p_, pre_of(y), P, f["arguments_"])
    plain = z3.And(cn != EQ, z3.Not(inh(p_, cn)))
    ca = atomS(cn, subst(P, A_, ct))
    out += [("its context is its precondition", FA([A_, S_], z3.Implies(plain, sem(pre_of(y), p_, P, A_, S_) == (
                holds(S_, ca) == pos)), [sem(pre_of(y), p_, P, A_, S_)])),
            ("its context is its precondition on partial states", FA([A_, PS_], z3.Implies(plain, (
                psem(pre_of(y), p_, P, A_, PS_) == 1) == z3.If(pos, pin(PS_, ca), nin(PS_, ca))),
                [psem(pre_of(y), p_, P, A_, PS_)]))]
    return out


def quantify(facts, p_, ax):
    """The facts for every axiom of the domain."""
    out = []
    for _, f in facts:
        if z3.is_quantifier(f):
            vs_ = [z3.Const(f.var_name(i), f.var_sort(i)) for i in range(f.num_vars())]
            body = z3.substitute_vars(f.body(), *reversed(vs_))
            pats = [z3.substitute_vars(f.pattern(i), *reversed(vs_)) for i in range(f.num_patterns())]
            pats = [x.arg(0) if x.num_args() == 1 else z3.MultiPattern(*x.children()) for x in pats]
            out.append(FA([p_, ax] + vs_, z3.Implies(domAx(p_, ax), body), [z3.MultiPattern(domAx(p_, ax), x) for x in pats]))
        elif z3.is_and(f) and any(z3.is_quantifier(x) for x in f.children()):
            out += quantify([("", x) for x in f.children()], p_, ax)
        else:
            out.append(FA([p_, ax], z3.Implies(domAx(p_, ax), f), [domAx(p_, ax)]))
    return out


def wf_axiom(p_, y):
    return z3.And(wf_operator(p_, y), slen(params_of(p_, y)) > 0)


def record_axioms():
    f = KAXIOM.unpack(axRec(ax_)).fields
    return quantify(axiom_facts(f, pd) + [("", wf_axiom(pd, KSYM.pack(f["symbol_"]))), ("", f["parameters_"].len >= 0)], pd, ax_)


# ------------------------------------------------------------------ effects

class AxEff(CreateEff):
    """CreateX<T>(pddl, effect, parameters): a function that applies the effect."""

    def post(self, c, o, nw, ret):
        m = self.m
        L = self.law
        F = c.rv(ret)
        if z3.is_expr(F):
            return self.call_post(c, o, nw, F)
        c.retire([F])
        for r_ in heap_vectors(c):
            c.mem[r_] = c.fresh_like(c.mem[r_], "buffer")
        av = KVOBJ.fresh(c, "arguments")
        c.assume(av.len == o.args[2].len)
        a = c.new_root("ext/arguments", av)
        S = c.fresh_const("state", m.S)
        s = c.new_root("ext/state", S)
        A = vseq(av)
        nd = self.node(o)
        c.assume(z3.Implies(BOUNDED, z3.And(L.bnd(S), L.cov(*nd, A))))
        c.new_root(GHOST_LOG, c.fresh_const("applications", LOG))
        c.roles_eff = (nd[2], KSYM.pack(o.args[1]), A)
        try:
            R = c.rv(call_fn(c, F, [a, Ptr(s)]))
        except CppThrow as e:
            return [("throws only when " + n, f) for n, f in self.limit(L.throwing(nd, A, S))]
        if z3.is_bool(R):
            R = b2i(R)
        return self.limit(L.law(nd, A, S, c.read(s), R)) + self.triggers(c, nd, A, R) + [("the arguments are unchanged", z3.BoolVal(c.read(a) is av))]

    def triggers(self, c, nd, A, st):
        """A change applies every axiom whose context can be the atom changed."""
        k, e, p_, P = nd
        if self.k not in (ADD, DEL):
            return []
        G = subst(P, A, olist(p_, eterms(e)))
        key = strcat(PLUS if self.k == ADD else MINUS, ehead(e))
        al = axItems(p_, key)
        j = z3.Int(c.fresh_name("axiom"))
        x = KVAX.arr_of(al)[j]
        lg = c.read(Place(GHOST_LOG))
        return [("the axioms it triggers are applied", z3.Implies(z3.And(
            st != 0, hasAx(p_, key), 0 <= j, j < KVAX.len_of(al), canFit(vs(axParams(x)), vs(axTerms(x)), G)), ran(lg, x, ehead(e), G)))]

    def limit(self, facts):
        """The bound is arbitrary: where it is not assumed to hold there is nothing to show."""
        L = self.law
        out = []
        for n, f in facts:
            if "the bound" in n:
                if n == "not within the bound":
                    f = z3.Not(BOUNDED)
                else:
                    f = z3.Implies(BOUNDED, f.arg(1))
            out.append((n, f))
        return out


GHOST_LOG = "ghost/applications"


def log_application(c, y, A):
    """Ghost: the instance A of the axiom y was applied."""
    if GHOST_LOG in c.mem:
        l0, l1 = c.mem[GHOST_LOG], c.fresh_const("applications", LOG)
        c.assume(ranY(l1, y, A))
        x, t = z3.Const("y!", SYM), z3.Const("t!", SEQ)
        c.assume(FA([x, t], z3.Implies(ranY(l0, x, t), ranY(l1, x, t)), [ranY(l0, x, t)]))
        a, n, g = z3.Const("a!", AXM), z3.Const("n!", STR), z3.Const("g!", SEQ)
        c.assume(FA([a, n, g], z3.Implies(ran(l0, a, n, g), ran(l1, a, n, g)), [ran(l0, a, n, g), ran(l1, a, n, g)]))
        c.write(Place(GHOST_LOG), l1)


def app_has(w, ax):
    """w has an application function of the axiom."""
    K = w.ek
    ar = z3.ArraySort(IS, K.sort())
    return z3.Function("hasApplicationOf", ar, IS, AXM, B)(w.arr, w.len, ax)


def app_defs(K):
    ar = z3.ArraySort(IS, K.sort())
    f = z3.Function("hasApplicationOf", ar, IS, AXM, B)
    w = z3.Function("w_hasApplicationOf", ar, IS, AXM, IS)
    xa, xb = z3.Consts("xa xb", ar)
    I, W, J = f(xa, nn_, ax_), w(xa, nn_, ax_), f(xb, m_, ax_)
    return [FA([xa, nn_, ax_], z3.Implies(I, z3.And(0 <= W, W < nn_, K.get(xa[W], "first") == ax_)), [I]),
            FA([xa, nn_, xb, m_, ax_], z3.Implies(z3.And(I, W < m_, xa[W] == xb[W]), J), [z3.MultiPattern(I, J)]),
            FA([xb, m_, ax_], z3.Implies(z3.And(m_ > 0, K.get(xb[m_ - 1], "first") == ax_), J), [J])]


KAPPS = KRec("pair", [("first", KAX), ("second", KAAF)])


class AxActionApply(Contract):
    """Action::Apply, in place and by value"""
    qname = "symbolic::Action::Apply"
    inplace = True
    may_throw = True
    throws_what = "std::runtime_error"

    def enter(self, c):
        L = self.law
        f = KACTION.fresh(c, "action")
        p_ = c.fresh_const("pddl", PDDL)
        for _, x in action_facts(f.fields, p_):
            c.assume(x)
        av = KVOBJ.fresh(c, "arguments")
        a = c.new_root("ext/arguments", av)
        S = c.fresh_const("state", L.S)
        s = c.new_root("ext/state", S)
        nd = self.node(f)
        c.assume(av.len == f.fields["parameters_"].len)
        c.assume(z3.Implies(BOUNDED, z3.And(L.bnd(S), L.cov(*nd, vseq(av)))))
        return f, ([a, Ptr(s)] if self.inplace else [s, a])

    def node(self, f):
        return self.law.m.node(f.fields["ApplyPartial_" if self.law.part else "Apply_"])

    def pre(self, c, s):
        if c.depth > 0:
            L, nd, A = self.law, self.node(s.this), vseq(self.given(s))
            c.hint("the instance is bounded", z3.Implies(BOUNDED, L.cov(*nd, A)))
        own = [x for x in (s.arg_places or []) if isinstance(x, Place) and x.root.startswith("ext/axiom_args")]
        return [("an argument for every parameter", self.given(s).len == slen(self.node(s.this)[3])),
                ("the arguments are not kept where applying it may overwrite them", z3.BoolVal(not own))]

    def given(self, s):
        return s.args[0 if self.inplace else 1]

    def ret(self, c, s):
        if not self.inplace:
            return c.fresh_const("state", self.law.S)
        return c.fresh_const("status", IS if self.law.part else B)

    def facts(self, c, o, S, R, st):
        return self.law.law(self.node(o.this), vseq(self.given(o)), S, R, st)

    def call_post(self, c, o, nw, ret):
        L = self.law
        if not self.inplace:
            st = c.fresh_const("status", IS)
            return self.facts(c, o, o.args[0], ret, st)
        pl = c.deref(o.args[1])
        S = c.read(pl)
        R = c.fresh_const("state", L.S)
        c.write(pl, R)
        log_application(c, KSYM.pack(o.this.fields["symbol_"]), vseq(self.given(o)))
        return self.facts(c, o, S, R, ret if z3.is_int(ret) else b2i(ret))

    def on_throw(self, c, o, nw, e):
        L = self.law
        S = z3.Const("state!0", L.S) if nw is not o else (c.read(c.deref(o.args[1])) if self.inplace else o.args[0])
        out = L.throwing(self.node(o.this), vseq(self.given(o)), S)
        if nw is o:
            if self.inplace:
                c.write(c.deref(o.args[1]), c.fresh_const("state", L.S))
            return out
        return AxEff.limit(self, out)

    def post(self, c, o, nw, ret):
        L = self.law
        S = z3.Const("state!0", L.S)
        r = c.rv(ret)
        if self.inplace:
            R = c.read(Place("ext/state"))
            return AxEff.limit(self, self.facts(c, o, S, R, r if z3.is_int(r) else b2i(r)))
        nd, A = self.node(o.this), vseq(self.given(o))
        out = [("a state that is satisfied already stays as it is", z3.Implies(L.sat(*nd, A, S), r == S)),
               ("stays within the bound", z3.Implies(BOUNDED, L.bnd(r)))]
        return out + [("the state given is unchanged", c.read(Place("ext/state")) == S)]


# ------------------------------------------------------------------- axioms

class OfAxiom(Contract):
    """A member function of an axiom."""
    law = None

    def axiom(self, c):
        f = KAXIOM.fresh(c, "axiom")
        p_ = c.fresh_const("pddl", PDDL)
        for _, x in axiom_facts(f.fields, p_):
            c.assume(x)
        c.assume(z3.Implies(BOUNDED, self.law.rule(p_, KSYM.pack(f.fields["symbol_"]))))
        return f

    def of(self, s):
        """Domain and symbol of the axiom."""
        return COMPLETE.epd(s.this.fields["Apply_"]), KSYM.pack(s.this.fields["symbol_"])

    def bounded(self, c):
        L = self.law
        S = c.fresh_const("state", L.S)
        c.assume(z3.Implies(BOUNDED, L.bnd(S)))
        return S

    def pre(self, c, s):
        return []

    def sat(self, o, S):
        return self.law.clo(*self.of(o), S)

    def cov(self, o):
        return self.law.rule(*self.of(o))

    closed = "closed"


class AxiomApply(OfAxiom):
    """Axiom::Apply(State*), Axiom::Apply(PartialState*)"""
    qname = "symbolic::Axiom::Apply"
    may_throw = True
    throws_what = "std::runtime_error"

    def enter(self, c):
        f = self.axiom(c)
        return f, [Ptr(c.new_root("ext/state", self.bounded(c)))]

    def place(self, c, o):
        return c.deref(o.args[0])

    def ret(self, c, s):
        return c.fresh_const("status", IS if self.law.part else B)

    def facts(self, o, S, R, st):
        return self.law.facts(self.sat(o, S), self.cov(o), S, R, st if z3.is_int(st) else b2i(st), self.closed)

    def call_post(self, c, o, nw, ret):
        pl = self.place(c, o)
        S = c.read(pl)
        R = c.fresh_const("state", self.law.S)
        c.write(pl, R)
        return self.facts(o, S, R, ret)

    def on_throw(self, c, o, nw, e):
        L = self.law
        S = z3.Const("state!0", L.S) if nw is not o else c.read(self.place(c, o))
        out = L.refusal(self.sat(o, S), self.cov(o), S)
        if nw is o:
            c.write(self.place(c, o), c.fresh_const("state", L.S))
            return out
        return AxEff.limit(self, out)

    def post(self, c, o, nw, ret):
        return AxEff.limit(self, self.facts(o, z3.Const("state!0", self.law.S), c.read(Place("ext/state")), c.rv(ret)))


class AxiomApplied(AxiomApply):
    """Axiom::Apply by value"""
    def enter(self, c):
        f = self.axiom(c)
        return f, [c.new_root("ext/state", self.bounded(c))]

    def ret(self, c, s):
        return c.fresh_const("state", self.law.S)

    def call_post(self, c, o, nw, ret):
        return self.by_value(o, o.args[0], ret)

    def by_value(self, o, S, R):
        L = self.law
        out = [("a state that is %s already stays as it is" % self.closed, z3.Implies(self.sat(o, S), R == S)),
               ("stays within the bound", z3.Implies(z3.And(L.bnd(S), self.cov(o)), L.bnd(R)))]
        if L.part:
            out.append(("forgets nothing", L.keeps(S, R)))
        return out

    def on_throw(self, c, o, nw, e):
        out = self.law.refusal(self.sat(o, o.args[0]), self.cov(o), o.args[0])
        return out if nw is o else AxEff.limit(self, out)

    def post(self, c, o, nw, ret):
        S = z3.Const("state!0", self.law.S)
        return AxEff.limit(self, self.by_value(o, S, c.rv(ret))) + [
            ("the state given is unchanged", c.read(Place("ext/state")) == S)]


class IsClosed(OfAxiom):
    """Axiom::IsConsistent(const State&)"""
    qname = "symbolic::Axiom::IsConsistent"

    def enter(self, c):
        f = self.axiom(c)
        return f, [c.new_root("ext/state", self.bounded(c))]

    def ret(self, c, s):
        return c.fresh_const("consistent", B)

    def post(self, c, o, nw, ret):
        return [("is consistent exactly when every instance whose context holds is satisfied",
                 c.rv(ret) == self.sat(o, o.args[0]))]


class Exhaust(OfAxiom):
    """IsConsistent(PartialState*, bool*): one round of applications"""
    qname = "symbolic::Axiom::IsConsistent"

    def enter(self, c):
        f = self.axiom(c)
        return f, [Ptr(c.new_root("ext/state", self.bounded(c))), Ptr(c.new_root("ext/changed", c.fresh_const("changed", B)))]

    def ret(self, c, s):
        return c.fresh_const("consistent", B)

    def facts(self, o, S, R, b, b2, ret):
        L = self.law
        sat_, cov_ = self.sat(o, S), self.cov(o)
        return [("a state that is closed already stays as it is", z3.Implies(sat_, z3.And(R == S, ret, b2 == b))),
                ("changes are reported", z3.Implies(z3.And(ret, z3.Not(b2)), z3.And(z3.Not(b), R == S, sat_))),
                ("stays within the bound", z3.Implies(z3.And(L.bnd(S), cov_), L.bnd(R))),
                ("contradicts nothing within the bound", z3.Implies(z3.And(L.bnd(S), cov_), ret)),
                ("forgets nothing", z3.Implies(ret, L.keeps(S, R)))]

    def call_post(self, c, o, nw, ret):
        pl, pb = c.deref(o.args[0]), c.deref(o.args[1])
        S, b = c.read(pl), c.read(pb)
        R, b2 = c.fresh_const("state", self.law.S), c.fresh_const("changed", B)
        c.write(pl, R)
        c.write(pb, b2)
        return self.facts(o, S, R, b, b2, ret)

    def post(self, c, o, nw, ret):
        return AxEff.limit(self, self.facts(o, z3.Const("state!0", self.law.S), c.read(Place("ext/state")),
                                            z3.Const("changed!0", B), c.read(Place("ext/changed")), c.rv(ret)))


class IsExtendable(OfAxiom):
    """IsConsistent(const PartialState&): exhaustive application"""
    qname = "symbolic::Axiom::IsConsistent"

    def enter(self, c):
        f = self.axiom(c)
        return f, [c.new_root("ext/state", self.bounded(c))]

    def ret(self, c, s):
        return c.fresh_const("consistent", B)

    def state(self, o):
        return o.args[0]

    def ext(self, o):
        return self.law.ext(*self.of(o), self.state(o))

    def facts(self, o, ret):
        L, S = self.law, self.state(o)
        return [("contradicts nothing within the bound", z3.Implies(z3.And(L.bnd(S), self.cov(o)), ret)),
                ("is consistent only when a state that knows as much is closed", z3.Implies(ret, self.ext(o))),
                ("a closed state is consistent", z3.Implies(self.sat(o, S), ret))]

    def call_post(self, c, o, nw, ret):
        return self.facts(o, c.rv(ret))

    def post(self, c, o, nw, ret):
        return AxEff.limit(self, self.facts(o, c.rv(ret)))


class OfDomain(OfAxiom):
    """... for all axioms of a domain"""
    def axs(self, o):
        return o.this, KVAX.unpack(axsOf(o.this))

    def sat(self, o, S):
        p_, w = self.axs(o)
        return self.law.upX(p_, w.arr, w.len, S)

    def cov(self, o):
        p_, w = self.axs(o)
        return self.law.rules(p_, w.arr, w.len)

    def domain(self, c):
        p_ = c.fresh_const("pddl", PDDL)
        w = KVAX.unpack(axsOf(p_))
        c.assume(z3.Implies(BOUNDED, self.law.rules(p_, w.arr, w.len)))
        return p_


class AllExtendable(IsExtendable, OfDomain):
    """Axiom::IsConsistent(axioms, state)"""
    def axs(self, o):
        return axsPd(KVAX.pack(o.args[0])), o.args[0]

    def state(self, o):
        return o.args[1]

    def enter(self, c):
        w = KVAX.fresh(c, "axioms")
        return None, [c.new_root("ext/list", w), c.new_root("ext/state", self.bounded(c))]

    def pre(self, c, s):
        p_, w = self.axs(s)
        return [("the axioms are those of a domain", FA([ii], z3.Implies(z3.And(0 <= ii, ii < w.len), domAx(p_, w.arr[ii])), [w.arr[ii]]))]

    def ext(self, o):
        p_, w = self.axs(o)
        return self.law.extX(p_, w.arr, w.len, self.state(o))


class ValidState(OfDomain, IsClosed):
    """Pddl::IsValidState(const State&)"""
    qname = "symbolic::Pddl::IsValidState"

    def enter(self, c):
        return self.domain(c), [c.new_root("ext/state", self.bounded(c))]


class ValidPartial(OfDomain, IsExtendable):
    """Pddl::IsValidState(const PartialState&)"""
    qname = "symbolic::Pddl::IsValidState"

    def enter(self, c):
        return self.domain(c), [c.new_root("ext/state", self.bounded(c))]

    def ext(self, o):
        p_, w = self.axs(o)
        return self.law.extX(p_, w.arr, w.len, self.state(o))


class Closure(OfDomain, AxiomApplied):
    """Pddl::ConsistentState"""
    qname = "symbolic::Pddl::ConsistentState"

    def enter(self, c):
        return self.domain(c), [c.new_root("ext/state", self.bounded(c))]

    def by_value(self, o, S, R):
        return [("is closed under all axioms", self.sat(o, R))] + AxiomApplied.by_value(self, o, S, R)

    def on_throw(self, c, o, nw, e):
        out = AxiomApplied.on_throw(self, c, o, nw, e)
        if self.law.part and nw is o:           # may give up after a number of iterations
            return out[:1]
        if self.law.part:
            tired = getattr(c, "counters", [])
            out = out[:1] + [("gives up only after %d rounds or for a contradiction" % ROUNDS, z3.Or([out[1][1]] + tired))]
        return out


ROUNDS = 50


def counters(c, t, node):
    """What is counted where an exception is thrown."""
    c.counters = [v > ROUNDS for r, v in c.mem.items() if not r.startswith("ext/") and z3.is_expr(v) and v.sort() == IS and not z3.is_int_value(v)]


# ---------------------------------------------------------- matching arguments

wfit = z3.Function("w_canFit", SEQ, SEQ, SEQ, SEQ)
k0_ = z3.Int("k0_")
match_defs = [
    FA([p, q, r_], slen(subst(p, q, r_)) == slen(r_), [subst(p, q, r_)]),
    FA([p, q, r_, ii], z3.Implies(z3.And(0 <= ii, ii < slen(r_)), sat(subst(p, q, r_), ii) == look(p, q, sat(r_, ii))),
       [sat(subst(p, q, r_), ii), z3.MultiPattern(subst(p, q, r_), sat(r_, ii))]),
    FA([p, q, r_], z3.Implies(canFit(p, q, r_), z3.And(tco(p, wfit(p, q, r_)), slen(r_) == slen(q))), [canFit(p, q, r_)]),
    FA([p, q, r_, ii], z3.Implies(z3.And(canFit(p, q, r_), 0 <= ii, ii < slen(q)), look(p, wfit(p, q, r_), sat(q, ii)) == sat(r_, ii)),
       [z3.MultiPattern(canFit(p, q, r_), sat(q, ii))]),
    FA([ob], isaT(typeO(ob), tnm(typeO(ob))), [typeO(ob)]),
]


def listed_in(w, *fields):
    """w has an element with these fields."""
    e = w.ek.sort()
    ar = z3.ArraySort(IS, e)
    key = str(e)
    f = z3.Function("hasElement_" + key, ar, IS, e, B)
    return f(w.arr, w.len, w.ek.pack(Rec(w.ek.cls, dict(zip([n for n, _ in w.ek.flds], fields)))))


def element_defs(K):
    e = K.sort()
    ar = z3.ArraySort(IS, e)
    f = z3.Function("hasElement_" + str(e), ar, IS, e, B)
    w = z3.Function("w_hasElement_" + str(e), ar, IS, e, IS)
    xa, xb, x = z3.Const("xa", ar), z3.Const("xb", ar), z3.Const("x!", e)
    I, W, J = f(xa, nn_, x), w(xa, nn_, x), f(xb, m_, x)
    return [FA([xa, nn_, x], z3.Implies(I, z3.And(0 <= W, W < nn_, xa[W] == x)), [I]),
            FA([xa, nn_, x, ii], z3.Implies(z3.And(0 <= ii, ii < nn_, xa[ii] == x), I), [z3.MultiPattern(I, xa[ii])]),
            FA([xa, nn_, xb, m_, x], z3.Implies(z3.And(I, W < m_, xa[W] == xb[W]), J), [z3.MultiPattern(I, J)]),
            FA([xb, m_, x], z3.Implies(z3.And(m_ > 0, xb[m_ - 1] == x), J), [J])]


def FL(vs_, f, pats):
    """As FA; triggers that are not legal are left to the solver."""
    from .comb import legal
    return z3.ForAll(vs_, f, patterns=[x for x in pats if legal(x)])


class Roles:
    """What the vectors given to CreateApplicationFunction are."""
    def __init__(self, P, Tm, AP, AT):
        self.P, self.T, self.AP, self.AT = P, Tm, AP, AT
        self.A = self.W = self.fit = None
        self.origin = {}

    def inP(self, k):
        return lastm(vseq(self.P), self.P.len, nm(self.T.arr[k]))

    def inAP(self, k):
        return lastm(vseq(self.AP), self.AP.len, nm(self.AT.arr[k]))

    CASES = ("axiom constant", "action constant", "both")

    def case(self, n, k):
        """Does position k belong to the case, and what is recorded for it."""
        i, j = self.inAP(k), self.inP(k)
        if n == "axiom constant":
            return z3.And(i < 0, j >= 0), (j, self.AT.arr[k])
        if n == "action constant":
            return z3.And(i >= 0, j < 0), (i, self.T.arr[k])
        return z3.And(i >= 0, j >= 0), (i, j)

    def cases(self, w):
        return ["both"] if w.ek.flds[1][1].sort() == IS else ["axiom constant", "action constant"]

    def comes(self, c, n, upto, x, y):
        """(x, y) is recorded for a position below upto."""
        key = n.replace(" ", "_")
        f = z3.Function("recordedFor_" + key, IS, IS, y.sort(), B)
        w = z3.Function("w_recordedFor_" + key, IS, IS, y.sort(), IS)
        yv = z3.Const("y!" + str(y.sort()), y.sort())
        if n not in self.origin:
            self.origin[n] = True
            W, Fv = w(nn_, m_, yv), f(nn_, m_, yv)

            def fits_(k):
                cond, (a, b) = self.case(n, k)
                return z3.And(0 <= k, k < nn_, cond, a == m_, b == yv)
            c.assume(FA([nn_, m_, yv], z3.Implies(Fv, fits_(W)), [Fv]))
            c.assume(FA([nn_, m_, yv, ii], z3.Implies(fits_(ii), Fv), [z3.MultiPattern(Fv, self.AT.arr[ii])]))
        return f(upto, x, y)


class MatchFunction(AxiomApplication):
    """CreateApplicationFunction(action parameters, terms, axiom parameters, context
    terms): from action arguments to the axiom arguments for which the context is
    the same atom, null (or no function) when there are none."""
    sig = None

    def enter(self, c):
        v = [KVOBJ.fresh(c, n) for n in ("action_params", "action_terms", "axiom_params", "context_terms")]
        R = c.roles = Roles(*v)
        # well-formed domains: a predicate has one arity, an axiom's parameters differ
        c.assume(v[1].len == v[3].len)
        c.assume(FA([ii, jj], z3.Implies(z3.And(0 <= ii, ii < jj, jj < v[2].len), nm(v[2].arr[ii]) != nm(v[2].arr[jj])),
                    [z3.MultiPattern(v[2].arr[ii], v[2].arr[jj])]))
        for n in Roles.CASES:
            ob_ = z3.Const("ob", OBJ)
            R.comes(c, n, z3.IntVal(0), z3.IntVal(0), z3.IntVal(0) if n == "both" else ob_)
        return None, v

    def call_post(self, c, o, nw, ret):
        F = ret.val
        P, Tm, AP, AT = [vseq(x) for x in o.args]
        return [("", z3.And([f(F) == x for f, x in zip((aafP, aafT, aafAP, aafAT), (P, Tm, AP, AT))])),
                ("", z3.Implies(z3.Not(ret.has), noFit(P, Tm, AP, AT)))]

    def post(self, c, o, nw, ret):
        R = c.roles
        P, Tm, AP, AT = [vseq(x) for x in o.args]
        ret = c.rv(ret)
        F = ret.val
        has = z3.simplify(ret.has)
        av = KVOBJ.fresh(c, "arguments")
        c.assume(av.len == R.P.len)
        A = vseq(av)
        G = subst(P, A, Tm)
        fit = canFit(AP, AT, G)
        if z3.is_false(has):
            return [("no function only when nothing matches", z3.Not(fit))]
        c.check("a function is returned or not", z3.BoolVal(z3.is_true(has)))
        c.retire([F])
        R.A, R.W, R.fit = av, wfit(AP, AT, G), fit

        def inv(v):
            return [("as many as parameters", v.len == R.AP.len),
                    ("parameters that do not occur stand for themselves", FA([ii], z3.Implies(z3.And(
                        0 <= ii, ii < R.AP.len, lastm(AT, R.AT.len, nm(R.AP.arr[ii])) < 0), v.arr[ii] == R.AP.arr[ii]), [v.arr[ii]]))]
        bufs = heap_vectors(c)
        for r in bufs:
            for n, f in inv(c.mem[r]):
                c.check("the buffer has %s (on creation)" % n, f)
            c.mem[r] = c.fresh_like(c.mem[r], "buffer")
            for n, f in inv(c.mem[r]):
                c.assume(f)
        a = c.new_root("ext/arguments", av)
        B_ = c.rv(call_fn(c, F, [a]))
        out = []
        if B_.place is None:
            out.append(("null only when nothing matches", z3.Not(fit)))
        else:
            Bv = c.read(c.deref(B_))
            H = subst(AP, vseq(Bv), AT)
            k = z3.Int(c.fresh_name("k"))
            st = c.fresh_const("predicate", STR)
            c.check("the axiom's arguments match the action's", z3.Implies(z3.And(0 <= k, k < R.T.len), nm(sat(H, k)) == nm(sat(G, k))))
            c.assume(FA([k0_], z3.Implies(z3.And(0 <= k0_, k0_ < R.T.len), nm(sat(H, k0_)) == nm(sat(G, k0_))), [sat(H, k0_), sat(G, k0_)]))
            out += [("the axiom's arguments are of its parameter types", tco(AP, vseq(Bv))),
                    ("the axiom's context is the action's atom", atomS(st, H) == atomS(st, G))]
        out.append(("the arguments are unchanged", z3.BoolVal(c.read(a) is av)))
        for r in bufs:
            out += [("the buffer has %s (after a call)" % n, f) for n, f in inv(c.mem[r])]
        return out


def pair_vectors(c):
    return [(r, v) for r, v in [(r, c.mem[r]) for r in c.mem if r not in c.dead] if isinstance(v, Vec) and isinstance(v.ek, KRec)
            and v.ek.cls == "pair" and v.ek.flds[0][1].sort() == IS and v.ek.flds[1][1].sort() in (IS, OBJ)]


def match_candidates(c, lp):
    R = getattr(c, "roles", None)
    if R is None:
        return
    moved = [r for r in lp.entry if r in c.mem and any(h[0] == r for h in lp.havoc)]
    ints = [(r, c.mem[r]) for r in moved if z3.is_expr(c.mem[r]) and c.mem[r].sort() == IS and "/tmp" not in r]
    its = [(r, c.mem[r]) for r in moved if isinstance(c.mem[r], It)]
    rng = lambda i, n: z3.And(0 <= i, i < n)
    if R.A is None:
        for ri, i in ints + [(r, x.idx) for r, x in its]:
            yield "constants are the same before %s" % ri, lambda i=i: FL([ii], z3.Implies(z3.And(
                rng(ii, i), R.inAP(ii) < 0, R.inP(ii) < 0), nm(R.AT.arr[ii]) == nm(R.T.arr[ii])), [R.AT.arr[ii], R.T.arr[ii]])
            for rw, w in pair_vectors(c):
                for n in R.cases(w):
                    def has(k, w=w, n=n):
                        cond, fs = R.case(n, k)
                        return z3.Implies(cond, listed_in(w, *fs))
                    yield "%s records %s before %s" % (rw, n, ri), lambda i=i, has=has: FL(
                        [ii], z3.Implies(rng(ii, i), has(ii)), [R.AT.arr[ii], R.T.arr[ii]])
                    yield "%s records only %s before %s" % (rw, n, ri), lambda i=i, w=w, n=n: FL([ii], z3.Implies(
                        rng(ii, w.len), R.comes(c, n, i, *[w.ek.get(w.arr[ii], f) for f, _ in w.ek.flds])), [w.arr[ii]])
            # looking for a term among the parameters
            for rk, k in [(r, v) for r, v in lp.entry.items() if z3.is_expr(v) and v.sort() == IS and "/tmp" not in r]:
                if rk == ri:
                    continue
                kk = c.mem[rk]
                for nme, X, Y in (("axiom", R.AP, R.AT), ("action", R.P, R.T)):
                    yield "no %s parameter before %s is term %s" % (nme, ri, rk), lambda i=i, kk=kk, X=X, Y=Y: z3.And(i >= 0, i <= X.len, FL(
                        [ii], z3.Implies(rng(ii, i), nm(X.arr[ii]) != nm(Y.arr[kk])), [X.arr[ii]]))
                    yield "no %s parameter from %s on is term %s" % (nme, ri, rk), lambda i=i, kk=kk, X=X, Y=Y: z3.And(i >= 0, i <= X.len, FL(
                        [ii], z3.Implies(z3.And(i <= ii, ii < X.len), nm(X.arr[ii]) != nm(Y.arr[kk])), [X.arr[ii]]))
        return
    bufs = [(r, c.mem[r]) for r in heap_vectors(c)]
    for rb, v in bufs:
        yield "%s keeps its size" % rb, lambda v=v: v.len == R.AP.len
        yield "%s keeps the other parameters" % rb, lambda v=v: FL([ii], z3.Implies(z3.And(
            rng(ii, R.AP.len), lastm(vseq(R.AT), R.AT.len, nm(R.AP.arr[ii])) < 0), v.arr[ii] == R.AP.arr[ii]), [v.arr[ii]])
        for ri, i in ints:
            yield "%s has parameter types before %s" % (rb, ri), lambda v=v, i=i: FL([ii], z3.Implies(
                rng(ii, i), isaT(typeO(v.arr[ii]), tnm(typeO(R.AP.arr[ii])))), [v.arr[ii]])
    for rw, w in pair_vectors(c):
        x, y = [w.ek.get(w.arr[ii], f) for f, _ in w.ek.flds]
        ends = [(ri, it.idx) for ri, it in its if c.read(it.place) is w or z3.eq(c.read(it.place).len, w.len)] if its else []
        for ri, i in ends + ints:
            if y.sort() == OBJ:
                yield "the arguments are those expected by %s before %s" % (rw, ri), lambda i=i, w=w, x=x, y=y: FL([ii], z3.Implies(
                    rng(ii, i), nm(R.A.arr[x]) == nm(y)), [w.arr[ii]])
        for rb, v in bufs:
            val_ = y if y.sort() == OBJ else R.A.arr[y]
            for ri, i in ends + ints + [("its end", w.len)]:
                yield "%s has the arguments that match (%s) before %s" % (rb, rw, ri), lambda i=i, w=w, x=x, v=v: z3.Implies(R.fit, FL(
                    [ii], z3.Implies(rng(ii, i), v.arr[x] == sat(R.W, x)), [w.arr[ii]]))
                yield "%s agrees with %s before %s" % (rb, rw, ri), lambda i=i, w=w, x=x, v=v, val_=val_: FL(
                    [ii], z3.Implies(rng(ii, i), nm(v.arr[x]) == nm(val_)), [w.arr[ii]])


def axiom_contracts():
    C_, P_ = LAWS
    full, part = (lambda t: t.split("(")[-1].startswith("constState&)")), (lambda t: t.split("(")[-1].startswith("constPartialState&)"))
    return [AxiomApply(law=C_, sig=lambda t: "(State*)" in t), AxiomApply(law=P_, sig=lambda t: "(PartialState*)" in t),
            AxiomApplied(law=C_, sig=full), AxiomApplied(law=P_, sig=part),
            IsClosed(law=C_, sig=full), Exhaust(law=P_, sig=lambda t: "(PartialState*,bool*)" in t),
            AllExtendable(law=P_, sig=lambda t: "vector" in t), IsExtendable(law=P_, sig=part),
            Closure(law=C_, sig=full), Closure(law=P_, sig=part), ValidState(law=C_, sig=full), ValidPartial(law=P_, sig=part)]


def fits(c, F, v, res):
    """What a matching axiom instance is."""
    G, H_ = subst(aafP(F), vseq(v), aafT(F)), subst(aafAP(F), vseq(res), aafAT(F))
    return [tco(aafAP(F), vseq(res)), FA([st_], atomS(st_, H_) == atomS(st_, G), [atomS(st_, H_), atomS(st_, G)])]


def axm_aaf_call(c, a, args):
    """AxiomApply(arguments): null, or a buffer with the axiom's arguments."""
    F = c.rv(a)
    v = c.rv(args)
    c.check("an argument for every parameter", v.len == slen(aafP(F)))
    if c.branch(aafNull(F, vseq(v))):
        c.assume(z3.Not(canFit(aafAP(F), aafAT(F), subst(aafP(F), vseq(v), aafT(F)))))
        return Ptr(None)
    res = KVOBJ.fresh(c, "axiom_args")
    for f in fits(c, F, v, res):
        c.assume(f)
    root = "ext/axiom_args/" + F.sexpr()
    if root not in c.mem:
        c.mem[root] = res
    c.write(Place(root), res)
    return Ptr(Place(root))


def axm_candidates(c, lp):
    moved = [r for r in lp.entry if r in c.mem and any(h[0] == r for h in lp.havoc)]
    live = [r for r in c.mem if r not in c.dead]
    vecs = [(r, c.mem[r]) for r in live if isinstance(c.mem[r], Vec)]
    vecs += [(r + "." + n, v) for r in live if isinstance(c.mem[r], Rec) for n, v in c.mem[r].fields.items() if isinstance(v, Vec)]
    ovs = [(r, v) for r, v in vecs if v.ek is KOBJ and "/tmp" not in r]
    recs = [(r, c.mem[r]) for r in live if isinstance(c.mem[r], Rec) and c.mem[r].cls == KAXIOM.cls]
    pos = []
    for r in moved:
        x = c.mem[r]
        if isinstance(x, It):
            pos.append((r, x.idx, x))
        elif z3.is_expr(x) and x.sort() == IS and "/tmp" not in r:
            pos.append((r, x, None))
    for L in LAWS:
        m = L.m
        for rs in live:
            if rs in lp.entry and rs not in moved:
                R = S = c.mem[rs]
            elif rs in moved:
                R, S = c.mem[rs], lp.entry[rs]
            else:
                continue
            if not (z3.is_expr(R) and R.sort() == L.S):
                continue
            yield "%s is as it was" % rs, lambda R=R, S=S: R == S
            yield "%s is within the bound" % rs, lambda R=R, L=L: z3.Implies(BOUNDED, L.bnd(R))
            yield "%s was within the bound" % rs, lambda S=S, L=L: z3.Implies(BOUNDED, L.bnd(S))
            if L.part:
                yield "%s forgets nothing" % rs, lambda R=R, S=S, L=L: L.keeps(S, R)
            goals_ = []          # (name, satisfied before position i, satisfied in all)
            for ri, i, it in pos:
                for rf, w in vecs:
                    if w.ek is m.K:
                        for ra, av in ovs:
                            goals_.append(("%s on %s before %s" % (rf, ra, ri), lambda s, n, L=L, w=w, av=av: L.upF(w.arr, n, vseq(av), s),
                                           i, w.len))
                    elif w.ek is KAX:
                        for p_ in pddls(c):
                            goals_.append(("%s of %s before %s" % (rf, p_, ri), lambda s, n, L=L, w=w, p_=p_: L.upX(p_, w.arr, n, s), i, w.len))
                    elif isinstance(w.ek, KVec) and w.ek.ek is KOBJ:
                        for p_, y in axiom_syms(c, recs):
                            goals_.append(("%s before %s" % (rf, ri), lambda s, n, L=L, w=w, p_=p_, y=y: L.upA(p_, y, w.arr, n, s), i, w.len))
                if it is not None:
                    G = c.read(it.place)
                    if z3.is_expr(G) and G.sort() == GEN:
                        for F in unique([c.mem[r] for r in live if z3.is_expr(c.mem[r]) and c.mem[r].sort() == m.sort]):
                            for ra, av in ovs:
                                goals_.append(("%s on %s before %s" % (F, ra, ri), lambda s, n, L=L, F=F, G=G, av=av: L.upG(
                                    F, gpd(G), gvs(G), n, vseq(av), s), i, gsize(gpd(G), gvs(G))))
            flags = [("%s is zero" % r, c.mem[r] == 0, lp.entry[r] == 0) for r, _, it in pos if it is None]
            for r in moved:
                v = c.mem[r]
                if z3.is_expr(v) and v.sort() == B:
                    flags.append(("not %s" % r, z3.Not(v), z3.Not(lp.entry[r])))
            flags.append(("always", z3.BoolVal(True), z3.BoolVal(True)))
            for fn_, q, qe in flags:
                yield "%s is as it was if %s" % (rs, fn_), lambda q=q, R=R, S=S: z3.Implies(q, R == S)
                yield "%s only if before" % fn_, lambda q=q, qe=qe: z3.Implies(q, qe)
                for gn, f, i, n in goals_:
                    yield "%s: satisfied by %s if %s" % (gn, rs, fn_), lambda q=q, f=f, i=i, S=S: z3.Implies(q, f(S, i))
                    yield "%s: nothing to do in %s implies %s" % (gn, rs, fn_), lambda q=q, qe=qe, f=f, n=n, S=S, R=R: z3.Implies(
                        z3.And(f(S, n), qe), z3.And(q, R == S))
                for rl, w in vecs + [("axioms of %s" % p_, KVAX.unpack(axsOf(p_))) for p_ in pddls(c)]:
                    if w.ek is KAX:
                        for p_ in pddls(c):
                            yield "%s of %s: all satisfied by %s if %s" % (rl, p_, rs, fn_), lambda q=q, R=R, L=L, w=w, p_=p_: z3.Implies(
                                q, L.upX(p_, w.arr, w.len, R))
                            for ri, i, it in pos:
                                if it is None:
                                    yield "%s of %s: nothing to do in %s leaves %s unless %s" % (rl, p_, rs, ri, fn_), \
                                        lambda q=q, S=S, L=L, w=w, p_=p_, i=i, e=lp.entry[ri]: z3.Implies(
                                            L.upX(p_, w.arr, w.len, S), z3.Or(q, i == e))
                            yield "%s of %s: nothing to do in %s" % (rl, p_, rs), lambda R=R, S=S, L=L, w=w, p_=p_: z3.Implies(
                                L.upX(p_, w.arr, w.len, S), R == S)
                for p_, y in axiom_syms(c, recs):
                    yield "%s: nothing to do if closed" % rs, lambda R=R, S=S, L=L, p_=p_, y=y: z3.Implies(L.clo(p_, y, S), R == S)
                    yield "%s: closed if %s" % (rs, fn_), lambda q=q, R=R, L=L, p_=p_, y=y: z3.Implies(q, L.clo(p_, y, R))
        if True:
            for r, v, it in pos:
                if it is None:
                    yield "%s is a status" % r, lambda v=v: z3.And(0 <= v, v <= 2)
                    yield "%s is 0 or 1" % r, lambda v=v: z3.And(0 <= v, v <= 1)
                    yield "%s is no contradiction within the bound" % r, lambda v=v: z3.Implies(BOUNDED, v <= 1)


def trigger_candidates(c, lp):
    vecs = [(r, c.mem[r]) for r in c.mem if r not in c.dead and isinstance(c.mem[r], Vec)]
    apps = [(r, w) for r, w in vecs if isinstance(w.ek, KRec) and w.ek.sort() == KAPPS.sort()]
    if not apps:
        return
    moved = [r for r in lp.entry if r in c.mem and any(h[0] == r for h in lp.havoc)]
    pos = [(r, c.mem[r].idx) for r in moved if isinstance(c.mem[r], It)] + \
        [(r, c.mem[r]) for r in moved if z3.is_expr(c.mem[r]) and c.mem[r].sort() == IS and "/tmp" not in r]
    ovs = [(r, v) for r, v in vecs if v.ek is KOBJ and "/tmp" not in r]
    for rw, w in apps:
        if rw in moved:
            for rl, Lv in vecs:
                if Lv.ek is KAX:
                    for ro, pv in ovs:
                        for rt, tv in ovs:
                            if rt != ro:
                                for ri, i in pos:
                                    yield "%s has the axioms of %s before %s that can match (%s, %s)" % (rw, rl, ri, ro, rt), \
                                        lambda w=w, Lv=Lv, pv=pv, tv=tv, i=i: FL([ii], z3.Implies(z3.And(0 <= ii, ii < i), z3.Or(
                                            app_has(w, Lv.arr[ii]), noFit(vseq(pv), vseq(tv), vs(axParams(Lv.arr[ii])), vs(axTerms(Lv.arr[ii]))))),
                                            [Lv.arr[ii]])
        elif GHOST_LOG in moved and hasattr(c, "roles_eff"):
            p_, e, A = c.roles_eff
            for ri, i in pos:
                x, F = w.ek.get(w.arr[ii], "first"), w.ek.get(w.arr[ii], "second")
                G = subst(aafP(F), A, aafT(F))
                yield "the matching axioms of %s before %s were applied" % (rw, ri), lambda w=w, x=x, F=F, G=G, i=i: FL([ii], z3.Implies(
                    z3.And(0 <= ii, ii < i, canFit(aafAP(F), aafAT(F), G)), ran(c.mem[GHOST_LOG], x, ehead(e), G)), [w.arr[ii]])



def pddls(c):
    return unique([c.mem[r] for r in c.mem if z3.is_expr(c.mem[r]) and c.mem[r].sort() == PDDL] +
                  [axsPd(KVAX.pack(c.mem[r])) for r in c.mem if isinstance(c.mem[r], Vec) and c.mem[r].ek is KAX and not r.startswith("axioms/")])


def axiom_syms(c, recs):
    return [(COMPLETE.epd(v.fields["Apply_"]), KSYM.pack(v.fields["symbol_"])) for _, v in recs]


def axiom_deref(c, v):
    root = "axiom/" + v.sexpr()
    if root not in c.mem:
        c.mem[root] = KAXIOM.unpack(axRec(v))
    return Place(root)


def axm_ops(c, qn, fn, this, args, node):
    if this is not None and qn in ("symbolic::Pddl::axiom_map", "symbolic::Pddl::axioms"):
        v = c.rv(this)
        if z3.is_expr(v) and v.sort() == PDDL:
            if qn.endswith("axiom_map"):
                return c.new_root("ext/amap", Abs(AxiomMap(), v))
            root = "axioms/" + v.sexpr()
            if root not in c.mem:
                c.mem[root] = KVAX.unpack(axsOf(v))
            return Place(root)
    return NotImplemented


def effect_contracts():
    out = []
    for L in LAWS:
        m = L.m
        sg = (lambda t: "PartialState" in t and t.startswith("EffectsFunction")) if m.part else (
            lambda t: "PartialState" not in t and t.startswith("EffectsFunction"))
        for fn, k in (("CreateForall", FORALL), ("CreateAdd", ADD), ("CreateDel", DEL), ("CreateCond", COND),
                      ("CreateEffectsFunction", LIST)):
            out.append(AxEff(qname=fn, k=k, m=m, law=L, sig=sg))
    for L in LAWS:
        n = "PartialState" if L.part else "State"
        out += [AxActionApply(law=L, sig=lambda t, n=n: t.endswith(",%s*)const" % n) or t.endswith(",%s*)" % n)),
                AxActionApply(law=L, inplace=False, sig=lambda t, n=n: "(const%s&" % n in t)]
    return out


def install(sp):
    form.install(sp)
    sp.kinds["symbolic::Action"] = sp.kinds["Action"] = KACTION
    sp.kinds["symbolic::Axiom"] = sp.kinds["Axiom"] = KAXIOM
    sp.kinds["symbolic::SignedProposition"] = sp.kinds["SignedProposition"] = KSIGNED
    sp.kinds["function"] = sp.kinds["std::function"] = effmod.function_kind
    for n in ("weak_ptr", "shared_ptr"):
        sp.kinds[n] = sp.kinds["std::" + n] = effmod.ptr_kind
    for L in LAWS:
        sp.sort_ops[(str(L.m.sort), "@()")] = L.call
    sp.sort_ops[("AxiomApplication", "@()")] = axm_aaf_call
    sp.sort_ops[("AxiomPtr", ".lock")] = lambda c, v: v
    sp.sort_ops[("AxiomPtr", "@->")] = lambda c, a: c.rv(a)
    sp.sort_ops[("AxiomPtr", "@*")] = lambda c, a: axiom_deref(c, c.rv(a))
    sp.sort_ops[("AxiomPtr", "deref")] = axiom_deref
    sp.sort_ops[("Str", "+")] = lambda c, x, y: strcat(x, y)
    sp.hooks[:0] = [state_writes, axm_ops, lambda c, q, fn, this, args, node: prop.head(c.rv(args[0]))
                    if q == "symbolic::PropositionBase::ParseHead" else NotImplemented]
    defs = state_defs[1:] + wfe_defs + axiom_defs + op_defs + axm_defs + app_defs(KAPPS) + record_axioms()
    for L in LAWS:
        defs = defs + L.defs()
    sp.base_axioms = sp.base_axioms + defs
    sp.axioms = sp.axioms + defs
    sp.throw_hook = counters
    sp.cands = sp.cands + [eff_candidates, axm_candidates, trigger_candidates]


def tasks(prop_, repo, missing, trusted, assume):
    from ..ast import Program
    from ..verify import Task, fn_tasks
    prog = Program(SOURCE, repo)
    sp = Spec(prog)
    install(sp)
    use = effect_contracts() + axiom_contracts()
    sp.contracts = use + [k for k in assumed_here() if not isinstance(k, AxiomApplication)] + [MatchFunction()]
    assume += domain_assumptions() + [
        "an axiom's context is a signed atom whose terms are its parameters or objects, its parameters have different names, "
        "and a predicate is used with equally many arguments everywhere; the domain is well-formed (see C09, C11)",
        "the Pddl constructor and UpdateAxioms fill the axioms and the axiom map with what GetAxioms and "
        "CreateAxiomContextMap return (their contracts are proved here)",
        "DisjunctiveFormula::Create gives no value only for contexts that never hold (C14)",
        "formulas and effects mean what C09-C11 prove; IsSubtype is reflexive (C06)",
        "effects are finite trees: the claim for an effect follows from the claims for its parts (structural induction); "
        "that applying axioms to a fixpoint terminates is not proved",
        "bounds of the statement's quantified objects are arbitrary: they are not limited to a domain"]
    sm = Spec(prog)
    install(sm)
    for x in (match_defs, element_defs(KRec("pair", [("first", KUINT), ("second", KUINT)])),
              element_defs(KRec("pair", [("first", KUINT), ("second", KOBJ)]))):
        sm.axioms = sm.axioms + x
        sm.base_axioms = sm.base_axioms + x
    sm.cands = [match_candidates]
    m = [MatchFunction()]
    sm.contracts = m + assumed_here()
    sc, b = build_spec(prog)
    return fn_tasks(sp, use, missing, prop_) + fn_tasks(sc, b, missing, prop_) + fn_tasks(sm, m, missing, prop_)


# ------------------------------------------------------- building the axioms

KDNF = KPrim(z3.DeclareSort("NormalForm"), "NormalForm")


class NormalForm(Contract):
    """DisjunctiveFormula::Create(pddl, formula, parameters, arguments): no normal
    form only if no state satisfies the formula."""
    qname = "symbolic::DisjunctiveFormula::Create"
    trusted = "no normal form only when no state satisfies the formula: C14"

    def ret(self, c, s):
        return Opt(c.fresh_const("has", B), c.fresh_const("dnf", KDNF.sort()))

    def post(self, c, o, nw, ret):
        p_, y = o.args[0], KSYM.pack(o.args[1].fields["symbol_"])
        P, A = vseq(o.args[2]), vseq(o.args[3])
        return [("", z3.Implies(z3.Not(ret.has), hopeless(p_, y, P, A)))]


hopeless = z3.Function("contextCannotHold", PDDL, SYM, SEQ, SEQ, B)
hopeless_defs = [
    FA([pd, y_, p, q, S_], z3.Not(z3.And(hopeless(pd, y_, p, q), sem(y_, pd, p, q, S_))),
       [z3.MultiPattern(hopeless(pd, y_, p, q), sem(y_, pd, p, q, S_))]),
    FA([pd, y_, p, q, PS_], z3.Not(z3.And(hopeless(pd, y_, p, q), psem(y_, pd, p, q, PS_) == 1)),
       [z3.MultiPattern(hopeless(pd, y_, p, q), psem(y_, pd, p, q, PS_))]),
]


class FormulaText(Contract):
    qname = "StringifyFormula"
    trusted = "printed text is not specified"

    def ret(self, c, s):
        return c.fresh_const("text", STR)


def formula_of(c, p_, P):
    f = KFORM.fresh(c, "preconditions")
    y = KSYM.pack(f.fields["symbol_"])
    for x in meaning(f.fields, p_, y, P):
        c.assume(x)
    c.assume(z3.And(wf(p_, y), opened(y), opened(sub(y))))
    return f


class Prepare(Contract):
    """PrepareArguments(pddl, generator, formula, parameters): the tuples whose context can hold"""
    qname = "PrepareArguments"

    def enter(self, c):
        p_ = c.fresh_const("pddl", PDDL)
        pv = KVOBJ.fresh(c, "parameters")
        g_ = c.fresh_const("generator", GEN)
        f = formula_of(c, p_, vseq(pv))
        c.prep = (p_, KSYM.pack(f.fields["symbol_"]), vseq(pv))
        c.assume(g_ == genOf(p_, vseq(pv)))
        return None, [c.new_root("ext/pddl", p_), c.new_root("ext/generator", g_), c.new_root("ext/formula", f), pv]

    def pre(self, c, s):
        P = vseq(s.args[3])
        return [("the generator enumerates the parameters' arguments", s.args[1] == genOf(s.args[0], P)), ("there are parameters", slen(P) > 0)]

    def ret(self, c, s):
        return KVARGS.fresh(c, "arguments")

    def post(self, c, o, nw, ret):
        p_, y, P = o.args[0], KSYM.pack(o.args[2].fields["symbol_"]), vseq(o.args[3])
        w = c.rv(ret)
        return kept(p_, y, P, w)


def kept(p_, y, P, w):
    at = vs(w.arr[ii])
    ix = inlist(w.arr, w.len, t_)
    return [("keeps type-correct arguments only", z3.And(w.len >= 0, FA([ii], z3.Implies(z3.And(0 <= ii, ii < w.len), z3.And(
                 tc(p_, P, at), KVOBJ.len_of(w.arr[ii]) >= 0)), [w.arr[ii]]))),
            ("keeps all arguments whose context can hold", FA([t_, S_], z3.Implies(z3.And(
                tc(p_, P, t_), sem(y, p_, P, t_, S_)), ix), [sem(y, p_, P, t_, S_)])),
            ("keeps all arguments whose context can be known to hold", FA([t_, PS_], z3.Implies(z3.And(
                tc(p_, P, t_), psem(y, p_, P, t_, PS_) == 1), ix), [psem(y, p_, P, t_, PS_)]))]


class Context(Contract):
    """ExtractContextPredicate(pddl, formula): the signed atom"""
    qname = "ExtractContextPredicate"

    def enter(self, c):
        p_ = c.fresh_const("pddl", PDDL)
        P = KVOBJ.fresh(c, "parameters")
        return None, [c.new_root("ext/pddl", p_), c.new_root("ext/formula", formula_of(c, p_, vseq(P)))]

    def throws(self, c, s):
        return z3.Not(signed_goal(KSYM.pack(s.args[1].fields["symbol_"])))

    def ret(self, c, s):
        return KSIGNED.fresh(c, "context")

    def post(self, c, o, nw, ret):
        p_, y = o.args[0], KSYM.pack(o.args[1].fields["symbol_"])
        x = ret.fields
        s = z3.If(C("simple_goal", y), y, sub(y))
        return [("is positive for a plain atom only", x["is_pos_"] == C("simple_goal", y)),
                ("has the atom's predicate", x["name_"] == head(s)),
                ("has the atom's terms", vseq(x["arguments_"]) == olist(p_, terms(s)))]


def signed_goal(y):
    return z3.Or(C("simple_goal", y), z3.And(C("neg_goal", y), C("simple_goal", sub(y))))


class AxiomCtor(Contract):
    """Axiom(pddl, operator)"""
    qname = "symbolic::Axiom::Axiom"
    sig = staticmethod(lambda t: "operator_" in t)

    def enter(self, c):
        p_, y = c.fresh_const("pddl", PDDL), c.fresh_const("symbol", SYM)
        g_ = pre_of(y)
        c.assume(z3.And(opened(g_), opened(sub(g_))))
        return None, [c.new_root("ext/pddl", p_), y]

    def pre(self, c, s):
        return [("the operator is well-formed", wf_axiom(s.args[0], KSYM.pack(s.args[1])))]

    def throws(self, c, s):
        return z3.Not(signed_goal(pre_of(KSYM.pack(s.args[1]))))

    def ret(self, c, s):
        return KAXIOM.fresh(c, "axiom")

    def post(self, c, o, nw, ret):
        f = ret.fields
        return [("is the axiom of the symbol", KSYM.pack(f["symbol_"]) == KSYM.pack(o.args[1]))] + axiom_facts(f, o.args[0])


def build_candidates(c, lp):
    moved = [r for r in lp.entry if r in c.mem and any(h[0] == r for h in lp.havoc)]
    its = [(r, c.mem[r]) for r in moved if isinstance(c.mem[r], It)]
    ints = [(r, c.mem[r]) for r in moved if z3.is_expr(c.mem[r]) and c.mem[r].sort() == IS and "/tmp" not in r]
    axs = [(r, c.mem[r]) for r in c.mem if isinstance(c.mem[r], Vec) and c.mem[r].ek is KAX and r not in c.dead]
    for r in moved:
        x = c.mem[r]
        if isinstance(x, Abs) and isinstance(x.model, maps.GMap) and x.data[1].range() == KVAX.sort():
            for rl, L in axs:
                for ri, i in [(a, b.idx) for a, b in its] + ints:
                    for nme, f in map_facts(*x.data, L.arr, L.len, i):
                        yield "%s of %s before %s: %s" % (r, rl, ri, nme), lambda f=f: f
        if isinstance(x, Vec) and x.ek is KAX and hasattr(c, "axioms_of"):
            for ri, i in [(a, b.idx) for a, b in its] + ints:
                for nme, f in axioms_facts(*c.axioms_of, x, i):
                    yield "%s before %s: %s" % (r, ri, nme), lambda f=f: f
    q_ = getattr(c, "prep", None)
    if q_ is None:
        return
    p_, y, P = q_
    lists = [(r, c.mem[r]) for r in moved if isinstance(c.mem[r], Vec) and getattr(c.mem[r].ek, "ek", None) is KOBJ]
    pos = [(r, c.mem[r].idx) for r in moved if isinstance(c.mem[r], It)] + [
        (r, c.mem[r]) for r in moved if z3.is_expr(c.mem[r]) and c.mem[r].sort() == IS and "/tmp" not in r]
    for r, w in lists:
        at = vs(w.arr[ii])
        yield "%s has type-correct arguments only" % r, lambda w=w, at=at: z3.And(w.len >= 0, FL([ii], z3.Implies(
            z3.And(0 <= ii, ii < w.len), z3.And(tc(p_, P, at), KVOBJ.len_of(w.arr[ii]) >= 0)), [w.arr[ii]]))
        for ri, i in pos:
            t = gtup(p_, P, ii)
            yield "%s has all arguments before %s that matter" % (r, ri), lambda w=w, i=i, t=t: FL([ii], z3.Implies(
                z3.And(0 <= ii, ii < i), z3.Or(inlist(w.arr, w.len, vs(t)), hopeless(p_, y, P, vs(t)))), [t])


ArrX = KVAX.arr_of(al_).sort()
amongX = z3.Function("isAmongAxioms", ArrX, IS, AXM, B)
posX = z3.Function("positionAmongAxioms", ArrX, IS, AXM, IS)
ofSym = z3.Function("hasAxiomOfSymbol", ArrX, IS, SYM, B)
posY = z3.Function("positionOfSymbol", ArrX, IS, SYM, IS)
builtFor = z3.Function("isBuiltFor", PDDL, AXM, B)
xa, xb = z3.Consts("xa xb", ArrX)


def symOf(x):
    return KSYM.pack(KAXIOM.unpack(axRec(x)).fields["symbol_"])


keyOf = z3.Function("signedPredicate", AXM, STR)


def among_defs(F, W, v, of):
    f, g_ = F(xa, nn_, v), F(xb, m_, v)
    w = W(xa, nn_, v)
    return [FA([xa, nn_, v], z3.Implies(f, z3.And(0 <= w, w < nn_, of(xa[w]) == v)), [f]),
            FA([xa, nn_, v, ii], z3.Implies(z3.And(0 <= ii, ii < nn_, of(xa[ii]) == v), f), [z3.MultiPattern(f, xa[ii])]),
            FA([xa, nn_, xb, m_, v], z3.Implies(z3.And(f, w < m_, xa[w] == xb[w]), g_), [z3.MultiPattern(f, g_)]),
            FA([xb, m_, v], z3.Implies(z3.And(m_ > 0, of(xb[m_ - 1]) == v), g_), [g_])]


among = [FA([ax_], z3.And(
    z3.Implies(ctx(ax_, "is_pos_"), keyOf(ax_) == strcat(PLUS, ctx(ax_, "name_"))),
    z3.Implies(z3.Not(ctx(ax_, "is_pos_")), keyOf(ax_) == strcat(MINUS, ctx(ax_, "name_")))), [keyOf(ax_)])]
among += among_defs(amongX, posX, ax_, lambda x: x) + among_defs(ofSym, posY, y_, symOf)


def map_facts(h, vals, L, n, upto):
    """The map of the axioms L[0..n), of which the first ones were entered."""
    e = KVAX.arr_of(vals[st_])[jj]
    k = keyOf(L[ii])
    return [("lists have a size", FL([st_], z3.Implies(h[st_], KVAX.len_of(vals[st_]) >= 0), [vals[st_]])),
            ("every axiom's signed predicate is a key", FL([ii], z3.Implies(z3.And(0 <= ii, ii < upto), h[k]), [L[ii]])),
            ("every axiom is listed under its signed predicate", FL([ii], z3.Implies(z3.And(0 <= ii, ii < upto), amongX(
                KVAX.arr_of(vals[k]), KVAX.len_of(vals[k]), L[ii])), [L[ii]])),
            ("only axioms of that signed predicate are listed under it", FL([st_, jj], z3.Implies(z3.And(
                h[st_], 0 <= jj, jj < KVAX.len_of(vals[st_])), z3.And(amongX(L, n, e), sgn(st_) == ctx(e, "is_pos_"),
                                                                    unsgn(st_) == ctx(e, "name_"))), [e]))]


class ContextMap(Contract):
    """CreateAxiomContextMap(axioms)"""
    qname = "CreateAxiomContextMap"

    def enter(self, c):
        return None, [KVAX.fresh(c, "axioms")]

    def post(self, c, o, nw, ret):
        h, vals = c.rv(ret).data
        v = o.args[0]
        return map_facts(h, vals, v.arr, v.len, v.len)


class AllAxioms(Contract):
    """GetAxioms(pddl, domain): one axiom for each of the domain's axiom operators"""
    qname = "GetAxioms"
    may_throw = True
    throws_what = "std::domain_error"

    def enter(self, c):
        p_, y = c.fresh_const("pddl", PDDL), c.fresh_const("domain", SYM)
        c.axioms_of = (p_, ops_of(y))
        return None, [c.new_root("ext/pddl", p_), c.new_root("ext/domain", y)]

    def pre(self, c, s):
        l = ops_of(KSYM.pack(s.args[1]))
        return [("the domain has operators", z3.And(l != nullL, FA([ii], z3.Implies(z3.And(0 <= ii, ii < llen(l)), z3.And(
            lit(l, ii) != nullS, z3.Implies(C("axiom", lit(l, ii)), wf_axiom(s.args[0], lit(l, ii))))), [lit(l, ii)])))]

    def on_throw(self, c, o, nw, e):
        p_, l = c.axioms_of
        return []

    def post(self, c, o, nw, ret):
        v = c.rv(ret)
        return axioms_facts(*c.axioms_of, v, llen(c.axioms_of[1]))


def ops_of(y):
    return field("ops", y, KSYML)


def axioms_facts(p_, l, v, upto):
    return [("each is built for the domain", FL([ii], z3.Implies(z3.And(0 <= ii, ii < v.len), builtFor(p_, v.arr[ii])), [v.arr[ii]])),
            ("every axiom operator has one", FL([ii], z3.Implies(z3.And(0 <= ii, ii < upto, C("axiom", lit(l, ii))), ofSym(
                v.arr, v.len, lit(l, ii))), [lit(l, ii)]))]


def make_axiom(c, argnodes, n):
    """make_shared<Axiom>(pddl, operator): a new axiom"""
    args = [c.ev(a) for a in argnodes]
    k = [k for k in c.spec.contracts if isinstance(k, AxiomCtor)][0]
    c.task.used_contract(k)
    s = Snap(None, [c.rv(a) for a in args], None, args)
    for nme, f in k.pre(c, s):
        c.check("new Axiom: requires " + nme, f, n)
    if c.branch(k.throws(c, s)):
        raise CppThrow("std::domain_error")
    x = c.fresh_const("axiom", AXM)
    c.assume(symOf(x) == KSYM.pack(s.args[1]))
    c.assume(builtFor(s.args[0], x))
    return x


def building():
    return [Prepare(), Context(), AxiomCtor(), ContextMap(), AllAxioms()]


def build_spec(prog):
    sc = Spec(prog)
    install(sc)
    for n in ("DisjunctiveFormula", "symbolic::DisjunctiveFormula"):
        sc.kinds[n] = KDNF
    for n in ("unordered_map", "std::unordered_map", "AxiomContextMap"):
        sc.kinds[n] = maps.map_kind(sc)
    sc.functions = {"make_shared": make_axiom}
    sc.axioms = sc.axioms + hopeless_defs + among
    sc.base_axioms = sc.base_axioms + hopeless_defs + among
    sc.cands = sc.cands + [build_candidates]
    use = building()
    sc.contracts = use + [NormalForm(), FormulaText()] + [
        k for k in effmod.contracts() if isinstance(k, effmod.ActionCtor)] + [
        k for k in prop.prop_contracts() if isinstance(k, prop.SignedCtor)] + [
        k for k in assumed_here() if not isinstance(k, AxiomApplication)] + [MatchFunction()]
    return sc, use
