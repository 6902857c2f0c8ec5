"""Formulas: evaluation on complete states (C09) and on partial states (C10)."""
import z3

from .dom import *
from . import dom, prop

SOURCE = '''
#include "formula.cc"
#include "proposition.cc"
'''

STATE = z3.DeclareSort("State")
PSTATE = z3.DeclareSort("PartialState")
KSTATE, KPSTATE = KPrim(STATE, "State"), KPrim(PSTATE, "PartialState")
holds = z3.Function("holds", STATE, ATOM, B)
pin = z3.Function("knownTrue", PSTATE, ATOM, B)
nin = z3.Function("knownFalse", PSTATE, ATOM, B)
FF = z3.DeclareSort("FormulaFunction")
PF = z3.DeclareSort("PartialFormulaFunction")
KFF, KPF = KPrim(FF, "FormulaFunction"), KPrim(PF, "PartialFormulaFunction")
for k in (KFF, KPF):
    k.default = lambda c, k=k: c.fresh_const("no_function", k.sort())
evF = z3.Function("evalF", FF, SEQ, STATE, B)
evP = z3.Function("evalP", PF, SEQ, PSTATE, IS)         # 0 false, 1 true, 2 unknown
arF = z3.Function("arityF", FF, IS)
arP = z3.Function("arityP", PF, IS)
# sem(goal, pddl, parameters, arguments, state)
sem = z3.Function("sem", SYM, PDDL, SEQ, SEQ, STATE, B)
psem = z3.Function("psem", SYM, PDDL, SEQ, SEQ, PSTATE, IS)
wf = z3.Function("wellFormed", PDDL, SYM, B)
witT = z3.Function("witTuple", SYM, PDDL, SEQ, SEQ, STATE, SEQ)
witI = z3.Function("witChild", SYM, PDDL, SEQ, SEQ, STATE, IS)
fst = z3.Function("decidingChild", SYM, PDDL, SEQ, SEQ, PSTATE, IS)
KDOMAIN = None

g = z3.Const("g", SYM)
P_, A_, t_ = z3.Consts("P_ A_ t_", SEQ)
S_ = z3.Const("S_", STATE)
PS_ = z3.Const("PS_", PSTATE)
EQ = val.strlit("=")


def head(g):
    return nameS(field("head", field("getProp", g)))


def terms(g):
    return field("args", field("getProp", g), KSYML)


def goals(g):
    return field("getGoals", g, KSYML)


def vars_(g):
    return field("getVars", g, KSYML)


def sub(g):
    return field("getGoal", g)


def is_forall(g):
    return z3.And(isa_cls(g, "qfied_goal"), field("getQuantifier", g, KINT) == 0)


def is_exists(g):
    return z3.And(isa_cls(g, "qfied_goal"), field("getQuantifier", g, KINT) == 1)


def C(k, g):
    return isa_cls(g, k)


SEM = sem(g, pd, P_, A_, S_)
PSEM = psem(g, pd, P_, A_, PS_)
IN = inst(pd, terms(g), P_, A_)
NV = olist(pd, vars_(g))
WI, WT = witI(g, pd, P_, A_, S_), witT(g, pd, P_, A_, S_)
FI = fst(g, pd, P_, A_, PS_)


def child(i):
    return lit(goals(g), i)


def at_child(i):
    return sem(child(i), pd, P_, A_, S_)


def under(t):
    return sem(sub(g), pd, scat(P_, NV), scat(A_, t), S_)


def pat_child(i):
    return psem(child(i), pd, P_, A_, PS_)


def under_p(i):
    return psem(sub(g), pd, scat(P_, NV), scat(A_, tup_seq(pd, NV, i)), PS_)


simple_meaning = z3.If(head(g) == EQ, nm(sat(IN, 0)) == nm(sat(IN, 1)),
                       z3.If(inh(pd, head(g)), isaT(typeO(sat(IN, 0)), head(g)), holds(S_, atomS(head(g), IN))))


opened = z3.Function("opened", SYM, B)     # definitions unfold for these goals only


def FA(vs, f, pats):
    return z3.ForAll(vs, f, patterns=pats)


GPAS = [g, pd, P_, A_, S_]
# unfolding markers
semX = z3.Function("sem_unfolds", SYM, PDDL, SEQ, SEQ, STATE, B)
psemX = z3.Function("psem_unfolds", SYM, PDDL, SEQ, SEQ, PSTATE, B)
wfX = z3.Function("wf_unfolds", PDDL, SYM, B)
SX, PX, WX = semX(g, pd, P_, A_, S_), psemX(g, pd, P_, A_, PS_), wfX(pd, g)
sem_defs = [
    FA(GPAS, SX, [z3.MultiPattern(opened(g), SEM)]),
    FA([g, pd, P_, A_, PS_], PX, [z3.MultiPattern(opened(g), PSEM)]),
    FA([g, pd], WX, [z3.MultiPattern(opened(g), wf(pd, g))]),
    FA(GPAS, z3.Implies(C("simple_goal", g), SEM == simple_meaning), [SX]),
    # and / or
    FA(GPAS + [ii], z3.Implies(z3.And(C("conj_goal", g), SEM, 0 <= ii, ii < llen(goals(g))), at_child(ii)),
       [z3.MultiPattern(SX, lit(goals(g), ii))]),
    FA(GPAS, z3.Implies(z3.And(C("conj_goal", g), z3.Not(SEM)), z3.And(0 <= WI, WI < llen(goals(g)), z3.Not(at_child(WI)))),
       [SX]),
    FA(GPAS + [ii], z3.Implies(z3.And(C("disj_goal", g), z3.Not(SEM), 0 <= ii, ii < llen(goals(g))), z3.Not(at_child(ii))),
       [z3.MultiPattern(SX, lit(goals(g), ii))]),
    FA(GPAS, z3.Implies(z3.And(C("disj_goal", g), SEM), z3.And(0 <= WI, WI < llen(goals(g)), at_child(WI))), [SX]),
    FA(GPAS, z3.Implies(C("neg_goal", g), SEM == z3.Not(sem(sub(g), pd, P_, A_, S_))), [SX]),
    # quantifiers: every type-correct tuple
    FA(GPAS + [t_], z3.Implies(z3.And(is_forall(g), SEM, tc(pd, NV, t_)), under(t_)), [z3.MultiPattern(SX, tc(pd, NV, t_))]),
    FA(GPAS, z3.Implies(z3.And(is_forall(g), z3.Not(SEM)), z3.And(tc(pd, NV, WT), z3.Not(under(WT)))), [SX]),
    FA(GPAS + [t_], z3.Implies(z3.And(is_exists(g), z3.Not(SEM), tc(pd, NV, t_)), z3.Not(under(t_))),
       [z3.MultiPattern(SX, tc(pd, NV, t_))]),
    FA(GPAS, z3.Implies(z3.And(is_exists(g), SEM), z3.And(tc(pd, NV, WT), under(WT))), [SX]),
]
wf_defs = [
    FA([pd, g], z3.Implies(wf(pd, g), z3.And(
        g != nullS,
        z3.Implies(C("simple_goal", g), z3.And(field("getProp", g) != nullS, field("head", field("getProp", g)) != nullS)),
        z3.Implies(z3.And(C("simple_goal", g), head(g) == EQ), llen(terms(g)) == 2),
        z3.Implies(z3.And(C("simple_goal", g), head(g) != EQ, inh(pd, head(g))), llen(terms(g)) == 1),
        z3.Implies(z3.Or(C("conj_goal", g), C("disj_goal", g)), goals(g) != nullL),
        z3.Implies(z3.Or(C("neg_goal", g), C("qfied_goal", g)), wf(pd, sub(g))),
        z3.Implies(C("qfied_goal", g), z3.And(vars_(g) != nullL, llen(vars_(g)) > 0, slen(NV) > 0)),
        z3.Or([C(k, g) for k in ("simple_goal", "conj_goal", "disj_goal", "neg_goal")] + [is_forall(g), is_exists(g)]))),
       [WX]),
    FA([pd, g, ii], z3.Implies(z3.And(wf(pd, g), z3.Or(C("conj_goal", g), C("disj_goal", g)), 0 <= ii, ii < llen(goals(g))),
                               wf(pd, child(ii))), [z3.MultiPattern(WX, lit(goals(g), ii))]),
]
GPAP = [g, pd, P_, A_, PS_]
INP = atomS(head(g), IN)


def b2i(b):
    return z3.If(b, z3.IntVal(1), z3.IntVal(0))


def chain(n, f, k, stop):
    """First position whose value is not `stop`'s opposite decides."""
    return z3.And(0 <= FI, FI <= n, z3.If(FI == n, PSEM == 1 - stop, z3.And(f(FI) != 1 - stop, PSEM == f(FI))))


def before(n, f, stop, pats):
    return z3.Implies(z3.And(0 <= ii, ii < FI), f(ii) == 1 - stop)


# three-valued: conjunctions and disjunctions from left to right, quantifiers in
# the order of the enumeration; the first part that is not neutral decides
psem_defs = [
    FA(GPAP, z3.And(0 <= PSEM, PSEM <= 2), [PSEM]),
    FA(GPAP, z3.Implies(C("simple_goal", g), PSEM == z3.If(
        head(g) == EQ, b2i(nm(sat(IN, 0)) == nm(sat(IN, 1))),
        z3.If(inh(pd, head(g)), b2i(isaT(typeO(sat(IN, 0)), head(g))),
              z3.If(pin(PS_, INP), 1, z3.If(nin(PS_, INP), 0, 2))))), [PX]),
    FA(GPAP, z3.Implies(C("neg_goal", g), PSEM == z3.If(
        psem(sub(g), pd, P_, A_, PS_) == 2, 2, 1 - psem(sub(g), pd, P_, A_, PS_))), [PX]),
]
for cond, n_, f_, stop, trig in (
        (C("conj_goal", g), llen(goals(g)), pat_child, 0, lit(goals(g), ii)),
        (C("disj_goal", g), llen(goals(g)), pat_child, 1, lit(goals(g), ii)),
        (is_forall(g), gsize(pd, NV), under_p, 0, gtup(pd, NV, ii)),
        (is_exists(g), gsize(pd, NV), under_p, 1, gtup(pd, NV, ii))):
    psem_defs.append(FA(GPAP, z3.Implies(cond, chain(n_, f_, FI, stop)), [PX]))
    psem_defs.append(FA(GPAP + [ii], z3.Implies(z3.And(cond, 0 <= ii, ii < FI), f_(ii) == 1 - stop),
                        [z3.MultiPattern(PX, trig)]))


def is_partial(fn):
    return "PartialState" in fn["type"]["qualType"]


class Create(Contract):
    """CreateX<T>(pddl, symbol, parameters): a function that evaluates the goal."""
    partial = False
    kindname = None
    what = None

    def enter(self, c):
        y_ = c.fresh_const("symbol", SYM)
        c.assume(z3.And(opened(y_), opened(sub(y_))))
        return None, [c.new_root("ext/pddl", c.fresh_const("pddl", PDDL)), y_, KVOBJ.fresh(c, "parameters")]

    def pre(self, c, s):
        p_, y_ = s.args[0], KSYM.pack(s.args[1])
        out = [("the goal is well-formed", wf(p_, y_))]
        if self.kindname in ("forall", "exists"):
            out.append(("is a quantified goal", (is_forall if self.kindname == "forall" else is_exists)(y_)))
        elif self.kindname:
            out.append(("is of its class", C(self.kindname, y_)))
        return out

    def ret(self, c, s):
        return Rec("pair", {"first": c.fresh_const("F", PF if self.partial else FF),
                            "second": c.fresh_const("text", STR)})

    def call_post(self, c, o, nw, ret):
        f = ret.fields["first"]
        p_, y_, P = o.args[0], KSYM.pack(o.args[1]), vseq(o.args[2])
        if self.partial:
            return [("", arP(f) == slen(P)),
                    ("", FA([A_, PS_], z3.Implies(slen(A_) == slen(P), evP(f, A_, PS_) == psem(y_, p_, P, A_, PS_)),
                            [evP(f, A_, PS_)]))]
        return [("", arF(f) == slen(P)),
                ("", FA([A_, S_], z3.Implies(slen(A_) == slen(P), evF(f, A_, S_) == sem(y_, p_, P, A_, S_)),
                        [evF(f, A_, S_)]))]

    def post(self, c, o, nw, ret):
        r = c.rv(ret)
        F = r.fields["first"]
        p_, y_, P = o.args[0], KSYM.pack(o.args[1]), vseq(o.args[2])
        if z3.is_expr(F):
            return self.call_post(c, o, nw, r)
        c.retire([F])
        for r_ in heap_vectors(c):
            c.mem[r_] = c.fresh_like(c.mem[r_], "buffer")
        return evaluate(c, F, self.partial, slen(P),
                        lambda A, S: (psem if self.partial else sem)(y_, p_, P, A, S))


def evaluate(c, F, partial, n, want):
    """Runs the function value on an arbitrary state and arguments."""
    av = KVOBJ.fresh(c, "arguments")
    c.assume(av.len == n)
    a = c.new_root("ext/arguments", av)
    S = c.fresh_const("state", PSTATE if partial else STATE)
    s = c.new_root("ext/state", S)
    try:
        R = c.rv(call_fn(c, F, [s, a]))
    except CppThrow as e:
        if partial and e.what.split("::")[-1] == "UnknownEvaluation":
            return [("is unknown when evaluation meets an unknown proposition", want(vseq(av), S) == 2)]
        return [("evaluation does not throw (%s)" % e.what, z3.BoolVal(False))]
    W = want(vseq(av), S)
    out = [("evaluates to the meaning of the goal", (W == b2i(R)) if partial else (W == R))]
    out.append(("evaluation changes neither state nor arguments",
                z3.BoolVal(c.read(s) is S and c.read(a) is av)))
    return out


def eval_ff(partial):
    def f(c, a, s, args):
        F = c.rv(a)
        S, av = c.rv(s), c.rv(args)
        if isinstance(av, Rec) and not av.fields:
            av = KVOBJ.empty(c)
        c.check("an argument for every parameter", av.len == (arP if partial else arF)(F))
        if not partial:
            return evF(F, vseq(av), S)
        v = evP(F, vseq(av), S)
        c.assume(z3.And(0 <= v, v <= 2))
        if c.branch(v == 2):
            raise CppThrow("symbolic::PartialState::UnknownEvaluation")
        return v == 1
    return f


def state_ops(c, qn, fn, this, args, node):
    """Membership of states: see C01, C02 and C04."""
    if this is None:
        return NotImplemented
    v = c.rv(this)
    if not z3.is_expr(v) or v.sort() not in (STATE, PSTATE):
        return NotImplemented
    nme = fn.get("name")
    if nme in ("contains", "does_not_contain"):
        pr = c.rv(args[0])
        n_, a_, h_ = prop.prop_value(c, pr)
        c.check("the hash belongs to the proposition", h_ == prop.ghash(n_, a_), node)
        t = atom_of(n_, a_)
        if v.sort() == STATE:
            if nme == "contains":
                return holds(v, t)
            raise Unsupported("State::" + nme)
        if c.branch(pin(v, t)):
            return z3.BoolVal(nme == "contains")
        if c.branch(nin(v, t)):
            return z3.BoolVal(nme != "contains")
        raise CppThrow("symbolic::PartialState::UnknownEvaluation")
    if str(nme).startswith("emplace"):
        return NotImplemented        # runs down to insert
    raise Unsupported("state operation " + str(nme))


class FormulaCtor(Contract):
    """Formula(pddl, symbol, parameters)"""
    qname = "symbolic::Formula::Formula"
    partial = False

    def enter(self, c):
        return None, [c.new_root("ext/pddl", c.fresh_const("pddl", PDDL)), c.fresh_const("symbol", SYM),
                      KVOBJ.fresh(c, "parameters")]

    def pre(self, c, s):
        return [("the goal is well-formed", wf(s.args[0], KSYM.pack(s.args[1])))]

    def ret(self, c, s):
        return KFORM.fresh(c, "formula")

    def goal_of(self, o):
        return o.args[0], KSYM.pack(o.args[1]), vseq(o.args[2])

    def post(self, c, o, nw, ret):
        p_, y_, P = self.goal_of(o)
        f = ret.fields
        return [("keeps the goal", KSYM.pack(f["symbol_"]) == y_)] + \
            [("evaluates to the meaning of the goal", x) for x in meaning(f, p_, y_, P)]


def meaning(f, p_, y_, P):
    """The functions of a formula evaluate the goal y_."""
    e = evF(f["P_"], A_, S_)
    w = evP(f["PP_"], A_, PS_)
    return [arF(f["P_"]) == slen(P), arP(f["PP_"]) == slen(P),
            FA([A_, S_], z3.Implies(slen(A_) == slen(P), e == sem(y_, p_, P, A_, S_)), [e]),
            FA([A_, PS_], z3.Implies(slen(A_) == slen(P), w == psem(y_, p_, P, A_, PS_)), [w])]


class FormulaCtor0(FormulaCtor):
    """Formula(pddl, symbol): no parameters"""
    def enter(self, c):
        return None, FormulaCtor.enter(self, c)[1][:2]

    def goal_of(self, o):
        return o.args[0], KSYM.pack(o.args[1]), NOARGS


NOARGS = seqO(z3.K(IS, z3.Const("dflt_Obj", OBJ)), z3.IntVal(0))


KFORM = KRec("symbolic::Formula", [("symbol_", KSYM), ("P_", KFF), ("PP_", KPF), ("str_formula_", KSTR)])
KFORM.real = True


class Eval(Contract):
    """operator() of a formula."""
    qname = "symbolic::Formula::operator()"
    partial = False
    noargs = False

    def enter(self, c):
        f = KFORM.fresh(c, "formula")
        S = c.fresh_const("state", PSTATE if self.partial else STATE)
        return f, [S] + ([] if self.noargs else [KVOBJ.fresh(c, "arguments")])

    def given(self, s):
        return NOARGS if self.noargs else vseq(s.args[1])

    def pre(self, c, s):
        f = s.this.fields
        return [("an argument for every parameter", z3.And(
            slen(self.given(s)) == (arP(f["PP_"]) if self.partial else arF(f["P_"]))))]

    def ret(self, c, s):
        if not self.partial:
            return c.fresh_const("value", B)
        return Opt(c.fresh_const("known", B), c.fresh_const("value", B))

    def post(self, c, o, nw, ret):
        f = o.this.fields
        ret = c.rv(ret)
        A = self.given(o)
        if not self.partial:
            return [("is the value of its function", ret == evF(f["P_"], A, o.args[0]))]
        w = evP(f["PP_"], A, o.args[0])
        out = [("is unknown exactly when its function is", ret.has == (w != 2))]
        if ret.val is not None:
            out.append(("is the value of its function", z3.Implies(ret.has, ret.val == (w == 1))))
        return out


def form_candidates(c, lp):
    """Sub-formulas built or evaluated so far."""
    its = [(r, c.mem[r]) for r in lp.entry if isinstance(c.mem.get(r), (It,)) or
           z3.is_expr(c.mem.get(r)) and c.mem[r].sort() == IS]
    its = [(r, x) for r, x in its if any(h[0] == r for h in lp.havoc)]
    fvs = [(r, c.mem[r]) for r in c.mem if isinstance(c.mem[r], Vec) and c.mem[r].ek in (KFF, KPF)]
    pds = unique([c.mem[r] for r in c.mem if z3.is_expr(c.mem[r]) and c.mem[r].sort() == PDDL])
    lists = unique([c.mem[r].arg(0) if False else c.mem[r] for r in c.mem if r.startswith("vallist/")])
    ovs = [(r, c.mem[r]) for r in lp.entry if isinstance(c.mem.get(r), Vec) and c.mem[r].ek is KOBJ and "/tmp" not in r]
    # building
    for rf, w in fvs:
        if not any(h[0] == rf for h in lp.havoc):
            continue
        part = w.ek is KPF
        e, ar, sm, sv = (evP, arP, psem, PS_) if part else (evF, arF, sem, S_)
        for rl in c.mem:
            if not (rl.startswith("vallist/") and isinstance(c.mem[rl], Vec) and c.mem[rl].ek is KSYM):
                continue
            L = c.mem[rl]
            for x in pds:
                for ro, pv in ovs:
                    yield "%s evaluate the goals of %s under %s" % (rf, rl, ro), \
                        lambda w=w, L=L, x=x, pv=pv, e=e, ar=ar, sm=sm, sv=sv: z3.And(
                            FA([ii], z3.Implies(z3.And(0 <= ii, ii < w.len), ar(w.arr[ii]) == pv.len), [w.arr[ii], L.arr[ii]]),
                            FA([ii, A_, sv], z3.Implies(z3.And(0 <= ii, ii < w.len, slen(A_) == pv.len),
                               e(w.arr[ii], A_, sv) == sm(L.arr[ii], x, vseq(pv), A_, sv)), [e(w.arr[ii], A_, sv)]))
    # evaluating
    states = [(r, c.mem[r]) for r in lp.entry if z3.is_expr(c.mem.get(r)) and c.mem[r].sort() in (STATE, PSTATE)]
    for ri, it in its:
        i = it.idx if isinstance(it, It) else it
        for rs, S in states:
            part = S.sort() == PSTATE
            e = evP if part else evF
            for ra, av in ovs:
                for rf, w in fvs:
                    if (w.ek is KPF) != part:
                        continue
                    for tr in (True, False):
                        yield "%s before %s are all %s on %s, %s" % (rf, ri, tr, rs, ra), \
                            lambda i=i, w=w, av=av, S=S, e=e, tr=tr, part=part: FA(
                                [ii], z3.Implies(z3.And(0 <= ii, ii < i), e(w.arr[ii], vseq(av), S) == (
                                    z3.IntVal(int(tr)) if part else z3.BoolVal(tr))), [w.arr[ii]])
                # quantifiers
                if not isinstance(it, It):
                    continue
                G = c.read(it.place)
                if not (z3.is_expr(G) and G.sort() == GEN):
                    continue
                fs = unique([c.mem[r] for r in c.mem if z3.is_expr(c.mem[r]) and c.mem[r].sort() == (PF if part else FF)])
                for F in fs:
                    for tr in (True, False):
                        yield "all tuples before %s are %s on %s, %s (%s)" % (ri, tr, rs, ra, F.decl().name()), \
                            lambda i=i, F=F, av=av, S=S, e=e, tr=tr, part=part, G=G: FA(
                                [ii], z3.Implies(z3.And(0 <= ii, ii < i), e(F, scat(vseq(av), tup_seq(
                                    gpd(G), gvs(G), ii)), S) == (z3.IntVal(int(tr)) if part else z3.BoolVal(tr))),
                                [gtup(gpd(G), gvs(G), ii)])


def unique(xs):
    out = []
    for x in xs:
        if not any(y is x or (z3.is_expr(x) and z3.is_expr(y) and z3.eq(x, y)) for y in out):
            out.append(x)
    return out


def function_kind(args):
    t = args[0].replace(" ", "") if args else ""
    if t.startswith("bool("):
        return KPF if "PartialState" in t else KFF
    if "vector<" in t.split("(")[0]:
        return KAF
    raise Unsupported("std::function<%s>" % t)


def contracts():
    out = [CreateList(), CreateApplication()]
    for part in (False, True):
        sg = (lambda t: "PartialState" in t) if part else (lambda t: "PartialState" not in t)
        for fn, k in (("CreateProposition", "simple_goal"), ("CreateConjunction", "conj_goal"),
                      ("CreateDisjunction", "disj_goal"), ("CreateNegation", "neg_goal"),
                      ("CreateForall", "forall"), ("CreateExists", "exists"), ("CreateFormula", None)):
            out.append(Create(qname=fn, kindname=k, partial=part, sig=sg, props=("C10",) if part else ("C09",)))
    out += [FormulaCtor(sig=lambda t: "vector" in t), FormulaCtor0(sig=lambda t: "goal*)" in t),
            Eval(sig=lambda t: "constState&,const" in t, props=("C09",)),
            Eval(sig=lambda t: "constState&)" in t, noargs=True, props=("C09",)),
            Eval(sig=lambda t: "constPartialState&,const" in t, partial=True, props=("C10",)),
            Eval(sig=lambda t: "constPartialState&)" in t, partial=True, noargs=True, props=("C10",))]
    return out


def assumed():
    """Contracts proved by other checks (C08)."""
    return [k for k in prop.prop_contracts() if isinstance(k, (prop.PropHash, prop.PropCompare)) or type(k) is prop.PropCtor]


def lemmas(prop_):
    """Structural induction over goals: each obligation takes the claim for the
    parts of a goal (for all parameters and arguments) and proves it for the goal."""
    at = z3.Const("at", ATOM)
    agree = [z3.ForAll([at], z3.And(z3.Implies(pin(PS_, at), holds(S_, at)),
                                    z3.Implies(nin(PS_, at), z3.Not(holds(S_, at)))),
                       patterns=[pin(PS_, at), nin(PS_, at), holds(S_, at)])]
    decides = [z3.ForAll([at], z3.Or(pin(PS_, at), nin(PS_, at)), patterns=[pin(PS_, at), nin(PS_, at)])]

    def sound(x, P, A):
        w = psem(x, pd, P, A, PS_)
        return z3.Implies(w != 2, sem(x, pd, P, A, S_) == (w == 1))

    def definite(x, P, A):
        return psem(x, pd, P, A, PS_) != 2
    p2, q2 = z3.Consts("p! q!", SEQ)

    def ih(claim):
        return [z3.ForAll([ii, p2, q2], z3.Implies(z3.And(0 <= ii, ii < llen(goals(g))), claim(child(ii), p2, q2)),
                          patterns=[psem(child(ii), pd, p2, q2, PS_), sem(child(ii), pd, p2, q2, S_)]),
                z3.ForAll([p2, q2], claim(sub(g), p2, q2),
                          patterns=[psem(sub(g), pd, p2, q2, PS_), sem(sub(g), pd, p2, q2, S_)])]
    kinds = [("an atom", C("simple_goal", g)), ("and", C("conj_goal", g)), ("or", C("disj_goal", g)),
             ("not", C("neg_goal", g)), ("forall", is_forall(g)), ("exists", is_exists(g))]
    wfg = [opened(g), wf(pd, g), at_child(WI) == at_child(WI), pat_child(WI) == pat_child(WI)]
    cover = z3.Or([k for _, k in kinds])
    if prop_ == "C10":
        return [
            Lemma("definite values hold in every agreeing complete state (induction over goals)",
                  [("every goal is of one of the kinds", wfg, cover)] +
                  [(n_, wfg + agree + ih(sound) + [k], sound(g, P_, A_)) for n_, k in kinds]),
            Lemma("a state that decides every atom gives definite values (induction over goals)",
                  [(n_, wfg + decides + ih(definite) + [k], definite(g, P_, A_)) for n_, k in kinds]),
        ]
    return []


def install(sp):
    dom.install(sp)
    sp.kinds["symbolic::State"] = sp.kinds["State"] = KSTATE
    sp.kinds["symbolic::PartialState"] = sp.kinds["PartialState"] = KPSTATE
    sp.kinds["symbolic::Formula"] = sp.kinds["Formula"] = KFORM
    sp.kinds["function"] = sp.kinds["std::function"] = function_kind
    sp.sort_ops[("FormulaFunction", "@()")] = eval_ff(False)
    sp.sort_ops[("PartialFormulaFunction", "@()")] = eval_ff(True)
    sp.hooks.append(state_ops)
    defs = wf_defs + sem_defs + psem_defs
    sp.base_axioms = sp.base_axioms + defs
    sp.axioms = sp.axioms + defs
    sp.cands = sp.cands + [form_candidates]


def domain_assumptions():
    return ["objects compare, order and hash by name, propositions by predicate and argument names (proved: C08)",
            "State and PartialState are sets of atoms with the membership proved in C01, C02 and C04",
            "ParameterGenerator enumerates exactly the type-correct tuples, each once (C05; types: C06)",
            "VAL's parse tree is not modified while the domain is used, names are stored in it"]


def tasks(prop_, repo, missing, trusted, assume):
    from ..ast import Program
    from ..verify import Task, fn_tasks
    prog = Program(SOURCE, repo)
    sp = Spec(prog)
    install(sp)
    use = contracts()
    sp.contracts = use + assumed()
    assume += domain_assumptions() + [
        "goals are well-formed: =/2, type predicates are unary, a quantifier has variables (see known_findings.txt), "
        "goal classes are those of PDDL's goal descriptions (others throw)",
        "a term is a variable exactly when it is named like a parameter in scope (VAL drops the question mark)",
        "parse trees are finite: the claim for a goal follows from the claims for its parts (structural induction)",
        "std::function calls the callable it was given; printed text is not specified"]
    out = fn_tasks(sp, use, missing, prop_)
    out += [Task("lemma", "lemma " + l.name, sp, obj=l) for l in lemmas(prop_)]
    return out
