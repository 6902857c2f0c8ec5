"""Queries of the domain against executing actions step by step (C18)."""
import z3

from .der import *
from . import der, dom, eff, form, prop, val

SOURCE = '''
#include "pddl.cc"
#include "action.cc"
#include "formula.cc"
#include "proposition.cc"
#include "derived_predicate.cc"
#include "axiom.cc"
'''

OBJECTS = '''
#include "object.cc"
'''

KVVOBJ = KVec("vector", KVOBJ)
KVACT = KVec("vector", KACTION)
ArrT = z3.ArraySort(IS, STR)
TEXTS = KVSTR
ops_ = lambda p: field("ops", field("the_domain", analysis(p)), KSYML)
opOf = z3.Function("operatorNamed", PDDL, STR, SYM)
objN = z3.Function("objectNamed", PDDL, STR, OBJ)
argsT = z3.Function("argumentsIn", PDDL, STR, SEQ)
applyN = z3.Function("effectsApplied", SYM, PDDL, SEQ, SEQ, STATE, STATE)
derN = z3.Function("rulesApplied", KVDER.sort(), STATE, STATE)
stepN = z3.Function("executed", PDDL, SYM, SEQ, STATE, STATE)
canN = z3.Function("applicable", PDDL, SYM, SEQ, STATE, B)
runT = z3.Function("executedTexts", PDDL, ArrT, IS, STATE, STATE)
okT = z3.Function("isActionCall", PDDL, STR, B)
initS = z3.Function("initialState", PDDL, STATE)
goalF = z3.Function("goalOf", PDDL, KFORM.sort())
actsOf = z3.Function("actionsOf", PDDL, KVACT.sort())
callText = z3.Function("callText", STR, SEQ, STR)
setS = z3.Function("stateOfTexts", PDDL, KVSTR.sort(), STATE)
setOK = z3.Function("areAtoms", PDDL, KVSTR.sort(), B)
setW = z3.Function("w_areAtoms", PDDL, KVSTR.sort(), IS)
atomT = z3.Function("atomOfText", PDDL, STR, ATOM)
tv = z3.Const("tv", KVSTR.sort())
at_ = z3.Const("at_", ArrT)
op_ = z3.Const("op_", SYM)
wo = eff._wo


def params(p, y):
    return olist(p, field("parameters", y, KSYML))


def toks(t):
    v = prop.tokens(t)
    return KVSTR.arr_of(v), KVSTR.len_of(v)


def parses(p, t):
    a, n = toks(t)
    P = params(p, opOf(p, prop.head(t)))
    A = argsT(p, t)
    return z3.And(opnamed(p, prop.head(t)), prop.allknown(p, a, n), n == slen(P),
                  FA([ii], z3.Implies(z3.And(0 <= ii, ii < n), isaT(typeO(sat(A, ii)), tnm(typeO(sat(P, ii))))), [sat(A, ii), a[ii]]))


def step(p, y, A, S):
    return derN(dersOf(p), applyN(field("effects", y), p, params(p, y), A, S))


def stepT(p, t, S):
    return stepN(p, opOf(p, prop.head(t)), argsT(p, t), S)


def canT(p, t, S):
    return canN(p, opOf(p, prop.head(t)), argsT(p, t), S)


def goal(p, S):
    return sem(KFORM.get(goalF(p), "symbol_"), p, NOARGS, NOARGS, S)


_A = argsT(pd, st_)
GP = KFORM.get(goalF(pd), "P_")
plan_defs = [
    FA([pd, st_], opOf(pd, st_) == lit(ops_(pd), wo(pd, st_)), [opOf(pd, st_)]),
    # operators have distinct names
    FA([pd, st_, ii], z3.Implies(z3.And(0 <= ii, ii < llen(ops_(pd)), nameS(field("name", lit(ops_(pd), ii))) == st_),
                                 lit(ops_(pd), ii) == opOf(pd, st_)), [z3.MultiPattern(opOf(pd, st_), lit(ops_(pd), ii))]),
    FA([pd, st_], nm(objN(pd, st_)) == st_, [objN(pd, st_)]),
    FA([pd, st_], slen(_A) == toks(st_)[1], [_A]),
    FA([pd, st_, ii], z3.Implies(z3.And(0 <= ii, ii < toks(st_)[1]), sat(_A, ii) == objN(pd, toks(st_)[0][ii])), [sat(_A, ii)]),
    FA([pd, st_], okT(pd, st_) == parses(pd, st_), [okT(pd, st_)]),
    FA([pd, op_, A_, S_], stepN(pd, op_, A_, S_) == step(pd, op_, A_, S_), [stepN(pd, op_, A_, S_)]),
    FA([pd, op_, A_, S_], canN(pd, op_, A_, S_) == sem(field("precondition", op_), pd, params(pd, op_), A_, S_),
       [canN(pd, op_, A_, S_)]),
    FA([pd, at_, S_], runT(pd, at_, z3.IntVal(0), S_) == S_, [runT(pd, at_, z3.IntVal(0), S_)]),
    FA([pd, at_, ii, S_], z3.Implies(ii >= 0, runT(pd, at_, ii + 1, S_) == stepT(pd, at_[ii], runT(pd, at_, ii, S_))),
       [z3.MultiPattern(runT(pd, at_, ii, S_), at_[ii])]),
    ext(seqO(ao, nn_), argsT(pd, st_), [ao, nn_, pd, st_]),
    FA([pd, S_], z3.And(arF(GP) == 0, evF(GP, NOARGS, S_) == goal(pd, S_)), [evF(GP, NOARGS, S_)]),
    FA([pd], arF(GP) == 0, [goalF(pd)]),
    FA([pd, st_], atomT(pd, st_) == atomS(prop.head(st_), argsT(pd, st_)), [atomT(pd, st_)]),
    FA([pd, tv, ii], z3.Implies(z3.And(0 <= ii, ii < KVSTR.len_of(tv)), holds(setS(pd, tv), atomT(pd, KVSTR.arr_of(tv)[ii]))),
       [z3.MultiPattern(setS(pd, tv), KVSTR.arr_of(tv)[ii])]),
]


class ByName(eff.ActionByName):
    """Action(pddl, text): the operator named before the parenthesis"""
    def post(self, c, o, nw, ret):
        f = ret.fields
        return eff.ActionByName.post(self, c, o, nw, ret) + [
            ("is the operator of that name", KSYM.pack(f["symbol_"]) == opOf(o.args[0], prop.head(o.args[1])))]


class OperatorNamed(eff.FindOp):
    def post(self, c, o, nw, ret):
        return eff.FindOp.post(self, c, o, nw, ret) + [
            ("is the operator of that name", KSYM.pack(ret) == opOf(o.args[0], o.args[1]))]


class ParseArgs(prop.ParseAtom):
    """Object::ParseArguments(pddl, text)"""
    def enter(self, c):
        return None, [c.new_root("ext/pddl", c.fresh_const("pddl", PDDL)), c.fresh_const("text", STR)]

    def post(self, c, o, nw, ret):
        a, n = toks(o.args[1])
        return [("one object per name", ret.len == n),
                ("each is the object of its name", FA([ii], z3.Implies(z3.And(0 <= ii, ii < n), ret.arr[ii] == objN(o.args[0], a[ii])),
                                                     [ret.arr[ii]]))]


class ParseNames(prop.ParseNames):
    def enter(self, c):
        return None, [c.new_root("ext/pddl", c.fresh_const("pddl", PDDL)), KVSTR.fresh(c, "names")]

    def post(self, c, o, nw, ret):
        v = o.args[1]
        return [("one object per name", ret.len == v.len),
                ("each is the object of its name", FA([ii], z3.Implies(z3.And(0 <= ii, ii < v.len), ret.arr[ii] == objN(
                    o.args[0], v.arr[ii])), [ret.arr[ii]]))]


class ParseAction(Contract):
    """Action::Parse(pddl, text)"""
    qname = "symbolic::Action::Parse"

    def enter(self, c):
        return None, [c.new_root("ext/pddl", c.fresh_const("pddl", PDDL)), c.new_root("ext/call", c.fresh_const("call", STR))]

    def pre(self, c, s):
        return ByName.pre(self, c, s)

    def throws(self, c, s):
        return z3.Not(okT(s.args[0], s.args[1]))

    def ret(self, c, s):
        return Rec("pair", {"first": KACTION.fresh(c, "action"), "second": KVOBJ.fresh(c, "arguments")})

    def post(self, c, o, nw, ret):
        p_, t = o.args
        f = ret.fields["first"].fields
        A = ret.fields["second"]
        return [("is the operator named", KSYM.pack(f["symbol_"]) == opOf(p_, prop.head(t))),
                ("has the objects named", vseq(A) == argsT(p_, t)),
                ("has an object for every parameter", A.len == slen(params(p_, opOf(p_, prop.head(t)))))] + action_facts(f, p_)


class ApplyFn(Contract):
    """Action::Apply as a function of the effects, the arguments and the state (C11)"""
    qname = "symbolic::Action::Apply"
    trusted = True
    inplace = True

    def pre(self, c, s):
        f = s.this.fields["Apply_"]
        A = s.args[0 if self.inplace else 1]
        return [("an argument for every parameter", A.len == slen(COMPLETE.eP(f)))]

    def value(self, s, A, S):
        f = s.this.fields["Apply_"]
        return applyN(COMPLETE.sym(f), COMPLETE.epd(f), COMPLETE.eP(f), vseq(A), S)

    def ret(self, c, s):
        return c.fresh_const("changed", B) if self.inplace else c.fresh_const("state", STATE)

    def call_post(self, c, o, nw, ret):
        if not self.inplace:
            return [("", ret == self.value(o, o.args[1], o.args[0]))]
        pl = c.deref(o.args[1])
        c.write(pl, self.value(o, o.args[0], c.read(pl)))
        return []


class DeriveFn(Contract):
    """DerivedPredicate::Apply as a function of the rules and the state (C13)"""
    qname = "symbolic::DerivedPredicate::Apply"
    trusted = True
    inplace = True

    def ret(self, c, s):
        return c.fresh_const("changed", B) if self.inplace else c.fresh_const("state", STATE)

    def call_post(self, c, o, nw, ret):
        if not self.inplace:
            return [("", ret == derN(KVDER.pack(o.args[1]), o.args[0]))]
        pl = c.deref(o.args[1])
        c.write(pl, derN(KVDER.pack(o.args[0]), c.read(pl)))
        return []


class Execute(Contract):
    """Apply(action, arguments, rules): effects, then derived predicates"""
    qname = "Apply"
    inplace = False
    modifies = ()

    def enter(self, c):
        f = KACTION.fresh(c, "action")
        self.p = c.fresh_const("pddl", PDDL)
        v = KVDER.fresh(c, "rules")
        c.assume(v.len >= 0)
        act, args, rules = c.new_root("ext/action", f), c.new_root("ext/arguments", KVOBJ.fresh(c, "arguments")), c.new_root("ext/rules", v)
        s = c.new_root("ext/state", z3.Const("state!", STATE))
        return None, [act, args, rules, Ptr(s)] if self.inplace else [s, act, args, rules]

    def parts(self, s):
        return s.args[:3] if self.inplace else s.args[1:]

    def pre(self, c, s):
        act, A, _ = self.parts(s)
        return [("an argument for every parameter", A.len == slen(COMPLETE.eP(act.fields["Apply_"])))]

    def value(self, s, S):
        act, A, rules = self.parts(s)
        f = act.fields["Apply_"]
        return derN(KVDER.pack(rules), applyN(COMPLETE.sym(f), COMPLETE.epd(f), COMPLETE.eP(f), vseq(A), S))

    def ret(self, c, s):
        return c.fresh_const("changed", B) if self.inplace else c.fresh_const("state", STATE)

    def call_post(self, c, o, nw, ret):
        if not self.inplace:
            return [("", ret == self.value(o, o.args[0]))]
        pl = c.deref(o.args[3])
        c.write(pl, self.value(o, c.read(pl)))
        return []

    def post(self, c, o, nw, ret):
        S = z3.Const("state!", STATE)
        R = c.read(Place("ext/state")) if self.inplace else c.rv(ret)
        return [("applies the effects, then the rules", R == self.value(o, S))]


def operators_ok(p):
    l = ops_(p)
    return ("the domain has operators", z3.And(l != nullL, FA([ii], z3.Implies(
        z3.And(0 <= ii, ii < llen(l)), wf_operator(p, lit(l, ii))), [lit(l, ii)])))


class Query(Contract):
    """Member of the domain"""
    texts = ()

    def enter(self, c):
        p = c.fresh_const("pddl", PDDL)
        return p, [self.arg(c, k, i) for i, k in enumerate(self.kinds)]

    def arg(self, c, k, i):
        v = k.fresh(c, "arg%d" % i)
        if isinstance(v, Vec):
            c.assume(v.len >= 0)
        return c.new_root("ext/arg%d" % i, v)

    def pre(self, c, s):
        return [operators_ok(s.this)]


KST = KPrim(STATE, "State")


class NextState(Query):
    """NextState(state, call)"""
    qname = "symbolic::Pddl::NextState"
    kinds = (KST, KSTR)

    def ret(self, c, s):
        return c.fresh_const("state", STATE)

    def throws(self, c, s):
        return z3.Not(okT(s.this, s.args[1]))

    def post(self, c, o, nw, ret):
        return [("is the state after the action", c.rv(ret) == stepT(o.this, o.args[1], o.args[0]))]


class ApplyActions(Query):
    """ApplyActions(state, calls)"""
    qname = "symbolic::Pddl::ApplyActions"
    kinds = (KST, KVSTR)

    def ret(self, c, s):
        return c.fresh_const("state", STATE)

    def throws(self, c, s):
        v = s.args[1]
        return z3.Exists([ii], z3.And(0 <= ii, ii < v.len, z3.Not(okT(s.this, v.arr[ii]))))

    def post(self, c, o, nw, ret):
        S, v = o.args
        return [("is the state after all the actions", c.rv(ret) == runT(o.this, v.arr, v.len, S))]


class IsValidAction(NextState):
    """IsValidAction(state, call)"""
    qname = "symbolic::Pddl::IsValidAction"

    def ret(self, c, s):
        return c.fresh_const("valid", B)

    def post(self, c, o, nw, ret):
        return [("is whether the action is applicable", c.rv(ret) == canT(o.this, o.args[1], o.args[0]))]


class IsValidTuple(Query):
    """IsValidTuple(state, call, state)"""
    qname = "symbolic::Pddl::IsValidTuple"
    kinds = (KST, KSTR, KST)

    def ret(self, c, s):
        return c.fresh_const("valid", B)

    def throws(self, c, s):
        return z3.Not(okT(s.this, s.args[1]))

    def post(self, c, o, nw, ret):
        S, t, N = o.args
        return [("is whether the action is applicable and leads to the third state", c.rv(ret) == z3.And(
            canT(o.this, t, S), stepT(o.this, t, S) == N))]


class IsValidPlan(Query):
    """IsValidPlan(calls)"""
    qname = "symbolic::Pddl::IsValidPlan"
    kinds = (KVSTR,)

    def ret(self, c, s):
        return c.fresh_const("valid", B)

    def good(self, s, i):
        v, p = s.args[0], s.this
        return z3.And(okT(p, v.arr[i]), canT(p, v.arr[i], runT(p, v.arr, i, initS(p))))

    def throws(self, c, s):
        v = s.args[0]
        return z3.Exists([ii], z3.And(0 <= ii, ii < v.len, z3.Not(okT(s.this, v.arr[ii])), FA(
            [jj], z3.Implies(z3.And(0 <= jj, jj < ii), self.good(s, jj)), [v.arr[jj]])))

    def post(self, c, o, nw, ret):
        v, p = o.args[0], o.this
        return [("is whether every action is applicable in turn and the goal holds in the end", c.rv(ret) == z3.And(
            FA([ii], z3.Implies(z3.And(0 <= ii, ii < v.len), self.good(o, ii)), [v.arr[ii]]),
            goal(p, runT(p, v.arr, v.len, initS(p)))))]


class ListArguments(Query):
    """ListValidArguments(state, action)"""
    qname = "symbolic::Pddl::ListValidArguments"
    kinds = (KST, KACTION)

    def pre(self, c, s):
        return action_facts(s.args[1].fields, s.this) + [
            ("the action has parameters", s.args[1].fields["parameters_"].len > 0)]

    def ret(self, c, s):
        return KVVOBJ.fresh(c, "arguments")

    def post(self, c, o, nw, ret):
        return lists(o.this, KSYM.pack(o.args[1].fields["symbol_"]), o.args[0], c.rv(ret))


def wseq(x):
    return seqO(KVOBJ.arr_of(x), KVOBJ.len_of(x))


ArrW = z3.ArraySort(IS, KVOBJ.sort())
inlist = z3.Function("isListed", ArrW, IS, SEQ, B)
lpos = z3.Function("positionInList", ArrW, IS, SEQ, IS)
wa, wb = z3.Consts("wa wb", ArrW)
IL, LP, LQ = inlist(wa, nn_, q), lpos(wa, nn_, q), inlist(wb, m_, q)
list_defs = [
    FA([wa, nn_, q], z3.Implies(IL, z3.And(0 <= LP, LP < nn_, wseq(wa[LP]) == q)), [IL]),
    FA([wa, nn_, q, ii], z3.Implies(z3.And(0 <= ii, ii < nn_, wseq(wa[ii]) == q), IL), [z3.MultiPattern(IL, wa[ii])]),
    # a list that grew still lists what it listed, and its new element
    FA([wa, nn_, wb, m_, q], z3.Implies(z3.And(IL, LP < m_, wa[LP] == wb[LP]), LQ), [z3.MultiPattern(IL, LQ)]),
    FA([wb, m_, q], z3.Implies(z3.And(m_ > 0, wseq(wb[m_ - 1]) == q), LQ), [LQ]),
    # every tuple is generated once (C05, C06)
    FA([pd, V, ii], z3.Implies(z3.And(0 <= ii, ii < gsize(pd, V)), gidx(pd, V, tup_seq(pd, V, ii)) == ii), [gtup(pd, V, ii)]),
]
plan_defs += list_defs


def lists(p, y, S, v, upto=None):
    """v lists the applicable argument tuples of y (those before position upto)."""
    P = params(p, y)
    ok = lambda T: z3.And(tc(p, P, T), canN(p, y, T, S))
    n = gsize(p, P) if upto is None else upto
    T = tup_seq(p, P, ii)
    return [("only applicable arguments are listed", FA([ii], z3.Implies(z3.And(0 <= ii, ii < v.len), ok(wseq(v.arr[ii]))), [v.arr[ii]])),
            ("all applicable arguments are listed", FA([ii], z3.Implies(z3.And(0 <= ii, ii < n, canN(p, y, T, S)), inlist(v.arr, v.len, T)), [gtup(p, P, ii)])),
            ("no arguments are listed twice", FA([ii, jj], z3.Implies(z3.And(0 <= ii, ii < jj, jj < v.len),
                                                 gidx(p, P, wseq(v.arr[ii])) < gidx(p, P, wseq(v.arr[jj]))),
                                                 [z3.MultiPattern(v.arr[ii], v.arr[jj])]))]


ArrN = z3.ArraySort(IS, STR)
inT = z3.Function("isAmong", ArrN, IS, STR, B)
inTw = z3.Function("w_isAmong", ArrN, IS, STR, IS)
isCall = z3.Function("isApplicableCall", PDDL, STATE, STR, B)
icA, icT = z3.Function("w_call_action", PDDL, STATE, STR, IS), z3.Function("w_call_arguments", PDDL, STATE, STR, SEQ)
hasT = z3.Function("namesAtom", PDDL, ArrN, IS, ATOM, B)
hasTw = z3.Function("w_namesAtom", PDDL, ArrN, IS, ATOM, IS)
na, nb = z3.Consts("na nb", ArrN)
s2_ = z3.Const("s2_", STR)
IT, IW, IU = inT(na, nn_, s2_), inTw(na, nn_, s2_), inT(nb, m_, s2_)
HT, HW = hasT(pd, na, nn_, a_), hasTw(pd, na, nn_, a_)


def act_sym(p, k):
    return KACTION.get(KVACT.arr_of(actsOf(p))[k], "symbol_")


def call_of(p, y, T):
    return callText(nameS(field("name", y)), T)


def can_tuple(p, y, T, S):
    return z3.And(tc(p, params(p, y), T), canN(p, y, T, S))


CA, CT = icA(pd, S_, s2_), icT(pd, S_, s2_)
NA = KVACT.len_of(actsOf(pd))
AK = act_sym(pd, ii)
call_defs = [
    FA([na, nn_, s2_], z3.Implies(IT, z3.And(0 <= IW, IW < nn_, na[IW] == s2_)), [IT]),
    FA([na, nn_, s2_, ii], z3.Implies(z3.And(0 <= ii, ii < nn_, na[ii] == s2_), IT), [z3.MultiPattern(IT, na[ii])]),
    FA([na, nn_, nb, m_, s2_], z3.Implies(z3.And(IT, IW < m_, na[IW] == nb[IW]), IU), [z3.MultiPattern(IT, IU)]),
    FA([nb, m_, s2_], z3.Implies(z3.And(m_ > 0, nb[m_ - 1] == s2_), IU), [IU]),
    FA([pd, S_, s2_], z3.Implies(isCall(pd, S_, s2_), z3.And(0 <= CA, CA < NA, can_tuple(pd, act_sym(pd, CA), CT, S_),
                                                             s2_ == call_of(pd, act_sym(pd, CA), CT))), [isCall(pd, S_, s2_)]),
    FA([pd, S_, ii, T], z3.Implies(z3.And(0 <= ii, ii < NA, can_tuple(pd, AK, T, S_)), isCall(pd, S_, call_of(pd, AK, T))),
       [z3.MultiPattern(canN(pd, AK, T, S_), call_of(pd, AK, T))]),
    FA([pd], NA >= 0, [actsOf(pd)]),
    FA([pd, na, nn_, a_], z3.Implies(HT, z3.And(0 <= HW, HW < nn_, a_ == atomT(pd, na[HW]))), [HT]),
    FA([pd, na, nn_, a_, ii], z3.Implies(z3.And(0 <= ii, ii < nn_, a_ == atomT(pd, na[ii])), HT), [z3.MultiPattern(HT, na[ii])]),
]
plan_defs += call_defs


def calls(p, S, v, upto=None):
    y = act_sym(p, ii)
    n = KVACT.len_of(actsOf(p)) if upto is None else upto
    return [("only applicable calls are listed", FA([ii], z3.Implies(z3.And(0 <= ii, ii < v.len), isCall(p, S, v.arr[ii])), [v.arr[ii]])),
            ("all applicable calls are listed", FA([ii, T], z3.Implies(z3.And(0 <= ii, ii < n, can_tuple(p, y, T, S)),
                                                                      inT(v.arr, v.len, call_of(p, y, T))),
                                                   [z3.MultiPattern(canN(p, y, T, S), call_of(p, y, T)),
                                                    z3.MultiPattern(tc(p, params(p, y), T), canN(p, y, T, S))]))]


class ListActions(Query):
    """ListValidActions(state)"""
    qname = "symbolic::Pddl::ListValidActions"
    kinds = (KST,)

    def pre(self, c, s):
        p = s.this
        acts = KVACT.arr_of(actsOf(p))
        f = KACTION.unpack(acts[ii]).fields
        return [("the actions are the domain's", FA([ii], z3.Implies(z3.And(0 <= ii, ii < KVACT.len_of(actsOf(p))), z3.And(
            [x for _, x in action_facts(f, p)] + [f["parameters_"].len > 0])), [acts[ii]]))]

    def ret(self, c, s):
        return KVSTR.fresh(c, "calls")

    def post(self, c, o, nw, ret):
        return calls(o.this, o.args[0], c.rv(ret))


KSET = KVec("set", KSTR)


def set_ok(p, v):
    t = v.arr[ii]
    return FA([ii], z3.Implies(z3.And(0 <= ii, ii < v.len), prop.allknown(p, *toks(t))), [t])


class ParseState(Contract):
    """ParseState(pddl, texts): the atoms the texts name"""
    qname = "ParseState"

    def enter(self, c):
        v = KSET.fresh(c, "texts")
        c.assume(v.len >= 0)
        return None, [c.new_root("ext/pddl", c.fresh_const("pddl", PDDL)), c.new_root("ext/texts", v)]

    def throws(self, c, s):
        return z3.Not(set_ok(*s.args))

    def ret(self, c, s):
        return c.fresh_const("state", STATE)

    def call_post(self, c, o, nw, ret):
        return [("", ret == setS(o.args[0], KSTRS(o.args[1])))]

    def post(self, c, o, nw, ret):
        R = c.rv(ret)
        p, v = o.args
        return [("has exactly the atoms named", FA([a_], holds(R, a_) == hasT(p, v.arr, v.len, a_), [holds(R, a_)]))]


def KSTRS(v):
    return KVSTR.sort().constructor(0)(v.len, v.arr)


class BySets(Query):
    """The same query on states given as texts"""
    base = None

    def states(self, s):
        return [a for a in s.args if isinstance(a, Vec)]

    def on(self, s):
        return Snap(s.this, [setS(s.this, KSTRS(a)) if isinstance(a, Vec) else a for a in s.args], None, s.args)

    def pre(self, c, s):
        return self.base().pre(c, self.on(s))

    def throws(self, c, s):
        t = self.base().throws(c, self.on(s))
        return z3.Or([z3.Not(set_ok(s.this, v)) for v in self.states(s)] + ([t] if t is not None else []))

    def ret(self, c, s):
        return self.base().ret(c, self.on(s))

    def post(self, c, o, nw, ret):
        return self.base().post(c, self.on(o), nw, ret)


class GoalHolds(Query):
    """IsGoalSatisfied(state)"""
    qname = "symbolic::Pddl::IsGoalSatisfied"
    kinds = (KST,)

    def ret(self, c, s):
        return c.fresh_const("reached", B)

    def post(self, c, o, nw, ret):
        return [("is whether the goal holds", c.rv(ret) == goal(o.this, o.args[0]))]


def call_text(c, qn, fn, this, args, node):
    """The text of a call; printing is opaque"""
    if qn == "symbolic::Action::to_string" and this is not None and len(args) == 1:
        return callText(c.rv(this).fields["name_"], vseq(c.rv(args[0])))
    return NotImplemented


def list_actions_candidates(c, lp, pos, moved, pds):
    states = unique([c.mem[r] for r in c.mem if z3.is_expr(c.mem[r]) and c.mem[r].sort() == STATE])
    for rw in moved:
        w = c.mem[rw]
        if not (isinstance(w, Vec) and w.ek is KSTR):
            continue
        for p in pds:
            for S in states:
                yield "%s lists applicable calls" % rw, lambda f=calls(p, S, w)[0][1]: f
                for ri, i, it in pos:
                    yield "%s lists the calls of the actions before %s" % (rw, ri), lambda f=calls(p, S, w, i)[1][1]: f
        acts = [(r, c.mem[r]) for r in c.mem if r not in c.dead and isinstance(c.mem[r], Rec) and c.mem[r].cls == KACTION.cls]
        names = [(r, a.fields["name_"]) for r, a in acts]
        for r in c.mem:
            x = c.mem[r]
            if isinstance(x, It):
                v = c.read(x.place)
                if isinstance(v, Vec) and v.ek is KACTION:
                    names.append((r, KACTION.get(v.arr[x.idx], "name_")))
        for ra, v in vectors(c):
            if isinstance(v.ek, KVec) and v.ek.ek is KOBJ:
                for ri, i, it in pos:
                    for rn, n in names:
                        yield "%s lists %s of the tuples of %s before %s" % (rw, rn, ra, ri), lambda w=w, n=n, v=v, i=i: FA(
                            [ii], z3.Implies(z3.And(0 <= ii, ii < i), inT(w.arr, w.len, callText(n, wseq(v.arr[ii])))), [v.arr[ii]])


def state_candidates(c, lp, pos, moved, pds):
    for rs in moved:
        R, S = c.mem[rs], lp.entry[rs]
        if not (z3.is_expr(R) and R.sort() == STATE):
            continue
        for rt, v in vectors(c):
            if v.ek is KSTR:
                for ri, i, it in pos:
                    for p in pds:
                        yield "%s has the atoms of the texts of %s before %s" % (rs, rt, ri), lambda R=R, v=v, i=i, p=p: FA(
                            [a_], holds(R, a_) == hasT(p, v.arr, i, a_), [holds(R, a_)])
                        yield "the texts of %s before %s name atoms" % (rt, ri), lambda v=v, i=i, p=p: FA(
                            [ii], z3.Implies(z3.And(0 <= ii, ii < i), prop.allknown(p, *toks(v.arr[ii]))), [v.arr[ii]])


def vectors(c):
    """Vectors held by variables, also as members."""
    def walk(r, v):
        if isinstance(v, Vec):
            yield r, v
        elif isinstance(v, Rec):
            for n, x in v.fields.items():
                yield from walk(r + "." + n, x)
    for r in c.mem:
        if r not in c.dead:
            yield from walk(r, c.mem[r])


def plan_candidates(c, lp):
    moved = [r for r in lp.entry if r in c.mem and any(h[0] == r for h in lp.havoc)]
    pos = []
    for r in moved:
        x = c.mem[r]
        if isinstance(x, It):
            pos.append((r, x.idx, x))
        elif z3.is_expr(x) and x.sort() == IS and "/tmp" not in r:
            pos.append((r, x, None))
    pds = unique([c.mem[r] for r in c.mem if z3.is_expr(c.mem[r]) and c.mem[r].sort() == PDDL])
    texts = [(r, c.mem[r]) for r in c.mem if isinstance(c.mem[r], Vec) and c.mem[r].ek is KSTR and r not in c.dead]
    objs = [(r, v) for r, v in vectors(c) if v.ek is KOBJ]
    yield from list_actions_candidates(c, lp, pos, moved, pds)
    yield from state_candidates(c, lp, pos, moved, pds)
    for ri, i, it in pos:
        for ra, a in objs:
            for rb, b in objs:
                if a is not b:
                    yield "%s before %s has types of %s" % (ra, ri, rb), lambda a=a, b=b, i=i: FA([ii], z3.Implies(
                        z3.And(0 <= ii, ii < i), isaT(typeO(a.arr[ii]), tnm(typeO(b.arr[ii])))), [a.arr[ii], b.arr[ii]])
            if ra in moved:
                for rt, v in texts:
                    for p in pds:
                        yield "%s has the objects named in %s" % (ra, rt), lambda a=a, v=v, p=p: FA(
                            [ii], z3.Implies(z3.And(0 <= ii, ii < a.len), a.arr[ii] == objN(p, v.arr[ii])), [a.arr[ii]])
        for rt, v in texts:
            if it is not None and c.read(it.place) is not v:
                continue
            for p in pds:
                yield "the texts of %s before %s are action calls" % (rt, ri), lambda v=v, i=i, p=p: FA(
                    [ii], z3.Implies(z3.And(0 <= ii, ii < i), okT(p, v.arr[ii])), [v.arr[ii]])
                for rs in moved:
                    R, S = c.mem[rs], lp.entry[rs]
                    if not (z3.is_expr(R) and R.sort() == STATE):
                        continue
                    yield "%s is the state after the actions of %s before %s" % (rs, rt, ri), \
                        lambda R=R, S=S, v=v, i=i, p=p: R == runT(p, v.arr, i, S)
                    yield "the actions of %s before %s are applicable from %s" % (rt, ri, rs), lambda S=S, v=v, i=i, p=p: FA(
                        [ii], z3.Implies(z3.And(0 <= ii, ii < i), canT(p, v.arr[ii], runT(p, v.arr, ii, S))), [v.arr[ii]])
        if it is None:
            continue
        G = c.read(it.place)
        if z3.is_expr(G) and G.sort() == GEN:
            for rw in moved:
                w = c.mem[rw]
                if not (isinstance(w, Vec) and isinstance(w.ek, KVec) and w.ek.ek is KOBJ):
                    continue
                for S in unique([c.mem[r] for r in c.mem if z3.is_expr(c.mem[r]) and c.mem[r].sort() == STATE]):
                    for ra, a in [(r, c.mem[r]) for r in c.mem if isinstance(c.mem[r], Rec) and c.mem[r].cls == KACTION.cls]:
                        y = KSYM.pack(a.fields["symbol_"])
                        for nm_, f in lists(gpd(G), y, S, w, i):
                            yield "%s before %s: %s (%s)" % (rw, ri, nm_, ra), lambda f=f: f
                        yield "%s lists tuples before %s" % (rw, ri), lambda G=G, w=w, i=i: FA(
                            [ii], z3.Implies(z3.And(0 <= ii, ii < w.len), gidx(gpd(G), gvs(G), wseq(w.arr[ii])) < i), [w.arr[ii]])


def pddl_fields(sp):
    inner = sp.opaque_field

    def f(c, v, name, n):
        if v.sort() == PDDL:
            if name in ("initial_state_", "initial_state"):
                return c.new_root("ext/initial", initS(v))
            if name in ("goal_", "goal"):
                return c.new_root("ext/goal", KFORM.unpack(goalF(v)))
            if name in ("actions_", "actions"):
                return c.new_root("ext/actions", KVACT.unpack(actsOf(v)))
            if name in ("derived_predicates_", "derived_predicates"):
                return c.new_root("ext/rules", KVDER.unpack(dersOf(v)))
        return inner(c, v, name, n)
    return f


def construct_object(c, args):
    p, t = [c.rv(a) for a in args]
    if z3.is_expr(p) and p.sort() == PDDL and z3.is_expr(t) and t.sort() == STR:
        if not c.branch(prop.knownf(p, t)):
            raise CppThrow("symbolic::Object::Object")
        return objN(p, t)
    return dom.construct_object(c, args)


def same_state(c, qn, fn, this, args, node):
    """States compare by their atoms: see C03."""
    if fn.get("name") in ("operator==", "operator!="):
        xs = [c.rv(a) for a in ([this] if this is not None else []) + list(args)]
        if len(xs) == 2 and all(z3.is_expr(x) and x.sort() == STATE for x in xs):
            return xs[0] == xs[1] if fn["name"] == "operator==" else xs[0] != xs[1]
    return NotImplemented


def empty_state(c):
    S = c.fresh_const("empty", STATE)
    c.assume(FA([a_], z3.Not(holds(S, a_)), [holds(S, a_)]))
    return S


def state_room(c, qn, fn, this, args, node):
    """Reserving room does not change a state (C02)."""
    if fn.get("name") == "reserve" and this is not None:
        v = c.rv(this)
        if z3.is_expr(v) and v.sort() == STATE:
            return None
    return NotImplemented


def pddl_getters(c, qn, fn, this, args, node):
    if this is not None and qn in ("symbolic::Pddl::initial_state", "symbolic::Pddl::goal", "symbolic::Pddl::actions"):
        v = c.rv(this)
        if z3.is_expr(v) and v.sort() == PDDL:
            return c.spec.opaque_field(c, v, qn.split("::")[-1], node)
    return NotImplemented


def contracts():
    return [OperatorNamed(), ByName(sig=lambda t: "string" in t), ParseAction(),
            Execute(sig=lambda t: t.startswith("State(")), Execute(inplace=True, sig=lambda t: t.startswith("bool(")),
            NextState(), ApplyActions(), IsValidAction(), IsValidTuple(sig=lambda t: "set<" not in t), IsValidPlan(),
            ListArguments(sig=lambda t: "set<" not in t), ListActions(sig=lambda t: "set<" not in t),
            GoalHolds(sig=lambda t: "set<" not in t), ParseState(sig=lambda t: t.startswith("State(")),
            BySets(qname=IsValidTuple.qname, base=IsValidTuple, kinds=(KSET, KSTR, KSET), sig=lambda t: "set<" in t),
            BySets(qname=GoalHolds.qname, base=GoalHolds, kinds=(KSET,), sig=lambda t: "set<" in t),
            BySets(qname=ListActions.qname, base=ListActions, kinds=(KSET,), sig=lambda t: "set<" in t)]


def parsers():
    return [ParseNames(sig=lambda t: "vector<std::string" in t), ParseArgs(sig=lambda t: "vector<std::string" not in t)]


def assumed_here():
    return [k for k in form.contracts() if isinstance(k, (FormulaCtor, Eval, CreateList))] + [
        eff.ActionCtor(sig=lambda t: "operator_" in t), prop.Tokens(),
        prop.PropParse(sig=lambda t: "Pddl&" in t),
        ApplyFn(sig=lambda t: t.endswith(",State*)const") or t.endswith(",State*)")), ApplyFn(inplace=False, sig=lambda t: "(constState&" in t),
        DeriveFn(sig=lambda t: t.startswith("bool(const")), DeriveFn(inplace=False, sig=lambda t: t.startswith("State(constState&,conststd::vector<Deriv"))]


def install(sp):
    der.install(sp)
    KOBJ.construct = construct_object
    form.KSTATE.default = empty_state
    sp.kinds["Action"] = sp.kinds["symbolic::Action"] = KACTION
    sp.opaque_field = pddl_fields(sp)
    sp.hooks[:0] = [pddl_getters, same_state, call_text, state_room]
    sp.base_axioms = sp.base_axioms + prop.parse_defs + plan_defs
    sp.axioms = sp.axioms + prop.parse_defs + plan_defs
    sp.sort_ops[("State", "==")] = lambda c, x, y: x == y
    sp.sort_ops[("State", "!=")] = lambda c, x, y: x != y
    sp.cands = sp.cands + [plan_candidates, prop.parse_candidates]


def tasks(prop_, repo, missing, trusted, assume):
    from ..ast import Program
    from ..verify import Task, fn_tasks
    sp = Spec(Program(SOURCE, repo))
    install(sp)
    use = contracts()
    sp.contracts = use + assumed_here() + parsers()
    assume += domain_assumptions() + [
        "operators and objects have distinct names; actions have parameters",
        "applying effects and computing derived predicates are functions of the action, the arguments and the state: "
        "C11 and C13 decide what these functions are",
        "printed text of calls is opaque; reading an action call splits it as C08 says"]
    out = fn_tasks(sp, use, missing, prop_)
    so = Spec(Program(OBJECTS, repo))
    install(so)
    use = parsers()
    so.contracts = use + [prop.Tokens()]
    return out + fn_tasks(so, use, missing, prop_)
