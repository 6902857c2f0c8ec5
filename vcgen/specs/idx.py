"""The state index: a bijection between ground propositions and positions (C07)."""
import z3

from . import dom, form, maps, prop, val
from .comb import FA
from .dom import *
from .form import KSTATE, STATE, S_, holds
from .par import SEEN, seen
from .maps import KGMap, map_kind

SOURCE = '''
#include "state.cc"
namespace symbolic {
void verif_use(const StateIndex& s) {
  StateIndex::iterator i = s.begin(), j = s.end();
  *i; i->name(); ++i; i++; --i; i--; i == j; i != j; i < j; i > j; i <= j; i >= j;
  i += 1; i + 1; 1 + i; i -= 1; i - 1; i - j; i[0]; s.size();
}
}
'''

KPRED = KRec("symbolic::Predicate", [("pddl_", KPDDL), ("name_", KSTR), ("parameters_", KVOBJ), ("param_gen_", KGEN)])
KPRED.real = True
KVPRED = KVec("vector", KPRED)
KVU = KVec("vector", KUINT)
KARR = KVec("indexed", KBOOL)
VP = KVPRED.sort()
KMSU, KMUP = KGMap(KSTR, KUINT), KGMap(KUINT, KPROP)
maps._kinds[(str(STR), "Int")] = KMSU
maps._kinds[("Int", str(KPROP.sort()))] = KMUP

own = z3.Function("groundAtomOf", STR, GEN, ATOM, B)     # a type-correct atom of the predicate
rk = z3.Function("rank", GEN, ATOM, IS)                  # position of its tuple
fnd = z3.Function("isTuple", GEN, SEQ, B)                # names a type-correct tuple
fidx = z3.Function("tuplePosition", GEN, SEQ, IS)
cum = z3.Function("firstPosition", VP, IS, IS)
grpn = z3.Function("groupBelow", VP, IS, IS, IS)
pat = z3.Function("atomAt", VP, IS, ATOM)
isA = z3.Function("isIndexed", VP, ATOM, B)
jw = z3.Function("predicateOf", VP, ATOM, IS)
pos = z3.Function("positionOf", VP, ATOM, IS)
distinct = z3.Function("distinctNames", VP, B)
text = z3.Function("textOf", ATOM, STR)
untext = z3.Function("atomOfText", STR, ATOM)
nitems = z3.Function("stateSize", STATE, IS)
sitem = z3.Function("stateItem", STATE, IS, KPROP.sort())
sidx = z3.Function("stateItemOf", STATE, ATOM, IS)
allA = z3.Function("allIndexed", VP, STATE, B)
allW = z3.Function("w_allIndexed", VP, STATE, ATOM)

v_ = z3.Const("v_", VP)
G_ = z3.Const("G_", GEN)
a_, b_ = z3.Consts("a_ b_", ATOM)
n_ = z3.Const("n_", STR)
t_ = z3.Const("t_", SEQ)
kk, gg = z3.Ints("kk gg")


MP = z3.MultiPattern


def nP(v, j):
    return KPRED.get(KVPRED.arr_of(v)[j], "name_")


def gP(v, j):
    return KPRED.get(KVPRED.arr_of(v)[j], "param_gen_")


def gsz(g):
    return gsize(gpd(g), gvs(g))


def tupS(g, k):
    return tup_seq(gpd(g), gvs(g), k)


def total(v):
    return cum(v, KVPRED.len_of(v))


def patom(f):
    """The atom of a proposition record."""
    return atom_of(f["name_"], f["arguments_"])


def katom(p):
    return patom(KPROP.unpack(p).fields)


W = jw(v_, a_)
N_ = KVPRED.len_of(v_)
A_ = KVPRED.arr_of(v_)
TU = atomS(n_, tupS(G_, kk))
AW = allW(v_, S_)
basic = [
    # the ground atoms of a predicate are numbered by their tuples (C05, C06)
    FA([n_, G_, a_], z3.Implies(own(n_, G_, a_), z3.And(0 <= rk(G_, a_), rk(G_, a_) < gsz(G_), a_ == atomS(n_, tupS(G_, rk(G_, a_))),
                                                        aname(a_) == n_)), own(n_, G_, a_)),
    FA([n_, G_, kk], z3.Implies(z3.And(0 <= kk, kk < gsz(G_)), z3.And(own(n_, G_, TU), rk(G_, TU) == kk)), TU),
    FA([n_, G_, t_], fnd(G_, t_) == own(n_, G_, atomS(n_, t_)), MP(fnd(G_, t_), atomS(n_, t_)), own(n_, G_, atomS(n_, t_))),
    FA([n_, G_, t_], z3.Implies(fnd(G_, t_), fidx(G_, t_) == rk(G_, atomS(n_, t_))), MP(fidx(G_, t_), atomS(n_, t_))),
    FA([n_, t_], aname(atomS(n_, t_)) == n_, atomS(n_, t_)),
    FA([a_], untext(text(a_)) == a_, text(a_)),
    FA([pd, V], gsize(pd, V) <= (1 << 31) - 1, gsize(pd, V)),
    # groups
    FA([v_, jj], z3.Implies(jj == 0, cum(v_, jj) == 0), cum(v_, jj)),
    FA([v_, jj], z3.Implies(z3.And(0 <= jj, jj < N_), cum(v_, jj + 1) == cum(v_, jj) + gsz(gP(v_, jj))),
       MP(cum(v_, jj), A_[jj]), cum(v_, jj + 1)),
    FA([v_, jj, kk], z3.Implies(z3.And(0 <= jj, jj < N_, kk == jj + 1), cum(v_, kk) == cum(v_, jj) + gsz(gP(v_, jj))),
       MP(cum(v_, jj), A_[jj], cum(v_, kk))),
    FA([v_, ii, jj], z3.Implies(z3.And(distinct(v_), 0 <= ii, ii < N_, 0 <= jj, jj < N_, nP(v_, ii) == nP(v_, jj)), ii == jj),
       MP(distinct(v_), A_[ii], A_[jj])),
]
defs = [
    FA([v_, jj, kk], z3.Implies(jj > 0, grpn(v_, jj, kk) == z3.If(cum(v_, jj - 1) <= kk, jj - 1, grpn(v_, jj - 1, kk))),
       grpn(v_, jj, kk)),
    FA([v_, kk], pat(v_, kk) == atomS(nP(v_, grpn(v_, N_, kk)), tupS(gP(v_, grpn(v_, N_, kk)), kk - cum(v_, grpn(v_, N_, kk)))),
       pat(v_, kk)),
    FA([v_, a_], isA(v_, a_) == z3.And(0 <= W, W < N_, own(nP(v_, W), gP(v_, W), a_)), isA(v_, a_)),
    FA([v_, a_, jj], z3.Implies(z3.And(0 <= jj, jj < N_, own(nP(v_, jj), gP(v_, jj), a_)), isA(v_, a_)),
       MP(isA(v_, a_), A_[jj]), own(nP(v_, jj), gP(v_, jj), a_)),
    FA([v_, a_], pos(v_, a_) == cum(v_, W) + rk(gP(v_, W), a_), pos(v_, a_)),
]
mono = FA([v_, ii, jj], z3.Implies(z3.And(0 <= ii, ii <= jj, jj <= N_), cum(v_, ii) <= cum(v_, jj)), MP(cum(v_, ii), cum(v_, jj)))
GB = grpn(v_, jj, kk)
inrange = FA([v_, jj, kk], z3.Implies(z3.And(0 <= jj, jj <= N_, 0 <= kk, kk < cum(v_, jj)), z3.And(
    0 <= GB, GB < jj, cum(v_, GB) <= kk, kk < cum(v_, GB + 1))), GB)
ingroup = lambda g, k: z3.And(0 <= g, g < N_, cum(v_, g) <= k, k < cum(v_, g + 1))
# what the functions' contracts rest on, each proved as a lemma
laws = [
    ("offsets grow", mono),
    ("positions of a group", FA([v_, gg, kk], z3.Implies(ingroup(gg, kk), pat(v_, kk) == atomS(nP(v_, gg), tupS(gP(v_, gg), kk - cum(v_, gg)))),
                                MP(pat(v_, kk), A_[gg]))),
    ("atoms of a group", FA([v_, a_, jj], z3.Implies(z3.And(distinct(v_), 0 <= jj, jj < N_, own(nP(v_, jj), gP(v_, jj), a_)),
                                                     z3.And(isA(v_, a_), pos(v_, a_) == cum(v_, jj) + rk(gP(v_, jj), a_))),
                            MP(distinct(v_), own(nP(v_, jj), gP(v_, jj), a_)))),
    ("an indexed atom belongs to the predicate of its name", FA([v_, a_, jj], z3.Implies(
        z3.And(distinct(v_), isA(v_, a_), 0 <= jj, jj < N_, nP(v_, jj) == aname(a_)), own(nP(v_, jj), gP(v_, jj), a_)),
        MP(isA(v_, a_), A_[jj]))),
    ("an indexed atom has the name of a predicate", FA([v_, a_], z3.Implies(isA(v_, a_), z3.And(
        0 <= W, W < N_, nP(v_, W) == aname(a_))), isA(v_, a_))),
    ("position-of then proposition-at", FA([v_, a_], z3.Implies(z3.And(distinct(v_), isA(v_, a_)), z3.And(
        0 <= pos(v_, a_), pos(v_, a_) < total(v_), pat(v_, pos(v_, a_)) == a_)), pos(v_, a_))),
    ("proposition-at then position-of", FA([v_, kk], z3.Implies(z3.And(distinct(v_), 0 <= kk, kk < total(v_)), z3.And(
        isA(v_, pat(v_, kk)), pos(v_, pat(v_, kk)) == kk)), pat(v_, kk))),
]
SI = sidx(S_, a_)
state_facts = [
    FA([S_], nitems(S_) >= 0, nitems(S_)),
    FA([S_, a_], z3.Implies(holds(S_, a_), z3.And(0 <= SI, SI < nitems(S_), katom(sitem(S_, SI)) == a_)), holds(S_, a_)),
    FA([S_, ii], z3.Implies(z3.And(0 <= ii, ii < nitems(S_)), z3.And(
        holds(S_, katom(sitem(S_, ii))), sidx(S_, katom(sitem(S_, ii))) == ii)), sitem(S_, ii)),
    FA([v_, S_, a_], z3.Implies(z3.And(allA(v_, S_), holds(S_, a_)), isA(v_, a_)), MP(allA(v_, S_), holds(S_, a_))),
    FA([v_, S_], z3.Or(allA(v_, S_), z3.And(holds(S_, AW), z3.Not(isA(v_, AW)))), allA(v_, S_)),
]


def lemmas():
    v, a, i, j, k, g = z3.Const("v", VP), z3.Const("a", ATOM), *z3.Ints("i j k g")
    n = KVPRED.len_of(v)
    c = lambda x: cum(v, x)
    A = KVPRED.arr_of(v)
    out = [Lemma("group offsets grow", [
        ("by induction: at the same group", [0 <= i, i <= n], c(i) <= c(i)),
        ("by induction: one group further", [0 <= i, i <= j, j < n, c(i) <= c(j), seen(c(j)), seen(A[j])], c(i) <= c(j + 1))])]
    rng = lambda x: z3.And(0 <= grpn(v, x, k), grpn(v, x, k) < x, c(grpn(v, x, k)) <= k, k < c(grpn(v, x, k) + 1))
    out.append(Lemma("every position is in a group", [
        ("by induction: no group", [seen(c(0)), 0 <= k], z3.Not(k < c(0))),
        ("by induction: one more group", [0 <= j, j < n, 0 <= k, k < c(j + 1), z3.Implies(k < c(j), rng(j))], rng(j + 1))], defs[:1]))
    N = grpn(v, n, k)
    hyp = [n >= 0, distinct(v)]
    used_ = [mono, inrange] + defs
    grp = lambda x, y: [0 <= x, x < n, c(x) <= y, y < c(x + 1), seen(A[x])]
    P = lambda x, y: atomS(nP(v, x), tupS(gP(v, x), y - c(x)))
    gpos = grp(g, k) + [n >= 0, seen(c(n)), c(g + 1) <= c(n), 0 <= c(g)]
    out.append(Lemma("positions of a group", [
        ("offsets", grp(g, k) + [n >= 0, seen(c(n)), seen(c(0))], z3.And(c(g + 1) <= c(n), 0 <= c(g))),
        ("the group of a position is unique: not below", gpos + [seen(c(N + 1))], N >= g),
        ("the group of a position is unique: not above", gpos + [seen(c(N + 1))], N <= g),
        ("the atom there", gpos + [N == g], pat(v, k) == P(g, k))], used_))
    fs = dict(laws)
    o = own(nP(v, j), gP(v, j), a)
    out.append(Lemma("atoms of a group", [
        ("the predicate of an atom", hyp + [0 <= j, j < n, o, seen(A[jw(v, a)]), seen(isA(v, a))],
         z3.And(isA(v, a), pos(v, a) == c(j) + rk(gP(v, j), a)))], used_))
    out.append(Lemma("indexed atoms and names", [
        ("an indexed atom belongs to the predicate of its name", hyp + [isA(v, a), 0 <= j, j < n, nP(v, j) == aname(a)], o),
        ("an indexed atom has the name of a predicate", [isA(v, a)], z3.And(0 <= jw(v, a), jw(v, a) < n, nP(v, jw(v, a)) == aname(a)))], defs))
    w = jw(v, a)
    out.append(Lemma("position-of and proposition-at are inverse", [
        ("the offsets of the atom's group", hyp + [isA(v, a), seen(c(0)), seen(c(n)), seen(A[w])],
         z3.And(0 <= c(w), c(w) <= pos(v, a), pos(v, a) < c(w + 1), c(w + 1) <= c(n))),
        ("proposition-at after position-of", hyp + [isA(v, a), 0 <= w, w < n, 0 <= c(w), c(w) <= pos(v, a), pos(v, a) < c(w + 1),
                                                    seen(A[w])], pat(v, pos(v, a)) == a),
        ("position-of after proposition-at", hyp + [0 <= k, k < c(n), seen(A[N]), 0 <= N, N < n, c(N) <= k, k < c(N + 1),
                                                    seen(P(N, k))],
         z3.And(isA(v, pat(v, k)), pos(v, pat(v, k)) == k)),
        ("every position has its group", hyp + [0 <= k, k < c(n)], z3.And(0 <= N, N < n, c(N) <= k, k < c(N + 1)))],
        used_ + [fs["positions of a group"], fs["atoms of a group"]]))
    S, R = z3.Const("S", STATE), z3.Const("R", STATE)
    ar, br = z3.Consts("ar br", z3.ArraySort(IS, B))
    law = [f for _, f in laws]
    from_state = lambda ar, S: FA([kk], z3.Implies(z3.And(0 <= kk, kk < total(v)), ar[kk] == holds(S, pat(v, kk))), ar[kk], pat(v, kk))
    to_state = lambda R, ar: FA([a_], holds(R, a_) == z3.And(isA(v, a_), ar[pos(v, a_)]), holds(R, a_))
    out.append(Lemma("converting a state there and back gives the same state", [
        ("the same atoms", hyp + [allA(v, S), from_state(ar, S), to_state(R, ar), seen(pos(v, a))], holds(R, a) == holds(S, a)),
        ("the same positions", hyp + [to_state(S, ar), from_state(br, S), 0 <= k, k < total(v), seen(pat(v, k))], br[k] == ar[k])],
        law + state_facts))
    return out


# ------------------------------------------------------------------ contracts

SIX = "symbolic::StateIndex"
KSI = KRec(SIX, [("pddl_", None), ("predicates_", KVPRED), ("idx_predicate_group_", KVU), ("idx_predicates_", KMSU),
                 ("cache_propositions_", KMUP), ("cache_idx_propositions_", KMSU), ("use_cache_", KBOOL)])


def fresh_index(c, nm_):
    r = Rec(SIX, {f: (k.fresh(c, nm_ + "." + f) if k else Ptr(c.new_root("ext/pddl of " + nm_, c.fresh_const("pddl", PDDL))))
                  for f, k in KSI.flds})
    return r


def preds(f):
    return KVPRED.pack(f["predicates_"])


def caches(f):
    v = preds(f)
    h, w = f["cache_propositions_"].data
    th, tw = f["cache_idx_propositions_"].data
    p = KPROP.unpack(w[kk]).fields
    return [("cached propositions are those at their positions", FA([kk], z3.Implies(h[kk], z3.And(
                0 <= kk, kk < total(v), katom(w[kk]) == pat(v, kk))), h[kk], w[kk])),
            ("cached propositions carry their hash", FA([kk], z3.Implies(h[kk], z3.And(
                p["arguments_"].len >= 0, p["hash_"] == prop.ghash(p["name_"], p["arguments_"]))), w[kk])),
            ("cached positions are those of the propositions", FA([a_], z3.Implies(th[text(a_)], z3.And(
                isA(v, a_), tw[text(a_)] == pos(v, a_))), th[text(a_)], tw[text(a_)]))]


def offsets(v, r):
    return [("one offset per predicate and the size", r.len == KVPRED.len_of(v) + 1),
            ("offset j is the number of propositions of the predicates before j", FA([jj], z3.Implies(
                z3.And(0 <= jj, jj < r.len), r.arr[jj] == cum(v, jj)), r.arr[jj], cum(v, jj)))]


def indices(v, n, m):
    h, w = m.data
    return [("every name is mapped to its predicate", FA([jj], z3.Implies(z3.And(0 <= jj, jj < n), z3.And(
                h[nP(v, jj)], w[nP(v, jj)] == jj)), KVPRED.arr_of(v)[jj])),
            ("only names are mapped", FA([n_], z3.Implies(h[n_], z3.And(0 <= w[n_], w[n_] < n, nP(v, w[n_]) == n_)), h[n_]))]


def wf(f):
    """The index of its predicates."""
    v = preds(f)
    return [("the number of positions fits", total(v) < MAXN), ("has a predicate", f["predicates_"].len > 0), ("has distinct names", distinct(v))] + \
        offsets(v, f["idx_predicate_group_"]) + indices(v, f["predicates_"].len, f["idx_predicates_"]) + caches(f)


def identical(c, x, y):
    if isinstance(x, Vec):
        return z3.And(x.len == y.len, x.arr == y.arr)
    if isinstance(x, Ptr):
        return c.equal(x, y)
    if isinstance(x, Abs):
        return x.model.same(c, x, y)
    return x == y


def kept(c, o, nw):
    """Everything but the caches is as before; the caches are right."""
    f, g = o.this.fields, nw.this.fields
    return [("only the caches change", z3.And([identical(c, f[x], g[x]) for x in f if "cache_" not in x or x == "use_cache_"]))] + caches(g)


class CumSum(Contract):
    qname = "PredicateCumSum"

    def enter(self, c):
        return None, [c.new_root("ext/predicates", KVPRED.fresh(c, "predicates"))]

    def ret(self, c, s):
        return KVU.fresh(c, "offsets")

    def post(self, c, o, nw, ret):
        return offsets(KVPRED.pack(o.args[0]), c.rv(ret))


class Indices(CumSum):
    qname = "PredicateIndices"

    def pre(self, c, s):
        return [("distinct names", distinct(KVPRED.pack(s.args[0])))]

    def ret(self, c, s):
        return KMSU.fresh(c, "indices")

    def post(self, c, o, nw, ret):
        return indices(KVPRED.pack(o.args[0]), o.args[0].len, c.rv(ret))


class Ctor(Contract):
    qname = SIX + "::StateIndex"

    def enter(self, c):
        return None, [c.new_root("ext/predicates", KVPRED.fresh(c, "predicates")), c.fresh_const("use_cache", B)]

    def pre(self, c, s):
        return [("at least one predicate", s.args[0].len > 0), ("the number of positions fits", total(KVPRED.pack(s.args[0])) < MAXN), ("distinct names", distinct(KVPRED.pack(s.args[0])))]

    def post(self, c, o, nw, ret):
        f = c.read(nw.this_place).fields
        p, q = o.args[0], f["predicates_"]
        return [("holds the predicates given", z3.And(q.len == p.len, q.arr == p.arr))] + wf(f)


class OnIndex(Contract):
    modifies = ("this",)

    def enter(self, c):
        return fresh_index(c, "index"), self.arguments(c)

    def arguments(self, c):
        return []

    def pre(self, c, s):
        return wf(s.this.fields) + self.requires(c, s)

    def requires(self, c, s):
        return []

    def post(self, c, o, nw, ret):
        return self.ensures(c, o, nw, ret) + kept(c, o, nw)


class Size(OnIndex):
    qname = SIX + "::size"
    modifies = ()

    def ret(self, c, s):
        return KUINT.fresh(c, "size")

    def post(self, c, o, nw, ret):
        return [("is the number of propositions", c.rv(ret) == total(preds(o.this.fields)))]


class GetProp(OnIndex):
    qname = SIX + "::GetProposition"

    def arguments(self, c):
        return [KUINT.fresh(c, "idx")]

    def requires(self, c, s):
        return [("the position is in range", z3.And(0 <= s.args[0], s.args[0] < total(preds(s.this.fields))))]

    def ret(self, c, s):
        return KPROP.fresh(c, "prop")

    def ensures(self, c, o, nw, ret):
        r = c.rv(ret)
        return [("is the proposition at the position", patom(r.fields) == pat(preds(o.this.fields), o.args[0]))] + prop.wfprop(c, r)


class GetPropIndex(OnIndex):
    qname = SIX + "::GetPropositionIndex"

    def arguments(self, c):
        return [c.new_root("ext/prop", KPROP.fresh(c, "prop"))]

    def requires(self, c, s):
        return prop.wfprop(c, s.args[0])

    def throws(self, c, s):
        return z3.Not(isA(preds(s.this.fields), patom(s.args[0].fields)))

    def on_throw(self, c, o, nw, e):
        return kept(c, o, nw)

    def ret(self, c, s):
        return KUINT.fresh(c, "position")

    def ensures(self, c, o, nw, ret):
        return [("is the position of the proposition", c.rv(ret) == pos(preds(o.this.fields), patom(o.args[0].fields)))]


class GetState(OnIndex):
    qname = SIX + "::GetState"

    def arguments(self, c):
        return [KARR.fresh(c, "indexed_state")]

    def requires(self, c, s):
        return [("one element per position", s.args[0].len == total(preds(s.this.fields)))]

    def ret(self, c, s):
        return c.fresh_const("state", STATE)

    def ensures(self, c, o, nw, ret):
        R, v, x = c.rv(ret), preds(o.this.fields), o.args[0]
        return [("contains exactly the propositions at the positions set", FA([a_], holds(R, a_) == z3.And(
            isA(v, a_), x.arr[pos(v, a_)]), holds(R, a_)))]


class GetIndexed(OnIndex):
    qname = SIX + "::GetIndexedState"

    def arguments(self, c):
        return [c.new_root("ext/state", c.fresh_const("state", STATE))]

    def throws(self, c, s):
        return z3.Not(allA(preds(s.this.fields), s.args[0]))

    def on_throw(self, c, o, nw, e):
        return kept(c, o, nw)

    def ret(self, c, s):
        return KARR.fresh(c, "indexed_state")

    def ensures(self, c, o, nw, ret):
        R, v, S = c.rv(ret), preds(o.this.fields), o.args[0]
        return [("has one element per position", R.len == total(v)),
                ("sets exactly the positions of the state's propositions", FA([kk], z3.Implies(
                    z3.And(0 <= kk, kk < total(v)), R.arr[kk] == holds(S, pat(v, kk))), R.arr[kk], pat(v, kk)))]


IMAX = (1 << 31) - 1


MAXN = 1 << 62


class Begin(OnIndex):
    def __init__(self, name):
        self.qname = SIX + "::" + name
        self.at_end = name == "end"
        super().__init__()
    modifies = ()

    def requires(self, c, s):
        return [("the positions fit an int", total(preds(s.this.fields)) <= IMAX)]

    def post(self, c, o, nw, ret):
        r = c.rv(ret).fields
        q = r["state_index_"]
        return [("is of this index", z3.BoolVal(isinstance(q, Ptr) and q.place.root == nw.this_place.root and not q.place.path)),
                ("is at position %s" % ("size" if self.at_end else "0"),
                 r["idx_"] == (total(preds(o.this.fields)) if self.at_end else 0))]


class ItOp(Contract):
    """Operators of the iterator; `what`: (old position, argument) -> new position / result"""
    binary = None            # iterator or number

    def __init__(self, op, effect=None, result=None, arg=None, moves=True, free=False, **kw):
        self.qname = SIX + "::iterator::operator" + op if not free else "symbolic::operator" + op
        self.op, self.effect, self.result, self.arg, self.free = op, effect, result, arg, free
        self.modifies = ("this",) if effect else ()
        super().__init__(**kw)

    def it(self, c, nm_, index):
        p = fresh_index(c, nm_ + ".index") if index is None else None
        root = c.new_root("ext/index of " + nm_, p) if index is None else index
        return Rec(SIX + "::iterator", {"state_index_": Ptr(root), "idx_": c.fresh_const(nm_ + ".idx", IS),
                                        "prop_": KPROP.fresh(c, nm_ + ".prop")})

    def enter(self, c):
        x = self.it(c, "it", None)
        if self.arg == "it":
            return x, [c.new_root("ext/rhs", self.it(c, "rhs", x.fields["state_index_"].place))]
        if self.arg == "n":
            return x, [c.fresh_const("n", IS)]
        if self.arg == "post":
            return x, [z3.IntVal(0)]
        if self.free:
            return None, [c.fresh_const("n", IS), c.new_root("ext/it", x)]
        return x, []

    def pre(self, c, s):
        x = s.args[1].fields if self.free else s.this.fields
        idx, n = x["idx_"], None
        fits = lambda t: z3.And(0 <= t, t <= IMAX)
        out = [("the position fits an int", fits(idx))]
        if self.arg == "n" or self.free:
            n = s.args[0]
            to = idx - n if self.op in ("-", "-=") else idx + n
            out.append(("the new position fits an int", fits(to)))
        if self.op in ("++",):
            out.append(("there is a next position", fits(idx + 1)))
        if self.op in ("--",):
            out.append(("there is a previous position", fits(idx - 1)))
        if self.arg == "it":
            out.append(("the other position fits an int", fits(s.args[0].fields["idx_"])))
        if self.op in ("*", "->", "[]"):
            f = c.read(x["state_index_"].place).fields
            out += wf(f)
            at = idx + n if self.op == "[]" else idx
            out.append(("the position is in range", z3.And(0 <= at, at < total(preds(f)))))
        return out

    def post(self, c, o, nw, ret):
        x = o.args[1].fields if self.free else o.this.fields
        idx = x["idx_"]
        n = o.args[0] if o.args else None
        if isinstance(n, Rec):
            n = n.fields["idx_"]
        if self.op in ("*", "->", "[]"):
            f = c.read(x["state_index_"].place).fields
            r = ret.place if isinstance(ret, Ptr) else ret
            r = c.rv(r)
            at = idx + n if self.op == "[]" else idx
            return [("is the proposition at the position", patom(r.fields) == pat(preds(f), at))] + prop.wfprop(c, r)
        out = []
        if self.effect:
            g = nw.this.fields
            out.append(("moves to the right position", g["idx_"] == self.effect(idx, n)))
            out.append(("stays in its index", c.equal(g["state_index_"], x["state_index_"])))
        if self.result:
            r = ret.place if isinstance(ret, Ptr) else ret
            r = c.rv(r)
            if isinstance(r, Rec):
                out.append(("the result is in the same index", c.equal(r.fields["state_index_"], x["state_index_"])))
                r = r.fields["idx_"]
            out.append(("gives the right result", r == self.result(idx, n)))
        return out


class ItDeref(ItOp):
    modifies = ("this",)

    def __init__(self, op, arg=None):
        super().__init__(op, arg=arg)
        self.modifies = ("this",)

    def post(self, c, o, nw, ret):
        g, x = nw.this.fields, o.this.fields
        return super().post(c, o, nw, ret) + [("does not move", z3.And(g["idx_"] == x["idx_"], c.equal(g["state_index_"], x["state_index_"])))]


def iterator_contracts():
    z = lambda t: "int)" in t
    inc, dec = (lambda i, n: i + 1), (lambda i, n: i - 1)
    out = [ItOp("++", inc, inc, sig=lambda t: "(int)" not in t), ItOp("++", inc, lambda i, n: i, "post", sig=lambda t: "(int)" in t),
           ItOp("--", dec, dec, sig=lambda t: "(int)" not in t), ItOp("--", dec, lambda i, n: i, "post", sig=lambda t: "(int)" in t),
           ItOp("+=", lambda i, n: i + n, lambda i, n: i + n, "n"), ItOp("-=", lambda i, n: i - n, lambda i, n: i - n, "n"),
           ItOp("+", None, lambda i, n: i + n, "n"), ItOp("-", None, lambda i, n: i - n, "n", sig=lambda t: "iterator&" not in t),
           ItOp("-", None, lambda i, n: i - n, "it", sig=lambda t: "iterator&" in t),
           ItOp("+", None, lambda i, n: i + n, free=True, sig=lambda t: "iterator" in t)]
    for op, f in (("==", lambda i, n: i == n), ("!=", lambda i, n: i != n), ("<", lambda i, n: i < n), (">", lambda i, n: i > n),
                  ("<=", lambda i, n: i <= n), (">=", lambda i, n: i >= n)):
        out.append(ItOp(op, None, f, "it"))
    out += [ItDeref("*"), ItDeref("->"), ItDeref("[]", "n")]
    for k in out:
        k.verify_only = True
    return out


class PredCtor(Contract):
    """Predicate(pddl, symbol)"""
    qname = "symbolic::Predicate::Predicate"

    def enter(self, c):
        return None, [c.new_root("ext/pddl", c.fresh_const("pddl", PDDL)), c.fresh_const("predicate", SYM)]

    def pre(self, c, s):
        y = KSYM.pack(s.args[1])
        return [("the declaration is complete", z3.And(y != nullS, field("getPred", y) != nullS))]

    def post(self, c, o, nw, ret):
        f = ret.fields
        y = KSYM.pack(o.args[1])
        P = vseq(f["parameters_"])
        return [("has the name declared", f["name_"] == nameS(field("getPred", y))),
                ("has the parameters declared", P == olist(o.args[0], field("getArgs", y, KSYML))),
                ("enumerates the arguments of its parameters", f["param_gen_"] == genOf(o.args[0], P))]


# ------------------------------------------------------------------ hooks

def to_text(c, qn, fn, this, args, node):
    if fn.get("name") in ("to_string", "to_pddl") and this is not None and not args:
        v = c.rv(this)
        if isinstance(v, Rec) and v.cls == KPROP.cls:
            used("a proposition's text tells it from others")
            t = patom(v.fields)
            if fn["name"] == "to_pddl":
                raise Unsupported("to_pddl of a proposition")
            return text(t)
    return NotImplemented


def gen_more(c, qn, fn, this, args, node):
    if this is None:
        return NotImplemented
    v = c.rv(this)
    if not (z3.is_expr(v) and v.sort() == GEN):
        return NotImplemented
    if fn.get("name") in ("operator[]", "at"):
        i = c.rv(args[0])
        used("ParameterGenerator::operator[] gives the tuple of a position (C05)")
        if fn["name"] == "at":
            if not c.branch(z3.And(0 <= i, i < gsz(v))):
                raise CppThrow("std::out_of_range")
        else:
            c.check("the tuple's position is below the number of tuples", i < gsz(v), node)
            c.check("the tuple's position is not negative", z3.Implies(seen(gsz(v)), i >= 0), node)
        return gen_item(c, v, i)
    if fn.get("name") == "find":
        used("ParameterGenerator::find gives the position of a tuple, compared by name (C05, C08)")
        t = vseq(c.rv(args[0]))
        if not c.branch(fnd(v, t)):
            raise CppThrow("std::out_of_range")
        return fidx(v, t)
    return NotImplemented


def state_iteration(c, qn, fn, this, args, node):
    """Iterating a state visits each of its propositions once (C03)."""
    if this is not None:
        v = c.rv(this)
        if z3.is_expr(v) and v.sort() == STATE:
            nme = fn.get("name")
            if nme in ("begin", "cbegin", "end", "cend"):
                used("iterating a state visits each of its propositions once (C03)")
                p = Place(this.root, this.path) if isinstance(this, Place) else c.temp(v)
                return It(p, z3.IntVal(0) if "begin" in nme else nitems(v))
            if nme == "size":
                return nitems(v)
            if nme == "empty":
                return nitems(v) == 0
            if nme in ("insert", "erase") and len(args) == 1:
                used("insert and erase of states change one atom (C01, C02)")
                x = c.rv(args[0]).fields
                c.check("the hash belongs to the proposition", x["hash_"] == prop.ghash(x["name_"], x["arguments_"]), node)
                at, add = patom(x), nme == "insert"
                new = c.fresh_const("state", STATE)
                c.assume(FA([a_], holds(new, a_) == z3.If(a_ == at, z3.BoolVal(add), holds(v, a_)), holds(new, a_)))
                c.write(Place(this.root, this.path), new)
                return holds(v, at) != z3.BoolVal(add)
    if fn.get("name", "").startswith("operator"):
        xs = ([this] if this is not None else []) + list(args)
        vs = [c.rv(a) for a in xs]
        if vs and isinstance(vs[0], It):
            x = vs[0]
            h = c.read(x.place)
            if not (z3.is_expr(h) and h.sort() == STATE):
                return NotImplemented
            o = fn["name"][len("operator"):]
            if o in ("==", "!="):
                r = c.equal(x, vs[1])
                return r if o == "==" else z3.Not(r)
            if o in ("++", "--"):
                c.write(xs[0], It(x.place, x.idx + 1 if o == "++" else x.idx - 1, x.rev))
                return x if len(xs) > 1 else xs[0]
            if o == "*":
                return c.deref_it(x, node)
    return NotImplemented


def state_item(c, v, i):
    r = KPROP.unpack(sitem(v, i))
    for _, f in prop.wfprop(c, r):
        c.assume(f)
    return r


def eigen(c, qn, fn, this, args, node):
    """Eigen's one-dimensional arrays of bool."""
    if this is not None:
        v = c.rv(this)
        if isinstance(v, Vec) and v.cls == "indexed":
            nme = fn.get("name")
            if nme in ("size", "rows"):
                return v.len
            if nme in ("operator()", "operator[]", "coeff", "coeffRef"):
                i = c.rv(args[0])
                c.check("the element exists", z3.And(0 <= i, i < v.len), node)
                return (this if isinstance(this, Place) else c.temp(v)).i(i)
            raise Unsupported("Eigen " + str(nme))
    return NotImplemented


def constant_array(value):
    def f(c, argnodes, n):
        if len(argnodes) != 1:
            raise Unsupported("Eigen constant")
        ln = c.rv(c.ev(argnodes[0]))
        c.check("the size is not negative", ln >= 0, n)
        return Vec("indexed", KBOOL, ln, z3.K(IS, z3.BoolVal(value)))
    return f


def empty_state(c):
    s = c.fresh_const("state", STATE)
    c.assume(FA([a_], z3.Not(holds(s, a_)), holds(s, a_)))
    return s


def pddl_deref(c, p):
    root = "ext/pddl/" + p.sexpr()
    c.mem.setdefault(root, p)
    return Place(root)


def candidates(c, lp):
    moved = [r for r in lp.entry if r in c.mem and any(h[0] == r for h in lp.havoc)]
    ps = []
    for r in moved:
        x = c.mem[r]
        if isinstance(x, It):
            ps.append((r, x.idx))
        elif z3.is_expr(x) and x.sort() == IS and "/tmp" not in r:
            ps.append((r, x))
    pv = [(r, c.mem[r]) for r in c.mem if isinstance(c.mem[r], Vec) and c.mem[r].ek is KPRED and r not in c.dead]
    pv += [(r + ".predicates_", c.mem[r].fields["predicates_"]) for r in c.mem
           if isinstance(c.mem[r], Rec) and c.mem[r].cls == SIX and isinstance(c.mem[r].fields.get("predicates_"), Vec) and r not in c.dead]
    vecs = [(r, c.mem[r]) for r in moved if isinstance(c.mem[r], Vec)]
    for rp, p in pv:
        v = KVPRED.pack(p)
        for ro, w in vecs:
            if w.ek.sort() == IS:
                yield "%s has the offsets of %s" % (ro, rp), lambda w=w, v=v: z3.And(w.len >= 1, offsets(v, w)[1][1])
                for ri, i in ps:
                    yield "%s has one more than %s" % (ro, ri), lambda w=w, i=i: w.len == i + 1
        for rm in moved:
            m = c.mem[rm]
            if isinstance(m, Abs) and m.model is KMSU.model:
                for ri, i in ps:
                    for nm_, f in indices(v, i, m):
                        yield "%s: %s (before %s of %s)" % (rm, nm_, ri, rp), lambda f=f: f
        for ri, i in ps:
            for rs in moved:
                R = c.mem[rs]
                if z3.is_expr(R) and R.sort() == STATE:
                    for ra in c.mem:
                        x = c.mem[ra]
                        if isinstance(x, Vec) and x.cls == "indexed" and ra not in moved:
                            yield "%s has the propositions of %s before %s" % (rs, ra, ri), lambda R=R, x=x, i=i, v=v: FA(
                                [a_], holds(R, a_) == z3.And(isA(v, a_), pos(v, a_) < i, x.arr[pos(v, a_)]), holds(R, a_))
            for ra, x in vecs:
                if x.cls == "indexed":
                    for rs in c.mem:
                        S = c.mem[rs]
                        if z3.is_expr(S) and S.sort() == STATE and rs not in moved:
                            yield "%s has the positions of the items of %s before %s" % (ra, rs, ri), lambda S=S, x=x, i=i, v=v: FA(
                                [kk], z3.Implies(z3.And(0 <= kk, kk < total(v)), x.arr[kk] == z3.And(
                                    holds(S, pat(v, kk)), sidx(S, pat(v, kk)) < i)), x.arr[kk], pat(v, kk))
                            yield "the items of %s before %s are indexed" % (rs, ri), lambda S=S, i=i, v=v: FA(
                                [ii], z3.Implies(z3.And(0 <= ii, ii < i), isA(v, katom(sitem(S, ii)))), sitem(S, ii))
                    e = lp.entry.get(ra)
                    if isinstance(e, Vec):
                        yield "%s keeps its size" % ra, lambda x=x, e=e: x.len == e.len
    for r in moved:
        x, e = c.mem[r], lp.entry[r]
        if isinstance(x, Rec) and x.cls == SIX and isinstance(e, Rec):
            for f in x.fields:
                if f not in ("cache_propositions_", "cache_idx_propositions_"):
                    yield "%s.%s is as before" % (r, f), lambda f=f, x=x, e=e: identical(c, x.fields[f], e.fields[f])
            for nm_, f in caches(x.fields):
                yield "%s: %s" % (r, nm_), lambda f=f: f


for x in (STR, ATOM, IS, B, KPRED.sort()):
    seen(z3.Const("x", x))


def contracts():
    return [CumSum(), Indices(), Ctor(sig=lambda t: "vector<Predicate>" in t), Size(), GetProp(), GetPropIndex(), GetState(), GetIndexed()]


def install(sp):
    form.install(sp)
    sp.kinds["symbolic::Predicate"] = sp.kinds["Predicate"] = KPRED
    for n in ("unordered_map", "std::unordered_map"):
        sp.kinds[n] = map_kind(sp)
    for n in ("Eigen::Array", "Array", "Eigen::Ref", "Ref", "StateIndex::IndexedState", "IndexedState"):
        sp.kinds[n] = lambda args=None: KARR
    sp.hooks[:0] = [to_text, gen_more, state_iteration, eigen]
    sp.functions = {"Zero": constant_array(False), "Ones": constant_array(True)}
    KSTATE.default = empty_state
    sp.sort_ops[("Pddl", "deref")] = pddl_deref
    sp.sort_ops[("State", "len")] = lambda c, v: nitems(v)
    sp.sort_ops[("State", "item")] = state_item
    sp.base_axioms = sp.base_axioms + basic + state_facts + [x for _, x in SEEN.values()]
    sp.axioms = sp.axioms + basic + state_facts + [f for _, f in laws]
    sp.cands = [candidates]


def tasks(prop_, repo, missing, trusted, assume):
    from ..ast import Program
    from ..verify import Task, fn_tasks
    sp = Spec(Program(SOURCE, repo))
    install(sp)
    use = contracts()
    its = iterator_contracts()
    begins = [Begin("begin"), Begin("end")]
    for k in begins:
        k.verify_only = True
    sp.contracts = use + begins + its + form.assumed()
    assume += form.domain_assumptions() + [
        "iterating a state visits each of its propositions once (proved: C03)",
        "the tuples of a generator differ by name (objects have distinct names)",
        "a proposition's printed text determines it (names contain no parentheses or commas)",
        "every predicate has a parameter and a number of tuples that fits an int; the number of positions fits an int where iterators are used",
        "Eigen's one-dimensional arrays: size, element access, Zero"]
    out = fn_tasks(sp, use + begins + its, missing, prop_)
    from . import eff
    sq = Spec(Program('#include "predicate.cc"\n#include "action.cc"\n', repo))
    eff.install(sq)
    sq.kinds["symbolic::Predicate"] = sq.kinds["Predicate"] = KPRED
    mine = [PredCtor(sig=lambda t: "pred_decl" in t)]
    sq.contracts = mine + eff.assumed_here()
    out += fn_tasks(sq, mine, missing, prop_)
    return out + [Task("lemma", "lemma " + l.name, sp, obj=l) for l in lemmas()]
