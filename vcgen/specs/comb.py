"""CombinationGenerator and its iterators (C05)."""
import z3

from ..engine import *
from ..task import Lemma
from ..values import *

SOURCE = '''
#include "symbolic/utils/parameter_generator.h"
template class symbolic::CombinationGenerator<const std::vector<symbolic::Object>>;
namespace symbolic { namespace {
// Instantiates every member; never executed.
using Gen = CombinationGenerator<const std::vector<Object>>;
template <typename It> void UseAll(It a, It b, std::ptrdiff_t n) {
  ++a; a++; --a; a--; *a; a.operator->(); a == b; a != b; a < b; a > b; a <= b; a >= b;
  a += n; a + n; n + a; a -= n; a - n; a - b; a[n];
}
void Instantiate(Gen g, const Gen& c) {
  UseAll(g.begin(), g.end(), 1);
  UseAll(g.rbegin(), g.rend(), 1);
}
}}
'''

G = "symbolic::CombinationGenerator<const std::vector<symbolic::Object>>"
GI = G + "::Iterator<true>"
GR = G + "::ReverseIterator<" + GI + ">"
IMAX = (1 << 31) - 1
IS = z3.IntSort()
B = z3.BoolSort()
O = z3.DeclareSort("Obj")
KO = KPrim(O, "Obj")
KO.default = lambda c: c.fresh_const("object", O)
A = z3.DeclareSort("VecPtr")       # const std::vector<Object>*, pointee not modified
KA = KPrim(A, "VecPtr")
KVO = KVec("vector", KO)
KVA = KVec("vector", KA)
KVU = KVec("vector", KUINT)
ArrA = z3.ArraySort(IS, A)
ArrO = z3.ArraySort(IS, O)
ArrI = z3.ArraySort(IS, IS)

cont = z3.Function("pointee", A, KVO.sort())
mul = z3.Function("mul", IS, IS, IS)
divf = z3.Function("divf", IS, IS, IS)
modf = z3.Function("modf", IS, IS, IS)
P = z3.Function("prod", ArrA, IS, IS, IS)             # product of the sizes from i on
allne = z3.Function("nonempty", ArrA, IS, B)
rem = z3.Function("rem", ArrA, IS, IS, IS, IS)        # x modulo prod(i)
dig = z3.Function("dig", ArrA, IS, IS, IS, IS)        # i-th digit of x
val = z3.Function("val", ArrI, ArrA, IS, IS, IS)      # rank of the first i digits
okd = z3.Function("digits", ArrI, ArrA, IS, IS, B)    # the first i digits are in range
firstpos = z3.Function("firstpos", KVO.sort(), O, IS)
fd = z3.Function("positions", ArrO, ArrA, ArrI)

o = z3.Const("o", ArrA)
co = z3.Const("co", ArrO)
D = z3.Const("D", ArrI)
ad = z3.Const("ad", A)
vo = z3.Const("vo", KVO.sort())
ob = z3.Const("ob", O)
i, j, k, n, x, y = z3.Ints("i j k n x y")


def sz(oo, jj):
    return KVO.len_of(cont(oo[jj]))


def elem(oo, nn, xx, jj):
    """The jj-th entry of combination xx."""
    return KVO.arr_of(cont(oo[jj]))[dig(oo, nn, xx, jj)]


def legal(p):
    """Triggers must not contain conditional or updated arrays."""
    stack = [p]
    while stack:
        t = stack.pop()
        if z3.is_app(t) and t.decl().kind() in (z3.Z3_OP_ITE, z3.Z3_OP_STORE, z3.Z3_OP_CONST_ARRAY):
            return False
        stack += t.children()
    return True


def FA(vs, f, *pats):
    return z3.ForAll(vs, f, patterns=[p for p in pats if isinstance(p, z3.PatternRef) or legal(p)])


def MP(*t):
    return z3.MultiPattern(*t)


defs = [
    FA([ad], KVO.len_of(cont(ad)) >= 0, cont(ad)),
    FA([o, n, i], z3.Implies(i == n, P(o, n, i) == 1), P(o, n, i)),
    FA([o, n, i, j], z3.Implies(z3.And(0 <= i, i < n, j == i + 1), P(o, n, i) == mul(sz(o, i), P(o, n, j))),
       MP(P(o, n, i), P(o, n, j)), MP(o[i], P(o, n, j))),
    FA([o, n, j], z3.Implies(z3.And(allne(o, n), 0 <= j, j < n), sz(o, j) >= 1), MP(allne(o, n), o[j])),
    FA([o, n], z3.Implies(z3.Not(allne(o, n)), z3.Exists([j], z3.And(0 <= j, j < n, sz(o, j) < 1))), allne(o, n)),
    FA([o, n, x], rem(o, n, x, 0) == x, rem(o, n, x, 0)),
    FA([o, n, x, i], z3.Implies(i == 0, rem(o, n, x, i) == x), rem(o, n, x, i)),
    FA([o, n, x, i, j], z3.Implies(z3.And(0 <= i, i < n, j == i + 1),
                                   rem(o, n, x, j) == rem(o, n, x, i) - mul(dig(o, n, x, i), P(o, n, j))),
       MP(rem(o, n, x, i), rem(o, n, x, j))),
    FA([o, n, x, i], z3.Implies(z3.And(0 <= i, i < n), dig(o, n, x, i) == divf(rem(o, n, x, i), P(o, n, i + 1))),
       dig(o, n, x, i)),
    FA([o, n, x, i, j], z3.Implies(z3.And(0 <= i, i < n, j == i + 1),
                                   dig(o, n, x, i) == divf(rem(o, n, x, i), P(o, n, j))),
       divf(rem(o, n, x, i), P(o, n, j))),
    FA([D, o, n, i], z3.Implies(i == 0, val(D, o, n, i) == 0), val(D, o, n, i)),
    FA([D, o, n, i, j], z3.Implies(z3.And(0 <= i, i < n, j == i + 1),
                                   val(D, o, n, j) == val(D, o, n, i) + mul(D[i], P(o, n, j))),
       MP(val(D, o, n, i), val(D, o, n, j))),
    FA([D, o, n, i, j], z3.Implies(z3.And(okd(D, o, n, i), 0 <= j, j < i), z3.And(0 <= D[j], D[j] < sz(o, j))),
       MP(okd(D, o, n, i), D[j])),
    FA([D, o, n, i], z3.Implies(z3.Not(okd(D, o, n, i)), z3.Exists(
        [j], z3.And(0 <= j, j < i, z3.Or(D[j] < 0, D[j] >= sz(o, j))))), okd(D, o, n, i)),
    # First position of an element (the length when there is none).
    FA([vo, ob], z3.And(0 <= firstpos(vo, ob), z3.Implies(KVO.len_of(vo) >= 0, firstpos(vo, ob) <= KVO.len_of(vo)),
                        z3.Implies(firstpos(vo, ob) < KVO.len_of(vo), KVO.arr_of(vo)[firstpos(vo, ob)] == ob)),
       firstpos(vo, ob)),
    FA([vo, ob, j], z3.Implies(z3.And(0 <= j, j < KVO.len_of(vo), KVO.arr_of(vo)[j] == ob), firstpos(vo, ob) <= j),
       MP(firstpos(vo, ob), KVO.arr_of(vo)[j])),
    FA([co, o, j], fd(co, o)[j] == firstpos(cont(o[j]), co[j]), fd(co, o)[j], MP(fd(co, o), co[j])),
]
# Facts about machine-independent multiplication and division.
arith_facts = [
    FA([x, y], mul(x, y) == mul(y, x), mul(x, y)),
    FA([x, y], z3.Implies(z3.And(x >= 0, y >= 0), mul(x, y) >= 0), mul(x, y)),
    FA([x, y], z3.Implies(z3.And(x >= 0, y > 0), z3.And(0 <= divf(x, y), divf(x, y) <= x)), divf(x, y)),
    FA([x, y], z3.Implies(y != 0, modf(x, y) == x - mul(divf(x, y), y)), modf(x, y)),
]
range_lemmas = {
    "longer prefixes": FA([D, o, n, i], z3.Implies(z3.And(okd(D, o, n, i), 0 <= i, i < n, 0 <= D[i], D[i] < sz(o, i)), z3.And(
            okd(D, o, n, i + 1), val(D, o, n, i + 1) == val(D, o, n, i) + mul(D[i], P(o, n, i + 1)))),
        MP(okd(D, o, n, i), D[i])),
    "suffix products": FA([o, n, i], z3.Implies(z3.And(allne(o, n), 0 <= i, i <= n), z3.And(
        1 <= P(o, n, i), P(o, n, i) <= P(o, n, 0))), P(o, n, i)),
    "remainders": FA([o, n, x, i], z3.Implies(z3.And(allne(o, n), 0 <= x, x < P(o, n, 0), 0 <= i, i <= n), z3.And(
        0 <= rem(o, n, x, i), rem(o, n, x, i) < P(o, n, i), rem(o, n, x, i) <= x)), rem(o, n, x, i)),
    "digits": FA([o, n, x, i], z3.Implies(z3.And(allne(o, n), 0 <= x, x < P(o, n, 0), 0 <= i, i < n), z3.And(
        0 <= dig(o, n, x, i), dig(o, n, x, i) < sz(o, i), dig(o, n, x, i) <= x,
        0 <= mul(dig(o, n, x, i), P(o, n, i + 1)), mul(dig(o, n, x, i), P(o, n, i + 1)) <= rem(o, n, x, i))),
        dig(o, n, x, i)),
    "ranks": FA([D, o, n, i], z3.Implies(z3.And(allne(o, n), 0 <= i, i <= n, okd(D, o, n, i)), z3.And(
        0 <= val(D, o, n, i), val(D, o, n, i) + P(o, n, i) <= P(o, n, 0))), val(D, o, n, i)),
    "digits of a rank": FA([D, o, n, i], z3.Implies(
        z3.And(allne(o, n), okd(D, o, n, n), 0 <= i, i < n), dig(o, n, val(D, o, n, n), i) == D[i]),
        MP(val(D, o, n, n), D[i])),
}


def lemmas():
    """Inductions behind range_lemmas and the enumeration order."""
    oo, nn, xx, yy = z3.Const("o!", ArrA), z3.Int("n!"), z3.Int("x!"), z3.Int("y!")
    ii = z3.Int("i!")
    DD = z3.Const("D!", ArrI)
    # here mul and divf are the mathematical operations
    real = [FA([x, y], mul(x, y) == x * y, mul(x, y)),
            FA([x, y], z3.Implies(y > 0, divf(x, y) == x / y), divf(x, y))]
    Pi = lambda t: P(oo, nn, t)
    R = lambda t, v=xx: rem(oo, nn, v, t)
    Dg = lambda t, v=xx: dig(oo, nn, v, t)
    V = lambda t, d=DD: val(d, oo, nn, t)
    base = [allne(oo, nn), nn >= 0, oo[ii] == oo[ii]]
    s = sz(oo, ii)
    q, r, p, w = z3.Ints("q r p w")
    out = [Lemma("multiplication and division", [
        ("commutes", [], xx * yy == yy * xx),
        ("non-negative product", [xx >= 0, yy >= 0], xx * yy >= 0),
        ("quotient bounds", [xx >= 0, yy > 0], z3.And(0 <= xx / yy, xx / yy <= xx)),
        ("remainder", [yy > 0], xx % yy == xx - (xx / yy) * yy),
        ("mod of a non-negative", [xx >= 0, yy > 0], z3.And(0 <= xx % yy, xx % yy < yy)),
    ])]
    # downwards: P(i) >= 1, P(i) <= P(0) from P(i) >= P(i+1)
    out.append(Lemma("suffix products", [
        ("base", base, Pi(nn) == 1),
        ("step: positive", base + [0 <= ii, ii < nn, Pi(ii + 1) >= 1, Pi(ii) == Pi(ii)], Pi(ii) >= 1),
        ("step: not smaller than the next", base + [0 <= ii, ii < nn, Pi(ii + 1) >= 1, Pi(ii) == Pi(ii)],
         Pi(ii) >= Pi(ii + 1)),
        ("upwards: at most the first", base + [0 <= ii, ii < nn, Pi(ii) <= Pi(0), Pi(ii) >= Pi(ii + 1)],
         Pi(ii + 1) <= Pi(0)),
    ], real))
    pos = [Pi(ii) >= 1, Pi(ii + 1) >= 1]
    inr = base + pos + [0 <= xx, xx < Pi(0), 0 <= ii, ii < nn]
    hyp = inr + [0 <= R(ii), R(ii) < Pi(ii), R(ii) <= xx]
    unfold = [Dg(ii) == Dg(ii), R(ii + 1) == R(ii + 1)]
    out.append(Lemma("remainders and digits", [
        ("base", base + [0 <= xx, xx < Pi(0)], z3.And(0 <= R(0), R(0) < Pi(0), R(0) <= xx)),
        ("digit", hyp + unfold, z3.And(0 <= Dg(ii), Dg(ii) < s)),
        ("digit is at most the number", hyp + unfold, Dg(ii) <= xx),
        ("what is subtracted", hyp + unfold, z3.And(0 <= mul(Dg(ii), Pi(ii + 1)), mul(Dg(ii), Pi(ii + 1)) <= R(ii))),
        ("step", hyp + unfold + [0 <= mul(Dg(ii), Pi(ii + 1)), mul(Dg(ii), Pi(ii + 1)) <= R(ii)],
         z3.And(0 <= R(ii + 1), R(ii + 1) < Pi(ii + 1), R(ii + 1) <= xx)),
        ("nothing remains", base + [0 <= R(nn), R(nn) < Pi(nn)], R(nn) == 0),
    ], real))
    dk = [okd(DD, oo, nn, ii + 1), DD[ii] == DD[ii]]
    vh = base + pos + [0 <= ii, ii < nn, 0 <= V(ii), V(ii) + Pi(ii) <= Pi(0), V(ii + 1) == V(ii + 1)]
    out.append(Lemma("ranks", [
        ("a longer prefix is in range", [okd(DD, oo, nn, ii), 0 <= ii, ii < nn, 0 <= DD[ii], DD[ii] < s],
         z3.And(okd(DD, oo, nn, ii + 1), V(ii + 1) == V(ii) + mul(DD[ii], Pi(ii + 1)))),
        ("a shorter prefix is in range", [okd(DD, oo, nn, ii + 1), 0 <= ii], okd(DD, oo, nn, ii)),
        ("base", base, z3.And(0 <= V(0), V(0) + Pi(0) <= Pi(0))),
        ("step", vh + dk, z3.And(0 <= V(ii + 1), V(ii + 1) + Pi(ii + 1) <= Pi(0))),
    ], real))
    # Any rank has the digits it is made of: rem(val(D, n), i) = val(D, n) - val(D, i) =: t(i) < P(i).
    vn = V(nn)
    Rv = lambda t: rem(oo, nn, vn, t)
    t = lambda u: vn - V(u)
    out.append(Lemma("digits of a rank", [
        ("tail base", base, z3.And(0 <= t(nn), t(nn) < Pi(nn))),
        ("tail step", base + pos + dk + [0 <= ii, ii < nn, 0 <= t(ii + 1), t(ii + 1) < Pi(ii + 1), V(ii) == V(ii)],
         z3.And(0 <= t(ii), t(ii) < Pi(ii))),
        ("remainder base", base, Rv(0) == t(0)),
        ("digit", base + pos + dk + [0 <= ii, ii < nn, Rv(ii) == t(ii), 0 <= t(ii + 1), t(ii + 1) < Pi(ii + 1),
                                     V(ii + 1) == V(ii + 1), dig(oo, nn, vn, ii) == dig(oo, nn, vn, ii)],
         dig(oo, nn, vn, ii) == DD[ii]),
        ("remainder step", base + pos + [0 <= ii, ii < nn, Rv(ii) == t(ii), V(ii + 1) == V(ii + 1),
                                         dig(oo, nn, vn, ii) == DD[ii], Rv(ii + 1) == Rv(ii + 1)],
         Rv(ii + 1) == t(ii + 1)),
    ], real))
    # Ranks order combinations lexicographically (so distinct numbers give
    # distinct combinations), and every combination has a rank.
    lt = z3.Int("l!")
    out.append(Lemma("lexicographic order", [
        # equal digits before l: the remainders keep their difference
        ("equal digits keep the difference", base + pos + [
            0 <= ii, ii < nn, Dg(ii) == Dg(ii, yy), R(ii) - R(ii, yy) == xx - yy,
            R(ii + 1) == R(ii + 1), R(ii + 1, yy) == R(ii + 1, yy)],
         R(ii + 1) - R(ii + 1, yy) == xx - yy),
        ("the smaller number has the smaller digit where they differ", base + pos + [
            0 <= ii, ii < nn, R(ii) < R(ii, yy), 0 <= R(ii), Dg(ii) != Dg(ii, yy)], Dg(ii) < Dg(ii, yy)),
        ("numbers without differing digits are equal", base + [
            R(nn) == 0, R(nn, yy) == 0, R(nn) - R(nn, yy) == xx - yy], xx == yy),
    ], real))
    return out


# ---------------------------------------------------------------- contracts

def gen_value(c, nm="gen"):
    return Rec(G, {"options_": KVA.fresh(c, nm + ".options"), "size_groups_": KVU.fresh(c, nm + ".groups"),
                   "size_": KUINT.fresh(c, nm + ".size")})


def on(g):
    v = g.fields["options_"]
    return v.arr, v.len


def total(oo, nn):
    return z3.If(nn == 0, 0, P(oo, nn, 0))


def fits(oo, nn):
    return ("the number of combinations fits an int", z3.And(FA([i], z3.Implies(
        z3.And(0 <= i, i <= nn), z3.And(0 <= P(oo, nn, i), P(oo, nn, i) <= IMAX)), P(oo, nn, i)), nn <= IMAX))


def wfg(g):
    oo, nn = on(g)
    gr = g.fields["size_groups_"]
    return [("no option is empty", allne(oo, nn)),
            ("one group size per option", gr.len == nn),
            ("group sizes are the suffix products", FA([j], z3.Implies(
                z3.And(0 <= j, j < nn), gr.arr[j] == P(oo, nn, j + 1)), gr.arr[j])),
            ("the size is the product of all option sizes", g.fields["size_"] == total(oo, nn)),
            fits(oo, nn)]


def matches(cb, oo, nn, xx):
    """cb is combination number xx."""
    return z3.And(cb.len == nn, FA([j], z3.Implies(z3.And(0 <= j, j < nn), cb.arr[j] == elem(oo, nn, xx, j)),
                                   cb.arr[j]))


def int_range(t):
    return z3.And(-IMAX - 1 <= t, t <= IMAX)


def wfi(c, it):
    g = c.read(it.fields["gen_"].place)
    oo, nn = on(g)
    cb, idx = it.fields["combination_"], it.fields["idx_"]
    return [("the position is an int", int_range(idx)),
            ("the stored combination is the one at the position", z3.Implies(
                z3.And(0 <= idx, idx < g.fields["size_"]), matches(cb, oo, nn, idx))),
            ("nothing or a whole combination is stored", z3.Or(cb.len == 0, cb.len == nn))]


class Groups(Contract):
    qname = G + "::ComputeGroupSizes"

    def enter(self, c):
        return None, [KVA.fresh(c, "options")]

    def pre(self, c, s):
        v = s.args[0]
        return [fits(v.arr, v.len)]

    def ret(self, c, s):
        return KVU.fresh(c, "groups")

    def post(self, c, o_, nw, ret):
        v = o_.args[0]
        return [("one group size per option", ret.len == v.len),
                ("each is the product of the later option sizes", FA([j], z3.Implies(
                    z3.And(0 <= j, j < v.len), ret.arr[j] == P(v.arr, v.len, j + 1)), ret.arr[j]))]


class TotalSize(Contract):
    qname = G + "::ComputeSize"

    def enter(self, c):
        return None, [KVA.fresh(c, "options"), KVU.fresh(c, "groups")]

    def pre(self, c, s):
        return Groups.pre(self, c, s) + Groups.post(self, c, s, s, s.args[1])

    def ret(self, c, s):
        return c.fresh_const("size", IS)

    def post(self, c, o_, nw, ret):
        v = o_.args[0]
        return [("the product of all option sizes, 0 without options", ret == total(v.arr, v.len))]


class GenCtor(Contract):
    qname = G + "::CombinationGenerator"

    def enter(self, c):
        return None, [KVA.fresh(c, "options")]

    def pre(self, c, s):
        return Groups.pre(self, c, s)

    def throws(self, c, s):
        v = s.args[0]
        return z3.Not(allne(v.arr, v.len))

    def ret(self, c, s):
        return gen_value(c, "new")

    def post(self, c, o_, nw, ret):
        v = o_.args[0]
        oo, nn = on(ret)
        return [("the options are the given ones", z3.And(nn == v.len, FA([j], z3.Implies(
            z3.And(0 <= j, j < nn), oo[j] == v.arr[j]), oo[j])))] + wfg(ret)


class GC(Contract):
    """Member of the generator."""
    nargs = 0

    def enter(self, c):
        return gen_value(c), self.make_args(c)

    def make_args(self, c):
        return []

    def pre(self, c, s):
        return wfg(s.this)


class GSize(GC):
    qname = G + "::size"
    verify_only = True

    def post(self, c, o_, nw, ret):
        return [("the number of combinations", ret == total(*on(o_.this)))]


class GEmpty(GC):
    qname = G + "::empty"
    verify_only = True

    def post(self, c, o_, nw, ret):
        return [("whether there is no combination", ret == (total(*on(o_.this)) == 0))]


def new_iter(c, gp, nm="it"):
    return Rec(GI, {"gen_": Ptr(Place(gp.root, gp.path)), "combination_": KVO.fresh(c, nm + ".combination"),
                    "idx_": c.fresh_const(nm + ".idx", IS)})


def iter_of(c, v):
    """The forward iterator inside v."""
    if isinstance(v, Place):
        v = c.read(v)
    if not isinstance(v, Rec):
        return None
    return v.fields.get("it_", v)


def rank(c, v):
    """Position in iteration order of a forward or reverse iterator."""
    it = iter_of(c, v)
    idx = it.fields["idx_"]
    if "it_" in v.fields:
        g = c.read(it.fields["gen_"].place)
        return g.fields["size_"] - 1 - idx
    return idx


def stays(c, old, new):
    p, q = iter_of(c, old).fields["gen_"].place, iter_of(c, new).fields["gen_"].place
    return ("iterates over the same generator", z3.BoolVal(p.root == q.root and p.path == q.path))


class GBegin(GC):
    end = False
    rev = False

    def ret(self, c, s):
        it = new_iter(c, s.this_place)
        return Rec(GR, {"it_": it}) if self.rev else it

    def post(self, c, o_, nw, ret):
        it = iter_of(c, ret)
        if it is None or ("it_" in ret.fields) != self.rev:
            return [("returns an iterator", z3.BoolVal(False))]
        p = it.fields["gen_"].place
        want = o_.this.fields["size_"] if self.end else z3.IntVal(0)
        return [("an iterator of this generator", z3.BoolVal(p.root == o_.this_place.root and
                                                             p.path == o_.this_place.path)),
                ("at the %s" % ("end" if self.end else "first combination"), rank(c, ret) == want)] + wfi(c, it)


class GAccess(GC):
    qname = G + "::operator[]"

    def make_args(self, c):
        return [c.fresh_const("i", IS)]

    def index(self, s):
        return s.args[0]

    def pre(self, c, s):
        xx = self.index(s)
        return wfg(s.this) + [("a position", z3.And(0 <= xx, xx < s.this.fields["size_"]))]

    def ret(self, c, s):
        return KVO.fresh(c, "combination")

    def post(self, c, o_, nw, ret):
        if not isinstance(ret, Vec):
            return [("returns a combination", z3.BoolVal(False))]
        oo, nn = on(o_.this)
        return [("the combination at the position", matches(ret, oo, nn, self.index(o_)))]


class GAt(GAccess):
    qname = G + "::at"

    def index(self, s):
        a = s.args[0]
        return z3.If(a < 0, a + s.this.fields["size_"], a)

    def pre(self, c, s):
        return wfg(s.this) + [("an int", int_range(s.args[0]))]

    def throws(self, c, s):
        xx = self.index(s)
        return z3.Not(z3.And(0 <= xx, xx < s.this.fields["size_"]))


class GFind(GC):
    qname = G + "::find"

    def make_args(self, c):
        return [KVO.fresh(c, "combination")]

    def pre(self, c, s):
        return wfg(s.this) + [("one element per option", s.args[0].len == on(s.this)[1]),
                              ("there are options", on(s.this)[1] > 0)]

    def positions(self, s):
        oo, nn = on(s.this)
        return fd(s.args[0].arr, oo)

    def throws(self, c, s):
        oo, nn = on(s.this)
        return z3.Not(okd(self.positions(s), oo, nn, nn))

    def ret(self, c, s):
        return c.fresh_const("idx", IS)

    def post(self, c, o_, nw, ret):
        oo, nn = on(o_.this)
        F = self.positions(o_)
        cb = o_.args[0]
        return [("the rank of the elements' positions", ret == val(F, oo, nn, nn)),
                ("a position", z3.And(0 <= ret, ret < o_.this.fields["size_"])),
                ("the combination there is the given one", FA([j], z3.Implies(
                    z3.And(0 <= j, j < nn), elem(oo, nn, ret, j) == cb.arr[j]), cb.arr[j]))]


class ICtor(Contract):
    qname = GI + "::Iterator"
    sig = staticmethod(lambda t: t.endswith("int)"))

    def enter(self, c):
        gp = c.new_root("gen", gen_value(c))
        return None, [Ptr(gp), c.fresh_const("idx", IS)]

    def pre(self, c, s):
        return wfg(c.read(s.args[0].place)) + [("an int", int_range(s.args[1]))]

    def ret(self, c, s):
        return new_iter(c, s.args[0].place)

    def post(self, c, o_, nw, ret):
        p, q = ret.fields["gen_"].place, o_.args[0].place
        return [("iterates over the generator", z3.BoolVal(p.root == q.root and p.path == q.path)),
                ("is at the position", ret.fields["idx_"] == o_.args[1])] + wfi(c, ret)


class IC(Contract):
    """Member of an iterator (forward, or reverse with rev)."""
    rev = False

    def enter(self, c):
        gp = c.new_root("gen", gen_value(c))
        return self.make(c, gp), self.make_args(c, gp)

    def make(self, c, gp, nm="it"):
        it = new_iter(c, gp, nm)
        return Rec(GR, {"it_": it}) if self.rev else it

    def make_args(self, c, gp):
        return []

    def gen(self, c, s):
        return c.read(iter_of(c, s.this).fields["gen_"].place)

    def pre(self, c, s):
        return wfg(self.gen(c, s)) + wfi(c, iter_of(c, s.this))


class IUpdate(IC):
    """UpdateCombination(): from scratch."""
    qname = GI + "::UpdateCombination"
    sig = "void ()"
    modifies = ("this",)

    def pre(self, c, s):
        return wfg(self.gen(c, s)) + [w for w in wfi(c, s.this) if "stored combination" not in w[0]]

    def target(self, s):
        return s.this.fields["idx_"]

    def post(self, c, o_, nw, ret):
        return [stays(c, o_.this, nw.this), ("moves to the position", nw.this.fields["idx_"] == self.target(o_))] + \
            wfi(c, nw.this)


class IUpdateTo(IUpdate):
    sig = "void (int)"

    def make_args(self, c, gp):
        return [c.fresh_const("idx_new", IS)]

    def pre(self, c, s):
        return IC.pre(self, c, s) + [("an int", int_range(s.args[0]))]

    def target(self, s):
        return s.args[0]


class IMove(IC):
    """Moves by `by` positions in iteration order; returns *this."""
    modifies = ("this",)
    returns_this = True
    delta = None
    dist = False

    def make_args(self, c, gp):
        return [c.fresh_const("n", IS)] if self.dist else []

    def by(self, s):
        if not self.dist:
            return z3.IntVal(self.delta)
        return s.args[0] if self.delta > 0 else -s.args[0]

    def target(self, c, s):
        return rank(c, s.this) + self.by(s)

    def pre(self, c, s):
        idx = iter_of(c, s.this).fields["idx_"]
        d = self.by(s)
        return IC.pre(self, c, s) + [("the target is an int", int_range(idx - d if self.rev else idx + d))]

    def post(self, c, o_, nw, ret):
        return [stays(c, o_.this, nw.this), ("moves in iteration order", rank(c, nw.this) == self.target(c, o_))] + \
            wfi(c, iter_of(c, nw.this))


class IPostfix(IMove):
    returns_this = False

    def make_args(self, c, gp):
        return [z3.IntVal(0)]

    def ret(self, c, s):
        return self.make(c, iter_of(c, s.this).fields["gen_"].place)

    def post(self, c, o_, nw, ret):
        if iter_of(c, ret) is None:
            return [("returns an iterator", z3.BoolVal(False))]
        return IMove.post(self, c, o_, nw, ret) + [stays(c, o_.this, ret), (
            "returns the old position", rank(c, ret) == rank(c, o_.this))] + wfi(c, iter_of(c, ret))


class IPlus(IMove):
    """Moved copy."""
    modifies = ()
    returns_this = False
    dist = True

    def ret(self, c, s):
        return self.make(c, iter_of(c, s.this).fields["gen_"].place)

    def post(self, c, o_, nw, ret):
        if iter_of(c, ret) is None:
            return [("returns an iterator", z3.BoolVal(False))]
        return [stays(c, o_.this, ret), ("is at the shifted position", rank(c, ret) == self.target(c, o_))] + \
            wfi(c, iter_of(c, ret))


class IPlusFriend(IPlus):
    """n + it"""
    verify_only = True

    def enter(self, c):
        gp = c.new_root("gen", gen_value(c))
        return None, [c.fresh_const("n", IS), self.make(c, gp)]

    def swap(self, s):
        class V:
            this, args = s.args[1], [s.args[0]]
        return V

    def pre(self, c, s):
        return IPlus.pre(self, c, self.swap(s))

    def post(self, c, o_, nw, ret):
        return IPlus.post(self, c, self.swap(o_), nw, ret)


class IDeref(IC):
    """The stored combination (a reference)."""
    verify_only = True

    def pre(self, c, s):
        r = rank(c, s.this)
        return IC.pre(self, c, s) + [("is at a combination", z3.And(0 <= r, r < self.gen(c, s).fields["size_"]))]

    def post(self, c, o_, nw, ret):
        if isinstance(ret, Ptr):
            ret = ret.place
        v = c.rv(ret)
        if not isinstance(v, Vec):
            return [("the combination at the position", z3.BoolVal(False))]
        oo, nn = on(self.gen(c, o_))
        return [("the combination at the position", matches(v, oo, nn, iter_of(c, o_.this).fields["idx_"]))]


class IIndex(IDeref):
    """it[n]"""
    verify_only = False

    def make_args(self, c, gp):
        return [c.fresh_const("n", IS)]

    def pre(self, c, s):
        r = rank(c, s.this) + s.args[0]
        return IC.pre(self, c, s) + [("a combination is there", z3.And(0 <= r, r < self.gen(c, s).fields["size_"]))]

    def ret(self, c, s):
        return KVO.fresh(c, "combination")

    def post(self, c, o_, nw, ret):
        v = c.rv(ret)
        if not isinstance(v, Vec):
            return [("the combination at the position", z3.BoolVal(False))]
        oo, nn = on(self.gen(c, o_))
        d = o_.args[0]
        idx = iter_of(c, o_.this).fields["idx_"]
        return [("the combination at the shifted position", matches(v, oo, nn, idx - d if self.rev else idx + d))]


class ICompare(IC):
    verify_only = True
    rel = None

    def make_args(self, c, gp):
        return [self.make(c, gp, "rhs")]

    def pre(self, c, s):
        return IC.pre(self, c, s) + [("rhs: " + nm, f) for nm, f in wfi(c, iter_of(c, s.args[0]))]

    def post(self, c, o_, nw, ret):
        p, q = rank(c, o_.this), rank(c, o_.args[0])
        want = {"==": p == q, "!=": p != q, "<": p < q, ">": p > q, "<=": p <= q, ">=": p >= q, "-": p - q}[self.rel]
        return [("compares positions in iteration order" if self.rel != "-" else "the distance", ret == want)]


def contracts():
    out = [Groups(), TotalSize(), GenCtor(), GSize(), GEmpty(), GFind(), GAccess(), GAt(),
           ICtor(), IUpdate(), IUpdateTo()]
    for nm in ("begin", "cbegin", "end", "cend", "rbegin", "crbegin", "rend", "crend"):
        out.append(GBegin(qname=G + "::" + nm, end="end" in nm, rev=nm.lstrip("c").startswith("r")))
    for q, rev in ((GI, False), (GR, True)):
        d = -1 if rev else 1
        op = q + "::operator"
        out += [IMove(qname=op + "++", sig=lambda t: t.endswith("&()"), delta=1, rev=rev),
                IMove(qname=op + "--", sig=lambda t: t.endswith("&()"), delta=-1, rev=rev),
                IPostfix(qname=op + "++", sig=lambda t: t.endswith("(int)"), delta=1, rev=rev),
                IPostfix(qname=op + "--", sig=lambda t: t.endswith("(int)"), delta=-1, rev=rev),
                IMove(qname=op + "+=", delta=1, dist=True, rev=rev),
                IMove(qname=op + "-=", delta=-1, dist=True, rev=rev),
                IPlus(qname=op + "+", delta=1, rev=rev),
                IPlusFriend(qname="symbolic::operator+", delta=1, rev=rev,
                            sig=(lambda t: "<true>" in t and t.startswith("ReverseIterator<")) if rev else
                            (lambda t: t.startswith("Iterator<true>"))),
                IPlus(qname=op + "-", sig=lambda t: "(difference_type)" in t, delta=-1, rev=rev),
                ICompare(qname=op + "-", sig=lambda t: "(difference_type)" not in t, rel="-", rev=rev),
                IDeref(qname=op + "*", rev=rev), IDeref(qname=op + "->", rev=rev),
                IIndex(qname=op + "[]", rev=rev)]
        out += [ICompare(qname=op + r, rel=r, rev=rev) for r in ("==", "!=", "<", ">", "<=", ">=")]
    return out


# ---------------------------------------------------------------- candidates

def gens_in_scope(c, lp):
    """(name, option array, number of options) of what the loop may refer to."""
    seen = []

    def walk(nm, v, depth=0):
        if isinstance(v, Vec) and v.ek is KA:
            if not any(z3.eq(v.arr, a) for _, a, _ in seen):
                seen.append((nm, v.arr, v.len))
        elif isinstance(v, Rec) and depth < 3:
            for f, w in v.fields.items():
                walk(nm + "." + f, w, depth + 1)
    for r in lp.entry:
        if "/tmp" not in r and r in c.mem and not any(h[0] == r and not h[1] for h in lp.havoc):
            walk(r, c.mem[r])
    return seen


def vecs_in_scope(c, lp):
    out = []

    def walk(nm, v, depth=0):
        if isinstance(v, Vec):
            out.append((nm, v))
        elif isinstance(v, Rec) and depth < 3:
            for f, w in v.fields.items():
                walk(nm + "." + f, w, depth + 1)
    for r in lp.entry:
        if r in c.mem:
            walk(r, c.mem[r])
    return out


def candidates(c, lp):
    ints = [(r, c.mem[r]) for r in lp.entry if r in c.mem and z3.is_expr(c.mem[r]) and c.mem[r].sort() == IS]
    moved = [(r, t) for r, t in ints if any(h[0] == r for h in lp.havoc)]
    if not moved:
        return
    entry = int_items(c, lp, lp.entry)
    numbers = [(nm, t) for nm, t in entry if nm.endswith("idx_") or
               any(nm == r for r, _ in ints if not any(h[0] == r for h in lp.havoc))]
    # values an accumulator started from
    numbers += [(nm + "@entry", t) for nm, t in entry if any(nm == r for r, _ in moved)]
    uniq = []
    for nm, t in numbers:
        if not any(z3.eq(t, u) for _, u in uniq) and not z3.is_int_value(z3.simplify(t)):
            uniq.append((nm, t))
    vecs = vecs_in_scope(c, lp)
    for gn, oo, nn in gens_in_scope(c, lp):
        for ri, ti in moved:
            yield "options before %s are not empty" % ri, lambda ti=ti, oo=oo: FA(
                [j], z3.Implies(z3.And(0 <= j, j < ti), sz(oo, j) >= 1), oo[j])
            for rx, tx in moved:
                if rx == ri:
                    continue
                for nm, u in uniq:
                    yield "%s is what remains of %s at %s" % (rx, nm, ri), \
                        lambda tx=tx, u=u, ti=ti, oo=oo, nn=nn: tx == rem(oo, nn, u, ti)
                for vn, v in vecs:
                    if v.ek is KO:
                        yield "%s is the rank of %s before %s" % (rx, vn, ri), \
                            lambda tx=tx, v=v, ti=ti, oo=oo, nn=nn: tx == val(fd(v.arr, oo), oo, nn, ti)
            for vn, v in vecs:
                if v.ek is KO:
                    yield "elements of %s before %s are options" % (vn, ri), \
                        lambda v=v, ti=ti, oo=oo, nn=nn: okd(fd(v.arr, oo), oo, nn, ti)
                    for nm, u in uniq:
                        yield "%s before %s is combination %s" % (vn, ri, nm), \
                            lambda v=v, ti=ti, u=u, oo=oo, nn=nn: FA([j], z3.Implies(
                                z3.And(0 <= j, j < ti), v.arr[j] == elem(oo, nn, u, j)), v.arr[j])
                        yield "%s from %s on is combination %s" % (vn, ri, nm), \
                            lambda v=v, ti=ti, u=u, oo=oo, nn=nn: FA([j], z3.Implies(
                                z3.And(ti <= j, j < nn), v.arr[j] == elem(oo, nn, u, j)), v.arr[j])
                if v.ek in (KUINT, KINT):
                    for rel, cond in (("after", lambda t, jj: t < jj), ("from", lambda t, jj: t <= jj)):
                        yield "%s %s %s holds suffix products" % (vn, rel, ri), \
                            lambda v=v, ti=ti, oo=oo, nn=nn, cond=cond: FA([j], z3.Implies(
                                z3.And(0 <= j, cond(ti, j), j < nn), v.arr[j] == P(oo, nn, j + 1)), v.arr[j])


def deref(c, p):
    root = "pointee/" + p.sexpr()
    if root not in c.mem:
        c.mem[root] = KVO.unpack(cont(p))
    return Place(root)


def install(sp):
    sp.exact = True
    sp.mul_fn, sp.div_fn, sp.mod_fn = mul, divf, modf
    for nm in ("Object", "symbolic::Object"):
        sp.kinds[nm] = KO
    sp.pointer_kind = lambda t: KA if t.replace("symbolic::", "").replace(", allocator<Object>", "").replace(
        ", std::allocator<Object>", "").split("::")[-1] in ("vector<Object>",) else None
    sp.sort_ops[("VecPtr", "deref")] = deref
    sp.axioms = defs + arith_facts + list(range_lemmas.values())
    sp.base_axioms = defs
    sp.cands = [candidates]


def tasks(prop, repo, missing, trusted, assume):
    from ..ast import Program
    from ..verify import Task, fn_tasks
    sp = Spec(Program(SOURCE, repo))
    install(sp)
    sp.contracts = contracts()
    assume += ["the sequences a generator refers to are not modified while it is used (they are const)",
               "Object == is identity of an abstract object (decided by C08)",
               "the number of combinations fits an int (the type of positions)",
               "the instance CombinationGenerator<const std::vector<Object>> is verified; the template text is shared"]
    out = fn_tasks(sp, sp.contracts, missing)
    out += [Task("lemma", "lemma " + l.name, sp, obj=l) for l in lemmas()]
    return out
