"""UniqueVector, HashSet and its iterators (used by C01, C02, C03)."""
import os

import z3

from ..engine import *
from ..task import Lemma
from ..values import *

E = z3.DeclareSort("Prop")
KE = KPrim(E, "Prop")
KV = KVec("UniqueVector", KE)
KB = KVec("vector", KV)
KH = KRec("symbolic::HashSet<symbolic::Proposition>", [("buckets_", KB), ("size_", KUINT)])
SetS = z3.ArraySort(E, z3.BoolSort())
IS = z3.IntSort()
ArrE = z3.ArraySort(IS, E)

lt = z3.Function("lt", E, E, z3.BoolSort())
hsh = z3.Function("hash", E, IS)
strof = z3.Function("to_string", E, STR)
inV = z3.Function("inV", ArrE, IS, E, z3.BoolSort())
posV = z3.Function("posV", ArrE, IS, E, IS)
inR = z3.Function("inR", ArrE, IS, IS, E, z3.BoolSort())   # among positions [i, j)
posR = z3.Function("posR", ArrE, IS, IS, E, IS)

card = z3.Function("card", SetS, IS)
emptyset = z3.K(E, z3.BoolVal(False))
VS = KV.sort()
ArrV = z3.ArraySort(IS, VS)
view = z3.Function("view", ArrV, IS, SetS)       # elements of buckets
total = z3.Function("total", ArrV, IS, IS)     # elements in the first n buckets
tower = z3.Function("tower", IS, z3.BoolSort())  # of the form 2^k - 1, k >= 1
modu = z3.Function("modu", IS, IS, IS)

e, f, g = z3.Consts("e f g", E)
i, j, k, n = z3.Ints("i j k n")
a = z3.Const("a", ArrE)
va = z3.Const("va", ArrV)
vv = z3.Const("vv", VS)
hh = z3.Const("hh", KH.sort())
S = z3.Const("S", SetS)


def vlen(v):
    return KV.len_of(v)


def varr(v):
    return KV.arr_of(v)


def inVec(v, x):
    return inV(varr(v), vlen(v), x)


def sorted_arr(ar, ln, c=None, ii=None, jj=None):
    return z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < ln), lt(ar[i], ar[j])),
                     patterns=[z3.MultiPattern(ar[i], ar[j])])


def bucket_of(x, nb):
    return modu(hsh(x), nb)


order = [
    z3.ForAll([e], z3.Not(lt(e, e)), patterns=[lt(e, e)]),
    z3.ForAll([e, f], z3.Or(lt(e, f), lt(f, e), e == f), patterns=[lt(e, f)]),
    z3.ForAll([e, f, g], z3.Implies(z3.And(lt(e, f), lt(f, g)), lt(e, g)),
              patterns=[z3.MultiPattern(lt(e, f), lt(f, g))]),
    z3.ForAll([e, f], z3.Not(z3.And(lt(e, f), lt(f, e))), patterns=[lt(e, f)]),
]
hashax = [z3.ForAll([e], hsh(e) >= 0, patterns=[hsh(e)]),
          # modu is %, kept opaque with the facts the proofs need
          z3.ForAll([i, n], z3.Implies(z3.And(i >= 0, n > 0), z3.And(0 <= modu(i, n), modu(i, n) < n)),
                    patterns=[modu(i, n)])]
# Membership of a sequence (definition of inV with its witness).
member = [
    z3.ForAll([a, n, e, k], z3.Implies(z3.And(0 <= k, k < n, a[k] == e), inV(a, n, e)),
              patterns=[z3.MultiPattern(inV(a, n, e), a[k])]),
    z3.ForAll([a, n, e], z3.Implies(inV(a, n, e), z3.And(0 <= posV(a, n, e), posV(a, n, e) < n,
                                                         a[posV(a, n, e)] == e)),
              patterns=[inV(a, n, e)]),
    z3.ForAll([a, n, e], z3.Implies(n >= 0, inV(a, n + 1, e) == z3.Or(inV(a, n, e), a[n] == e)),
              patterns=[inV(a, n + 1, e)]),
    z3.ForAll([a, e], z3.Not(inV(a, 0, e)), patterns=[inV(a, 0, e)]),
    z3.ForAll([vv, k], z3.Implies(z3.And(0 <= k, k < vlen(vv)), inVec(vv, varr(vv)[k])),
              patterns=[varr(vv)[k]]),
]
member += [
    z3.ForAll([a, i, j, e, k], z3.Implies(z3.And(i <= k, k < j, a[k] == e), inR(a, i, j, e)),
              patterns=[z3.MultiPattern(inR(a, i, j, e), a[k])]),
    z3.ForAll([a, i, j, e], z3.Implies(inR(a, i, j, e), z3.And(
        i <= posR(a, i, j, e), posR(a, i, j, e) < j, a[posR(a, i, j, e)] == e)),
        patterns=[inR(a, i, j, e)]),
    z3.ForAll([a, i, n, e], z3.Implies(n >= i, inR(a, i, n + 1, e) == z3.Or(inR(a, i, n, e), a[n] == e)),
              patterns=[inR(a, i, n + 1, e)]),
]
viewax = [z3.ForAll([va, n, e], view(va, n)[e] == inVec(va[bucket_of(e, n)], e), patterns=[view(va, n)[e]]),
          # a consequence of the definition, stated for the update
          z3.ForAll([va, i, vv, n, e], view(z3.Store(va, i, vv), n)[e] ==
                    z3.If(bucket_of(e, n) == i, inVec(vv, e), view(va, n)[e]),
                    patterns=[view(z3.Store(va, i, vv), n)[e]])]
cardax = [
    card(emptyset) == 0,
    z3.ForAll([S, e], card(z3.Store(S, e, True)) == card(S) + z3.If(S[e], 0, 1),
              patterns=[card(z3.Store(S, e, True))]),
    z3.ForAll([S, e], card(z3.Store(S, e, False)) == card(S) - z3.If(S[e], 1, 0),
              patterns=[card(z3.Store(S, e, False))]),
    z3.ForAll([S], card(S) >= 0, patterns=[card(S)]),
    z3.ForAll([S, e], z3.Implies(S[e], card(S) >= 1), patterns=[z3.MultiPattern(card(S), S[e])]),
]
# total(a, n) = sum of the lengths of a[0..n-1]
totax = [
    z3.ForAll([va], total(va, 0) == 0, patterns=[total(va, 0)]),
]
towerax = [
    tower(1),
    z3.ForAll([n], z3.Implies(tower(n), z3.And(n >= 1, tower(2 * n + 1))), patterns=[tower(n)]),
    z3.ForAll([n], z3.Implies(z3.And(tower(n), n > 1), z3.And(n % 2 == 1, n >= 3, tower((n - 1) / 2))),
              patterns=[tower(n)]),
]


def total_step(v, x):
    return total(v, x + 1) == total(v, x) + vlen(v[x])


def hash_fields(h):
    """(bucket array, bucket count, size) of a HashSet value."""
    b = h.fields["buckets_"]
    return b.arr, b.len, h.fields["size_"]


def only_hash(h):
    return Rec(KH.cls, {"buckets_": h.fields["buckets_"], "size_": h.fields["size_"]})


def packed(h):
    return KH.pack(only_hash(h))


def placed(bs, nb):
    """Every element is in the bucket of its hash; buckets are sorted."""
    b, b2 = z3.Ints("b b2")
    ar = lambda x: varr(bs[x])
    return [
        ("there is a bucket", nb >= 1),
        ("lengths are non-negative",
         z3.ForAll([b], z3.Implies(z3.And(0 <= b, b < nb), vlen(bs[b]) >= 0), patterns=[bs[b]])),
        ("elements are in the bucket of their hash",
         z3.ForAll([b, k], z3.Implies(z3.And(0 <= b, b < nb, 0 <= k, k < vlen(bs[b])),
                                      bucket_of(ar(b)[k], nb) == b), patterns=[ar(b)[k]])),
        ("buckets are sorted",
         z3.ForAll([b, i, j], z3.Implies(z3.And(0 <= b, b < nb, 0 <= i, i < j, j < vlen(bs[b])),
                                         lt(ar(b)[i], ar(b)[j])),
                   patterns=[z3.MultiPattern(ar(b)[i], ar(b)[j])]))]


def canonical(nb, size):
    return z3.And(tower(nb), size <= nb, z3.Or(nb == 1, size > (nb - 1) / 2))


BIG = 1 << 30


def wf(h, canon=True, first=()):
    bs, nb, size = hash_fields(h)
    out = placed(bs, nb) + list(first) + [
           ("size is the number of elements", size == card(view_of(h)))]
    if canon:
        out.append(("bucket count is the canonical one for the size", canonical(nb, size)))
    return out


def small(h):
    """Fewer than 2^30 buckets: int indices and 2n+1 do not overflow."""
    return ("fewer than 2^30 buckets", h.fields["buckets_"].len < BIG)


def wfx(h):
    return z3.And([x for _, x in wf(h)])


# ------------------------------------------------------------ UniqueVector

class UV(Contract):
    def enter(self, c):
        v = KV.fresh(c, "v")
        return v, [c.fresh_const("val", E)]

    def pre(self, c, s):
        return [("sorted", sorted_arr(s.this.arr, s.this.len))]


UVQ = "symbolic::UniqueVector<symbolic::Proposition>::"


class UVContains(UV):
    qname = UVQ + "contains"

    def ret(self, c, s):
        return c.fresh_const("contains", z3.BoolSort())

    def post(self, c, o, nw, ret):
        return [("result is membership", ret == inV(o.this.arr, o.this.len, o.args[0]))]


def bucket_update(c, o, present):
    """When the sequence is a bucket: the effect on the elements of all buckets."""
    p = o.this_place
    if p is None or not p.path or p.path[-1][0] != "i":
        return
    bs = c.read(Place(p.root, p.path[:-1]))
    if isinstance(bs, Vec) and z3.is_store(bs.arr):
        yield ("elements of all buckets after the update",
               view(bs.arr, bs.len) == z3.Store(view(bs.arr.arg(0), bs.len), o.args[0], present))


class UVInsert(UV):
    qname = UVQ + "insert"
    modifies = ("this",)

    def ret(self, c, s):
        return c.fresh_const("inserted", z3.BoolSort())

    def post(self, c, o, nw, ret):
        x = o.args[0]
        had = inV(o.this.arr, o.this.len, x)
        na, nl = nw.this.arr, nw.this.len
        return [("sorted", sorted_arr(na, nl)),
                ("true exactly when the value was absent", ret == z3.Not(had)),
                ("length", nl == o.this.len + z3.If(had, 0, 1)),
                ("contains exactly the old elements and the value", z3.ForAll(
                    [e], inV(na, nl, e) == z3.Or(inV(o.this.arr, o.this.len, e), e == x),
                    patterns=[inV(na, nl, e)])),
                ("unchanged when the value was present", z3.Implies(had, z3.And(na == o.this.arr))),
                ]

    def after_call(self, c, o, nw, ret):
        return bucket_update(c, o, z3.BoolVal(True))


class UVInsertMove(UVInsert):
    modifies = ("this", 0)


class UVErase(UV):
    qname = UVQ + "erase"
    modifies = ("this",)

    def ret(self, c, s):
        return c.fresh_const("erased", z3.BoolSort())

    def post(self, c, o, nw, ret):
        x = o.args[0]
        had = inV(o.this.arr, o.this.len, x)
        na, nl = nw.this.arr, nw.this.len
        return [("sorted", sorted_arr(na, nl)),
                ("true exactly when the value was present", ret == had),
                ("length", nl == o.this.len - z3.If(had, 1, 0)),
                ("contains exactly the old elements without the value", z3.ForAll(
                    [e], inV(na, nl, e) == z3.And(inV(o.this.arr, o.this.len, e), e != x),
                    patterns=[inV(na, nl, e)])),
                ("unchanged when the value was absent", z3.Implies(z3.Not(had), na == o.this.arr))]

    def after_call(self, c, o, nw, ret):
        return bucket_update(c, o, z3.BoolVal(False))


# ------------------------------------------------------------ HashSet

HQ = "symbolic::HashSet<symbolic::Proposition>::"


class HS(Contract):
    nargs = 1

    def enter(self, c):
        h = KH.fresh(c, "h")
        return self.wrap(h), [c.fresh_const("x", E) for _ in range(self.nargs)]

    def wrap(self, h):
        return h

    def pre(self, c, s):
        return wf(s.this) + [small(s.this)]

    def extra_hyps(self, c, s):
        pass


def view_of(h):
    b = h.fields["buckets_"]
    return view(b.arr, b.len)


class HContains(HS):
    qname = HQ + "contains"

    def ret(self, c, s):
        return c.fresh_const("contains", z3.BoolSort())

    def post(self, c, o, nw, ret):
        return [("result is membership", ret == view_of(o.this)[o.args[0]])]


class HInsert(HS):
    qname = HQ + "insert"
    modifies = ("this",)

    def ret(self, c, s):
        return c.fresh_const("inserted", z3.BoolSort())

    def post(self, c, o, nw, ret):
        x = o.args[0]
        v = view_of(o.this)
        return wf(nw.this, first=[
            ("true exactly when the element was absent", ret == z3.Not(v[x])),
            ("contents are the old contents and the element", view_of(nw.this) == z3.Store(v, x, True))])


class HInsertMove(HInsert):
    modifies = ("this", 0)


class HErase(HS):
    qname = HQ + "erase"
    modifies = ("this",)

    def ret(self, c, s):
        return c.fresh_const("erased", z3.BoolSort())

    def post(self, c, o, nw, ret):
        x = o.args[0]
        v = view_of(o.this)
        return wf(nw.this, first=[
            ("true exactly when the element was present", ret == v[x]),
            ("contents are the old contents without the element", view_of(nw.this) == z3.Store(v, x, False))])


class HSize(HS):
    qname = HQ + "size"
    nargs = 0

    def ret(self, c, s):
        return c.fresh_const("size", IS)

    verify_only = True

    def pre(self, c, s):
        return [x for x in wf(s.this)]

    def post(self, c, o, nw, ret):
        return [("result is the number of elements", ret == card(view_of(o.this)))]


class HEmpty(HSize):
    qname = HQ + "empty"

    def ret(self, c, s):
        return c.fresh_const("empty", z3.BoolSort())

    def post(self, c, o, nw, ret):
        return [("true exactly when there is no element", ret == (card(view_of(o.this)) == 0))]


class HRehash(HS):
    qname = HQ + "Rehash"
    modifies = ("this",)

    def enter(self, c):
        h = KH.fresh(c, "h")
        nb = c.fresh_const("num_buckets", IS)
        return self.wrap(h), [nb]

    def pre(self, c, s):
        bs, nb, size = hash_fields(s.this)
        return placed(bs, nb) + [small(s.this),
                ("at least one new bucket", z3.And(s.args[0] >= 1, s.args[0] <= 2 * BIG))]

    def post(self, c, o, nw, ret):
        bs, nb, size = hash_fields(nw.this)
        return placed(bs, nb) + [
                ("bucket count", nb == o.args[0]),
                ("size field is unchanged", size == o.this.fields["size_"]),
                ("contents are unchanged", view_of(nw.this) == view_of(o.this))]


class HDefault(Contract):
    qname = HQ + "HashSet"
    sig = "void ()"

    def enter(self, c):
        return None, []

    def ret(self, c, s):
        return KH.fresh(c, "empty")

    def post(self, c, o, nw, ret):
        return wf(nw.this, first=[("no elements", view_of(nw.this) == emptyset)])


class HInitList(Contract):
    qname = HQ + "HashSet"
    sig = "void (std::initializer_list<Proposition>)"

    def enter(self, c):
        return None, [KVec("vector", KE).fresh(c, "l")]

    def pre(self, c, s):
        return [("fewer than 2^29 elements", s.args[0].len < (1 << 29))]

    def ret(self, c, s):
        return KH.fresh(c, "set")

    def post(self, c, o, nw, ret):
        l = o.args[0]
        return wf(nw.this) + [("contains exactly the listed elements", z3.ForAll(
            [e], view_of(nw.this)[e] == inV(l.arr, l.len, e), patterns=[view_of(nw.this)[e]]))]


# hook: hash<...>::operator() on the abstract element
def hash_hook(c, q, fn, this, args, node):
    if fn.get("name") == "operator()" and "hash<symbolic::Prop" in q:
        from ..stl import used
        v = c.rv(args[0])
        if z3.is_expr(v) and v.sort() == E:
            return hsh(v)
    if fn.get("name") in ("operator==", "operator!=", "operator<") and len(args) == 2:
        x, y = c.rv(args[0]), c.rv(args[1])
        if z3.is_expr(x) and z3.is_expr(y) and x.sort() == E and y.sort() == E:
            return {"operator==": x == y, "operator!=": x != y, "operator<": lt(x, y)}[fn["name"]]
    if fn.get("name") == "to_string" and this is not None:
        v = c.rv(this)
        if z3.is_expr(v) and v.sort() == E:
            return strof(v)
    if fn.get("name") == "hash" and this is not None:
        v = c.rv(this)
        if z3.is_expr(v) and v.sort() == E:
            return hsh(v)
    return NotImplemented


def install(sp):
    for nm in ("symbolic::Proposition", "symbolic::PropositionBase", "Proposition", "PropositionBase",
               "symbolic::PropositionRef"):
        sp.kinds[nm] = KE
    sp.sort_ops[("Prop", "<")] = lambda c, x, y: lt(x, y)
    sp.sort_ops[("Prop", "==")] = lambda c, x, y: x == y
    sp.sort_ops[("Prop", "!=")] = lambda c, x, y: x != y
    sp.hooks.append(hash_hook)
    sp.mod_fn = modu
    sp.kinds["symbolic::State"] = KS
    sp.kinds["symbolic::PartialState"] = KP
    for nm in ("std::string", "basic_string", "string"):
        sp.kinds[nm] = KSTR
    sp.skip_int = lambda c, lp, nm: nm.endswith(".size_") or nm.endswith(".idx_in_bucket_")
    def state_op(op):
        def f(c, x, y):
            fs = c.prog.find("symbolic::operator" + op, "bool " + SS2)
            if len(fs) != 1:
                raise Unsupported("operator%s on states" % op)
            return c.call(fs[0], None, [x, y])
        return f
    for op in ("<", "==", "!="):
        sp.sort_ops[("symbolic::State", op)] = state_op(op)
    sp.construct = construct_hook
    sp.throw_hook = throw_hook
    sp.base_axioms = order + hashax + member + viewax + cardax + totax + towerax
    sp.axioms = list(sp.base_axioms)


def bucket_positions(c, lp):
    """Index terms that can stand for a bucket / a position in a bucket: values
    of iterators over a vector of buckets (over a bucket), or changed integers."""
    outer, inner = [], []
    ints = []
    for r in lp.entry:
        v = c.mem.get(r)
        if isinstance(v, It):
            try:
                s = c.read(v.place)
            except Unsupported:
                continue
            if isinstance(s, Vec) and isinstance(s.ek, KVec):
                outer.append((r, v.idx))
            elif isinstance(s, Vec):
                inner.append((r, v.idx))
        elif z3.is_expr(v) and v.sort() == IS and any(h[0] == r for h in c.task.all_havoc()):
            ints.append((r, v))
    return outer + ints, inner + ints


def set_roots(c, lp):
    """Modified objects that hold a bucket array."""
    out = []
    for r in sorted({h[0] for h in lp.havoc}):
        v = c.mem.get(r)
        if isinstance(v, Rec) and isinstance(v.fields.get("buckets_"), Vec) and \
                z3.is_expr(v.fields.get("size_")):
            out.append((r, v))
    return out


def set_candidates(c, lp):
    """Invariants of loops that fill or rearrange bucket arrays."""
    ent = getattr(c, "entry", None)
    for r, this in set_roots(c, lp):
        for nm, x in wf(this):
            yield (r + ": " + nm, lambda x=x: x)
        outer, inner = bucket_positions(c, lp)
        zero = ("0", z3.IntVal(0))
        if r == "this" and ent is not None and isinstance(ent.this, Rec):
            yield from rehash_candidates(c, lp, this, ent, outer, inner)
        # Elements taken from a sequence so far.
        e0 = lp.entry.get(r)
        if not isinstance(e0, Rec):
            continue
        try:
            v0 = view_of(e0)
        except (AttributeError, KeyError):
            continue
        for rs in lp.entry:
            sq = c.mem.get(rs)
            if not (isinstance(sq, Vec) and z3.eq(sq.arr.sort().range(), E)
                    if isinstance(sq, Vec) and z3.is_expr(sq.arr) else False):
                continue
            for nx, x in inner:
                yield ("%s: old elements and those of %s before %s" % (r, rs, nx),
                       lambda this=this, v0=v0, sq=sq, x=x: z3.ForAll(
                           [e], view_of(this)[e] == z3.Or(v0[e], inV(sq.arr, x, e)),
                           patterns=[view_of(this)[e], inV(sq.arr, x, e)]))
                yield ("%s: at most %s more elements" % (r, nx),
                       lambda this=this, e0=e0, x=x: this.fields["size_"] <= e0.fields["size_"] + x)
                lo = lp.entry.get(nx)
                if isinstance(lo, It):
                    lo = lo.idx
                if z3.is_expr(lo) and not z3.is_int_value(lo):
                    yield ("%s: old elements and those of %s from entry to %s" % (r, rs, nx),
                           lambda this=this, v0=v0, sq=sq, x=x, lo=lo: z3.ForAll(
                               [e], view_of(this)[e] == z3.Or(v0[e], inR(sq.arr, lo, x, e)),
                               patterns=[view_of(this)[e]]))
                    yield ("%s: at most %s - entry more elements" % (r, nx),
                           lambda this=this, e0=e0, x=x, lo=lo:
                           this.fields["size_"] <= e0.fields["size_"] + x - lo)
        # Flags that record whether the set changed.
        for nb in lp.entry:
            x = c.mem.get(nb)
            if z3.is_expr(x) and x.sort() == z3.BoolSort():
                yield ("%s set exactly when %s grew" % (nb, r), lambda this=this, e0=e0, x=x, v0=v0: z3.And(
                    x == (this.fields["size_"] > e0.fields["size_"]),
                    this.fields["size_"] >= e0.fields["size_"],
                    z3.Implies(z3.Not(x), view_of(this) == v0)))


def rehash_candidates(c, lp, this, ent, outer, inner):
    b0, n0, s0 = hash_fields(ent.this)
    b, kk = z3.Ints("b k")

    # Elements moved so far: those at positions before (x, y) of the entry buckets.
    def moved(x, y):
        p = bucket_of(e, n0)
        inside = inVec(b0[p], e)
        pos = posV(varr(b0[p]), vlen(b0[p]), e)
        before = z3.Or(p < x, z3.And(p == x, pos < y))
        return z3.ForAll([e], view_of(this)[e] == z3.And(inside, before),
                         patterns=[view_of(this)[e]])

    def rest(vec, x, y):
        # positions from (x, y) on still hold the entry elements
        return z3.And(
            z3.ForAll([b], z3.Implies(z3.And(0 <= b, b < n0), vlen(vec.arr[b]) == vlen(b0[b])),
                      patterns=[vec.arr[b]]),
            z3.ForAll([b, kk], z3.Implies(z3.And(0 <= b, b < n0, 0 <= kk, kk < vlen(b0[b]),
                                                 z3.Or(b > x, z3.And(b == x, kk >= y))),
                                          varr(vec.arr[b])[kk] == varr(b0[b])[kk]),
                      patterns=[varr(vec.arr[b])[kk]]))
    zero = ("0", z3.IntVal(0))
    for nx, x in outer:
        for ny, y in inner + [zero]:
            if nx == ny:
                continue
            yield ("moved before (%s,%s)" % (nx, ny), lambda x=x, y=y: moved(x, y))
            for r in lp.entry:
                vec = c.mem.get(r)
                if isinstance(vec, Vec) and isinstance(vec.ek, KVec):
                    yield ("%s from (%s,%s) is untouched" % (r, nx, ny),
                           lambda vec=vec, x=x, y=y: rest(vec, x, y))


SOURCE = """
#include "state.cc"
template class symbolic::HashSet<symbolic::Proposition>;
template class symbolic::UniqueVector<symbolic::Proposition>;
namespace symbolic {
void verif_use(UniqueVector<Proposition>& v, HashSet<Proposition>& h, const Proposition& p,
               const PropositionBase& b, State& s, PartialState& ps) {
  v.insert(p); h.insert(p); h.insert(b); h.contains(b); h.erase(b);
  std::vector<Proposition> l; s.insert(l.begin(), l.end());
  std::hash<State>{}(s);
  State s0; PartialState p0; State s2(s); s2 = s; PartialState p2(ps); p2 = ps;
}
}
"""



# ------------------------------------------------------------ State

SQ = "symbolic::State::"
KS = KRec("symbolic::State", KH.flds)
KS.real = True


class OfState:
    def wrap(self, h):
        return Rec("symbolic::State", h.fields)

    def ret_set(self, c):
        return KS.fresh(c, "state")


class SContains(OfState, HContains):
    qname = SQ + "contains"


class SInsert(OfState, HInsert):
    qname = SQ + "insert"


class SInsertMove(OfState, HInsertMove):
    qname = SQ + "insert"


class SErase(OfState, HErase):
    qname = SQ + "erase"


class SSize(OfState, HSize):
    qname = SQ + "size"


class SEmpty(OfState, HEmpty):
    qname = SQ + "empty"


class SInsertRange(OfState, HS):
    """insert(first, last) over a vector."""
    qname = SQ + "insert"
    modifies = ("this",)

    def enter(self, c):
        h = KH.fresh(c, "h")
        l = c.new_root("range", KVec("vector", KE).fresh(c, "range"))
        return self.wrap(h), [It(l, c.fresh_const("first", IS)), It(l, c.fresh_const("last", IS))]

    def pre(self, c, s):
        f, l = s.args
        if not (isinstance(f, It) and isinstance(l, It) and f.place.shape() == l.place.shape()):
            raise Unsupported("range insert from something else than a vector")
        v = c.read(f.place)
        if not isinstance(v, Vec):
            raise Unsupported("range insert from something else than a vector")
        return wf(s.this) + [small(s.this), ("valid range", z3.And(0 <= f.idx, f.idx <= l.idx, l.idx <= v.len)),
                ("fewer than 2^29 elements", s.this.fields["size_"] + l.idx - f.idx < (1 << 29))]

    def ret(self, c, s):
        return c.fresh_const("changed", z3.BoolSort())

    def post(self, c, o, nw, ret):
        f, l = o.args
        v = c.read(f.place)
        v0, v1 = view_of(o.this), view_of(nw.this)
        return wf(nw.this) + [
            ("contains exactly the old elements and those of the range", z3.ForAll(
                [e], v1[e] == z3.Or(v0[e], inR(v.arr, f.idx, l.idx, e)), patterns=[v1[e]])),
            ("true exactly when the state changed", ret == (v0 != v1))]


class SInitList(OfState, HInitList):
    qname = SQ + "State"

    def ret(self, c, s):
        return self.ret_set(c)


# ------------------------------------------------------------ PartialState

PQ = "symbolic::PartialState::"
KP = KRec("symbolic::PartialState", [("pos_", KS), ("neg_", KS)])
KP.real = True


def pos_neg(p):
    return view_of(p.fields["pos_"]), view_of(p.fields["neg_"])


def disjoint(p):
    x, y = pos_neg(p)
    return z3.ForAll([e], z3.Not(z3.And(x[e], y[e])), patterns=[x[e], y[e]])


def wfp(p):
    return [(w + ": " + nm, f) for w in ("pos_", "neg_")
            for nm, f in wf(p.fields[w]) + [small(p.fields[w])]]


class PS(Contract):
    nargs = 1

    def enter(self, c):
        return KP.fresh(c, "ps"), [c.fresh_const("x", E) for _ in range(self.nargs)]

    def pre(self, c, s):
        return wfp(s.this)


class PInsert(PS):
    qname = PQ + "insert"
    modifies = ("this",)
    to = 0

    def pre(self, c, s):
        return wfp(s.this) + [("the two sets are disjoint", disjoint(s.this))]

    def ret(self, c, s):
        return c.fresh_const("change", IS)

    def post(self, c, o, nw, ret):
        x = o.args[0]
        old, new = pos_neg(o.this), pos_neg(nw.this)
        a, b = self.to, 1 - self.to
        return [("the value becomes known", z3.And(
                     new[a] == z3.Store(old[a], x, True), new[b] == z3.Store(old[b], x, False))),
                ("0 unchanged, 1 became known, 2 flipped",
                 ret == z3.If(old[a][x], 0, z3.If(old[b][x], 2, 1))),
                ("the two sets stay disjoint", disjoint(nw.this))] + wfp_nosmall(nw.this)


def wfp_nosmall(p):
    return [(w + ": " + nm, f) for w in ("pos_", "neg_") for nm, f in wf(p.fields[w])]


class PInsertMove(PInsert):
    modifies = ("this", 0)


class PErase(PInsert):
    qname = PQ + "erase"
    to = 1


class PEraseMove(PErase):
    modifies = ("this", 0)


class PContains(PS):
    qname = PQ + "contains"
    which = 0

    def ret(self, c, s):
        return c.fresh_const("holds", z3.BoolSort())

    def throws(self, c, s):
        x, y = pos_neg(s.this)
        return z3.Not(z3.Or(x[s.args[0]], y[s.args[0]]))

    def pre(self, c, s):
        return wfp(s.this) + [("the two sets are disjoint", disjoint(s.this))]

    def on_throw(self, c, o, nw, ex):
        named = ex.val.fields.get("prop_") if isinstance(ex.val, Rec) else None
        ok = z3.is_expr(named) and named.sort() == E
        return [("the error is UnknownEvaluation", z3.BoolVal(ex.what.split("::")[-1] == "UnknownEvaluation")),
                ("the error names the proposition", named == o.args[0] if ok else z3.BoolVal(False))]

    def post(self, c, o, nw, ret):
        x, y = pos_neg(o.this)
        return [("the known value", ret == (x, y)[self.which][o.args[0]])]


class PNotContains(PContains):
    qname = PQ + "does_not_contain"
    which = 1



# ------------------------------------------------------------ iterators
#
# A position is (bucket, index): either an existing element or (count, 0), the
# end. next_pos relates a position to the one after it in bucket order.

def valid_pos(bs, nb, b, kk):
    return z3.Or(elem_pos(bs, nb, b, kk), z3.And(b == nb, kk == 0))


def elem_pos(bs, nb, b, kk):
    return z3.And(0 <= b, b < nb, 0 <= kk, kk < vlen(bs[b]))


def empty_between(bs, lo, hi):
    """Buckets lo..hi-1 are empty."""
    return z3.ForAll([j], z3.Implies(z3.And(lo <= j, j < hi), vlen(bs[j]) == 0), patterns=[bs[j]])


def at_or_after(bs, nb, b, kk, b2, k2):
    """(b2, k2) is the first position at or after slot (b, kk)."""
    return z3.If(z3.And(b < nb, kk < vlen(bs[b])), z3.And(b2 == b, k2 == kk),
                 z3.And(k2 == 0, b2 <= nb, z3.If(b < nb, b2 > b, b2 == nb),
                        empty_between(bs, b + 1, b2),
                        z3.Implies(b2 < nb, vlen(bs[b2]) > 0)))


def next_pos(bs, nb, b, kk, b2, k2):
    return at_or_after(bs, nb, b, kk + 1, b2, k2)


def at_or_before(bs, nb, b, kk, b2, k2):
    """(b2, k2) is the last element at or before slot (b, kk)."""
    return z3.If(kk >= 0, z3.And(b2 == b, k2 == kk),
                 z3.And(b2 < b, empty_between(bs, b2 + 1, b), b2 >= -1,
                        z3.If(b2 >= 0, z3.And(vlen(bs[b2]) > 0, k2 == vlen(bs[b2]) - 1), k2 == -1)))


def has_before(bs, b, kk):
    return z3.Or(kk > 0, z3.Exists([j], z3.And(0 <= j, j < b, vlen(bs[j]) > 0)))


KIT = {}


class IT(Contract):
    """Iterators: the buckets they point to, and a position."""
    cls = HQ + "const_iterator"

    def enter(self, c):
        h = KH.fresh(c, "h")
        hp = c.new_root("set", h)
        return self.make(c, hp), []

    def make(self, c, hp):
        return Rec(self.cls, {"buckets_": Ptr(Place(hp.root, hp.path + (("f", "buckets_"),))),
                              "idx_bucket_": c.fresh_const("b", IS),
                              "idx_in_bucket_": c.fresh_const("k", IS)})

    def parts(self, c, it):
        v = c.read(it.fields["buckets_"].place)
        return v.arr, v.len, it.fields["idx_bucket_"], it.fields["idx_in_bucket_"]

    def base_pre(self, c, s):
        bs, nb, b, kk = self.parts(c, s.this)
        return [("fewer than 2^30 buckets", z3.And(nb >= 0, nb < BIG)),
                ("lengths are below 2^31", z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < nb), z3.And(
                    0 <= vlen(bs[j]), vlen(bs[j]) < (1 << 31) - 1)), patterns=[bs[j]]))]

    def same_set(self, c, o, nw):
        p, q = o.this.fields["buckets_"].place, nw.this.fields["buckets_"].place
        return ("stays on its set", z3.BoolVal(p.root == q.root and p.path == q.path))


class ItFindNext(IT):
    name = "FindNextElement"
    modifies = ("this",)

    def pre(self, c, s):
        bs, nb, b, kk = self.parts(c, s.this)
        return self.base_pre(c, s) + [("slot", z3.And(0 <= b, b <= nb, 0 <= kk, kk < (1 << 31)))]

    def post(self, c, o, nw, ret):
        bs, nb, b, kk = self.parts(c, o.this)
        _, _, b2, k2 = self.parts(c, nw.this)
        return [self.same_set(c, o, nw),
                ("a position", valid_pos(bs, nb, b2, k2)),
                ("the first position at or after the slot", at_or_after(bs, nb, b, kk, b2, k2))]


class ItFindPrev(IT):
    name = "FindPreviousElement"
    modifies = ("this",)

    def pre(self, c, s):
        bs, nb, b, kk = self.parts(c, s.this)
        return self.base_pre(c, s) + [("slot", z3.And(0 <= b, b <= nb, -1 <= kk,
                                                      z3.Implies(kk >= 0, z3.And(b < nb, kk < vlen(bs[b])))))]

    def post(self, c, o, nw, ret):
        bs, nb, b, kk = self.parts(c, o.this)
        _, _, b2, k2 = self.parts(c, nw.this)
        return [self.same_set(c, o, nw),
                ("the last element at or before the slot", at_or_before(bs, nb, b, kk, b2, k2))]


class ItInc(IT):
    name = "operator++"
    modifies = ("this",)
    returns_this = True

    def pre(self, c, s):
        bs, nb, b, kk = self.parts(c, s.this)
        return self.base_pre(c, s) + [("not at the end", elem_pos(bs, nb, b, kk))]

    def post(self, c, o, nw, ret):
        bs, nb, b, kk = self.parts(c, o.this)
        _, _, b2, k2 = self.parts(c, nw.this)
        return [self.same_set(c, o, nw), ("a position", valid_pos(bs, nb, b2, k2)),
                ("the next position", next_pos(bs, nb, b, kk, b2, k2))]


class ItDec(IT):
    name = "operator--"
    modifies = ("this",)
    returns_this = True

    def pre(self, c, s):
        bs, nb, b, kk = self.parts(c, s.this)
        return self.base_pre(c, s) + [("a position", valid_pos(bs, nb, b, kk)),
                                      ("not at the beginning", has_before(bs, b, kk))]

    def post(self, c, o, nw, ret):
        bs, nb, b, kk = self.parts(c, o.this)
        _, _, b2, k2 = self.parts(c, nw.this)
        return [self.same_set(c, o, nw), ("an element", elem_pos(bs, nb, b2, k2)),
                ("its next position is the old one", next_pos(bs, nb, b2, k2, b, kk))]


class Postfix:
    returns_this = False
    verify_only = True

    def enter(self, c):
        this, _ = super().enter(c)
        return this, [z3.IntVal(0)]

    def post(self, c, o, nw, ret):
        if not isinstance(ret, Rec):
            return [("returns an iterator", z3.BoolVal(False))]
        return super().post(c, o, nw, ret) + [
            ("returns the old position", z3.And([ret.fields[f] == o.this.fields[f]
                                                 for f in ("idx_bucket_", "idx_in_bucket_")]))]


class ItIncPost(Postfix, ItInc):
    pass


class ItDecPost(Postfix, ItDec):
    pass


class ItDeref(IT):
    name = "operator*"
    verify_only = True

    def pre(self, c, s):
        bs, nb, b, kk = self.parts(c, s.this)
        return self.base_pre(c, s) + [("not at the end", elem_pos(bs, nb, b, kk))]

    def post(self, c, o, nw, ret):
        bs, nb, b, kk = self.parts(c, o.this)
        if isinstance(ret, Ptr):
            ret = ret.place
        if not isinstance(ret, Place):
            return [("refers to the element at the position", z3.BoolVal(False))]
        return [("refers to the element at the position", c.read(ret) == varr(bs[b])[kk])]


class ItArrow(ItDeref):
    name = "operator->"


class ItEq(IT):
    name = "operator=="
    verify_only = True
    eq = True

    def enter(self, c):
        h = c.new_root("set", KH.fresh(c, "h"))
        return self.make(c, h), [self.make(c, h)]

    def post(self, c, o, nw, ret):
        x, y = o.this.fields, o.args[0].fields
        same = z3.And([x[f] == y[f] for f in ("idx_bucket_", "idx_in_bucket_")])
        return [("compares positions", ret == (same if self.eq else z3.Not(same)))]


class ItNe(ItEq):
    name = "operator!="
    eq = False


class HBegin(HS):
    qname = HQ + "begin"
    nargs = 0
    cls = HQ + "const_iterator"

    def pre(self, c, s):
        bs, nb, size = hash_fields(s.this)
        return wf(s.this) + [small(s.this), ("bucket lengths are below 2^31", z3.ForAll([j], z3.Implies(
            z3.And(0 <= j, j < nb), vlen(bs[j]) < (1 << 31) - 1), patterns=[bs[j]]))]

    def ret(self, c, s):
        return IT.make(self, c, s.this_place)

    def post(self, c, o, nw, ret):
        bs, nb, size = hash_fields(o.this)
        if not isinstance(ret, Rec):
            return [("returns an iterator", z3.BoolVal(False))]
        p, t = ret.fields["buckets_"].place, o.this_place
        b, kk = ret.fields["idx_bucket_"], ret.fields["idx_in_bucket_"]
        return [("points to this set", z3.BoolVal(p.root == t.root and p.path == t.path + (("f", "buckets_"),))),
                ] + self.where(bs, nb, b, kk)

    def where(self, bs, nb, b, kk):
        return [("a position", valid_pos(bs, nb, b, kk)),
                ("the first position", at_or_after(bs, nb, z3.IntVal(0), z3.IntVal(0), b, kk))]


class HEnd(HBegin):
    qname = HQ + "end"

    def where(self, bs, nb, b, kk):
        return [("past the last bucket", z3.And(b == nb, kk == 0))]


class SBegin(OfState, HBegin):
    qname = SQ + "begin"


class SEnd(OfState, HEnd):
    qname = SQ + "end"


def iterator_contracts():
    out = []
    for cls in ("const_iterator", "iterator"):
        q = HQ + cls
        const = cls == "const_iterator"
        for K in (ItFindNext, ItFindPrev, ItInc, ItDec, ItIncPost, ItDecPost, ItDeref, ItArrow, ItEq, ItNe):
            sig = None
            if K.name in ("operator++", "operator--"):
                post = issubclass(K, Postfix)
                sig = (lambda t: t.endswith("(int)")) if post else (lambda t: t.endswith("()"))
            out.append(K(cls=q, qname=q + "::" + K.name, sig=sig))
        for K in (HBegin, HEnd, SBegin, SEnd):
            out.append(K(cls=q, sig=(lambda t: t.endswith("const")) if const else
                         (lambda t: not t.endswith("const"))))
    return out


def rank_lemmas():
    """Walking from begin with ++ meets every element position exactly once."""
    bs = z3.Const("bs", ArrV)
    nb, b1, k1, b2, k2, x, y = z3.Ints("nb b1 k1 b2 k2 x y")
    lens = z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < nb), vlen(bs[j]) >= 0), patterns=[bs[j]])
    step = lambda q: z3.Implies(z3.And(0 <= q, q < nb), total_step(bs, q))
    allstep = z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < nb), total_step(bs, j)), patterns=[bs[j]])
    rank = lambda b, kk: total(bs, b) + kk
    mono = z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i <= j, j <= nb), total(bs, i) <= total(bs, j)),
                     patterns=[z3.MultiPattern(total(bs, i), total(bs, j))])
    H = [nb >= 0, lens]
    out = [Lemma("offsets grow", [
        ("base", H + [0 <= x, x <= nb], total(bs, x) <= total(bs, x)),
        ("step", H + [0 <= x, x <= y, y < nb, total(bs, x) <= total(bs, y), step(y), vlen(bs[y]) >= 0],
         total(bs, x) <= total(bs, y + 1))])]
    flat = z3.Implies(empty_between(bs, x, y), total(bs, x) == total(bs, y))
    out.append(Lemma("empty buckets add nothing", [
        ("base", H + [0 <= x, x <= nb], total(bs, x) == total(bs, x)),
        ("step", H + [0 <= x, x <= y, y < nb, empty_between(bs, x, y + 1),
                      z3.Implies(empty_between(bs, x, y), total(bs, x) == total(bs, y)), step(y),
                      vlen(bs[y]) == vlen(bs[y])],
         total(bs, x) == total(bs, y + 1))]))
    flatx = lambda p, q: z3.Implies(z3.And(0 <= p, p <= q, q <= nb, empty_between(bs, p, q)),
                                    total(bs, p) == total(bs, q))
    out.append(Lemma("positions have distinct ranks", [
        ("rank determines the position", H + [mono, step(b1), step(b2),
         z3.Implies(z3.And(0 <= b1, b1 < b2, b2 <= nb), total(bs, b1 + 1) <= total(bs, b2)),
         z3.Implies(z3.And(0 <= b2, b2 < b1, b1 <= nb), total(bs, b2 + 1) <= total(bs, b1)),
         valid_pos(bs, nb, b1, k1), valid_pos(bs, nb, b2, k2), rank(b1, k1) == rank(b2, k2)],
         z3.And(b1 == b2, k1 == k2)),
        ("element ranks are 0..total-1", H + [mono, step(b1), elem_pos(bs, nb, b1, k1), total(bs, 0) == 0,
                                              total(bs, 0) <= total(bs, b1), total(bs, b1 + 1) <= total(bs, nb)],
         z3.And(0 <= rank(b1, k1), rank(b1, k1) < total(bs, nb)))]))
    out.append(Lemma("iteration visits ranks in order", [
        ("begin has rank 0", H + [total(bs, 0) == 0, valid_pos(bs, nb, b1, k1),
                                  at_or_after(bs, nb, z3.IntVal(0), z3.IntVal(0), b1, k1), step(0),
                                  flatx(z3.IntVal(1), b1)], rank(b1, k1) == 0),
        ("++ raises the rank by one", H + [elem_pos(bs, nb, b1, k1), valid_pos(bs, nb, b2, k2), step(b1),
                                           next_pos(bs, nb, b1, k1, b2, k2), flatx(b1 + 1, b2)],
         rank(b2, k2) == rank(b1, k1) + 1),
        ("end has rank total", H, rank(nb, z3.IntVal(0)) == total(bs, nb))]))
    pl = [f for _, f in placed(bs, nb)]
    out.append(Lemma("positions and elements correspond", [
        ("the element at a position is contained", pl + [elem_pos(bs, nb, b1, k1)],
         view(bs, nb)[varr(bs[b1])[k1]]),
        ("every element is at a position", pl + [view(bs, nb)[e]],
         z3.Exists([i, j], z3.And(elem_pos(bs, nb, i, j), varr(bs[i])[j] == e))),
        ("no element is at two positions", pl + [elem_pos(bs, nb, b1, k1), elem_pos(bs, nb, b2, k2),
                                                 varr(bs[b1])[k1] == varr(bs[b2])[k2],
                                                 bucket_of(varr(bs[b1])[k1], nb) == bucket_of(varr(bs[b2])[k2], nb)],
         z3.And(b1 == b2, k1 == k2))]))
    return out


def iter_candidates(c, lp):
    """Invariants of loops that move a position over buckets."""
    for r in lp.entry:
        v, v0 = c.mem.get(r), lp.entry.get(r)
        if not any(h[0] == r for h in lp.havoc):
            continue
        if not (isinstance(v, Rec) and "idx_bucket_" in v.fields and isinstance(v.fields.get("buckets_"), Ptr)):
            continue
        try:
            q = c.read(v.fields["buckets_"].place)
        except Unsupported:
            continue
        bs, nb = q.arr, q.len
        b, kk = v.fields["idx_bucket_"], v.fields["idx_in_bucket_"]
        b0, k0 = v0.fields["idx_bucket_"], v0.fields["idx_in_bucket_"]
        if not (z3.is_expr(b) and z3.is_expr(b0)):
            continue
        yield r + ": slot forward", lambda b=b, b0=b0, kk=kk, k0=k0, bs=bs, nb=nb: z3.Or(
            z3.And(b == b0, kk == k0), z3.And(b > b0, kk == 0, b <= nb, vlen(bs[b0]) <= k0))
        yield r + ": only empty buckets passed", lambda b=b, b0=b0, bs=bs: empty_between(bs, b0 + 1, b)
        yield r + ": slot backward", lambda b=b, b0=b0, kk=kk, k0=k0, bs=bs, nb=nb: z3.Or(
            z3.And(b == b0, kk == k0), z3.And(b >= 0, b < b0, k0 < 0, kk == vlen(bs[b]) - 1))
        yield r + ": only empty buckets passed backward", lambda b=b, b0=b0, bs=bs: empty_between(bs, b + 1, b0)
        yield r + ": within the buckets", lambda b=b, nb=nb: z3.And(0 <= b, b < nb)
        for r2 in lp.entry:
            p = c.mem.get(r2)
            if isinstance(p, Ptr) and p.place is not None and p.place.idx_terms():
                yield "%s points to the bucket of %s" % (r2, r), lambda p=p, b=b: p.place.idx_terms()[-1] == b


class PIsConsistent(PS):
    qname = PQ + "IsConsistent"
    nargs = 0

    def pre(self, c, s):
        out = wfp(s.this)
        for w in ("pos_", "neg_"):
            bs, nb, _ = hash_fields(s.this.fields[w])
            out.append((w + ": bucket lengths are below 2^31", z3.ForAll([j], z3.Implies(
                z3.And(0 <= j, j < nb), vlen(bs[j]) < (1 << 31) - 1), patterns=[bs[j]])))
        return out

    def ret(self, c, s):
        return c.fresh_const("consistent", z3.BoolSort())

    def post(self, c, o, nw, ret):
        return [("true exactly when no proposition is in both sets", ret == disjoint(o.this))]


class SStringify(OfState, HS):
    qname = SQ + "Stringify"
    nargs = 0

    def pre(self, c, s):
        bs, nb, size = hash_fields(s.this)
        return wf(s.this) + [small(s.this), ("bucket lengths are below 2^31", z3.ForAll([j], z3.Implies(
            z3.And(0 <= j, j < nb), vlen(bs[j]) < (1 << 31) - 1), patterns=[bs[j]]))]

    def post(self, c, o, nw, ret):
        if not (isinstance(ret, Abs) and isinstance(ret.model, StrSet)):
            return [("returns a set of strings", z3.BoolVal(False))]
        t = z3.Const("t", STR)
        v = view_of(o.this)
        return [("contains the text of every proposition", z3.ForAll(
                    [e], z3.Implies(v[e], ret.data[strof(e)]), patterns=[v[e], strof(e)])),
                ("contains nothing else", z3.ForAll([t], z3.Implies(ret.data[t], z3.Exists(
                    [e], z3.And(v[e], strof(e) == t))), patterns=pat(ret.data[t])))]


class StrSet:
    """std::unordered_set<std::string>."""
    def __repr__(self):
        return "unordered_set<string>"

    def fresh(self, c, v, base):
        return Abs(self, c.fresh_const(base, v.data.sort()))

    def method(self, c, b, v, name, argnodes, n):
        from ..stl import used
        used("std::unordered_set::" + name)
        if name == "reserve":
            c.val(argnodes[0])
            return VOID
        if name in ("insert", "emplace") and len(argnodes) == 1:
            x = c.val(argnodes[0])
            if z3.is_expr(x) and x.sort() == STR:
                c.write(b, Abs(self, z3.Store(v.data, x, True)))
                return Rec("pair", {"first": Abs(self, None), "second": z3.Not(v.data[x])})
        raise Unsupported("unordered_set::" + name)


def construct_hook(c, t, args, n, ct):
    if t.startswith("std::unordered_set<") and not [a for a in args if a["kind"] != "CXXDefaultArgExpr"]:
        return Abs(StrSet(), z3.K(STR, z3.BoolVal(False)))
    return NotImplemented


def visit_candidates(c, lp):
    """What holds of the elements a position iterator has passed."""
    for r in lp.entry:
        v, v0 = c.mem.get(r), lp.entry.get(r)
        if not any(h[0] == r for h in lp.havoc):
            continue
        if not (isinstance(v, Rec) and "idx_bucket_" in v.fields and isinstance(v.fields.get("buckets_"), Ptr)):
            continue
        try:
            q = c.read(v.fields["buckets_"].place)
        except Unsupported:
            continue
        bs, nb = q.arr, q.len
        b, kk = v.fields["idx_bucket_"], v.fields["idx_in_bucket_"]
        if not (z3.is_expr(b) and z3.is_expr(kk)):
            continue
        if not z3.is_expr(bs) or not z3.eq(bs.sort().range(), VS):
            continue
        yield r + ": a position", lambda b=b, kk=kk, bs=bs, nb=nb: valid_pos(bs, nb, b, kk)

        def passed(x, b=b, kk=kk, bs=bs, nb=nb):
            p = bucket_of(x, nb)
            pos = posV(varr(bs[p]), vlen(bs[p]), x)
            return z3.And(view(bs, nb)[x], z3.Or(p < b, z3.And(p == b, pos < kk)))
        for nm, w in list(views_in_scope(c, lp)):
            yield ("%s: no element passed is in %s" % (r, nm), lambda w=w, passed=passed, bs=bs, nb=nb: z3.ForAll(
                [e], z3.Implies(passed(e), z3.Not(w[e])), patterns=[view(bs, nb)[e]]))
            yield ("%s: every element passed is in %s" % (r, nm), lambda w=w, passed=passed, bs=bs, nb=nb: z3.ForAll(
                [e], z3.Implies(passed(e), w[e]), patterns=[view(bs, nb)[e]]))
        t = z3.Const("t", STR)
        for r2 in lp.entry:
            x = c.mem.get(r2)
            if isinstance(x, Abs) and isinstance(x.model, StrSet) and x.data is not None:
                yield ("%s holds the text of what %s passed" % (r2, r), lambda x=x, passed=passed, bs=bs, nb=nb: z3.ForAll(
                    [e], z3.Implies(passed(e), x.data[strof(e)]), patterns=[view(bs, nb)[e]]))
                yield ("%s holds only text of what %s passed" % (r2, r), lambda x=x, passed=passed, bs=bs, nb=nb: z3.ForAll(
                    [t], z3.Implies(x.data[t], z3.Exists([e], z3.And(view(bs, nb)[e], strof(e) == t))),
                    patterns=pat(x.data[t])))


def pat(t):
    """Trigger list; z3 chooses when the term is no legal trigger."""
    stack = [t]
    while stack:
        x = stack.pop()
        if z3.is_app(x) and x.decl().kind() in (z3.Z3_OP_ITE, z3.Z3_OP_STORE, z3.Z3_OP_CONST_ARRAY):
            return []
        stack += x.children()
    return [t]


def views_in_scope(c, lp):
    def sub(nm, v):
        if isinstance(v, Rec):
            if isinstance(v.fields.get("buckets_"), Vec):
                yield nm, view_of(v)
            else:
                for f, x in v.fields.items():
                    yield from sub(nm + "." + f, x)
    for r in lp.entry:
        yield from sub(r, c.mem.get(r))


# ------------------------------------------------------------ comparison

same = z3.Function("sameseq", VS, VS, z3.BoolSort())
diff = z3.Function("diffelem", VS, VS, E)
VB = KB.sort()
hlt = z3.Function("lexlt_" + str(VB), VB, VB, z3.BoolSort())
v1, v2 = z3.Consts("v1 v2", VS)


def sortedv(v):
    return sorted_arr(varr(v), vlen(v))


def seq_same(v, w):
    return z3.And(vlen(v) == vlen(w), z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < vlen(v)), varr(v)[i] == varr(w)[i]),
                                                patterns=[varr(v)[i], varr(w)[i]]))


# same(v, w): equal as sequences; diff: an element only one of them has.
compax = [
    z3.ForAll([v1, v2], z3.Implies(same(v1, v2), seq_same(v1, v2)), patterns=[same(v1, v2)]),
    z3.ForAll([v1, v2], z3.Implies(z3.And(vlen(v1) >= 0, vlen(v2) >= 0, sortedv(v1), sortedv(v2),
                                          inVec(v1, diff(v1, v2)) == inVec(v2, diff(v1, v2))),
                                   same(v1, v2)), patterns=[same(v1, v2)]),
]
tower_le = z3.ForAll([i, j], z3.Implies(z3.And(tower(i), tower(j), i < j), 2 * i + 1 <= j),
                     patterns=[z3.MultiPattern(tower(i), tower(j))])


def compare_lemmas():
    x, y, z = z3.Ints("x y z")
    A, B = z3.Consts("A B", VS)
    mem = z3.ForAll([e], inVec(A, e) == inVec(B, e), patterns=[inVec(A, e), inVec(B, e)])
    H = [vlen(A) >= 0, vlen(B) >= 0, sortedv(A), sortedv(B), mem]
    pre = lambda n: z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), varr(A)[i] == varr(B)[i]),
                              patterns=[varr(A)[i], varr(B)[i]])
    p, q = posV(varr(B), vlen(B), varr(A)[x]), posV(varr(A), vlen(A), varr(B)[x])
    at = [inVec(A, varr(A)[x]), inVec(B, varr(B)[x])]
    return [
        Lemma("bucket counts of one size are equal", [
            ("2n+1 <= m for counts n < m: n = 1", [tower(x), tower(y), x < y, x == 1, tower((y - 1) / 2)],
             2 * x + 1 <= y),
            ("2n+1 <= m for counts n < m: step", [tower(x), tower(y), x < y, x > 1,
             z3.Implies((x - 1) / 2 < (y - 1) / 2, 2 * ((x - 1) / 2) + 1 <= (y - 1) / 2)], 2 * x + 1 <= y),
            ("canonical counts", [canonical(x, z), canonical(y, z),
                                  z3.Implies(x < y, 2 * x + 1 <= y), z3.Implies(y < x, 2 * y + 1 <= x)], x == y)]),
        Lemma("strictly sorted sequences with the same elements are equal", [
            ("element x agrees when all before do", H + [0 <= x, x < vlen(A), x < vlen(B), pre(x)] +
             [inVec(A, varr(A)[x]), inVec(B, varr(B)[x]), inVec(B, varr(A)[x]), inVec(A, varr(B)[x]),
              varr(A)[q] == varr(A)[q], varr(B)[p] == varr(B)[p]], varr(A)[x] == varr(B)[x]),
            ("first is not longer", H + [pre(vlen(B)), vlen(A) > vlen(B), x == vlen(B), inVec(A, varr(A)[x]),
                                         inVec(B, varr(A)[x])], z3.BoolVal(False)),
            ("second is not longer", H + [pre(vlen(A)), vlen(B) > vlen(A), x == vlen(A), inVec(B, varr(B)[x]),
                                          inVec(A, varr(B)[x])], z3.BoolVal(False))]),
        Lemma("the order of pairs is a strict total order consistent with equality", pair_order()),
    ]


def pair_order():
    """Given that lexlt is one (assumed of std::vector's operator<)."""
    p, q, r = [z3.Consts("%s1 %s2" % (w, w), VB) for w in "pqr"]
    eqv = z3.Function("eqv", VB, VB, z3.BoolSort())
    A, B, C = z3.Consts("A B C", VB)
    hyp = [z3.ForAll([A], z3.And(eqv(A, A), z3.Not(hlt(A, A))), patterns=[hlt(A, A), eqv(A, A)]),
           z3.ForAll([A, B], z3.And(eqv(A, B) == eqv(B, A), z3.Or(hlt(A, B), hlt(B, A)) == z3.Not(eqv(A, B)),
                                    z3.Not(z3.And(hlt(A, B), hlt(B, A)))), patterns=[hlt(A, B), eqv(A, B)]),
           z3.ForAll([A, B, C], z3.Implies(z3.And(hlt(A, B), hlt(B, C)), hlt(A, C)),
                     patterns=[z3.MultiPattern(hlt(A, B), hlt(B, C))]),
           z3.ForAll([A, B, C], z3.Implies(z3.And(eqv(A, B), hlt(B, C)), hlt(A, C)),
                     patterns=[z3.MultiPattern(eqv(A, B), hlt(B, C))]),
           z3.ForAll([A, B, C], z3.Implies(z3.And(hlt(A, B), eqv(B, C)), hlt(A, C)),
                     patterns=[z3.MultiPattern(hlt(A, B), eqv(B, C))])]
    less = lambda x, y: z3.Or(hlt(x[0], y[0]), z3.And(z3.Not(hlt(y[0], x[0])), hlt(x[1], y[1])))
    return [("irreflexive", hyp, z3.Not(less(p, p))),
            ("transitive", hyp, z3.Implies(z3.And(less(p, q), less(q, r)), less(p, r))),
            ("one of <, >, equal", hyp, z3.And(
                z3.Or(less(p, q), less(q, p)) == z3.Not(z3.And(eqv(p[0], q[0]), eqv(p[1], q[1]))),
                z3.Not(z3.And(less(p, q), less(q, p)))))]


HS2 = "(const HashSet<Proposition> &, const HashSet<Proposition> &)"


class HEq(Contract):
    qname = "symbolic::operator=="
    sig = "bool " + HS2
    neg = False

    def wrap(self, h):
        return h

    def enter(self, c):
        return None, [self.wrap(KH.fresh(c, "lhs")), self.wrap(KH.fresh(c, "rhs"))]

    def pre(self, c, s):
        return [("%d: %s" % (k, nm), f) for k in (0, 1) for nm, f in wf(s.args[k]) + [small(s.args[k])]]

    def ret(self, c, s):
        return c.fresh_const("eq", z3.BoolSort())

    def post(self, c, o, nw, ret):
        a, b = o.args
        eq = z3.Not(ret) if self.neg else ret
        va_, vb = view_of(a), view_of(b)
        ba, na, sa = hash_fields(a)
        bb, nb, sb = hash_fields(b)
        return [("equal contents compare equal", z3.Implies(va_ == vb, eq)),
                ("what compares equal has equal contents", z3.Implies(eq, z3.ForAll(
                    [e], va_[e] == vb[e], patterns=[va_[e], vb[e]]))),
                ]


    def steps(self, c, o, nw, ret):
        if type(self) is not HEq:
            return []
        a, b = o.args
        va_, vb = view_of(a), view_of(b)
        ba, na, sa = hash_fields(a)
        bb, nb, sb = hash_fields(b)
        return [("step: elements of a bucket", z3.And([z3.ForAll(
                    [i, e], z3.Implies(z3.And(0 <= i, i < n_), inVec(bs[i], e) == z3.And(
                        v_[e], bucket_of(e, n_) == i)), patterns=[inVec(bs[i], e)])
                    for bs, n_, v_ in ((ba, na, va_), (bb, nb, vb))])),
                ("step: equal sets have one size and bucket count",
                 z3.Implies(va_ == vb, z3.And(sa == sb, na == nb))),
                ("step: equal sets have equal buckets", z3.Implies(va_ == vb, z3.ForAll(
                    [i], z3.Implies(z3.And(0 <= i, i < na), same(ba[i], bb[i])), patterns=[ba[i], bb[i]])))]


class HNe(HEq):
    qname = "symbolic::operator!="
    neg = True


def order_key(h):
    return KB.pack(h.fields["buckets_"])


class HLt(HEq):
    qname = "symbolic::operator<"

    def ret(self, c, s):
        return c.fresh_const("less", z3.BoolSort())

    def post(self, c, o, nw, ret):
        a, b = o.args
        return [("is the strict total order of the bucket sequences", ret == hlt(order_key(a), order_key(b)))]


SS2 = "(const State &, const State &)"


class SEq(OfState, HEq):
    sig = "bool " + SS2


class SNe(OfState, HNe):
    sig = "bool " + SS2


class SLt(OfState, HLt):
    sig = "bool " + SS2


class PEq(Contract):
    qname = "symbolic::operator=="
    sig = "bool (const PartialState &, const PartialState &)"
    neg = False

    def enter(self, c):
        return None, [KP.fresh(c, "lhs"), KP.fresh(c, "rhs")]

    def pre(self, c, s):
        return [("%d: %s" % (k, nm), f) for k in (0, 1) for nm, f in wfp(s.args[k])]

    def ret(self, c, s):
        return c.fresh_const("eq", z3.BoolSort())

    def post(self, c, o, nw, ret):
        eq = z3.Not(ret) if self.neg else ret
        p, n_ = pos_neg(o.args[0])
        q, m = pos_neg(o.args[1])
        return [("true exactly when both sets are equal", eq == z3.And(p == q, n_ == m))]


class PNe(PEq):
    qname = "symbolic::operator!="
    neg = True


class PLt(PEq):
    qname = "symbolic::operator<"

    def post(self, c, o, nw, ret):
        k = [[order_key(x.fields[w]) for w in ("pos_", "neg_")] for x in o.args]
        p, q = k
        return [("is the strict total order of (pos, neg)", ret == z3.Or(
            hlt(p[0], q[0]), z3.And(z3.Not(hlt(q[0], p[0])), hlt(p[1], q[1]))))]


def consts_of(t, skip, out):
    """Uninterpreted constants of t outside the subterms `skip`."""
    stack, seen = [t], set()
    while stack:
        x = stack.pop()
        if x.get_id() in seen or any(z3.eq(x, y) for y in skip):
            continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.append(x)
        stack += x.children()
    return out


def strip_wrap(t, idx):
    """t with If(i >= 0, i, _) replaced by i for every i in idx."""
    subst, stack, seen = [], [t], set()
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE:
            a, b, _ = x.children()
            for i in idx:
                if z3.eq(b, i) and z3.eq(z3.simplify(a), z3.simplify(i >= 0)):
                    subst.append((x, i))
        stack += x.children()
    return z3.substitute(t, subst) if subst else t


def fold_candidates(c, lp):
    """An integer that accumulates the elements a position iterator passes:
    fold(p) is defined along the positions by the loop body itself, provided the
    new value is a function of the old value and the element alone."""
    for r in lp.entry:
        v = c.mem.get(r)
        if not any(h[0] == r for h in lp.havoc):
            continue
        if not (isinstance(v, Rec) and "idx_bucket_" in v.fields and isinstance(v.fields.get("buckets_"), Ptr)):
            continue
        try:
            q = c.read(v.fields["buckets_"].place)
        except Unsupported:
            continue
        if not (z3.is_expr(q.arr) and z3.eq(q.arr.sort().range(), VS)):
            continue
        for rs in lp.entry:
            x = c.mem.get(rs)
            if not (z3.is_expr(x) and x.sort() == IS and any(h[0] == rs for h in lp.havoc)):
                continue

            def th(r=r, rs=rs, v=v, q=q, x=x):
                fold = z3.Function("fold_" + rs, ArrV, IS, IS, IS, IS)
                if lp.head is None:
                    return z3.BoolVal(z3.is_int_value(z3.simplify(x)))
                if c.mem is lp.head or all(c.mem.get(k) is w for k, w in lp.head.items()):
                    return x == fold(q.arr, q.len, v.fields["idx_bucket_"], v.fields["idx_in_bucket_"])
                h = lp.head
                hv = h[r].fields
                elem = varr(q.arr[hv["idx_bucket_"]])[hv["idx_in_bucket_"]]
                # Positions are non-negative: the int -> size_t conversion of an
                # index is the identity (side condition, part of the goal).
                idx = [hv["idx_bucket_"], hv["idx_in_bucket_"]]
                y = strip_wrap(x, idx)
                if consts_of(y, [h[rs], elem], []):
                    return z3.BoolVal(False)
                return z3.And([i >= 0 for i in idx])
            yield "%s folds what %s passed" % (rs, r), th


class StateHash(Contract):
    qname = "operator()"
    sig = staticmethod(lambda t: "State&)" in t)

    def enter(self, c):
        return Rec("hash", {}), [KS.fresh(c, "state")]

    def pre(self, c, s):
        return SStringify.pre(self, c, Snap(s.args[0], []))

    def post(self, c, o, nw, ret):
        bs, nb, size = hash_fields(o.args[0])
        fs = [z3.Function(str(f), ArrV, IS, IS, IS, IS) for f in find_folds(c, ret)]
        return [("is a function of the sequence of elements", z3.Or(
            [ret == f(bs, nb, nb, z3.IntVal(0)) for f in fs] + [z3.BoolVal(False)]))]


def find_folds(c, ret):
    out = {}
    for h in c.hyps:
        f = h.f if isinstance(h, Guarded) else h
        stack = [f]
        while stack:
            x = stack.pop()
            if z3.is_app(x) and x.decl().name().startswith("fold_"):
                out[x.decl().name()] = 1
            stack += x.children()
    return list(out)


def compare_contracts():
    return [StateHash(), HEq(), HLt(), SEq(), SNe(), SLt(), PEq(), PNe(), PLt()]


def throw_hook(c, t, node):
    if t.split("::")[-1] == "UnknownEvaluation":
        v = c.rv(c.ev(node))
        return v
    return None


def contracts():
    mv = "bool (symbolic::Proposition &&)"
    return [UVContains(), UVInsertMove(sig=mv), UVInsert(), UVErase(), HRehash(),
            HContains(), HInsertMove(sig=mv), HInsert(), HErase(), HSize(), HEmpty(),
            HDefault(), HInitList()]


def state_contracts():
    pb = "bool (const symbolic::PropositionBase &)"
    return [SContains(), SInsertMove(sig="bool (symbolic::Proposition &&)"), SInsert(sig=pb),
            SInsertRange(sig=lambda t: "iterator" in t),
            SErase(), SSize(), SEmpty(), SInitList()]


def partial_contracts():
    mv, pb = "int (symbolic::Proposition &&)", "int (const symbolic::PropositionBase &)"
    return [PInsertMove(sig=mv), PInsert(sig=pb), PEraseMove(sig=mv), PErase(sig=pb), PContains(), PNotContains()]


def tasks(prop, repo, missing, trusted, assume):
    from ..ast import Program
    from ..verify import Task, fn_tasks
    prog = Program(SOURCE, repo)

    def spec(contracts, axioms=()):
        sp = Spec(prog)
        install(sp)
        sp.cands += [set_candidates, iter_candidates, visit_candidates]
        sp.axioms += list(axioms)
        sp.contracts = contracts
        return sp

    base = contracts() + state_contracts()
    sp = spec(base)
    out = [] if os.environ.get("ONLYX") else fn_tasks(sp, base, missing)
    if prop == "C02":
        it = iterator_contracts() + [SStringify()]
        sp = spec(base + it)
        out += fn_tasks(sp, it, missing)
        out += [Task("lemma", "lemma " + l.name, sp, obj=l) for l in rank_lemmas()]
    if prop == "C03":
        cmp_ = compare_contracts()
        # The order axioms are only in scope where an order is decided.
        sp = spec(base + cmp_ + iterator_contracts(), compax + [tower_le])
        sp.cands.append(fold_candidates)
        out += fn_tasks(sp, cmp_, missing)
        out += [Task("lemma", "lemma " + l.name, sp, obj=l) for l in compare_lemmas()]
    if prop == "C04":
        pc = partial_contracts() + [PIsConsistent()]
        sp = spec(base + pc + iterator_contracts())
        out += fn_tasks(sp, pc, missing)
    return out
