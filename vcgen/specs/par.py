"""Parameter generators: options, ownership of the option lists, object map (C06)."""
import z3

from .comb import FA, GenCtor, IMAX, KA, KVA, KVU, P, allne, cont, fits, legal, on, sz, wfg
from . import comb, dom, prop, val
from .val import *
from .prop import KOBJ, KVOBJ, OBJ, ArrO

SOURCE = '''
#include "utils/parameter_generator.cc"
#include "object.cc"
'''

MAPS = '''
#include "pddl.cc"
'''

# Generators refer to vectors of objects through pointers: here those of comb.
VOS = KVOBJ.sort()
KVVOBJ = KVec("vector", KVOBJ)
ArrStr = z3.ArraySort(IS, STR)
KVVS = KVVOBJ.sort()
OBJNAME = val.strlit("object")
PTR = comb.A
KT = KRec("symbolic::Object::Type", [("symbol_", KSYM)])
KT.real = True

up = lambda t: field("type", t)
chain = z3.Function("hasAncestorNamed", SYM, STR, B)     # t or an ancestor of t has the name
tsym = z3.Function("typeSymbol", OBJ, SYM)
inL = z3.Function("isListed", ArrStr, IS, STR, B)
inLw = z3.Function("w_isListed", ArrStr, IS, STR, IS)
cnt = z3.Function("countOfType", ArrO, IS, STR, IS)      # of the first i objects, those of the type
sel = z3.Function("objectOfType", ArrO, STR, IS, IS)     # position of the k-th object of the type
MapH, MapV = z3.ArraySort(STR, B), z3.ArraySort(STR, VOS)
BUF = z3.DeclareSort("Buffer")
ptrTo = z3.Function("elementAddress", BUF, IS, PTR)
fitsV = z3.Function("tuplesFitAnInt", KVVS, B)
refers = z3.Function("refersTo", comb.ArrA, IS, KVVS, B)
refersW = z3.Function("w_refersTo", comb.ArrA, IS, KVVS, IS)

y_ = z3.Const("y_", SYM)
n_ = z3.Const("n_", STR)
sa, sb = z3.Consts("sa sb", ArrStr)
oa = z3.Const("oa", ArrO)
vv = z3.Const("vv", KVVS)
opt = z3.Const("opt", comb.ArrA)
ii, jj, kk, na, nb = z3.Ints("ii jj kk na nb")


def isa(t, s):
    """The type with symbol t is s or one of its subtypes."""
    return z3.Or(s == OBJNAME, chain(t, s))


def tname(t):
    return z3.If(t == nullS, OBJNAME, nameS(t))


IL, IW, IM = inL(sa, na, n_), inLw(sa, na, n_), inL(sb, nb, n_)
RW = refersW(opt, na, vv)
defs = [
    FA([n_], z3.Not(chain(nullS, n_)), chain(nullS, n_)),
    FA([y_, n_], z3.Implies(z3.And(y_ != nullS, nameS(y_) == n_), chain(y_, n_)), chain(y_, n_)),
    FA([y_, n_], z3.Implies(z3.And(y_ != nullS, nameS(y_) != n_), chain(y_, n_) == chain(up(y_), n_)),
       z3.MultiPattern(chain(y_, n_), up(y_)), chain(up(y_), n_)),
    FA([sa, na, n_], z3.Implies(IL, z3.And(0 <= IW, IW < na, sa[IW] == n_)), IL),
    FA([sa, na, n_, ii], z3.Implies(z3.And(0 <= ii, ii < na, sa[ii] == n_), IL), z3.MultiPattern(IL, sa[ii])),
    FA([sa, na, sb, nb, n_], z3.Implies(z3.And(IL, IW < nb, sa[IW] == sb[IW]), IM), z3.MultiPattern(IL, IM)),
    FA([sb, nb, n_], z3.Implies(z3.And(nb > 0, sb[nb - 1] == n_), IM), IM),
    FA([oa, n_], cnt(oa, z3.IntVal(0), n_) == 0, cnt(oa, z3.IntVal(0), n_)),
    FA([oa, ii, n_], z3.Implies(ii >= 0, cnt(oa, ii + 1, n_) == cnt(oa, ii, n_) + z3.If(isa(tsym(oa[ii]), n_), 1, 0)),
       z3.MultiPattern(cnt(oa, ii, n_), oa[ii])),
    FA([oa, ii, n_], z3.Implies(z3.And(ii >= 0, isa(tsym(oa[ii]), n_)), sel(oa, n_, cnt(oa, ii, n_)) == ii),
       sel(oa, n_, cnt(oa, ii, n_))),
    FA([opt, na, vv], z3.Or(refers(opt, na, vv), na != KVVOBJ.len_of(vv), z3.And(
        0 <= RW, RW < na, cont(opt[RW]) != KVVOBJ.arr_of(vv)[RW])), refers(opt, na, vv)),
    FA([opt, na, vv, ii], z3.Implies(z3.And(refers(opt, na, vv), fitsV(vv), 0 <= ii, ii <= na),
                                     z3.And(0 <= P(opt, na, ii), P(opt, na, ii) <= IMAX)),
       z3.MultiPattern(refers(opt, na, vv), fitsV(vv), P(opt, na, ii))),
    FA([vv], z3.Implies(fitsV(vv), KVVOBJ.len_of(vv) <= IMAX), fitsV(vv)),
]
# The hierarchy has a root: names of a type and its ancestors differ, and object is a root.
tree = [
    FA([y_], z3.Implies(y_ != nullS, z3.Not(chain(up(y_), nameS(y_)))), chain(up(y_), nameS(y_)), up(y_)),
    FA([y_], z3.Implies(z3.And(y_ != nullS, nameS(y_) == OBJNAME), up(y_) == nullS), up(y_)),
]


SEEN = {}


def seen(t):
    """Always true: brings the term t into view wherever the formula is asserted."""
    k = str(t.sort())
    if k not in SEEN:
        f = z3.Function("seen_" + k, t.sort(), B)
        v = z3.Const("seen_arg_" + k, t.sort())
        SEEN[k] = (f, FA([v], f(v), f(v)))
    return SEEN[k][0](t)


seen(z3.Const("x", VOS)), seen(z3.Int("x")), seen(z3.Bool("x"))


class OMap:
    """std::unordered_map<std::string, std::vector<Object>>: keys and values."""
    def fresh(self, c, v, base):
        return Abs(self, (c.fresh_const(base + ".keys", MapH), c.fresh_const(base + ".values", MapV)))

    def operator(self, c, a, x, op, argnodes, n):
        if op != "[]":
            raise Unsupported("map operator" + op)
        k = c.rv(c.ev(argnodes[1]))
        if not isinstance(a, Place):
            a = c.temp(x)
        h, v = x.data
        if not c.branch(h[k]):
            c.write(a, Abs(self, (z3.Store(h, k, True), z3.Store(v, k, KVOBJ.pack(KVOBJ.empty(c))))))
        return a.i(k)

    def item(self, c, v, k):
        e = KVOBJ.unpack(v.data[1][k])
        c.assume(e.len >= 0)
        return e

    def upd(self, c, v, s, rest, new):
        if rest:
            raise Unsupported("part of a map entry")
        return Abs(self, (v.data[0], z3.Store(v.data[1], s[1], KVOBJ.pack(new))))

    def method(self, c, b, v, name, argnodes, n):
        h, vals = v.data
        if name in ("at", "count", "find"):
            k = c.rv(c.ev(argnodes[0]))
            if name == "count":
                return z3.If(h[k], z3.IntVal(1), z3.IntVal(0))
            if name == "find":
                return Abs(OMapIt(), (b, v, k))
            if not c.branch(h[k]):
                raise CppThrow("std::out_of_range")
            return b.i(k)
        if name in ("end", "cend"):
            return Abs(OMapIt(), (b, v, None))
        if name == "reserve":
            return VOID
        raise Unsupported("map " + name)

    def __repr__(self):
        return "object_map"


class OMapIt:
    def present(self, v):
        return z3.BoolVal(False) if v.data[2] is None else v.data[1].data[0][v.data[2]]

    def operator(self, c, a, x, op, argnodes, n):
        y = c.rv(c.ev(argnodes[1])) if len(argnodes) > 1 else None
        if op in ("==", "!="):
            p, q = self.present(x), self.present(y)
            k, l = x.data[2], y.data[2]
            same = z3.And(p == q, z3.Implies(z3.And(p, q), k == l) if k is not None and l is not None else z3.BoolVal(True))
            return same if op == "==" else z3.Not(same)
        raise Unsupported("map iterator " + op)

    def deref(self, c, v, n=None):
        c.check("the map entry exists", self.present(v))
        return c.temp(Rec("pair", {"first": v.data[2], "second": v.data[1].model.item(c, v.data[1], v.data[2])}))

    def fresh(self, c, v, base):
        raise Unsupported("moving map iterator")


OM = OMap()


class KMap(Kind):
    name = "ObjectTypeMap"

    def default(self, c):
        return Abs(OM, (z3.K(STR, z3.BoolVal(False)), z3.K(STR, KVOBJ.pack(KVOBJ.empty(c)))))

    def fresh(self, c, nm):
        return OM.fresh(c, None, nm)


KMAP = KMap()


def mlen(m, s):
    return z3.If(m.data[0][s], KVOBJ.len_of(m.data[1][s]), z3.IntVal(0))


def mitem(m, s, k):
    return KVOBJ.arr_of(m.data[1][s])[k]


def lists_objects(m, a, n, extra=None):
    """For every type, the map lists exactly the first n objects that belong to it, in order.
    extra(s): object number n has already been added to the list of type s."""
    x = extra(n_) if extra else z3.BoolVal(False)
    L = mlen(m, n_)
    H, Vs = m.data[0][n_], m.data[1][n_]
    A = sel(a, n_, kk)
    return [
        ("a type is listed when it has objects", FA([n_], z3.And(L >= 0, H == (L > 0)), H, Vs)),
        ("lists as many objects as there are of the type",
         FA([n_], z3.Implies(seen(Vs), L == cnt(a, n, n_) + z3.If(x, 1, 0)), H, Vs)),
        ("lists only objects of the type", FA([n_, kk], z3.Implies(z3.And(seen(Vs), seen(A), 0 <= kk, kk < L), z3.And(
            0 <= A, z3.Or(A < n, z3.And(A == n, x)), isa(tsym(a[A]), n_), mitem(m, n_, kk) == a[A])),
            mitem(m, n_, kk), z3.MultiPattern(Vs, A))),
        ("lists no object twice", FA([n_, ii, kk], z3.Implies(z3.And(seen(Vs), seen(A), 0 <= ii, ii < kk, kk < L),
                                                              sel(a, n_, ii) < A),
                                     z3.MultiPattern(Vs, sel(a, n_, ii), A))),
        ("lists every object of the type", FA([n_, jj], z3.Implies(z3.And(
            seen(Vs), seen(cnt(a, jj, n_)), 0 <= jj, z3.Or(jj < n, z3.And(jj == n, x)), isa(tsym(a[jj]), n_)), z3.And(
                0 <= cnt(a, jj, n_), cnt(a, jj, n_) < L, mitem(m, n_, cnt(a, jj, n_)) == a[jj])),
            z3.MultiPattern(Vs, cnt(a, jj, n_))))]


class IsSubtype(Contract):
    qname = "symbolic::Object::Type::IsSubtype"
    by_type = False

    def enter(self, c):
        a = KT.fresh(c, "other") if self.by_type else c.fresh_const("name", STR)
        return KT.fresh(c, "type"), [c.new_root("ext/name", a)]

    def ret(self, c, s):
        return c.fresh_const("is_subtype", B)

    def post(self, c, o, nw, ret):
        s = o.args[0]
        if isinstance(s, Rec):
            s = tname(KSYM.pack(s.fields["symbol_"]))
        return [("is whether the type or an ancestor has the name, or the name is object's",
                 c.rv(ret) == isa(KSYM.pack(o.this.fields["symbol_"]), s))]


class TypeName(Contract):
    qname = "symbolic::Object::Type::name"

    def enter(self, c):
        return KT.fresh(c, "type"), []

    def ret(self, c, s):
        return c.new_root("ext/tname", c.fresh_const("tname", STR))

    def post(self, c, o, nw, ret):
        return [("is the name, object's for no type", c.rv(ret) == tname(KSYM.pack(o.this.fields["symbol_"])))]


class ListTypes(Contract):
    qname = "symbolic::Object::Type::ListTypes"

    def enter(self, c):
        return KT.fresh(c, "type"), []

    def ret(self, c, s):
        return KVSTR.fresh(c, "types")

    def post(self, c, o, nw, ret):
        t = KSYM.pack(o.this.fields["symbol_"])
        r = c.rv(ret)
        return [("lists the type, its ancestors and object", FA([n_], inL(r.arr, r.len, n_) == isa(t, n_),
                                                               inL(r.arr, r.len, n_), chain(t, n_))),
                ("lists no type twice", FA([ii, jj], z3.Implies(z3.And(0 <= ii, ii < jj, jj < r.len), r.arr[ii] != r.arr[jj]),
                                           z3.MultiPattern(r.arr[ii], r.arr[jj])))]


class CreateMap(Contract):
    qname = "CreateObjectTypeMap"

    def enter(self, c):
        return None, [c.new_root("ext/objects", KVOBJ.fresh(c, "objects"))]

    def ret(self, c, s):
        return KMAP.fresh(c, "map")

    def post(self, c, o, nw, ret):
        v = o.args[0]
        return lists_objects(c.rv(ret), v.arr, v.len)


class ParamTypes(Contract):
    """ParamTypes(map, params)"""
    qname = "ParamTypes"

    def call_post(self, c, o, nw, ret):
        return self.post(c, o, nw, ret) + [("the number of tuples fits an int", fitsV(KVVOBJ.pack(c.rv(ret))))]

    def enter(self, c):
        return None, [c.new_root("ext/map", KMAP.fresh(c, "map")), c.new_root("ext/params", KVOBJ.fresh(c, "params"))]

    def ret(self, c, s):
        return KVVOBJ.fresh(c, "types")

    def post(self, c, o, nw, ret):
        return of_types(o.args[0], o.args[1], c.rv(ret))


def of_types(m, P_, r):
    h, v = m.data
    tn = tname(tsym(P_.arr[jj]))
    return [("one list per parameter, none when a type has no object", z3.Or(
                z3.And(r.len == P_.len, FA([jj], z3.Implies(z3.And(0 <= jj, jj < P_.len), h[tn]), P_.arr[jj])),
                z3.And(r.len == 0, z3.Exists([jj], z3.And(0 <= jj, jj < P_.len, z3.Not(h[tn])))))),
            ("each is the list of the parameter's type", FA([jj], z3.Implies(z3.And(0 <= jj, jj < r.len), r.arr[jj] == v[tn]),
                                                            r.arr[jj]))]


class Options(Contract):
    """Options(lists): addresses of the lists"""
    qname = "Options"

    def enter(self, c):
        return None, [c.new_root("ext/lists", KVVOBJ.fresh(c, "lists"))]

    def ret(self, c, s):
        return KVA.fresh(c, "options")

    def post(self, c, o, nw, ret):
        v = o.args[0]
        r = c.rv(ret)
        pl = o.arg_places[0]
        if not isinstance(pl, Place):
            raise Unsupported("addresses of elements of a temporary")
        b = buffer_of(c, pl, v)
        return [("one option per list", r.len == v.len),
                ("option i is the address of list i", FA([jj], z3.Implies(z3.And(0 <= jj, jj < r.len), z3.And(
                    r.arr[jj] == ptrTo(b, jj), cont(r.arr[jj]) == v.arr[jj])), r.arr[jj])),
                ("the options have the contents of the lists", refers(r.arr, r.len, KVVOBJ.pack(v)))]


def buffer_of(c, pl, v):
    """The storage of the elements of the vector v at the place: another one after every change of the vector."""
    key = (pl.root, tuple(str(x[1]) for x in pl.path), id(v))
    tab = c.__dict__.setdefault("buffers", {})
    keep = c.__dict__.setdefault("buffer_values", [])
    if key not in tab:
        keep.append(v)
        b = c.fresh_const("buffer", BUF)
        tab[key] = b
        if lists(v):
            c.assume(FA([jj], cont(ptrTo(b, jj)) == v.arr[jj], ptrTo(b, jj)))
    return tab[key]


def lists(v):
    """A vector of lists of objects?"""
    return isinstance(v, Vec) and isinstance(v.ek, KVec) and v.ek.ek is KOBJ


def address_of(c, p):
    """Address of an element of a list of option lists."""
    if p.path and p.path[-1][0] == "i":
        own = Place(p.root, p.path[:-1])
        v = c.read(own)
        if lists(v):
            return ptrTo(buffer_of(c, own, v), p.path[-1][1])
    return None


PG = "symbolic::ParameterGenerator"
mapKeys = z3.Function("mapKeys", PDDL, MapH)
mapLists = z3.Function("mapLists", PDDL, MapV)
KPG = KRec(PG, [("options_", KVA), ("size_groups_", KVU), ("size_", KUINT), ("pddl_", KPDDL), ("param_types_", KVVOBJ)])


def base_of(f):
    return Rec(comb.G, {k: f[k] for k in ("options_", "size_groups_", "size_")})


def fresh_gen(c, nm):
    g = KPG.fresh(c, nm)
    v = g.fields["param_types_"]
    g.fields["pddl_"] = Ptr(c.new_root("ext/pddl of " + nm, c.fresh_const("pddl", PDDL)))
    c.assume(fitsV(KVVOBJ.pack(v)))
    return g


def own_options(c, pl):
    """The generator at the place refers to its own option lists."""
    g = c.read(pl)
    f = g.fields
    v, o = f["param_types_"], f["options_"]
    b = buffer_of(c, pl.f("param_types_"), v)
    return [("has one option per list", o.len == v.len),
            ("its options are its own lists", FA([jj], z3.Implies(z3.And(0 <= jj, jj < o.len), o.arr[jj] == ptrTo(b, jj)), o.arr[jj])),
            ("none of its lists is empty", FA([jj], z3.Implies(z3.And(0 <= jj, jj < v.len), KVOBJ.len_of(v.arr[jj]) > 0), v.arr[jj])),
            ("its options have the contents of its lists", FA([jj], z3.Implies(z3.And(0 <= jj, jj < o.len), cont(o.arr[jj]) == v.arr[jj]), o.arr[jj]))] \
        + wfg(base_of(f))


class PGen(Contract):
    """Construction, copy, move, assignment"""
    how = "new"                 # new, copy, move or self
    assign = False

    def __init__(self, how, assign=False, **kw):
        self.how, self.assign, self.returns_this = how, assign, assign
        self.qname = PG + ("::operator=" if assign else "::ParameterGenerator")
        self.modifies = (("this",) if assign else ()) + ((0,) if how in ("move", "self") else ())
        super().__init__(**kw)

    def enter(self, c):
        if self.how == "new":
            p = c.new_root("ext/pddl", c.fresh_const("pddl", PDDL))
            h, v = mapKeys(c.mem[p.root]), mapLists(c.mem[p.root])
            c.assume(FA([n_], h[n_] == (KVOBJ.len_of(v[n_]) > 0), v[n_], h[n_]))     # established by CreateObjectTypeMap
            return None, [p, c.new_root("ext/params", KVOBJ.fresh(c, "params"))]
        o = c.new_root("ext/other", fresh_gen(c, "other"))
        for _, x in own_options(c, o):
            c.assume(x)
        if not self.assign:
            return None, [o]
        return o if self.how == "self" else c.new_root("ext/target", fresh_gen(c, "target")), [o]

    def post(self, c, o, nw, ret):
        pl = nw.this_place
        f = c.read(pl).fields
        v = f["param_types_"]
        if self.how == "new":
            p = o.args[0]
            m = Abs(OM, (mapKeys(p), mapLists(p)))
            out = of_types(m, o.args[1], v)
            pd = p
        else:
            w = o.args[0].fields["param_types_"]
            out = [("has as many lists as the other had", v.len == w.len),
                   ("has the lists the other had", FA([jj], z3.Implies(z3.And(0 <= jj, jj < v.len), v.arr[jj] == w.arr[jj]), v.arr[jj]))]
            pd = o.args[0].fields["pddl_"]
        q = f["pddl_"]
        same = isinstance(q, Ptr) and (c.equal(q, pd) if isinstance(pd, Ptr) else z3.And(c.rv(q.place) == pd))
        return out + [("is of the same domain", same if z3.is_expr(same) else z3.BoolVal(bool(same)))] + own_options(c, pl)


def candidates(c, lp):
    moved = [r for r in lp.entry if r in c.mem and any(h[0] == r for h in lp.havoc)]
    pos = []
    for r in moved:
        x = c.mem[r]
        if isinstance(x, It):
            pos.append((r, x.idx))
        elif z3.is_expr(x) and x.sort() == IS and "/tmp" not in r:
            pos.append((r, x))
    from .plan import vectors
    vecs = list(vectors(c))
    maps = [(r, c.mem[r]) for r in c.mem if isinstance(c.mem[r], Abs) and c.mem[r].model is OM and r not in c.dead]
    # climbing the hierarchy
    for r in moved:
        t, e = c.mem[r], lp.entry[r]
        if z3.is_expr(t) and t.sort() == SYM and (z3.is_expr(e) or isinstance(e, Ptr)):
            e = KSYM.pack(e)
            for rn in c.mem:
                s = c.mem[rn]
                if rn not in c.dead and z3.is_expr(s) and s.sort() == STR and rn not in moved:
                    yield "%s has %s above iff it had at first" % (r, rn), lambda t=t, e=e, s=s: chain(t, s) == chain(e, s)
            for rv, v in vecs:
                if rv in moved and v.ek is KSTR:
                    yield "%s has the names of %s so far" % (rv, r), lambda t=t, e=e, v=v: FA(
                        [n_], z3.Or(inL(v.arr, v.len, n_), chain(t, n_)) == chain(e, n_), inL(v.arr, v.len, n_), chain(e, n_), chain(t, n_))
                    yield "%s has no name above %s" % (rv, r), lambda t=t, v=v: FA(
                        [ii], z3.Implies(z3.And(0 <= ii, ii < v.len), z3.Not(chain(t, v.arr[ii]))), v.arr[ii])
                    yield "%s has no name twice" % rv, lambda v=v: FA([ii, jj], z3.Implies(
                        z3.And(0 <= ii, ii < jj, jj < v.len), v.arr[ii] != v.arr[jj]), z3.MultiPattern(v.arr[ii], v.arr[jj]))
                    yield "object is last in %s before %s" % (rv, r), lambda t=t, v=v: FA(
                        [ii], z3.Implies(z3.And(0 <= ii, ii < v.len, v.arr[ii] == OBJNAME), z3.And(ii == v.len - 1, t == nullS)), v.arr[ii])
    for ro, a in vecs:
        if a.ek is not KOBJ or ro in moved:
            continue
        for ri, i in pos:
            for rm, m in maps:
                if rm in moved:
                    for nm_, f in lists_objects(m, a.arr, i):
                        yield "%s: %s (before %s of %s)" % (rm, nm_, ri, ro), lambda f=f: f
                else:
                    for rv, r in vecs:
                        if rv in moved and lists(r):
                            yield "%s has one list per parameter of %s before %s" % (rv, ro, ri), lambda r=r, i=i: r.len == i
                            yield "%s has the lists of the parameters of %s" % (rv, ro), lambda r=r, a=a, m=m: of_types(m, a, r)[1][1]
                            yield "the types of %s before %s have objects" % (ro, ri), lambda a=a, m=m, i=i: FA(
                                [jj], z3.Implies(z3.And(0 <= jj, jj < i), m.data[0][tname(tsym(a.arr[jj]))]), a.arr[jj])
        for rt, v in vecs:
            if v.ek is not KSTR:
                continue
            for rx in c.mem:
                x = c.mem[rx]
                if isinstance(x, It):
                    w = c.read(x.place)
                    if isinstance(w, Vec) and w.arr is a.arr and rx not in moved:
                        for ri, i in pos:
                            for rm, m in maps:
                                if rm in moved:
                                    for nm_, f in lists_objects(m, a.arr, x.idx, lambda s, v=v, i=i: inL(v.arr, i, s)):
                                        yield "%s: %s (before %s of %s and %s of %s)" % (rm, nm_, rx, ro, ri, rt), lambda f=f: f
    for rp, w in vecs:
        if w.ek is KA and rp in moved:
            for rv, v in vecs:
                if lists(v):
                    pl = place_of(rv)
                    b = buffer_of(c, pl, v)
                    yield "%s has the addresses of %s" % (rp, rv), lambda w=w, b=b: FA(
                        [jj], z3.Implies(z3.And(0 <= jj, jj < w.len), w.arr[jj] == ptrTo(b, jj)), w.arr[jj])


def place_of(r):
    p = r.split(".")
    return Place(p[0], [("f", x) for x in p[1:]])


def base_assign(c, qn, fn, this, args, node):
    """Assignment of the base part of a generator."""
    if qn == comb.G + "::operator=" and isinstance(this, Place):
        v = c.rv(args[0])
        if not (isinstance(v, Rec) and all(k in v.fields for k in ("options_", "size_groups_", "size_"))):
            raise Unsupported("assignment of the base part")
        for k in ("options_", "size_groups_", "size_"):
            c.write(this.f(k), v.fields[k])
        return this
    return NotImplemented


def object_type(c, qn, fn, this, args, node):
    if this is not None and qn == "symbolic::Object::type":
        v = c.rv(this)
        if z3.is_expr(v) and v.sort() == OBJ:
            return c.new_root("ext/otype", Rec(KT.cls, {"symbol_": tsym(v)}))
    if this is not None and qn == "symbolic::Pddl::object_map":
        v = c.rv(this)
        if z3.is_expr(v) and v.sort() == PDDL:
            r = "ext/object map of " + v.sexpr()
            if r not in c.mem:
                c.mem[r] = Abs(OM, (mapKeys(v), mapLists(v)))
            return Place(r)
    return NotImplemented


def pointer_kind(t):
    k = comb_pointer(t)
    return k if k is not None else val.pointer_kind(t)


def comb_pointer(t):
    return KA if t.replace("symbolic::", "").replace(", allocator<Object>", "").replace(
        ", std::allocator<Object>", "").split("::")[-1] in ("vector<Object>",) else None


def install(sp):
    val.install(sp)
    sp.exact = False
    sp.mul_fn, sp.div_fn, sp.mod_fn = comb.mul, comb.divf, comb.modf
    for n in ("symbolic::Object", "Object"):
        sp.kinds[n] = KOBJ
    for n in ("symbolic::Object::Type", "Object::Type"):
        sp.kinds[n] = KT
    for n in ("unordered_map", "std::unordered_map", "ObjectTypeMap", "symbolic::ParameterGenerator::ObjectTypeMap"):
        sp.kinds[n] = KMAP
    sp.pointer_kind = pointer_kind
    sp.address_of = address_of
    sp.hooks[:0] = [object_type, base_assign]
    sp.base_axioms = sp.base_axioms + defs + tree + [x for _, x in SEEN.values()]
    sp.axioms = sp.base_axioms + comb.defs
    sp.cands = sp.cands + [candidates]


def contracts():
    ctor = lambda *x: lambda t: all(y in t if y[0] != "!" else y[1:] not in t for y in x)
    return [IsSubtype(sig=lambda t: "string" in t), IsSubtype(by_type=True, sig=lambda t: "string" not in t), TypeName(),
            ListTypes(), ParamTypes(), Options(), comb.GenCtor(sig=lambda t: "vector" in t),
            PGen("new", sig=ctor("Pddl")), PGen("copy", sig=ctor("constParameterGenerator&")),
            PGen("move", sig=ctor("ParameterGenerator&&")),
            PGen("copy", True, sig=ctor("(constParameterGenerator&")),
            PGen("move", True, sig=ctor("(ParameterGenerator&&"))]


llen = lambda l: z3.If(l == nullL, z3.IntVal(0), KVSYM.len_of(items(l)))
lsym = lambda l, i: KVSYM.arr_of(items(l))[i]
objT = z3.Function("objectOfSymbol", SYML, SYM, OBJ)     # Object(types, symbol)
tl = z3.Const("tl", SYML)
obj_axioms = [FA([tl, y_, n_], isa(tsym(objT(tl, y_)), n_) == isa(field("type", y_), n_), chain(tsym(objT(tl, y_)), n_))]


class Objects(Contract):
    """Object::CreateList(types, symbols)"""
    qname = "symbolic::Object::CreateList"

    def enter(self, c):
        return None, [c.fresh_const("types", SYML), c.fresh_const("symbols", SYML)]

    def ret(self, c, s):
        return KVOBJ.fresh(c, "objects")

    def post(self, c, o, nw, ret):
        t, l = [KSYML.pack(a) for a in o.args]
        r = c.rv(ret)
        return [("one object per symbol", r.len == llen(l)),
                ("each is the object of its symbol", FA([ii], z3.Implies(z3.And(0 <= ii, ii < r.len),
                                                                         r.arr[ii] == objT(t, lsym(l, ii))), r.arr[ii]))]


class GetObjects(Contract):
    """The constants of the domain, then the objects of the problem."""
    qname = "GetObjects"

    def enter(self, c):
        return None, [c.fresh_const("domain", SYM), c.fresh_const("problem", SYM)]

    def post(self, c, o, nw, ret):
        d, p = [KSYM.pack(c.rv(a)) for a in o.args]
        r = c.rv(ret)
        t, a, b = field("types", d, KSYML), field("constants", d, KSYML), field("objects", p, KSYML)
        nb = z3.If(p == nullS, z3.IntVal(0), llen(b))
        return [("one object per constant and problem object", r.len == llen(a) + nb),
                ("first the constants", FA([ii], z3.Implies(z3.And(0 <= ii, ii < llen(a)), r.arr[ii] == objT(t, lsym(a, ii))), r.arr[ii])),
                ("then the problem's objects", FA([ii], z3.Implies(z3.And(llen(a) <= ii, ii < r.len),
                                                                   r.arr[ii] == objT(t, lsym(b, ii - llen(a)))), r.arr[ii]))]


def construct_object(c, args):
    a, t = [c.rv(x) for x in args]
    if z3.is_expr(a) and a.sort() == SYML and z3.is_expr(t) and t.sort() == SYM:
        return objT(a, t)
    raise Unsupported("construction of an object")


def list_candidates(c, lp):
    its = [(r, c.mem[r]) for r in lp.entry if isinstance(c.mem.get(r), It) and any(h[0] == r for h in lp.havoc)]
    outs = [(r, c.mem[r]) for r in lp.entry if isinstance(c.mem.get(r), Vec) and c.mem[r].ek is KOBJ and
            any(h[0] == r for h in lp.havoc)]
    ts = [(r, c.mem[r]) for r in lp.entry if z3.is_expr(c.mem.get(r)) and c.mem[r].sort() == SYML]
    for ri, it in its:
        src = c.read(it.place)
        if isinstance(src, Vec) and src.ek is KSYM:
            for ro, v in outs:
                for rt, t in ts:
                    yield "%s has the objects of the symbols before %s (%s)" % (ro, ri, rt), lambda v=v, t=t, src=src: FA(
                        [ii], z3.Implies(z3.And(0 <= ii, ii < v.len), v.arr[ii] == objT(t, src.arr[ii])), v.arr[ii])


class Variant:
    """The same program, with other contracts to prove."""
    def __init__(self, sp, contracts):
        self.prog, self.contracts = sp.prog, contracts

    def contract_for(self, fn):
        return self.contracts[0]


def tasks(prop_, repo, missing, trusted, assume):
    from ..ast import Program
    from ..verify import Task, fn_tasks
    sp = Spec(Program(SOURCE, repo))
    install(sp)
    use = contracts()
    sp.contracts = use
    out = fn_tasks(sp, [k for k in use if not isinstance(k, comb.GenCtor)], missing, prop_)
    own = PGen("self", True, sig=lambda t: "(constParameterGenerator&" in t)
    for t in fn_tasks(Variant(sp, [own]), [own], missing, prop_):
        t.label += " (to itself)"
        t.spec = sp
        out.append(t)
    sm = Spec(Program(MAPS, repo))
    install(sm)
    sm.axioms = sm.base_axioms + obj_axioms
    sm.cands = [list_candidates, dom.append_candidates] + sm.cands
    KOBJ.construct = construct_object
    use = [CreateMap(), Objects(sig=lambda t: "pddl_type_list" in t), GetObjects()]
    sm.contracts = use + [k for k in contracts() if isinstance(k, (ListTypes, TypeName))]
    out += fn_tasks(sm, use, missing, prop_)
    so = Spec(sp.prog)
    val.install(so)
    so.kinds["symbolic::Object"] = so.kinds["Object"] = prop.KOBJR
    so.kinds["symbolic::Object::Type"] = so.kinds["Type"] = prop.KTYPE
    so.contracts = [k for k in prop.object_contracts() if isinstance(k, prop.GetTypeSymbol) or
                    isinstance(k, prop.ObjCtor) and k.first is not None]
    so.axioms = list(so.base_axioms)
    return out + fn_tasks(so, so.contracts, missing, prop_)
