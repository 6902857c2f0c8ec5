"""Symbolic values, places and kinds."""
import z3


class Unsupported(Exception):
    pass


# ---------------------------------------------------------------- places

class Place:
    """An lvalue: a root object and a path of fields ('f', name) and vector
    elements ('i', index term). `xv` marks an xvalue (result of std::move)."""
    __slots__ = ("root", "path", "xv")

    def __init__(self, root, path=(), xv=False):
        self.root, self.path, self.xv = root, tuple(path), xv

    def f(self, name):
        return Place(self.root, self.path + (("f", name),), self.xv)

    def i(self, idx):
        return Place(self.root, self.path + (("i", idx),))

    def moved(self):
        return Place(self.root, self.path, True)

    def shape(self):
        return (self.root, tuple(s if s[0] == "f" else ("i",) for s in self.path))

    def idx_terms(self):
        return [s[1] for s in self.path if s[0] == "i"]

    def __repr__(self):
        return "&%s%s" % (self.root, "".join(
            "." + s[1] if s[0] == "f" else "[%s]" % s[1] for s in self.path))


# ---------------------------------------------------------------- values
# z3 expressions represent themselves.

class Rec:
    __slots__ = ("cls", "fields")

    def __init__(self, cls, fields):
        self.cls, self.fields = cls, fields

    def with_(self, name, v):
        d = dict(self.fields)
        if name not in d:
            raise Unsupported("no field %s in %s" % (name, self.cls))
        d[name] = v
        return Rec(self.cls, d)

    def __repr__(self):
        return "%s%r" % (self.cls, self.fields)


class Vec:
    """A sequence: length and an array of packed elements."""
    __slots__ = ("cls", "ek", "len", "arr")

    def __init__(self, cls, ek, len_, arr):
        self.cls, self.ek, self.len, self.arr = cls, ek, len_, arr

    def at(self, i):
        return self.ek.unpack(z3.Select(self.arr, i))

    def __repr__(self):
        return "Vec<%s>(%s)" % (self.ek, self.len)


class Ptr:
    """Pointer to a place; place None is the null pointer."""
    __slots__ = ("place",)

    def __init__(self, place):
        self.place = place

    def __repr__(self):
        return "Ptr(%r)" % (self.place,)


class It:
    """Iterator into the sequence stored at `place` (or abstract collection)."""
    __slots__ = ("place", "idx", "rev")

    def __init__(self, place, idx, rev=False):
        self.place, self.idx, self.rev = place, idx, rev

    def __repr__(self):
        return "It(%r,%s)" % (self.place, self.idx)


class Opt:
    __slots__ = ("has", "val")

    def __init__(self, has, val):
        self.has, self.val = has, val


class Clo:
    __slots__ = ("node", "frame", "caps", "this", "named", "owned")

    def __init__(self, node, frame, caps, this, named=None, owned=()):
        self.owned = owned
        self.node, self.frame, self.caps, self.this = node, frame, caps, this
        self.named = named or {}


class Abs:
    """A python-level abstract value with behaviour given by a model object."""
    __slots__ = ("model", "data")

    def __init__(self, model, data):
        self.model, self.data = model, data

    def __repr__(self):
        return "Abs(%s,%r)" % (self.model, self.data)


class Void:
    pass


VOID = Void()


# ---------------------------------------------------------------- kinds

_dt = {}


def datatype(name, *fields):
    """fields: (name, sort). Returns (sort, mk, accessors)."""
    key = name
    if key in _dt:
        return _dt[key]
    d = z3.Datatype(name)
    d.declare("mk_" + name, *[(name + "_" + f, s) for f, s in fields])
    s = d.create()
    _dt[key] = (s, s.constructor(0), [s.accessor(0, k) for k in range(len(fields))])
    return _dt[key]


def acc(sort_entry, k, t):
    """accessor k of t, with accessor-of-constructor simplified."""
    s, mk, accs = sort_entry
    if z3.is_app(t) and t.decl().eq(mk):
        return t.arg(k)
    return accs[k](t)


class Kind:
    def __repr__(self):
        return self.name


class KPrim(Kind):
    def __init__(self, sort, name=None, unsigned=False):
        self._s, self.name = sort, name or str(sort)
        self.unsigned = unsigned

    def sort(self):
        return self._s

    def unpack(self, t):
        return t

    def pack(self, v):
        if not z3.is_expr(v):
            raise Unsupported("cannot store %r as %s" % (v, self.name))
        if v.sort() != self._s:
            raise Unsupported("sort %s for %s" % (v.sort(), self.name))
        return v

    def fresh(self, c, name):
        t = c.fresh_const(name, self._s)
        if self.unsigned:
            c.assume(t >= 0)
        return t


KINT = KPrim(z3.IntSort(), "int")
KUINT = KPrim(z3.IntSort(), "uint", True)
KBOOL = KPrim(z3.BoolSort(), "bool")


STR = z3.DeclareSort("Str")
KSTR = KPrim(STR, "Str")


class KVec(Kind):
    def __init__(self, cls, ek):
        self.cls, self.ek = cls, ek
        self.name = "%s<%s>" % (cls, ek)
        self._e = None

    def _ent(self):
        if self._e is None:
            nm = "V_" + "".join(ch if ch.isalnum() else "_" for ch in str(self.ek))
            self._e = datatype(nm, ("len", z3.IntSort()),
                               ("arr", z3.ArraySort(z3.IntSort(), self.ek.sort())))
        return self._e

    def sort(self):
        return self._ent()[0]

    def unpack(self, t):
        e = self._ent()
        return Vec(self.cls, self.ek, acc(e, 0, t), acc(e, 1, t))

    def pack(self, v):
        if not isinstance(v, Vec):
            raise Unsupported("cannot store %r as %s" % (v, self.name))
        return self._ent()[1](v.len, v.arr)

    def len_of(self, t):
        return acc(self._ent(), 0, t)

    def arr_of(self, t):
        return acc(self._ent(), 1, t)

    def fresh(self, c, name):
        n = c.fresh_const(name + ".len", z3.IntSort())
        c.assume(n >= 0)
        return Vec(self.cls, self.ek, n,
                   c.fresh_const(name + ".arr", z3.ArraySort(z3.IntSort(), self.ek.sort())))

    def empty(self, c):
        return Vec(self.cls, self.ek, z3.IntVal(0),
                   z3.K(z3.IntSort(), c.dflt(self.ek.sort())))


class KRec(Kind):
    def __init__(self, cls, fields):
        self.cls, self.flds = cls, fields  # list of (name, kind)
        self.name = cls
        self._e = None

    def _ent(self):
        if self._e is None:
            nm = "R_" + "".join(ch if ch.isalnum() else "_" for ch in
                                self.cls + "_" + "_".join(str(k) for _, k in self.flds))
            self._e = datatype(nm, *[(f, k.sort()) for f, k in self.flds])
        return self._e

    def sort(self):
        return self._ent()[0]

    def unpack(self, t):
        e = self._ent()
        return Rec(self.cls, {f: k.unpack(acc(e, n, t)) for n, (f, k) in enumerate(self.flds)})

    def pack(self, v):
        if not isinstance(v, Rec):
            raise Unsupported("cannot store %r as %s" % (v, self.name))
        return self._ent()[1](*[k.pack(v.fields[f]) for f, k in self.flds])

    def get(self, t, f):
        for n, (g, k) in enumerate(self.flds):
            if g == f:
                return acc(self._ent(), n, t)
        raise KeyError(f)

    def fresh(self, c, name):
        return Rec(self.cls, {f: k.fresh(c, name + "." + f) for f, k in self.flds})


def kind_of(v):
    if z3.is_expr(v):
        return KPrim(v.sort())
    if isinstance(v, Vec):
        return KVec(v.cls, v.ek)
    if isinstance(v, Rec):
        return KRec(v.cls, [(f, kind_of(x)) for f, x in v.fields.items()])
    raise Unsupported("no kind for %r" % (v,))
