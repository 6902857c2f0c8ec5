"""std::unordered_map with values of a kind: keys present and what they map to."""
import z3

from ..engine import *
from ..stl import used
from ..values import *


class GMap:
    def __init__(self, kk, vk):
        self.kk, self.vk = kk, vk

    def fresh(self, c, v, base):
        return Abs(self, (c.fresh_const(base + ".keys", z3.ArraySort(self.kk.sort(), z3.BoolSort())),
                          c.fresh_const(base + ".values", z3.ArraySort(self.kk.sort(), self.vk.sort()))))

    def key(self, c, v):
        v = c.rv(v)
        return self.kk.pack(v)

    def operator(self, c, a, x, op, argnodes, n):
        if op == "=":
            c.write(a, c.take(c.ev(argnodes[1])))
            return a
        if op != "[]":
            raise Unsupported("map operator" + op)
        k = self.key(c, c.ev(argnodes[1]))
        if not isinstance(a, Place):
            a = c.temp(x)
        x = c.read(a)
        h, v = x.data
        if not c.branch(h[k]):
            d = c.fresh_const("new_value", self.vk.sort())
            if self.vk.sort() == z3.IntSort():
                c.assume(d == 0)
            if isinstance(self.vk, KVec):
                c.assume(self.vk.len_of(d) == 0)
            c.write(a, Abs(self, (z3.Store(h, k, True), z3.Store(v, k, d))))
        return a.i(k)

    def item(self, c, v, k):
        return self.vk.unpack(v.data[1][k])

    def upd(self, c, v, s, rest, new):
        if rest:
            new = c._upd(self.vk.unpack(v.data[1][s[1]]), rest, new)
        return Abs(self, (v.data[0], z3.Store(v.data[1], s[1], self.vk.pack(new))))

    def method(self, c, b, v, name, argnodes, n):
        h, vals = v.data
        if name in ("at", "count", "find", "contains"):
            k = self.key(c, c.ev(argnodes[0]))
            if name == "count":
                return z3.If(h[k], z3.IntVal(1), z3.IntVal(0))
            if name == "contains":
                return h[k]
            if name == "find":
                return Abs(GMapIt(), (b, v, k))
            if not c.branch(h[k]):
                raise CppThrow("std::out_of_range")
            return b.i(k)
        if name in ("end", "cend"):
            return Abs(GMapIt(), (b, v, None))
        if name == "reserve":
            return VOID
        if name == "clear":
            c.write(b, Abs(self, (z3.K(self.kk.sort(), z3.BoolVal(False)), vals)))
            return VOID
        if name in ("emplace", "insert", "try_emplace", "insert_or_assign") and len(argnodes) == 2:
            k = self.key(c, c.ev(argnodes[0]))
            e = self.vk.pack(c.take(c.ev(argnodes[1])))
            new = z3.Not(h[k])
            keep = e if name == "insert_or_assign" else z3.If(new, e, vals[k])
            w = Abs(self, (z3.Store(h, k, True), z3.Store(vals, k, keep)))
            c.write(b, w)
            return Rec("pair", {"first": Abs(GMapIt(), (b, w, k)), "second": new})
        raise Unsupported("map " + name)

    def same(self, c, a, b):
        return z3.And(a.data[0] == b.data[0], a.data[1] == b.data[1])

    def __repr__(self):
        return "map"


class GMapIt:
    def present(self, v):
        return z3.BoolVal(False) if v.data[2] is None else v.data[1].data[0][v.data[2]]

    def operator(self, c, a, x, op, argnodes, n):
        if op in ("==", "!="):
            y = c.rv(c.ev(argnodes[1]))
            p, q = self.present(x), self.present(y)
            k, l = x.data[2], y.data[2]
            same = z3.And(p == q, z3.Implies(z3.And(p, q), k == l) if k is not None and l is not None else z3.BoolVal(True))
            return same if op == "==" else z3.Not(same)
        if op in ("->", "*"):
            pl = self.deref(c, x, n)
            return Ptr(pl) if op == "->" else pl
        raise Unsupported("map iterator " + op)

    def deref(self, c, v, n=None):
        c.check("the map entry exists", self.present(v), n)
        return c.temp(Rec("pair", {"first": v.data[2], "second": v.data[1].model.item(c, v.data[1], v.data[2])}))

    def fresh(self, c, v, base):
        raise Unsupported("moving map iterator")

    def __repr__(self):
        return "map_it"


class KGMap(Kind):
    def __init__(self, kk, vk):
        self.model = GMap(kk, vk)
        self.name = "map<%s,%s>" % (kk, vk)

    def default(self, c):
        m = self.model
        return Abs(m, (z3.K(m.kk.sort(), z3.BoolVal(False)),
                       c.fresh_const("no_values", z3.ArraySort(m.kk.sort(), m.vk.sort()))))

    def fresh(self, c, nm):
        return self.model.fresh(c, None, nm)


_kinds = {}


def map_kind(sp):
    def f(args):
        kk, vk = sp.kind(args[0]), sp.kind(args[1])
        return _kinds.setdefault((str(kk.sort()), str(vk.sort())), KGMap(kk, vk))
    return f
