"""Assumed contracts of the standard library, as far as the code uses it.

Every entry here is part of the trusted base.
"""
import z3

from .values import *

USED = set()


def used(what):
    USED.add(what)


# ------------------------------------------------------------------ elements

def elem_eq(c, k, a, b):
    """Equality of packed elements a, b of kind k."""
    if isinstance(k, KPrim):
        f = c.spec.sort_ops.get((str(k.sort()), "=="))
        return f(c, a, b) if f else a == b
    if isinstance(k, KVec):
        no_own_operator(c, k.cls, "==")
        return seq_eq(c, k.unpack(a), k.unpack(b))
    if isinstance(k, KRec):
        return a == b
    raise Unsupported("element equality")


def no_own_operator(c, cls, op):
    """A sequence class of the repository compares as the vector it derives from
    unless it defines the operator itself."""
    if cls == "vector":
        return
    for q, fs in c.prog.funcs.items():
        if q.endswith("operator" + op) and (cls in q or any(cls + "<" in f["type"]["qualType"] for f in fs)):
            raise Unsupported("%s defines operator%s" % (cls, op))


def seq_eq(c, x, y):
    i = z3.Int(c.fresh_name("q"))
    return z3.And(x.len == y.len, z3.ForAll(
        [i], z3.Implies(z3.And(0 <= i, i < x.len),
                        elem_eq(c, x.ek, x.arr[i], y.arr[i])),
        patterns=[x.arr[i], y.arr[i]]))


def elem_lt(c, k, a, b):
    """operator< of packed elements."""
    if isinstance(k, KPrim):
        f = c.spec.sort_ops.get((str(k.sort()), "<"))
        if f:
            return f(c, a, b)
        if k.sort() == z3.IntSort():
            return a < b
        raise Unsupported("operator< of " + k.name)
    if isinstance(k, KVec):
        no_own_operator(c, k.cls, "<")
        return vec_lt(c, k, a, b)
    raise Unsupported("operator< of " + k.name)


def vec_lt(c, k, a, b):
    """Lexicographic order of sequences: assumed to be a strict total order
    consistent with element-wise equality when the element order is."""
    used("std::vector operator<: strict total order consistent with == over a totally ordered element type")
    s = k.sort()
    return z3.Function("lexlt_" + str(s), s, s, z3.BoolSort())(a, b)


# ------------------------------------------------------------------ vectors

def vec_insert(c, v, i, packed):
    """v with packed inserted before i."""
    arr = c.fresh_const("ins", v.arr.sort())
    k = z3.Int(c.fresh_name("k"))
    c.assume(z3.ForAll([k], arr[k] == z3.If(k < i, v.arr[k], z3.If(k == i, packed, v.arr[k - 1])),
                       patterns=[arr[k]]))
    c.assume(z3.ForAll([k], z3.And(z3.Implies(k < i, arr[k] == v.arr[k]),
                                   z3.Implies(k >= i, arr[k + 1] == v.arr[k])),
                       patterns=[v.arr[k]]))
    c.assume(arr[i] == packed)
    return Vec(v.cls, v.ek, v.len + 1, arr)


def vec_erase(c, v, i, j=None):
    """v without [i, j)."""
    if j is None:
        arr = c.fresh_const("era", v.arr.sort())
        k = z3.Int(c.fresh_name("k"))
        c.assume(z3.ForAll([k], arr[k] == z3.If(k < i, v.arr[k], v.arr[k + 1]), patterns=[arr[k]]))
        c.assume(z3.ForAll([k], z3.And(z3.Implies(k < i, arr[k] == v.arr[k]),
                                       z3.Implies(k > i, arr[k - 1] == v.arr[k])),
                           patterns=[v.arr[k]]))
        return Vec(v.cls, v.ek, v.len - 1, arr)
    arr = c.fresh_const("era", v.arr.sort())
    k = z3.Int(c.fresh_name("k"))
    d = j - i
    c.assume(z3.ForAll([k], arr[k] == z3.If(k < i, v.arr[k], v.arr[k + d]), patterns=[arr[k]]))
    c.assume(z3.ForAll([k], z3.And(z3.Implies(k < i, arr[k] == v.arr[k]),
                                   z3.Implies(k >= j, arr[k - d] == v.arr[k])),
                       patterns=[v.arr[k]]))
    return Vec(v.cls, v.ek, v.len - d, arr)


def vec_push(v, packed):
    return Vec(v.cls, v.ek, v.len + 1, z3.Store(v.arr, v.len, packed))


def mk_elem(c, ek, nodes):
    """emplace(args...): constructs an element."""
    if len(nodes) == 1:
        v = c.take(c.ev(nodes[0]))
        try:
            return ek.pack(v)
        except Unsupported:
            pass
        h = getattr(ek, "from_value", None)
        if h:
            return ek.pack(h(c, v))
        raise Unsupported("emplace conversion from %r to %s" % (v, ek))
    h = getattr(ek, "construct", None)
    if h:
        return ek.pack(h(c, [c.ev(a) for a in nodes]))
    if isinstance(ek, KRec) and ek.cls == "pair" and len(nodes) == 2:
        vs = [c.take(c.ev(a)) for a in nodes]
        return ek.pack(Rec("pair", dict(zip(("first", "second"), vs))))
    raise Unsupported("emplace of %s" % ek)


def method(c, b, name, argnodes, n):
    v = c.read(b)
    if isinstance(v, Vec):
        return vec_method(c, b, v, name, argnodes, n)
    if isinstance(v, Opt):
        if name == "has_value":
            return v.has
        if name == "value":
            if not c.branch(v.has):
                from .engine import CppThrow
                raise CppThrow("std::bad_optional_access")
            return b.f("*")
        if name == "operator bool":
            return v.has
        if name == "value_or" and v.val is not None and z3.is_expr(v.val):
            d = c.val(argnodes[0])
            if z3.is_expr(d) and d.sort() == v.val.sort():
                return z3.If(v.has, v.val, d)
        if name == "reset":
            c.write(b, Opt(z3.BoolVal(False), v.val))
            return VOID
        if name == "emplace":
            raise Unsupported("optional::emplace")
    if isinstance(v, Abs):
        m = getattr(v.model, "method", None)
        if m:
            return m(c, b, v, name, argnodes, n)
    if z3.is_expr(v):
        f = c.spec.sort_ops.get((str(v.sort()), "." + name))
        if f:
            return f(c, v, *[c.ev(a) for a in argnodes])
        f = c.spec.sort_ops.get((str(v.sort()), "@" + name))   # place aware
        if f:
            return f(c, b, *[c.ev(a) for a in argnodes])
        f = getattr(c.spec, "opaque_field", None)
        if f and not argnodes:
            r = f(c, v, name, n)
            if r is not NotImplemented:
                return r
    if isinstance(v, Rec):
        f = c.spec.sort_ops.get((v.cls, "." + name))
        if f:
            return f(c, b, *[c.ev(a) for a in argnodes])
    raise Unsupported("method %s of %r" % (name, v))


def vec_method(c, b, v, name, argnodes, n):
    used("std::vector::" + name)
    if name in ("size", "length"):
        return v.len
    if name == "empty":
        return v.len == 0
    if name in ("begin", "cbegin"):
        return It(Place(b.root, b.path), z3.IntVal(0))
    if name in ("end", "cend"):
        return It(Place(b.root, b.path), v.len)
    if name in ("rbegin", "crbegin"):
        return It(Place(b.root, b.path), v.len, True)
    if name in ("rend", "crend"):
        return It(Place(b.root, b.path), z3.IntVal(0), True)
    if name == "front":
        c.check("front() of a non-empty vector", v.len > 0, n)
        return b.i(z3.IntVal(0))
    if name == "back":
        c.check("back() of a non-empty vector", v.len > 0, n)
        return b.i(v.len - 1)
    if name == "operator[]" or name == "at":
        i = c.val(argnodes[0])
        if name == "at":
            if not c.branch(z3.And(i >= 0, i < v.len)):
                from .engine import CppThrow
                raise CppThrow("std::out_of_range")
        else:
            c.check("vector index is in range", z3.And(i >= 0, i < v.len), n)
        return b.i(i)
    if name in ("push_back", "emplace_back"):
        e = mk_elem(c, v.ek, argnodes)
        v = c.read(b)
        c.write(b, vec_push(v, e))
        return b.i(v.len)
    if name == "pop_back":
        c.check("pop_back() of a non-empty vector", v.len > 0, n)
        c.write(b, Vec(v.cls, v.ek, v.len - 1, v.arr))
        return VOID
    if name == "clear":
        c.write(b, Vec(v.cls, v.ek, z3.IntVal(0), v.arr))
        return VOID
    if name in ("reserve", "shrink_to_fit"):
        for a in argnodes:
            c.ev(a)
        return VOID
    if name in ("insert", "emplace") and len(argnodes) == 2:
        it = c.val(argnodes[0])
        e = mk_elem(c, v.ek, argnodes[1:])
        v = c.read(b)
        if not isinstance(it, It) or it.place.shape() != b.shape():
            raise Unsupported("insert position")
        c.check("insert position is in range", z3.And(it.idx >= 0, it.idx <= v.len), n)
        c.write(b, vec_insert(c, v, it.idx, e))
        return It(Place(b.root, b.path), it.idx)
    if name in ("insert",) and len(argnodes) == 3:
        it, f, l = [c.val(a) for a in argnodes]
        if isinstance(it, It) and isinstance(f, It) and isinstance(l, It):
            src = c.read(f.place)
            if not isinstance(src, Vec):
                raise Unsupported("insert range")
            c.check("insert position is in range", z3.And(it.idx >= 0, it.idx <= v.len), n)
            cnt = l.idx - f.idx
            arr = c.fresh_const("insr", v.arr.sort())
            k = z3.Int(c.fresh_name("k"))
            i = it.idx
            c.assume(z3.ForAll([k], arr[k] == z3.If(k < i, v.arr[k], z3.If(
                k < i + cnt, src.arr[f.idx + k - i], v.arr[k - cnt])), patterns=[arr[k]]))
            if getattr(c.spec, "both_ways", False):
                c.assume(z3.ForAll([k], z3.Implies(k < i, arr[k] == v.arr[k]), patterns=[v.arr[k]]))
                c.assume(z3.ForAll([k], z3.Implies(z3.And(f.idx <= k, k < l.idx), arr[i + k - f.idx] == src.arr[k]),
                                   patterns=[src.arr[k]]))
            c.write(b, Vec(v.cls, v.ek, v.len + cnt, arr))
            return It(Place(b.root, b.path), i)
    if name == "erase":
        its = [c.val(a) for a in argnodes]
        if all(isinstance(i, It) for i in its):
            i = its[0].idx
            if len(its) == 1:
                c.check("erase position is in range", z3.And(i >= 0, i < v.len), n)
                c.write(b, vec_erase(c, v, i))
            else:
                j = its[1].idx
                c.check("erase range is valid", z3.And(i >= 0, i <= j, j <= v.len), n)
                c.write(b, vec_erase(c, v, i, j))
            return It(Place(b.root, b.path), i)
    if name == "resize":
        m = c.val(argnodes[0])
        d = v.ek.pack(c.take(c.ev(argnodes[1]))) if len(argnodes) > 1 else c.dflt_elem(v.ek)
        arr = c.fresh_const("rsz", v.arr.sort())
        k = z3.Int(c.fresh_name("k"))
        c.assume(z3.ForAll([k], arr[k] == z3.If(k < v.len, v.arr[k], d), patterns=[arr[k]]))
        c.write(b, Vec(v.cls, v.ek, m, arr))
        return VOID
    if name == "swap" and len(argnodes) == 1:
        o = c.ev(argnodes[0])
        w = c.read(o)
        if isinstance(w, Vec):
            c.write(b, w)
            c.write(o, v)
            return VOID
    if name == "operator=":
        src = c.take(c.ev(argnodes[0]))
        c.write(b, Vec(v.cls, v.ek, src.len, src.arr))
        return b
    raise Unsupported("vector::" + name)


# ------------------------------------------------------------------ functions

def sorted_range(c, v, lo, hi):
    i, j = z3.Int(c.fresh_name("i")), z3.Int(c.fresh_name("j"))
    return z3.ForAll([i, j], z3.Implies(z3.And(lo <= i, i < j, j < hi), z3.Not(
        elem_lt(c, v.ek, v.arr[j], v.arr[i]))), patterns=[z3.MultiPattern(v.arr[i], v.arr[j])])


def function(c, name, argnodes, n, d):
    from .engine import split_targs, strip_cv, ty
    h = getattr(c.spec, "functions", {}).get(name)
    if h:
        r = h(c, argnodes, n)
        if r is not NotImplemented:
            return r
    if name in ("move", "forward"):
        if len(argnodes) == 1:
            p = c.ev(argnodes[0])
            if isinstance(p, Place):
                if name == "forward":
                    # an rvalue when the expression's category says so
                    return p.moved() if n.get("valueCategory") == "xvalue" else p
                return p.moved()
            return p
    if name == "as_const" or name == "addressof":
        p = c.ev(argnodes[0])
        return p if name == "as_const" else Ptr(p)
    if name == "swap":
        p, q = c.ev(argnodes[0]), c.ev(argnodes[1])
        used("std::swap")
        a, b = c.read(p), c.read(q)
        c.write(p, b)
        c.write(q, a)
        return VOID
    if name in ("max", "min") and len(argnodes) == 2:
        a, b = c.val(argnodes[0]), c.val(argnodes[1])
        used("std::" + name)
        return z3.If(a >= b, a, b) if name == "max" else z3.If(a <= b, a, b)
    if name == "abs":
        a = c.val(argnodes[0])
        return z3.If(a >= 0, a, -a)
    if name in ("lower_bound", "upper_bound") and len(argnodes) == 3:
        used("std::" + name)
        f, l, val = c.val(argnodes[0]), c.val(argnodes[1]), c.val(argnodes[2])
        if not (isinstance(f, It) and isinstance(l, It)):
            raise Unsupported(name + " range")
        v = c.read(f.place)
        x = v.ek.pack(val)
        c.check("%s: the range is sorted" % name, sorted_range(c, v, f.idx, l.idx), n)
        r = c.fresh_const(name, z3.IntSort())
        c.assume(z3.And(f.idx <= r, r <= l.idx))
        k = z3.Int(c.fresh_name("k"))
        if name == "lower_bound":
            before = elem_lt(c, v.ek, v.arr[k], x)
            c.assume(z3.Implies(r < l.idx, z3.Not(elem_lt(c, v.ek, v.arr[r], x))))
            c.assume(z3.Implies(r > f.idx, elem_lt(c, v.ek, v.arr[r - 1], x)))
        else:
            before = z3.Not(elem_lt(c, v.ek, x, v.arr[k]))
            c.assume(z3.Implies(r < l.idx, elem_lt(c, v.ek, x, v.arr[r])))
            c.assume(z3.Implies(r > f.idx, z3.Not(elem_lt(c, v.ek, x, v.arr[r - 1]))))
        c.assume(z3.ForAll([k], z3.Implies(z3.And(f.idx <= k, k < r), before), patterns=[v.arr[k]]))
        c.assume(z3.ForAll([k], z3.Implies(z3.And(r <= k, k < l.idx), z3.Not(before)), patterns=[v.arr[k]]))
        return It(f.place, r)
    if name == "find" and len(argnodes) == 3:
        used("std::find")
        f, l, val = [c.val(a) for a in argnodes]
        if isinstance(f, It) and isinstance(l, It):
            v = c.read(f.place)
            x = v.ek.pack(val)
            r = c.fresh_const("find", z3.IntSort())
            k = z3.Int(c.fresh_name("k"))
            c.assume(z3.And(f.idx <= r, r <= l.idx))
            c.assume(z3.Implies(r < l.idx, elem_eq(c, v.ek, v.arr[r], x)))
            c.assume(z3.ForAll([k], z3.Implies(z3.And(f.idx <= k, k < r), z3.Not(
                elem_eq(c, v.ek, v.arr[k], x))), patterns=[v.arr[k]]))
            return It(f.place, r)
    if name == "distance":
        f, l = [c.val(a) for a in argnodes]
        if isinstance(f, It) and isinstance(l, It):
            return l.idx - f.idx
    if name in ("next", "prev"):
        f = c.val(argnodes[0])
        k = c.val(argnodes[1]) if len(argnodes) > 1 and argnodes[1]["kind"] != "CXXDefaultArgExpr" else z3.IntVal(1)
        if isinstance(f, It):
            return It(f.place, f.idx + k if (name == "next") != f.rev else f.idx - k, f.rev)
    if name == "make_pair":
        vs = [c.take(c.ev(a)) for a in argnodes]
        return Rec("pair", dict(zip(("first", "second"), vs)))
    if name == "make_shared" or name == "make_unique":
        used("std::" + name)
        t = split_targs(strip_cv(ty(n)))[1][0]
        v = construct(c, strip_cv(t), argnodes, n, "")
        return Ptr(c.new_root("heap/" + n.get("id", "")[-5:], c.rv(v)))
    if name == "tie":
        return Abs(Tie(), [c.ev(a) for a in argnodes])
    if name in ("begin", "end", "cbegin", "cend", "size", "empty") and len(argnodes) == 1:
        b = c.ev(argnodes[0])
        if not isinstance(b, Place):
            b = c.temp(b)
        return method(c, b, name, [], n)
    raise Unsupported("function " + name)


class HashFn:
    """std::hash of a library type."""
    def operator(self, c, a, x, op, argnodes, n):
        if op == "()" and len(argnodes) == 2:
            f = getattr(c.spec, "std_hash", None)
            if f:
                return f(c, c.val(argnodes[1]))
        raise Unsupported("std::hash " + op)

    def __repr__(self):
        return "std::hash"


class Tie:
    """std::tie of lvalues: only compared."""
    def __repr__(self):
        return "tie"


# ------------------------------------------------------------------ operators

def operator(c, name, argnodes, n, d):
    op = name[len("operator"):]
    if op == "=":
        p = c.ev(argnodes[0])
        v = c.take(c.ev(argnodes[1]))
        old = c.read(p)
        h = c.spec.sort_ops.get(("*", "assign"))
        if h:
            r = h(c, p, old, v)
            if r is not NotImplemented:
                return r
        if isinstance(old, Vec) and isinstance(v, Vec):
            v = Vec(old.cls, old.ek, v.len, v.arr)
        elif isinstance(old, Opt) and not isinstance(v, Opt):
            v = Opt(z3.BoolVal(True), v)
        elif isinstance(old, Abs) and hasattr(old.model, "assign"):
            v = old.model.assign(c, old, v)
        c.write(p, v)
        return p
    a = c.ev(argnodes[0])
    x = c.rv(a)
    if isinstance(x, It):
        return it_op(c, a, x, op, argnodes, n)
    if isinstance(x, Vec):
        used("std::vector operator" + op)
        if op == "[]" or op == "()" and x.cls == "indexed":
            i = c.val(argnodes[1])
            b = a if isinstance(a, Place) else c.temp(a)
            c.check("vector index is in range", z3.And(i >= 0, i < x.len), n)
            return b.i(i)
        y = c.val(argnodes[1])
        if isinstance(y, Vec):
            if op == "==":
                return seq_eq(c, x, y)
            if op == "!=":
                return z3.Not(seq_eq(c, x, y))
            k = KVec(x.cls, x.ek)
            if op == "<":
                return vec_lt(c, k, k.pack(x), k.pack(y))
            if op == ">":
                return vec_lt(c, k, k.pack(y), k.pack(x))
    if isinstance(x, Opt):
        if op == "*":
            c.check("optional is dereferenced when it has a value", x.has, n)
            return a.f("*") if isinstance(a, Place) else x.val
        if op == "->":
            c.check("optional is dereferenced when it has a value", x.has, n)
            b = a if isinstance(a, Place) else c.temp(a)
            return Ptr(b.f("*"))
        if op in ("==", "!="):
            y = c.val(argnodes[1])
            if isinstance(y, Opt):
                r = z3.And(x.has == y.has, z3.Implies(x.has, c.equal(x.val, y.val)))
            else:
                r = z3.And(x.has, c.equal(x.val, y))
            return r if op == "==" else z3.Not(r)
    if isinstance(x, Clo) and op == "()":
        return c.call_closure(x, [c.ev(k) for k in argnodes[1:]], n)
    if isinstance(x, Abs):
        m = getattr(x.model, "operator", None)
        if isinstance(x.model, Tie):
            y = c.val(argnodes[1])
            prs = [(c.rv(p), c.rv(q)) for p, q in zip(x.data, y.data)]
            used("std::tuple comparison of std::tie")
            if op in ("==", "!="):
                r = z3.And([generic_eq(c, p, q) for p, q in prs])
                return r if op == "==" else z3.Not(r)
            if op == "<":
                r = z3.BoolVal(False)
                for p, q in reversed(prs):
                    r = z3.Or(generic_lt(c, p, q), z3.And(z3.Not(generic_lt(c, q, p)), r))
                return r
        if m:
            return m(c, a, x, op, argnodes, n)
    if z3.is_expr(x):
        f = c.spec.sort_ops.get((str(x.sort()), "@" + op))
        if f:
            return f(c, a, *[c.ev(k) for k in argnodes[1:]])
        y = c.val(argnodes[1]) if len(argnodes) > 1 else None
        f = c.spec.sort_ops.get((str(x.sort()), op))
        if f:
            return f(c, x, y) if y is not None else f(c, x)
        if op == "==" and z3.is_expr(y) and y.sort() == x.sort():
            return x == y
        if op == "!=" and z3.is_expr(y) and y.sort() == x.sort():
            return x != y
    if isinstance(x, Rec):
        f = c.spec.sort_ops.get((x.cls, op))
        if f:
            return f(c, a, *[c.ev(k) for k in argnodes[1:]])
    if isinstance(x, Ptr) and op in ("*", "->"):
        return c.deref(x, n) if op == "*" else x
    raise Unsupported("operator%s on %r" % (op, x))


def generic_eq(c, x, y):
    if isinstance(x, Vec):
        return seq_eq(c, x, y)
    if isinstance(x, Rec):
        f = c.spec.sort_ops.get((x.cls, "=="))
        if f:
            return f(c, x, y)
    return c.equal(x, y)


def generic_lt(c, x, y):
    if isinstance(x, Vec):
        k = KVec(x.cls, x.ek)
        return vec_lt(c, k, k.pack(x), k.pack(y))
    if isinstance(x, Rec):
        f = c.spec.sort_ops.get((x.cls, "<"))
        if f:
            return f(c, x, y)
    if z3.is_expr(x):
        return elem_lt(c, KPrim(x.sort()), x, y)
    raise Unsupported("operator< on %r" % (x,))


def it_op(c, a, x, op, argnodes, n):
    if op == "*":
        return c.deref_it(x, n)
    if op == "->":
        return Ptr(c.deref_it(x, n))
    if op in ("++", "--"):
        # the postfix form has an extra int argument
        up = (op == "++") != x.rev
        y = It(x.place, x.idx + 1 if up else x.idx - 1, x.rev)
        c.write(a, y)
        return x if len(argnodes) > 1 else a
    y = c.val(argnodes[1])
    if op in ("==", "!="):
        r = c.equal(x, y)
        return r if op == "==" else z3.Not(r)
    sgn = -1 if x.rev else 1
    if op in ("<", "<=", ">", ">=") and isinstance(y, It):
        p, q = sgn * x.idx, sgn * y.idx
        return {"<": p < q, "<=": p <= q, ">": p > q, ">=": p >= q}[op]
    if op == "-" and isinstance(y, It):
        return (x.idx - y.idx) * sgn
    if op in ("+", "-") and z3.is_expr(y):
        return It(x.place, x.idx + y * sgn if op == "+" else x.idx - y * sgn, x.rev)
    if op in ("+=", "-=") and z3.is_expr(y):
        c.write(a, It(x.place, x.idx + y * sgn if op == "+=" else x.idx - y * sgn, x.rev))
        return a
    if op == "[]" and z3.is_expr(y):
        return c.deref_it(It(x.place, x.idx + y * sgn, x.rev), n)
    raise Unsupported("iterator operator" + op)


# ------------------------------------------------------------------ construction

def construct(c, t, args, n, ct):
    """Constructors of library (or modelled) types."""
    h = getattr(c.spec, "construct", None)
    if h:
        r = h(c, t, args, n, ct)
        if r is not NotImplemented:
            return r
    from .engine import split_targs
    head, targs = split_targs(t)
    base = head.split("::")[-1]
    real = [a for a in args if a["kind"] != "CXXDefaultArgExpr"]
    if "stringstream" in base or "ostringstream" in base:
        for a in real:
            c.ev(a)
        return c.spec.zero_value(c, t)
    if len(real) == 1:
        a = c.ev(real[0])
        v = c.rv(a)
        if base in ("vector", "UniqueVector") and isinstance(v, Vec):
            v = c.take(a)
            return Vec(base, v.ek, v.len, v.arr)
        if base == "optional":
            if isinstance(v, Opt):
                return c.take(a)
            if isinstance(v, Abs) and v.data == "nullopt":
                return Opt(z3.BoolVal(False), None)
            return Opt(z3.BoolVal(True), c.take(a))
        if base == "pair" and isinstance(v, Rec):
            return c.take(a)
        if base in ("vector",) and z3.is_expr(v) and v.sort() == z3.IntSort():
            used("std::vector(n)")
            k = c.spec.kind(t)
            d = c.dflt_elem(k.ek)
            return Vec("vector", k.ek, v, z3.K(z3.IntSort(), d))
        if isinstance(v, (It, Ptr, Clo, Opt, Abs)):
            return c.take(a)
        if base in ("unordered_map", "unordered_set") and z3.is_expr(v) and v.sort() == z3.IntSort():
            return c.spec.zero_value(c, t)       # a number of buckets
        try:
            k = c.spec.kind(t)
            k.pack(v)
            return c.take(a)
        except Unsupported:
            pass
        if base == "function":
            return c.take(a)
        raise Unsupported("construct %s from %r" % (t, v))
    if t == "std::exception":
        return Rec("std::exception", {})
    if not real:
        if base == "optional":
            k = c.spec.kind(targs[0])
            return Opt(z3.BoolVal(False), k.fresh(c, "nullopt"))
        return c.spec.zero_value(c, t)
    if base == "pair" and len(real) == 2:
        vs = [c.take(c.ev(a)) for a in real]
        return Rec("pair", dict(zip(("first", "second"), vs)))
    if base == "vector" and len(real) == 2:
        m, v = c.val(real[0]), c.ev(real[1])
        k = c.spec.kind(t)
        if isinstance(m, It):
            l = c.rv(v)
            src = c.read(m.place)
            used("std::vector(first, last)")
            if isinstance(src, Vec) and isinstance(l, It):
                arr = c.fresh_const("rng", src.arr.sort())
                i = z3.Int(c.fresh_name("k"))
                c.assume(z3.ForAll([i], arr[i] == src.arr[m.idx + i], patterns=[arr[i]]))
                return Vec("vector", k.ek, l.idx - m.idx, arr)
        else:
            used("std::vector(n, value)")
            return Vec("vector", k.ek, m, z3.K(z3.IntSort(), k.ek.pack(c.take(v))))
    raise Unsupported("constructor of " + t)
