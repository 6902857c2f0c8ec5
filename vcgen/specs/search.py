"""Graph searches: exactly the goal paths, once each, in order (C16, C17).

A node is identified with the sequence of child numbers that leads to it from
the root, so a path and its last node are the same thing; the node graph is
arbitrary: which nodes are goals and how many children a node has are
uninterpreted functions of that sequence."""
import z3

from ..engine import *
from ..task import Lemma
from ..values import *
from ..stl import mk_elem
from . import par
from .comb import FA
from .val import B, IS
from ..engine import Spec

SOURCE = '''
#include <iostream>
#include "symbolic/planning/breadth_first_search.h"
#include "symbolic/planning/depth_first_search.h"
#include "symbolic/planning/a_star.h"
namespace symbolic {
namespace graph {
// Any type the searches can be used with: only declarations.
class Node {
 public:
  Node(const Node&);
  Node(Node&&) noexcept;
  Node& operator=(const Node&);
  Node& operator=(Node&&) noexcept;
  ~Node();
  class iterator {
   public:
    using value_type = Node;
    const Node& operator*() const;
    iterator& operator++();
    bool operator==(const iterator&) const;
    bool operator!=(const iterator&) const;
  };
  iterator begin() const;
  iterator end() const;
  explicit operator bool() const;
};
std::ostream& operator<<(std::ostream&, const Node&);
struct Precedes {
  bool operator()(const SearchNode<Node>&, const SearchNode<Node>&) const;
};
}
}
template class symbolic::BreadthFirstSearch<symbolic::graph::Node>;
template class symbolic::DepthFirstSearch<symbolic::graph::Node>;
template class symbolic::AStar<symbolic::graph::Node, symbolic::graph::Precedes>;
'''

NODE = z3.DeclareSort("Node")   # generated by the root and childOf, freely
_d = z3.Datatype("Shared")
_d.declare("nil")
_d.declare("shared", ("address", IS))
ADDR = _d.create()
CMP = z3.DeclareSort("Comparison")
DUR = z3.DeclareSort("Duration")
TIME = z3.DeclareSort("TimePoint")
KNODE, KADDR, KCMP, KDUR = KPrim(NODE, "Node"), KPrim(ADDR, "Shared"), KPrim(CMP, "Comparison"), KPrim(DUR, "Duration")
KPATH = KVec("vector", KNODE)
KPAIR = KRec("pair", [("first", KNODE), ("second", KADDR)])
KPAIRV = KRec("pair", [("first", KNODE), ("second", KPATH)])
SN = "symbolic::SearchNode<symbolic::graph::Node>"
KSN = KRec(SN, [("node", KNODE), ("ancestors", KPATH)])
KSN.real = True
ROOT = z3.Const("root", NODE)
child = z3.Function("childOf", NODE, IS, NODE)
parent = z3.Function("parent", NODE, NODE)
number = z3.Function("number", NODE, IS)
HEAP = "heap/paths"

goal = z3.Function("isGoal", NODE, B)
nch = z3.Function("numberOfChildren", NODE, IS)
depth = z3.Function("edgesTo", NODE, IS)
at = z3.Function("nodeOnPath", NODE, IS, NODE)
valid = z3.Function("isSearchPath", IS, NODE, B)       # at most that many edges, no goal before its end
pre = z3.Function("isPrefixOf", NODE, NODE, B)
lt = z3.Function("discoveredBefore", NODE, NODE, B)    # where they part, its child has the smaller number
precedes = z3.Function("precedes", CMP, NODE, NODE, B)
count = z3.Function("ticks", DUR, IS)

p, q, x, y = z3.Consts("p q x y", NODE)
i, j, k, m, h, t, h2, t2 = z3.Ints("i j k m h t h2 t2")


def gpath(m_, n):
    """n is a goal node and the path to it has at most m edges and no other goal."""
    return z3.And(valid(m_, n), goal(n))


defs = [
    depth(ROOT) == 0,
    FA([p, i], z3.And(depth(child(p, i)) == depth(p) + 1, parent(child(p, i)) == p, number(child(p, i)) == i), child(p, i)),
    FA([p], depth(p) >= 0, depth(p)),
    FA([p], nch(p) >= 0, nch(p)),
    FA([p], at(p, depth(p)) == p, depth(p)),
    FA([p, j, i], z3.Implies(i <= depth(p), at(child(p, j), i) == at(p, i)), at(child(p, j), i)),
    FA([m], z3.Implies(m >= 0, valid(m, ROOT)), valid(m, ROOT)),
    FA([m, p, j], valid(m, child(p, j)) == z3.And(valid(m, p), z3.Not(goal(p)), depth(p) < m, 0 <= j, j < nch(p)),
       valid(m, child(p, j))),
    FA([q, p], pre(q, p) == z3.And(depth(q) <= depth(p), at(p, depth(q)) == q), pre(q, p)),
    FA([p, i, j], z3.Implies(i < j, lt(child(p, i), child(p, j))), lt(child(p, i), child(p, j))),
    FA([x, p, j], z3.Implies(lt(x, p), lt(x, child(p, j))), lt(x, child(p, j))),
    FA([x, p, j], z3.Implies(lt(p, x), lt(child(p, j), x)), lt(child(p, j), x)),
]


def step(q, p):
    """The child of q on the way to p."""
    return at(p, depth(q) + 1)


def through(m_, q, p):
    s = step(q, p)
    return z3.And(z3.Not(goal(q)), depth(q) < m_, valid(m_, q), s == child(q, number(s)), parent(s) == q,
                  0 <= number(s), number(s) < nch(q), pre(s, p))


law_root = FA([p], pre(ROOT, p), pre(ROOT, p))
law_self = FA([p], pre(p, p), pre(p, p))
law_up = FA([x, q, j], z3.Implies(pre(child(q, j), x), pre(q, x)), pre(child(q, j), x))
law_down = FA([x, q, j], pre(x, child(q, j)) == z3.Or(x == child(q, j), pre(x, q)), pre(x, child(q, j)))
law_step = FA([m, q, p], z3.Implies(z3.And(valid(m, p), pre(q, p), q != p), through(m, q, p)),
              z3.MultiPattern(pre(q, p), valid(m, p), goal(q)))
law_lt = FA([q, p, y], z3.Implies(z3.And(lt(q, y), pre(q, p)), lt(p, y)), z3.MultiPattern(pre(q, p), lt(q, y), lt(p, y)))
law_at = FA([p, i], z3.Implies(z3.And(0 <= i, i <= depth(p)), depth(at(p, i)) == i), at(p, i))
LAWS = [law_root, law_self, law_up, law_down, law_step, law_lt]


def lemmas():
    out = [Lemma("the path starts at the root", [
        ("at the root", [], pre(ROOT, ROOT)),
        ("one edge further", [pre(ROOT, p)], pre(ROOT, child(p, j)))], defs)]
    out.append(Lemma("nodes of a path", [
        ("depth, at the root", [0 <= i, i <= depth(ROOT)], depth(at(ROOT, i)) == i),
        ("depth, one edge further", [z3.Implies(i <= depth(p), depth(at(p, i)) == i), 0 <= i, i <= depth(child(p, j))],
         depth(at(child(p, j), i)) == i),
        ("a node is a prefix of itself", [depth(p) >= 0], pre(p, p)),
        ("prefixes of a child", [depth(x) >= 0], pre(x, child(q, j)) == z3.Or(x == child(q, j), pre(x, q)))], defs))
    P = lambda z: z3.Implies(pre(child(q, k), z), pre(q, z))
    out.append(Lemma("prefixes of a prefix", [
        ("at the root", [depth(q) >= 0], P(ROOT)),
        ("one edge further", [P(p), depth(q) >= 0], P(child(p, j)))], defs + [law_down]))
    S = lambda z: z3.Implies(z3.And(valid(m, z), pre(q, z), q != z), through(m, q, z))
    out.append(Lemma("a search path continues through a child", [
        ("at the root", [depth(q) >= 0], S(ROOT)),
        ("one edge further", [S(p), depth(q) >= 0, at(p, depth(q) + 1) == at(p, depth(q) + 1), depth(step(q, p)) >= 0,
                              z3.Or(q == p, q != p), pre(child(q, j), child(p, j)) == pre(child(q, j), child(p, j))], S(child(p, j)))],
        defs + [law_down, law_self]))
    T = lambda z: z3.Implies(pre(q, z), lt(z, y))
    out.append(Lemma("order of discovery is kept below a node", [
        ("at the root", [lt(q, y), depth(q) >= 0], T(ROOT)),
        ("one edge further", [lt(q, y), T(p)], T(child(p, j)))], defs + [law_down]))
    return out


# ------------------------------------------------------------------ containers

_under = {}


def under_fn(ek):
    """under(a, h, t, p): one of the open entries h..t of a is a prefix of p."""
    key = str(ek.sort())
    if key in _under:
        return _under[key]
    A = z3.ArraySort(IS, ek.sort())
    f = z3.Function("continuesOpen_" + key, A, IS, IS, NODE, B)
    w = z3.Function("w_continuesOpen_" + key, A, IS, IS, NODE, IS)
    a, b = z3.Consts("a_%s b_%s" % (key, key), A)
    fld = ek.flds[0][0]
    nd = lambda arr, n: ek.get(arr[n], fld)
    U, W, U2 = f(a, h, t, p), w(a, h, t, p), f(b, h2, t2, p)
    ax = [
        FA([a, h, t, p], z3.Implies(U, z3.And(h <= W, W < t, pre(nd(a, W), p))), U),
        FA([a, h, t, p, k], z3.Implies(z3.And(h <= k, k < t, pre(nd(a, k), p)), U), z3.MultiPattern(U, a[k])),
        FA([a, h, t, b, h2, t2, p], z3.Implies(z3.And(U, h2 <= W, W < t2, nd(b, W) == nd(a, W)), U2), z3.MultiPattern(U, U2)),
        FA([b, h2, t2, p], z3.Implies(z3.And(h2 < t2, pre(nd(b, t2 - 1), p)), U2), U2),
    ]
    _under[key] = (f, nd, ax)
    return _under[key]


def name_arr(c, e):
    a = c.fresh_const("entries", e.sort())
    c.assume(a == e)
    return a


def name_int(c, e):
    a = c.fresh_const("end", IS)
    c.assume(a == e)
    return a


for _ek in (KPAIR, KPAIRV, KSN):
    par.seen(z3.Const("x", _ek.sort()))


def one_less(more, less, e, ek):
    """The open entries `more` are those of `less` and e."""
    f, _, _ = under_fn(ek)
    a, b = f(*more, p), f(*less, p)
    return FA([p], a == z3.Or(b, pre(ek.get(e, ek.flds[0][0]), p)), a, b)


def one_less_lemma(cont):
    """one_less after push and pop, from the definition."""
    ek = cont.ek
    f, nd, ax = under_fn(ek)
    A = z3.ArraySort(IS, ek.sort())
    a, e, n = z3.Const("a0", A), z3.Const("e0", ek.sort()), z3.Const("n0", NODE)
    b = z3.Const("b0", A)
    x0 = ek.get(e, ek.flds[0][0])
    H, T, K, T1 = z3.Ints("H T K T1")
    cases = []
    def both(nm, more, less, entry, hyps):
        M, L, E = f(*more, n), f(*less, n), pre(ek.get(entry, ek.flds[0][0]), n)
        look = [par.seen(M), par.seen(L), par.seen(entry)]
        cases.extend([(nm + ": none is lost", hyps + look + [M], z3.Or(L, E)),
                      (nm + ": the others stay", hyps + look + [L], M),
                      (nm + ": the one", hyps + look + [E], M)])
    both("push", (b, H, T1), (a, H, T), e, [H <= T, T1 == T + 1, b == z3.Store(a, T, e), par.seen(b[T])])
    both("pop the first", (a, H, T), (a, T1, T), a[H], [H < T, T1 == H + 1])
    both("pop the last", (a, H, T), (a, H, T1), a[T1], [H < T, T1 == T - 1])
    both("pop any", (a, H, T), (b, H, T1), a[K], [H <= K, K < T, T1 == T - 1, b == z3.Store(a, K, a[T1]),
                                                  par.seen(a[T1]), par.seen(b[K])])
    return Lemma("open entries after push and pop of a " + cont.kind, cases, defs + ax + [x_ for _, x_ in par.SEEN.values()])


class Cont:
    """std::queue, std::stack and std::priority_queue: the open entries are those
    at positions head..tail of an array."""
    def __init__(self, kind, ek):
        self.kind, self.ek = kind, ek

    def __repr__(self):
        return self.kind

    def make(self, c, arr, hd, tl, cmp=None):
        top = None
        if self.kind == "priority_queue":
            top = c.fresh_const("top", IS)
            nd = under_fn(self.ek)[1]
            c.assume(z3.Implies(tl > 0, z3.And(0 <= top, top < tl, FA(
                [k], z3.Implies(z3.And(0 <= k, k < tl), z3.Not(precedes(cmp, nd(arr, top), nd(arr, k)))), arr[k]))))
        return Abs(self, (arr, hd, tl, top, cmp))

    def empty(self, c, cmp=None):
        return self.make(c, z3.K(IS, c.fresh_const("noentry", self.ek.sort())), z3.IntVal(0), z3.IntVal(0), cmp)

    def any(self, c, name, cmp=None):
        hd = c.fresh_const(name + ".head", IS) if self.kind == "queue" else z3.IntVal(0)
        tl = c.fresh_const(name + ".tail", IS)
        c.assume(z3.And(0 <= hd, hd <= tl))
        return self.make(c, c.fresh_const(name + ".entries", z3.ArraySort(IS, self.ek.sort())), hd, tl, cmp)

    def fresh(self, c, v, base):
        return self.any(c, base, v.data[4])

    def moved(self, c, v):
        return self.empty(c, v.data[4])

    def same(self, c, a, b):
        return z3.And([u == v for u, v in zip(a.data[:3], b.data[:3])])

    def ints(self, c, v):
        return [("size", v.data[2] - v.data[1])]

    def item(self, c, v, idx):
        c.check("the entry is still in the " + self.kind, z3.And(v.data[1] <= idx, idx < v.data[2]))
        e = self.ek.unpack(v.data[0][idx])
        for u in e.fields.values():
            if isinstance(u, Vec):
                c.assume(u.len >= 0)
        return e

    def upd(self, c, v, s, rest, new):
        arr, hd, tl, top, cmp = v.data
        e = self.ek.unpack(arr[s[1]])
        e = c._upd(e, rest, new)
        return Abs(self, (z3.Store(arr, s[1], self.ek.pack(e)), hd, tl, top, cmp))

    def method(self, c, b, v, name, argnodes, n):
        from ..stl import used
        used("std::%s::%s" % (self.kind, name))
        arr, hd, tl, top, cmp = v.data
        if name == "empty":
            return hd == tl
        if name == "size":
            return tl - hd
        if name in ("front", "top", "back", "pop"):
            c.check("%s() of a non-empty %s" % (name, self.kind), hd < tl, n)
        if name == "front" and self.kind == "queue":
            return b.i(hd)
        if name == "back" and self.kind == "queue":
            return b.i(tl - 1)
        if name == "top" and self.kind != "queue":
            return b.i(tl - 1 if self.kind == "stack" else top)
        if name == "pop":
            if self.kind == "queue":
                gone, now = arr[hd], (arr, name_int(c, hd + 1), tl)
            elif self.kind == "stack":
                gone, now = arr[tl - 1], (arr, hd, name_int(c, tl - 1))
            else:
                gone, now = arr[top], (name_arr(c, z3.Store(arr, top, arr[tl - 1])), hd, name_int(c, tl - 1))
            c.assume(par.seen(gone))
            c.assume(one_less((arr, hd, tl), now, gone, self.ek))
            c.write(b, self.make(c, *now, cmp))
            return VOID
        if name in ("push", "emplace"):
            e = mk_elem(c, self.ek, argnodes)
            arr, hd, tl, top, cmp = c.read(b).data
            now = (name_arr(c, z3.Store(arr, tl, e)), hd, name_int(c, tl + 1))
            c.assume(par.seen(now[0][tl]))
            c.assume(one_less(now, (arr, hd, tl), e, self.ek))
            c.write(b, self.make(c, *now, cmp))
            return b.i(tl)
        if name == "swap":
            o = c.ev(argnodes[0])
            w = c.read(o)
            c.write(b, w)
            c.write(o, v)
            return VOID
        raise Unsupported("%s::%s" % (self.kind, name))


class KCont(Kind):
    def __init__(self, model):
        self.model, self.name = model, model.kind

    def default(self, c):
        return self.model.empty(c, c.fresh_const("comparison", CMP) if self.model.kind == "priority_queue" else None)

    def fresh(self, c, nm):
        return self.model.any(c, nm, c.fresh_const("comparison", CMP) if self.model.kind == "priority_queue" else None)


QUEUE, STACK, PQ = Cont("queue", KPAIR), Cont("stack", KPAIRV), Cont("priority_queue", KSN)
KQUEUE, KSTACK, KPQ = KCont(QUEUE), KCont(STACK), KCont(PQ)


class Children:
    """The children of a node, in order."""
    def length(self, c, v):
        return nch(v.data)

    def item(self, c, v, idx):
        return child(v.data, idx)

    def upd(self, c, v, s, rest, new):
        raise Unsupported("writing a child")

    def __repr__(self):
        return "children"


KIDS = Children()


def nodes_of(v):
    """Accessor of the open nodes of a container."""
    nd = under_fn(v.model.ek)[1]
    return lambda n: nd(v.data[0], n)


def under(v, n):
    return under_fn(v.model.ek)[0](v.data[0], v.data[1], v.data[2], n)


def in_range(v, n):
    return z3.And(v.data[1] <= n, n < v.data[2])


def prefix_of(c, v, n):
    """(length, array, exists) of the path stored with entry n."""
    e = v.data[0][n]
    s = v.model.ek.get(e, v.model.ek.flds[1][0])
    if v.model is QUEUE:
        hp = c.mem[HEAP]
        s2 = hp.arr[ADDR.address(s)]
        return KPATH.len_of(s2), KPATH.arr_of(s2), z3.And(ADDR.is_shared(s), 0 <= ADDR.address(s), ADDR.address(s) < hp.len)
    return KPATH.len_of(s), KPATH.arr_of(s), z3.BoolVal(True)


def entries_ok(c, v):
    ln, arr, ex = prefix_of(c, v, k)
    nd = nodes_of(v)(k)
    return [FA([k], z3.Implies(in_range(v, k), z3.And(ex, ln == depth(nd))), v.data[0][k]),
            FA([k, i], z3.Implies(z3.And(in_range(v, k), 0 <= i, i < depth(nd)), arr[i] == at(nd, i)),
               z3.MultiPattern(v.data[0][k], arr[i]))]


def all_valid(m_, v):
    nd = nodes_of(v)
    return FA([k], z3.Implies(in_range(v, k), valid(m_, nd(k))), v.data[0][k])


def apart(v):
    nd = nodes_of(v)
    return FA([i, j], z3.Implies(z3.And(in_range(v, i), in_range(v, j), i != j), z3.Not(pre(nd(i), nd(j)))),
              z3.MultiPattern(v.data[0][i], v.data[0][j]))


def ordered(v):
    nd = nodes_of(v)
    if v.model is QUEUE:
        r = z3.And(depth(nd(i)) <= depth(nd(j)), depth(nd(j)) <= depth(nd(i)) + 1)
    elif v.model is STACK:
        r = lt(nd(i), nd(j))
    else:
        return z3.BoolVal(True)
    return FA([i, j], z3.Implies(z3.And(in_range(v, i), in_range(v, j), i < j), r), z3.MultiPattern(v.data[0][i], v.data[0][j]))


def inv(c, m_, v):
    return [("every open node comes with the path to it", z3.And(entries_ok(c, v))),
            ("every open node ends a search path", all_valid(m_, v)),
            ("no open node continues another", apart(v)),
            ("open nodes are in order of discovery", ordered(v))]


def same_left(m_, v, v0, but=None):
    """Goal paths that continue an open node: the same in both."""
    f = under(v, p) == under(v0, p)
    g = gpath(m_, p) if but is None else z3.And(gpath(m_, p), p != but)
    return FA([p], z3.Implies(g, f), under(v, p), under(v0, p))


# ------------------------------------------------------------------ candidates

def conts(mem):
    for r, v in mem.items():
        if isinstance(v, Abs) and isinstance(v.model, Cont):
            yield r, v, (r, ())
        if isinstance(v, Rec):
            for f, u in v.fields.items():
                if isinstance(u, Abs) and isinstance(u.model, Cont):
                    yield r + "." + f, u, (r, (f,))


def written(lp, root, path):
    """The loop writes there."""
    return any(r == root and p_[:len(path)] == path[:len(p_)] for r, p_ in lp.havoc)


def limits(c):
    """Depth limits in view."""
    for r, v in c.mem.items():
        if isinstance(v, Rec) and r not in c.dead:
            for f in ("kMaxDepth", "max_depth_"):
                if f in v.fields and z3.is_expr(v.fields[f]):
                    yield r + "." + f, v.fields[f]


def candidates(c, lp):
    if HEAP in lp.entry:
        hp, old = c.mem[HEAP], lp.entry[HEAP]
        if written(lp, HEAP, ()):
            yield "paths stored before stay", lambda: z3.And(hp.len >= old.len, FA(
                [k], z3.Implies(z3.And(0 <= k, k < old.len), hp.arr[k] == old.arr[k]), hp.arr[k]))
    before = {r: v for r, v, _ in conts(lp.entry)}
    walks = []
    for r, v in c.mem.items():
        if isinstance(v, It) and r not in c.dead:
            s = c.mem.get(v.place.root)
            if isinstance(s, Abs) and s.model is KIDS:
                walks.append((r, s.data, v.idx))
    for rw, par_, idx in walks:
        yield rw + " is at a child or the end", lambda par_=par_, idx=idx: z3.And(0 <= idx, idx <= nch(par_))
    for r, v, pl in conts({r: c.mem[r] for r in lp.entry if r in c.mem}):
        if r not in before or not written(lp, *pl):
            continue
        v0 = before[r]
        nd = nodes_of(v)
        for n, f in enumerate(entries_ok(c, v)):
            yield "%s entries have their paths %d" % (r, n), lambda f=f: f
        yield r + " no open node continues another", lambda v=v: apart(v)
        yield r + " is in order", lambda v=v: ordered(v)
        for rm, m_ in limits(c):
            yield "%s search paths %s" % (r, rm), lambda v=v, m_=m_: all_valid(m_, v)
            yield "%s the same goal paths are left %s" % (r, rm), lambda v=v, v0=v0, m_=m_: same_left(m_, v, v0)
            for rw, par, idx in walks:
                yield "%s goal paths through the children before %s %s" % (r, rw, rm), \
                    lambda v=v, v0=v0, m_=m_, par=par, idx=idx: FA([p], z3.Implies(gpath(m_, p), under(v, p) == z3.Or(
                        under(v0, p), z3.And(pre(par, p), p != par, number(step(par, p)) < idx))),
                        under(v, p), under(v0, p))
        for rw, par, idx in walks:
            z = nd(k)
            own = z3.And(z == child(par, number(z)), number(z) < idx, 0 <= number(z))
            other = {"is apart": z3.And(z3.Not(pre(z, par)), z3.Not(pre(par, z)))}
            if v.model is QUEUE:
                other["is no deeper"] = z3.And(depth(par) <= depth(z), depth(z) <= depth(par) + 1)
            if v.model is STACK:
                other["came before"] = lt(z, par)
            for nm, f in other.items():
                yield "%s an open node is a child before %s or %s" % (r, rw, nm), \
                    lambda v=v, own=own, f=f: FA([k], z3.Implies(in_range(v, k), z3.Or(own, f)), v.data[0][k])


# ------------------------------------------------------------------ events

def hooks(c, qn, fn, this, args, node):
    if qn in ("symbolic::graph::Node::begin", "symbolic::graph::Node::end"):
        n = c.rv(this)
        for r, v in c.mem.items():
            if isinstance(v, Abs) and v.model is KIDS and z3.eq(v.data, n):
                pl = Place(r)
                break
        else:
            pl = c.new_root("ext/children", Abs(KIDS, n))
        return It(pl, z3.IntVal(0) if qn.endswith("begin") else nch(n))
    if qn.startswith("symbolic::graph::Node::iterator::operator") and not args[1:]:
        op = qn.rsplit("operator", 1)[1]
        a = c.rv(this)
        if op == "*":
            return c.deref_it(a, node)
        if op == "++" and not args:
            c.write(this, It(a.place, a.idx + 1))
            return this
        if op in ("==", "!=") and args:
            e = c.equal(a, c.rv(args[0]))
            return e if op == "==" else z3.Not(e)
    if qn == "symbolic::graph::Node::operator bool":
        n = c.rv(this)
        for r, v, _ in conts(c.mem):
            if r.split("#")[0].split("/")[0].split(".")[0] != "this":
                continue
            nd = nodes_of(v)
            f = {QUEUE: depth(n) <= depth(nd(k)), STACK: lt(nd(k), n),
                 PQ: z3.Not(precedes(v.data[4], n, nd(k))) if v.data[4] is not None else None}[v.model]
            nm = {QUEUE: "the node explored is one of the least deep open ones",
                  STACK: "the node explored is the most recently discovered open one",
                  PQ: "no open node precedes the node explored"}[v.model]
            c.check(nm, FA([k], z3.Implies(in_range(v, k), f), v.data[0][k]), node)
        return goal(n)
    return NotImplemented


def make_shared(c, argnodes, n):
    if not any(w in ty(n) for w in ("vector",)):
        return NotImplemented
    hp = c.mem[HEAP]
    if argnodes:
        v = c.take(c.ev(argnodes[0]))
        if not isinstance(v, Vec):
            raise Unsupported("make_shared argument")
        hp = c.mem[HEAP]
    else:
        v = KPATH.empty(c)
    c.write(Place(HEAP), Vec(hp.cls, hp.ek, hp.len + 1, z3.Store(hp.arr, hp.len, KPATH.pack(v))))
    return ADDR.shared(hp.len)


def deref_addr(c, a):
    c.check("shared pointer is not null", ADDR.is_shared(a))
    c.check("shared pointer refers to a path", z3.And(0 <= ADDR.address(a), ADDR.address(a) < c.mem[HEAP].len))
    return Place(HEAP, (("i", ADDR.address(a)),))


def assign(c, pl, old, v):
    if isinstance(v, Ptr) and z3.is_expr(old) and old.sort() == ADDR:
        if v.place is not None:
            raise Unsupported("shared pointer from a raw pointer")
        c.write(pl, ADDR.nil)
        return pl
    return NotImplemented


def reset_addr(c, pl, *args):
    if args:
        raise Unsupported("reset to another object")
    c.write(pl, ADDR.nil)
    return VOID


def construct(c, t, args, n, ct):
    head = t.split("<")[0]
    real = [a for a in args if a["kind"] != "CXXDefaultArgExpr"]
    if head in ("std::queue", "std::stack", "std::priority_queue"):
        kd = c.spec.kind(t)
        if not real:
            return kd.default(c)
        a = c.ev(real[0])
        v = c.rv(a)
        if isinstance(v, Abs):
            return c.take(a)
        if isinstance(v, Vec) and len(real) == 1 and head != "std::priority_queue":
            v = c.take(a)
            return kd.model.make(c, v.arr, z3.IntVal(0), v.len)
        if z3.is_expr(v) and v.sort() == CMP and len(real) == 1:
            return kd.model.empty(c, v)
        raise Unsupported("constructor of " + t)
    if head.endswith("shared_ptr") and not real:
        return ADDR.nil
    return NotImplemented


def sn_construct(c, args):
    """emplace: the constructor of SearchNode the arguments select."""
    rv = all(not isinstance(a, Place) or a.xv for a in args)
    cls, rec = c.class_of(SN)
    for mth in kids(rec):
        if mth.get("kind") == "CXXConstructorDecl":
            ps = c.prog.params(mth)
            if len(ps) == 2 and ps[0]["type"]["qualType"].endswith("&&") == rv:
                return c.construct(cls, rec, mth, args, None)
    raise Unsupported("constructor of SearchNode")


KSN.construct = sn_construct


def fresh_heap(c):
    v = Vec("heap", KPATH, c.fresh_const("paths.len", IS), c.fresh_const("paths", z3.ArraySort(IS, KPATH.sort())))
    c.assume(v.len >= 0)
    return v


# ------------------------------------------------------------------ contracts

class Search:
    """What the three searches differ in."""
    def __init__(self, cls, cont, kcont, itname):
        self.cls, self.cont, self.kcont, self.field = cls, cont, kcont, itname
        self.it = cls + "::iterator"

    def config(self, c):
        """The search object."""
        mx = c.fresh_const("max_depth", IS)
        c.assume(mx >= 0)
        if self.cont is QUEUE:
            return Rec(self.cls, {"max_depth_": mx, "verbose_": c.fresh_const("verbose", B),
                                  "timeout_": c.fresh_const("timeout", DUR), "root_": ROOT})
        r = {"kMaxDepth": mx, "root_": ROOT}
        if self.cont is PQ:
            r["compare_"] = c.fresh_const("comparison", CMP)
        return Rec(self.cls, r)

    def limit(self, c, it):
        if self.cont is QUEUE:
            return c.read(c.deref(it.fields["bfs_"])).fields["max_depth_"]
        return it.fields["kMaxDepth"]

    def timed(self, c, it):
        if self.cont is QUEUE:
            return count(c.read(c.deref(it.fields["bfs_"])).fields["timeout_"]) > 0
        return z3.BoolVal(False)

    def iterator(self, c, nm):
        a = {}
        if self.cont is QUEUE:
            if HEAP not in c.mem:
                c.mem[HEAP] = fresh_heap(c)
            a["bfs_"] = Ptr(c.new_root("ext/search", self.config(c)))
            a["queue_"] = KQUEUE.fresh(c, nm + ".queue_")
            a["ancestors_"] = c.fresh_const(nm + ".ancestors_", ADDR)
        else:
            mx = c.fresh_const(nm + ".kMaxDepth", IS)
            c.assume(mx >= 0)
            a["kMaxDepth"] = mx
            a[self.field] = self.kcont.fresh(c, nm + "." + self.field)
            a["ancestors_"] = KPATH.fresh(c, nm + ".ancestors_")
        return Rec(self.it, a)

    def open(self, it):
        return it.fields[self.field]

    def yielded(self, c, it):
        """(there is none, length, array)"""
        a = it.fields["ancestors_"]
        if isinstance(a, Vec):
            return a.len == 0, a.len, a.arr
        s = c.mem[HEAP].arr[ADDR.address(a)]
        return ADDR.is_nil(a), KPATH.len_of(s), KPATH.arr_of(s)

    def finished(self, c, it):
        v = self.open(it)
        return z3.And(v.data[1] == v.data[2], self.yielded(c, it)[0])

    def advanced(self, c, mx, timed, left0, it, left_same):
        """it: the iterator after a step from a state in which left0(p) held of
        the goal paths not yet yielded."""
        fin = self.finished(c, it)
        none, ln, arr = self.yielded(c, it)
        v = self.open(it)
        last = arr[ln - 1]
        on = lambda f: z3.Implies(z3.Not(fin), f)
        out = [("%s" % nm, f) for nm, f in inv(c, mx, v)]
        out += [
            ("at the end no goal path was left", z3.Implies(fin, z3.Or(timed, FA(
                [p], z3.Implies(gpath(mx, p), z3.Not(left0(p))), *self.pats(mx, p, left0, None))))),
            ("before the end a path is yielded", on(z3.And(z3.Not(none), ln > 0))),
            ("the path yielded is the one to its last node", on(z3.And(ln == depth(last) + 1, FA(
                [i], z3.Implies(z3.And(0 <= i, i < ln), arr[i] == at(last, i)), arr[i])))),
            ("it ends in its first goal and has at most the given number of edges", on(gpath(mx, last))),
            ("it had not been yielded before", on(left0(last))),
            ("it will not be yielded again", on(z3.Not(under(v, last)))),
            ("no other goal path is lost or added", on(FA([p], z3.Implies(z3.And(gpath(mx, p), p != last), under(v, p) == left0(p)),
                                                         *self.pats(mx, p, left0, v)))),
        ]
        if self.cont is QUEUE:
            out.append(("no shorter goal path is left", on(FA([p], z3.Implies(z3.And(gpath(mx, p), under(v, p)), depth(last) <= depth(p)), under(v, p)))))
        if self.cont is STACK:
            out.append(("goal paths left were discovered before", on(FA([p], z3.Implies(z3.And(gpath(mx, p), under(v, p)), lt(p, last)), under(v, p)))))
        return out

    def pats(self, mx, p_, left0, v):
        f = left0(p_)
        ps = [f] if z3.is_app(f) and f.num_args() and not z3.is_true(f) else []
        if v is not None:
            ps.append(under(v, p_))
        return ps + [z3.MultiPattern(valid(mx, p_), goal(p_))]


class Step(Contract):
    """++"""
    modifies = ("this",)
    returns_this = True

    def __init__(self, s):
        self.s, self.qname = s, s.it + "::operator++"

    def enter(self, c):
        it = self.s.iterator(c, "it")
        if self.s.cont is QUEUE:
            return it, []
        return it, []

    def pre(self, c, s):
        return inv(c, self.s.limit(c, s.this), self.s.open(s.this))

    def call_post(self, c, o, nw, ret):
        mx, tm = self.s.limit(c, o.this), self.s.timed(c, o.this)
        if self.s.cont is QUEUE:
            old = c.mem[HEAP]
            c.write(Place(HEAP), fresh_heap(c))
        else:
            old = None
        # Only the open nodes and the path change.
        it = Rec(o.this.cls, dict(o.this.fields, **{f: nw.this.fields[f] for f in (self.s.field, "ancestors_")}))
        c.write(o.this_place, it)
        return self.kept(c, old) + self.s.advanced(c, mx, tm, lambda n: under(self.s.open(o.this), n), it, None)

    def kept(self, c, old):
        if old is None:
            return []
        hp = c.mem[HEAP]
        return [("paths yielded earlier are left alone", z3.And(hp.len >= old.len, FA(
            [k], z3.Implies(z3.And(0 <= k, k < old.len), hp.arr[k] == old.arr[k]), hp.arr[k])))]

    def post(self, c, o, nw, ret):
        mx, tm = self.s.limit(c, o.this), self.s.timed(c, o.this)
        old = Vec("heap", KPATH, z3.Int("paths.len!0"), z3.Const("paths!0", z3.ArraySort(IS, KPATH.sort()))) \
            if self.s.cont is QUEUE else None
        rest = [f for f in o.this.fields if f not in (self.s.field, "ancestors_")]
        return self.kept(c, old) + self.s.advanced(c, mx, tm, lambda n: under(self.s.open(o.this), n), nw.this, None) + [
            ("keeps its limit and search", z3.And([same_value_(c, o.this.fields[f], nw.this.fields[f]) for f in rest] + [z3.BoolVal(True)]))]


def same_value_(c, a, b):
    from ..task import same_value
    return same_value(c, a, b)


class Begin(Contract):
    def __init__(self, s):
        self.s, self.qname = s, s.cls + "::begin"

    def enter(self, c):
        if self.s.cont is QUEUE:
            c.mem[HEAP] = fresh_heap(c)
        return self.s.config(c), []

    def post(self, c, o, nw, ret):
        f = o.this.fields
        mx = f.get("kMaxDepth", f.get("max_depth_"))
        tm = count(f["timeout_"]) > 0 if "timeout_" in f else z3.BoolVal(False)
        r = c.rv(ret)
        out = self.s.advanced(c, mx, tm, lambda n: z3.BoolVal(True), r, None)
        if self.s.cont is QUEUE:
            out.append(("searches as asked", c.equal(r.fields["bfs_"], Ptr(o.this_place))))
        else:
            out.append(("has the depth limit asked for", r.fields["kMaxDepth"] == mx))
        if self.s.cont is PQ:
            out.append(("uses the comparison given", self.s.open(r).data[4] == f["compare_"]))
        return out


class End(Contract):
    def __init__(self, s):
        self.s, self.qname = s, s.cls + "::end"

    enter = Begin.enter

    def post(self, c, o, nw, ret):
        return [("is finished", self.s.finished(c, c.rv(ret)))]


class ItCtor(Contract):
    """An iterator at the root, before the first step"""
    def __init__(self, s):
        self.s, self.qname = s, s.it + "::iterator"
        self.sig = {QUEUE: lambda t: "BreadthFirstSearch" in t, STACK: lambda t: "Node" in t and "size_t" in t,
                    PQ: lambda t: "size_t" in t}[s.cont]

    def enter(self, c):
        cf = self.s.config(c)
        if self.s.cont is QUEUE:
            c.mem[HEAP] = fresh_heap(c)
            return None, [Ptr(c.new_root("ext/search", cf))]
        a = [c.new_root("ext/root", ROOT), cf.fields["kMaxDepth"]]
        if self.s.cont is PQ:
            a = [c.new_root("ext/comparison", cf.fields["compare_"])] + a
        return None, a

    def ret(self, c, s):
        it = self.s.iterator(c, "it")
        if self.s.cont is QUEUE:
            c.write(Place(HEAP), fresh_heap(c))
            return Rec(it.cls, dict(it.fields, bfs_=s.args[0]))
        return it

    def post(self, c, o, nw, ret):
        it = c.rv(ret)
        mx = self.s.limit(c, it)
        v = self.s.open(it)
        out = inv(c, mx, v) + [("only the root is open", z3.And(v.data[2] == v.data[1] + 1, nodes_of(v)(v.data[1]) == ROOT)),
                               ("has yielded nothing", self.s.yielded(c, it)[0])]
        if self.s.cont is QUEUE:
            out.append(("searches as asked", c.equal(it.fields["bfs_"], o.args[0])))
        else:
            out.append(("has the depth limit asked for", mx == o.args[-1]))
        if self.s.cont is PQ:
            out.append(("uses the comparison given", v.data[4] == o.args[0]))
        return out


class EndCtor(Contract):
    """An iterator at the end"""
    def __init__(self, s):
        self.s, self.qname = s, s.it + "::iterator"
        self.sig = {QUEUE: lambda t: t.startswith("void()"), STACK: lambda t: t.startswith("void()"),
                    PQ: lambda t: t == "void(constgraph::Precedes&)"}[s.cont]

    def enter(self, c):
        if self.s.cont is PQ:
            return None, [c.new_root("ext/comparison", c.fresh_const("comparison", CMP))]
        if self.s.cont is QUEUE:
            c.mem[HEAP] = fresh_heap(c)
        return None, []

    def ret(self, c, s):
        it = self.s.iterator(c, "it")
        if self.s.cont is QUEUE:
            it = Rec(it.cls, dict(it.fields, bfs_=Ptr(None)))
        return it

    def post(self, c, o, nw, ret):
        return [("is finished", self.s.finished(c, c.rv(ret)))]


class Compare(Contract):
    def __init__(self, s, op):
        self.s, self.op, self.qname = s, op, s.it + "::operator" + op

    def enter(self, c):
        return self.s.iterator(c, "a"), [c.new_root("ext/other", self.s.iterator(c, "b"))]

    def ret(self, c, s):
        return c.fresh_const("equal", B)

    def post(self, c, o, nw, ret):
        e = z3.And(self.s.finished(c, o.this), self.s.finished(c, o.args[0]))
        return [("both are at the end" if self.op == "==" else "not both are at the end",
                 c.rv(ret) == (e if self.op == "==" else z3.Not(e)))]


class Deref(Contract):
    def __init__(self, s):
        self.s, self.qname = s, s.it + "::operator*"

    def enter(self, c):
        return self.s.iterator(c, "it"), []

    def pre(self, c, s):
        if self.s.cont is QUEUE:
            a = s.this.fields["ancestors_"]
            return [("a path was yielded", z3.And(ADDR.is_shared(a), 0 <= ADDR.address(a), ADDR.address(a) < c.mem[HEAP].len))]
        return []

    def post(self, c, o, nw, ret):
        a = o.this.fields["ancestors_"]
        ok = isinstance(ret, Place)
        if ok and self.s.cont is QUEUE:
            ok = ret.root == HEAP and len(ret.path) == 1
            return [("refers to the path yielded", ret.path[0][1] == ADDR.address(a) if ok else z3.BoolVal(False))]
        ok = ok and ret.root == o.this_place.root and ret.path == o.this_place.path + (("f", "ancestors_"),)
        return [("refers to the path yielded", z3.BoolVal(ok))]


class SearchCtor(Contract):
    def __init__(self, s):
        self.s, self.qname = s, s.cls + "::" + s.cls.split("::")[1].split("<")[0]
        self.sig = lambda t: "size_t" in t

    def enter(self, c):
        f = self.s.config(c).fields
        self.want = f
        root = c.new_root("ext/root", ROOT)
        if self.s.cont is QUEUE:
            return None, [root, f["max_depth_"], f["verbose_"], f["timeout_"]]
        if self.s.cont is STACK:
            return None, [root, f["kMaxDepth"]]
        return None, [c.new_root("ext/comparison", f["compare_"]), root, f["kMaxDepth"]]

    def post(self, c, o, nw, ret):
        return [("keeps " + f.strip("_"), c.rv(ret).fields[f] == v) for f, v in self.want.items()]


N = "symbolic::graph::Node"
BFS = Search("symbolic::BreadthFirstSearch<%s>" % N, QUEUE, KQUEUE, "queue_")
DFS = Search("symbolic::DepthFirstSearch<%s>" % N, STACK, KSTACK, "stack_")
AST = Search("symbolic::AStar<%s, symbolic::graph::Precedes>" % N, PQ, KPQ, "queue_")


def contracts(s):
    return [Step(s), Begin(s), End(s), ItCtor(s), EndCtor(s), Compare(s, "=="), Compare(s, "!="), Deref(s), SearchCtor(s)]


def install(sp):
    sp.kinds.update({
        N: KNODE, "Node": KNODE, "symbolic::graph::Precedes": KCMP, "Precedes": KCMP,
        SN: KSN, "SearchNode<Node>": KSN, "symbolic::SearchNode": lambda a: KSN, "SearchNode": lambda a: KSN,
        "std::shared_ptr": lambda a: KADDR, "shared_ptr": lambda a: KADDR,
        "std::deque": lambda a: KVec("vector", sp.kind(a[0])),
        "std::queue": lambda a: KQUEUE, "std::stack": lambda a: KSTACK, "std::priority_queue": lambda a: KPQ,
        "std::chrono::duration": lambda a: KDUR, "std::chrono::microseconds": KDUR})
    sp.hooks = [hooks]
    sp.cands = [candidates]
    sp.construct = construct
    sp.reference_members = True
    sp.functions = {"make_shared": make_shared, "now": lambda c, a, n: c.fresh_const("now", TIME)}
    ops = {
        (str(ADDR), "deref"): deref_addr, (str(ADDR), "null"): lambda c, a: ADDR.is_nil(a),
        (str(ADDR), "*"): deref_addr, (str(ADDR), "->"): lambda c, a: Ptr(deref_addr(c, a)),
        (str(ADDR), ".operator bool"): lambda c, a: ADDR.is_shared(a),
        (str(ADDR), "@reset"): reset_addr, (str(ADDR), ".get"): lambda c, a: a,
        ("*", "assign"): assign,
        (str(DUR), ".count"): lambda c, d: count(d),
        (str(TIME), "-"): lambda c, a, b: c.fresh_const("elapsed", DUR),
        (str(DUR), ">"): lambda c, a, b: c.fresh_const("late", B), (str(DUR), "<"): lambda c, a, b: c.fresh_const("late", B),
        (str(DUR), ">="): lambda c, a, b: c.fresh_const("late", B), (str(DUR), "<="): lambda c, a, b: c.fresh_const("late", B),
    }
    sp.sort_ops.update(ops)
    ax = defs + LAWS
    for ek in (KPAIR, KPAIRV, KSN):
        ax = ax + under_fn(ek)[2]
    sp.base_axioms = defs
    sp.axioms = ax + [x_ for _, x_ in par.SEEN.values()]


def tasks(prop, repo, missing, trusted, assume):
    from ..ast import Program
    from ..verify import Task, fn_tasks
    prog = Program(SOURCE, repo)
    sp = Spec(prog)
    install(sp)
    use = [k_ for s in ([BFS] if prop == "C16" else [DFS, AST]) for k_ in contracts(s)]
    sp.contracts = use
    assume += [
        "nodes are expanded deterministically and finitely: iterating a node twice gives the same children",
        "copying, moving and printing a node have no other effect; the searches are verified over an opaque node type",
        "the root node and the comparison outlive the search and do not change (kept by reference)",
        "each search object and iterator is used by one thread"]
    out = fn_tasks(sp, use, missing, prop)
    return out + [Task("lemma", "lemma " + l.name, sp, obj=l) for l in lemmas() + [one_less_lemma(k_) for k_ in ([QUEUE] if prop == "C16" else [STACK, PQ])]]
