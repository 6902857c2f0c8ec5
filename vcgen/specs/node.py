"""Planner nodes: children are exactly the applicable actions that lead to
states not yet on the path (C15)."""
import z3

from .plan import *
from . import der, dom, eff, form, plan, prop, val
from ..stl import used

SOURCE = '''
#include "planning/planner.cc"
'''

SETS = z3.ArraySort(STATE, B)
KSTATES = KPrim(SETS, "States")
_d = z3.Datatype("SharedStates")
_d.declare("nostates")
_d.declare("states", ("members", SETS))
CP = _d.create()
KCP = KPrim(CP, "SharedStates")
NODEC = "symbolic::Planner::Node"
IMPLC = NODEC + "::NodeImpl"
ITC = NODEC + "::iterator"
PLANNERC = "symbolic::Planner"
KIMPL = KRec(IMPLC, [("pddl_", KPDDL), ("state_", KST), ("ancestors_", KCP), ("action_", KSTR), ("depth_", KINT)])
KIMPL.real = True
_d = z3.Datatype("SharedNode")
_d.declare("nonode")
_d.declare("anode", ("contents", KIMPL.sort()))
NP = _d.create()
KNP = KPrim(NP, "SharedNode")
KNODE = KRec(NODEC, [("impl_", KNP)])
KNODE.real = True
_d = z3.Datatype("TupleIterator")
_d.declare("tuples", ("owner", IS), ("source", GEN), ("at", IS))
GIT = _d.create()
KGIT = KPrim(GIT, "TupleIterator")
for k_, z_ in ((KCP, CP.nostates), (KNP, NP.nonode), (KSTATES, z3.K(STATE, z3.BoolVal(False)))):
    k_.default = lambda c, z_=z_: z_

KPLANNER = KRec(PLANNERC, [("root_", KNODE)])
KPLANNER.real = True
consN = z3.Function("consistentForm", PDDL, STATE, STATE)
isChild = z3.Function("isChild", PDDL, STATE, SETS, IS, IS, B)
tupOf = z3.Function("argumentsAt", PDDL, IS, IS, SEQ)
nact = lambda p: KVACT.len_of(actsOf(p))
act = lambda p, a: KVACT.arr_of(actsOf(p))[a]
gen = lambda p, a: KACTION.get(act(p, a), "param_gen_")
gcount = lambda p, a: gsize(gpd(gen(p, a)), gvs(gen(p, a)))
succ = lambda p, S, a, b: stepN(p, act_sym(p, a), tupOf(p, a, b), S)
X_ = z3.Const("X_", SETS)
node_defs = [
    FA([pd, ii, jj], tupOf(pd, ii, jj) == tup_seq(gpd(gen(pd, ii)), gvs(gen(pd, ii)), jj), [tupOf(pd, ii, jj)]),
    FA([pd, S_, X_, ii, jj], isChild(pd, S_, X_, ii, jj) == z3.And(
        0 <= ii, ii < nact(pd), 0 <= jj, jj < gcount(pd, ii), canN(pd, act_sym(pd, ii), tupOf(pd, ii, jj), S_),
        z3.Not(X_[succ(pd, S_, ii, jj)])), [isChild(pd, S_, X_, ii, jj)]),
]


def contents(n):
    """Fields of a node (a record or a packed record)."""
    v = NP.contents(n.fields["impl_"] if isinstance(n, Rec) else n)
    return {f: KIMPL.get(v, f) for f, _ in KIMPL.flds}


def there(n):
    return NP.is_anode(n.fields["impl_"])


def path_of(n):
    """The states on the path to node n, its own included."""
    f = contents(n)
    return z3.Store(CP.members(f["ancestors_"]), f["state_"], z3.BoolVal(True))


def node_ok(n):
    f = contents(n)
    return z3.And(there(n), CP.is_states(f["ancestors_"]), f["depth_"] >= 0)


def below(n, x):
    """x holds what is common to the children of n."""
    f, g = contents(n), contents(x)
    return z3.And(there(x), g["pddl_"] == f["pddl_"], g["ancestors_"] == CP.states(path_of(n)), g["depth_"] == f["depth_"] + 1)


def sibling(n, x):
    return z3.Or(z3.Not(there(x)), below(n, x))


def is_child(n, a, b):
    f = contents(n)
    return isChild(f["pddl_"], f["state_"], path_of(n), a, b)


def child_at(n, x, a, b):
    """x is the child of n at position (a, b)."""
    f, g = contents(n), contents(x)
    p = f["pddl_"]
    return z3.And(below(n, x), g["state_"] == succ(p, f["state_"], a, b), g["action_"] == callText(
        nameS(field("name", act_sym(p, a))), tupOf(p, a, b)))


class Pos:
    """Where an iterator stands."""
    def __init__(self, it):
        f = it.fields
        self.it, self.p, self.n, self.x = it, f["pddl_"], f["parent_"], f["child_"]
        self.a, self.g = f["it_action_"].idx, f["it_param_"]
        self.b = GIT.at(self.g)

    def end(self):
        return self.a == nact(self.p)

    def ok(self):
        g, a = self.g, self.a
        return [("stands at an action or at the end", z3.And(0 <= a, a <= nact(self.p))),
                ("stands at arguments of its action", z3.Implies(a < nact(self.p), z3.And(
                    GIT.owner(g) == a, GIT.source(g) == gen(self.p, a), 0 <= self.b, self.b <= gcount(self.p, a)))),
                ("has a child of its node, if any", sibling(self.n, self.x))]

    def same_node(self):
        return z3.And(self.p == contents(self.n)["pddl_"], node_ok(self.n))


def before(a, b, a2, b2):
    return z3.Or(a < a2, z3.And(a == a2, b < b2))


def none_between(lo, hi, n, lo_in, hi_in):
    """No child of n stands between two positions."""
    ge = before(lo.a, lo.b, ii, jj)
    le = before(ii, jj, hi.a, hi.b)
    if lo_in:
        ge = z3.Or(ge, z3.And(ii == lo.a, jj == lo.b))
    if hi_in:
        le = z3.Or(le, z3.And(ii == hi.a, jj == hi.b))
    f = contents(n)
    return FA([ii, jj], z3.Implies(z3.And(ge, le), z3.Not(is_child(n, ii, jj))), [is_child(n, ii, jj)])


# ------------------------------------------------------------------ model

def actions_root(c, p):
    """The actions of the domain p: one place for each domain."""
    v = KVACT.unpack(actsOf(p))
    for r in c.mem:
        if r.split("#")[0] == "ext/actions" and z3.eq(c.mem[r].arr, v.arr):
            return Place(r)
    pl = c.new_root("ext/actions", v)
    f = KACTION.unpack(act(p, ii)).fields
    c.assume(FA([ii], z3.Implies(z3.And(0 <= ii, ii < nact(p)), z3.And(
        [x for _, x in action_facts(f, p)] + [f["parameters_"].len > 0, slen(params(p, act_sym(p, ii))) > 0])), [act(p, ii)]))
    c.assume(nact(p) > 0)
    c.assume(nact(p) <= 2 ** 62)
    return pl


def forget_tuples(c):
    """References to the tuple inside an iterator that has moved."""
    for r in [r for r in c.mem if r.split("#")[0] == "ext/tuple"]:
        del c.mem[r]
        c.dead.add(r)


def node_hooks(c, qn, fn, this, args, node):
    nme = fn.get("name", "")
    v = None
    if nme == "operator()" and len(args) == 1 and "hash" in fn.get("mangledName", ""):
        v = c.rv(args[0])
        return shash(v) if z3.is_expr(v) and v.sort() == STATE else NotImplemented
    if this is not None:
        v = c.rv(this)
    elif args and nme.startswith("operator"):
        v = c.rv(args[0])
        this, args = args[0], args[1:]
    if not z3.is_expr(v):
        return NotImplemented
    if v.sort() == PDDL and qn == "symbolic::Pddl::actions":
        return actions_root(c, v)
    if v.sort() == GEN and nme in ("begin", "cbegin", "end", "cend"):
        pt = this.path
        if not (this.root.split("#")[0] == "ext/actions" and len(pt) == 2 and pt[0][0] == "i" and pt[1] == ("f", "param_gen_")):
            raise Unsupported("iterator of a generator that is not an action's")
        return GIT.tuples(pt[0][1], v, z3.IntVal(0) if nme in ("begin", "cbegin") else gsize(gpd(v), gvs(v)))
    if v.sort() == GIT and nme.startswith("operator"):
        op = nme[len("operator"):]
        if op in ("==", "!="):
            w = c.rv(args[0])
            e = z3.And(GIT.owner(v) == GIT.owner(w), GIT.at(v) == GIT.at(w))
            return e if op == "==" else z3.Not(e)
        if op in ("++", "--"):
            forget_tuples(c)
            c.write(this, GIT.tuples(GIT.owner(v), GIT.source(v), GIT.at(v) + (1 if op == "++" else -1)))
            return v if args else this
        if op in ("+=", "-="):
            forget_tuples(c)
            d = c.rv(args[0])
            c.write(this, GIT.tuples(GIT.owner(v), GIT.source(v), GIT.at(v) + (d if op == "+=" else -d)))
            return this
        if op == "=":
            forget_tuples(c)
            c.write(this, c.take(args[0]))
            return this
        if op in ("*", "->"):
            g = GIT.source(v)
            t = KVOBJ.fresh(c, "tuple")
            x = gtup(gpd(g), gvs(g), GIT.at(v))
            c.assume(z3.Implies(z3.And(0 <= GIT.at(v), GIT.at(v) < gsize(gpd(g), gvs(g))), z3.And(
                t.len == KVOBJ.len_of(x), t.arr == KVOBJ.arr_of(x), vseq(t) == tup_seq(gpd(g), gvs(g), GIT.at(v)))))
            pl = c.new_root("ext/tuple", t)
            return pl if op == "*" else Ptr(pl)
        raise Unsupported("tuple iterator " + nme)
    if v.sort() == SETS and nme == "size":
        return c.fresh_const("size", IS)
    return NotImplemented


def deref_node(c, a):
    c.check("node is not empty", NP.is_anode(a))
    return c.new_root("ext/node", KIMPL.unpack(NP.contents(a)))


def deref_states(c, a):
    c.check("ancestors are not null", CP.is_states(a))
    return c.new_root("ext/ancestors", CP.members(a))


def state_in(c, n):
    v = c.rv(n)
    if not (isinstance(v, Rec) and v.cls == NODEC):
        raise Unsupported("member of a set of nodes")
    c.check("node is not empty", there(v))
    return contents(v)["state_"]


def insert(c, pl, n):
    used("std::unordered_set<Planner::Node> compares nodes by ==, with a hash of the state")
    if pl.root.split("#")[0] == "ext/ancestors":
        raise Unsupported("insertion into a constant set")
    s = state_in(c, n)
    c.write(pl, z3.Store(c.read(pl), s, z3.BoolVal(True)))
    return VOID


def count(c, m, n):
    used("std::unordered_set<Planner::Node> compares nodes by ==, with a hash of the state")
    return z3.If(m[state_in(c, n)], z3.IntVal(1), z3.IntVal(0))


class Found:
    """An iterator of a set: whether it stands at an element."""
    def equal(self, c, x, y):
        for a, b in ((x, y), (y, x)):
            if isinstance(b, Abs) and b.data is None and isinstance(a, Abs):
                return z3.BoolVal(True) if a.data is None else z3.Not(a.data)
        raise Unsupported("comparison of set iterators")

    def operator(self, c, a, x, op, argnodes, n):
        if op in ("==", "!=") and len(argnodes) == 2:
            e = self.equal(c, x, c.rv(c.ev(argnodes[1])))
            return e if op == "==" else z3.Not(e)
        raise Unsupported("set iterator " + op)

    def __repr__(self):
        return "set iterator"


FOUND = Found()


def make_shared(c, argnodes, n):
    t = ty(n)
    args = [c.ev(a) for a in argnodes]
    if "NodeImpl>" in t:
        cls, rec = c.class_of(IMPLC)
        for mth in kids(rec):
            if mth.get("kind") == "CXXConstructorDecl" and not mth.get("isImplicit"):
                ps = c.prog.params(mth)
                if len(ps) == len(args):
                    args = [convert(c, a, q_) for a, q_ in zip(args, ps)]
                    return NP.anode(KIMPL.pack(c.rv(c.construct(cls, rec, mth, args, None))))
        raise Unsupported("constructor of NodeImpl")
    if "Cache" in t or "unordered_set" in t:
        v = c.take(args[0]) if args else KSTATES.default(c)
        if not (z3.is_expr(v) and v.sort() == SETS):
            raise Unsupported("make_shared of a set")
        if "<const" in t.replace(" ", ""):
            return CP.states(v)
        return Ptr(c.new_root("ext/newstates", v))
    return NotImplemented


def convert(c, a, param):
    """The conversions make_shared does when it passes its arguments on."""
    t = ty(param)
    if "shared_ptr" in t:
        return c.temp(frozen(c, c.take(a)))
    return a


def frozen(c, v):
    """A pointer to a constant set: what it refers to cannot change any more. Use
    of another pointer to the same set after this is out of reach."""
    if isinstance(v, Ptr):
        if v.place is None:
            return CP.nostates
        s = c.read(v.place)
        if v.place.path or v.place.root.split("#")[0] != "ext/newstates":
            raise Unsupported("pointer to a set")
        del c.mem[v.place.root]
        c.dead.add(v.place.root)
        return CP.states(s)
    return v


def construct(c, t, args, n, ct):
    if not t.split("<")[0].endswith("shared_ptr"):
        return NotImplemented
    real = [a for a in args if a["kind"] != "CXXDefaultArgExpr"]
    isnode = "NodeImpl>" in t
    if not real:
        return NP.nonode if isnode else CP.nostates if "const" in t else Ptr(None)
    v = c.take(c.ev(real[0]))
    if isnode:
        return NP.nonode if isinstance(v, Ptr) and v.place is None else v
    return frozen(c, v) if "const" in t else v


def assign(c, pl, old, v):
    if isinstance(v, Ptr) and z3.is_expr(old) and old.sort() == CP:
        c.write(pl, frozen(c, v))
        return pl
    if isinstance(v, Ptr) and z3.is_expr(old) and old.sort() == NP:
        if v.place is not None:
            raise Unsupported("node from a raw pointer")
        c.write(pl, NP.nonode)
        return pl
    return NotImplemented


def candidates(c, lp):
    for r, v in c.mem.items():
        e = lp.entry.get(r)
        if r in c.dead or not (isinstance(v, Rec) and v.cls == ITC and isinstance(e, Rec)):
            continue
        if not any(h[0] == r for h in lp.havoc):
            continue
        P, E = Pos(v), Pos(e)
        for nm_, f in P.ok():
            yield "%s %s" % (r, nm_), lambda f=f: f
        yield r + " stands at an action", lambda P=P: P.a < nact(P.p)
        yield r + " has not gone back", lambda P=P, E=E: z3.Not(before(P.a, P.b, E.a, E.b))
        yield r + " has not gone on", lambda P=P, E=E: z3.Not(before(E.a, E.b, P.a, P.b))
        yield r + " passed over no child", lambda P=P, E=E: none_between(E, P, P.n, False, True)
        yield r + " passed back over no child", lambda P=P, E=E: none_between(P, E, P.n, True, False)
        yield r + " stays with its node", lambda P=P, E=E: z3.And(P.n.fields["impl_"] == E.n.fields["impl_"], P.p == E.p)


# ------------------------------------------------------------------ contracts

def some_node(c, nm_):
    n = KNODE.fresh(c, nm_)
    return n


def some_iterator(c, nm_, n):
    """An iterator over the children of node n."""
    p = contents(n)["pddl_"]
    acts = actions_root(c, p)
    return Rec(ITC, {"pddl_": p, "parent_": n, "child_": KNODE.fresh(c, nm_ + ".child_"),
                     "it_action_": It(acts, c.fresh_const(nm_ + ".it_action_", IS)),
                     "it_param_": c.fresh_const(nm_ + ".it_param_", GIT)})


def same_node(x, y):
    return x.fields["impl_"] == y.fields["impl_"]


class ItCtor(Contract):
    """An iterator at the first arguments of the first action"""
    qname = ITC + "::iterator"

    def enter(self, c):
        n = some_node(c, "node")
        actions_root(c, contents(n)["pddl_"])
        return None, [c.new_root("ext/parent", n)]

    def pre(self, c, s):
        return [("the node has a path", node_ok(s.args[0]))]

    def ret(self, c, s):
        return some_iterator(c, "it", s.args[0])

    def post(self, c, o, nw, ret):
        it = c.rv(ret)
        P = Pos(it)
        return P.ok() + [("is over the node's children", z3.And(same_node(P.n, o.args[0]), P.same_node())),
                         ("stands at the first arguments of the first action", z3.And(P.a == 0, P.b == 0)),
                         ("has no child yet", z3.Not(there(P.x)))]


class Begin(Contract):
    qname = NODEC + "::begin"

    def enter(self, c):
        n = some_node(c, "node")
        actions_root(c, contents(n)["pddl_"])
        return n, []

    def pre(self, c, s):
        return [("the node has a path", node_ok(s.this))]

    def ret(self, c, s):
        return some_iterator(c, "it", s.this)

    def post(self, c, o, nw, ret):
        P = Pos(c.rv(ret))
        f = contents(P.n)
        first = FA([ii, jj], z3.Implies(before(ii, jj, P.a, P.b), z3.Not(is_child(P.n, ii, jj))), [is_child(P.n, ii, jj)])
        none = FA([ii, jj], z3.Not(is_child(P.n, ii, jj)), [is_child(P.n, ii, jj)])
        return P.ok() + [("is over the node's children", z3.And(same_node(P.n, o.this), P.same_node())),
                         ("is at the end only if there is no child", z3.Implies(P.end(), none)),
                         ("otherwise stands at a child", z3.Implies(z3.Not(P.end()), is_child(P.n, P.a, P.b))),
                         ("there is no child before", z3.Implies(z3.Not(P.end()), first)),
                         ("holds that child", z3.Implies(z3.Not(P.end()), child_at(P.n, P.x, P.a, P.b)))]


class End(Begin):
    qname = NODEC + "::end"

    def post(self, c, o, nw, ret):
        P = Pos(c.rv(ret))
        return P.ok() + [("is over the node's children", z3.And(same_node(P.n, o.this), P.same_node())),
                         ("is at the end", P.end())]


class Step(Contract):
    modifies = ("this",)
    returns_this = True

    def __init__(self, op):
        self.op, self.qname = op, ITC + "::operator" + op

    def enter(self, c):
        n = some_node(c, "node")
        return some_iterator(c, "it", n), []

    def pre(self, c, s):
        P = Pos(s.this)
        return [("the node has a path", P.same_node())] + P.ok()

    def call_post(self, c, o, nw, ret):
        it = some_iterator(c, "it", o.this.fields["parent_"])
        c.write(o.this_place, it)
        return self.post(c, o, Snap(it, nw.args, nw.this_place, nw.arg_places), ret)

    def post(self, c, o, nw, ret):
        E, P = Pos(o.this), Pos(nw.this)
        out = P.ok() + [("stays with its node", z3.And(same_node(P.n, E.n), P.p == E.p))]
        at_child = z3.And(is_child(P.n, P.a, P.b), child_at(P.n, P.x, P.a, P.b))
        if self.op == "++":
            last = FA([ii, jj], z3.Implies(before(E.a, E.b, ii, jj), z3.Not(is_child(P.n, ii, jj))), [is_child(P.n, ii, jj)])
            return out + [
                ("stays at the end", z3.Implies(E.end(), P.end())),
                ("is at the end only if no child is left", z3.Implies(P.end(), z3.Or(E.end(), last))),
                ("otherwise moves on", z3.Implies(z3.Not(P.end()), before(E.a, E.b, P.a, P.b))),
                ("passes over no child", z3.Implies(z3.Not(P.end()), none_between(E, P, P.n, False, False))),
                ("stands at a child", z3.Implies(z3.Not(P.end()), is_child(P.n, P.a, P.b))),
                ("holds that child", z3.Implies(z3.Not(P.end()), child_at(P.n, P.x, P.a, P.b)))]
        lo = z3.Or(ii < E.a, z3.And(z3.Not(E.end()), ii == E.a, jj < E.b))
        none = FA([ii, jj], z3.Implies(lo, z3.Not(is_child(P.n, ii, jj))), [is_child(P.n, ii, jj)])
        between = FA([ii, jj], z3.Implies(z3.And(lo, before(P.a, P.b, ii, jj)), z3.Not(is_child(P.n, ii, jj))), [is_child(P.n, ii, jj)])
        back = z3.Or(P.a < E.a, z3.And(z3.Not(E.end()), P.a == E.a, P.b < E.b))
        return out + [
            ("moves back to a child if there is one before", z3.Or(none, back)),
            ("passes over no child", between),
            ("stands at a child", z3.Or(none, is_child(P.n, P.a, P.b))),
            ("holds that child", z3.Or(none, child_at(P.n, P.x, P.a, P.b)))]


class Compare(Contract):
    def __init__(self, op):
        self.op, self.qname = op, ITC + "::operator" + op

    def enter(self, c):
        n = some_node(c, "node")
        return some_iterator(c, "a", n), [c.new_root("ext/other", some_iterator(c, "b", n))]

    def pre(self, c, s):
        P, Q = Pos(s.this), Pos(s.args[0])
        return [("the iterators are over the same actions", P.p == Q.p)] + P.ok()[:1] + Q.ok()[:1]

    def ret(self, c, s):
        return c.fresh_const("equal", B)

    def post(self, c, o, nw, ret):
        e = z3.And(Pos(o.this).end(), Pos(o.args[0]).end())
        return [("both are at the end" if self.op == "==" else "not both are at the end",
                 c.rv(ret) == (e if self.op == "==" else z3.Not(e)))]


class Deref(Contract):
    qname = ITC + "::operator*"

    def enter(self, c):
        return some_iterator(c, "it", some_node(c, "node")), []

    def post(self, c, o, nw, ret):
        ok = isinstance(ret, Place) and ret.root == o.this_place.root and ret.path == o.this_place.path + (("f", "child_"),)
        return [("refers to the child", z3.BoolVal(ok))]


class RootCtor(Contract):
    """Node(pddl, state, depth)"""
    qname = NODEC + "::Node"

    def enter(self, c):
        d = c.fresh_const("depth", IS)
        c.assume(d >= 0)
        return None, [c.new_root("ext/pddl", c.fresh_const("pddl", PDDL)), c.new_root("ext/state", c.fresh_const("state", STATE)), d]

    def ret(self, c, s):
        return some_node(c, "root")

    def post(self, c, o, nw, ret):
        f = contents(c.rv(ret))
        return [("has a path", node_ok(c.rv(ret))),
                ("has the domain, state and depth given", z3.And(f["pddl_"] == o.args[0], f["state_"] == o.args[1], f["depth_"] == o.args[2])),
                ("has no ancestors", f["ancestors_"] == CP.states(KSTATES.default(c)))]


class ChildCtor(Contract):
    """Node(parent, sibling, state, action)"""
    qname = NODEC + "::Node"
    modifies = (2, 3)

    def enter(self, c):
        n = some_node(c, "parent")
        self.s, self.t = c.fresh_const("state", STATE), c.fresh_const("action", STR)
        return None, [c.new_root("ext/parent", n), c.new_root("ext/sibling", some_node(c, "sibling")),
                      c.new_root("ext/state", self.s), c.new_root("ext/action", self.t)]

    def pre(self, c, s):
        return [("the parent has a path", node_ok(s.args[0])), ("the sibling is a child of the parent, if any", sibling(*s.args[:2]))]

    def ret(self, c, s):
        return some_node(c, "child")

    def call_post(self, c, o, nw, ret):
        for i in (2, 3):
            pl = o.arg_places[i] if o.arg_places else None
            if isinstance(pl, Place):
                v = c.read(pl)
                c.write(pl, c.fresh_const("moved", v.sort()))
        return self.post(c, o, nw, ret)

    def post(self, c, o, nw, ret):
        x = c.rv(ret)
        f = contents(x)
        return [("is a child of the parent", below(o.args[0], x)),
                ("has the state and action given", z3.And(f["state_"] == o.args[2], f["action_"] == o.args[3]))]


class Getter(Contract):
    """action(), state(), depth()"""
    def __init__(self, name):
        self.name, self.qname = name, NODEC + "::" + name

    def enter(self, c):
        return some_node(c, "node"), []

    def pre(self, c, s):
        return [("node is not empty", there(s.this))]

    verify_only = True

    def post(self, c, o, nw, ret):
        return [("is the node's", c.rv(ret) == contents(o.this)[self.name + "_"])]


class Goal(Getter):
    """operator bool"""
    def __init__(self):
        self.qname = NODEC + "::operator bool"

    def post(self, c, o, nw, ret):
        f = contents(o.this)
        return [("is whether the goal holds", c.rv(ret) == goal(f["pddl_"], f["state_"]))]


class SameNode(Getter):
    def __init__(self):
        self.qname = NODEC + "::operator=="

    def enter(self, c):
        return some_node(c, "node"), [c.new_root("ext/other", some_node(c, "other"))]

    def pre(self, c, s):
        return [("nodes are not empty", z3.And(there(s.this), there(s.args[0])))]

    def post(self, c, o, nw, ret):
        return [("compares the states", c.rv(ret) == (contents(o.this)["state_"] == contents(o.args[0])["state_"]))]


shash = z3.Function("hashOfState", STATE, IS)


class Hash(Contract):
    """std::hash of a node"""
    qname = "operator()"
    verify_only = True

    def enter(self, c):
        return Rec("hash", {}), [c.new_root("ext/node", some_node(c, "node"))]

    def pre(self, c, s):
        return [("node is not empty", there(s.args[0]))]

    def post(self, c, o, nw, ret):
        return [("depends on the state only", c.rv(ret) == shash(contents(o.args[0])["state_"]))]


class Consistent(Contract):
    """Pddl::ConsistentState as a function of the domain and the state (C12)"""
    qname = "symbolic::Pddl::ConsistentState"
    trusted = True

    def ret(self, c, s):
        return c.fresh_const("state", STATE)

    def call_post(self, c, o, nw, ret):
        return [("", ret == consN(o.this, o.args[0]))]


class Root(Contract):
    """Planner(pddl, state), Planner(pddl)"""
    qname = PLANNERC + "::Planner"
    given = True

    def enter(self, c):
        p = c.fresh_const("pddl", PDDL)
        a = [c.new_root("ext/pddl", p)]
        if self.given:
            a.append(c.new_root("ext/state", c.fresh_const("state", STATE)))
        return None, a

    def ret(self, c, s):
        return Rec(PLANNERC, {"root_": some_node(c, "root")})

    def post(self, c, o, nw, ret):
        n = c.rv(ret).fields["root_"]
        f = contents(n)
        p = o.args[0]
        return [("the root has a path", node_ok(n)), ("the root is the domain's, at depth 0", z3.And(f["pddl_"] == p, f["depth_"] == 0)),
                ("the root has the consistent form of the " + ("state given" if self.given else "initial state"),
                 f["state_"] == consN(p, o.args[1] if self.given else initS(p))),
                ("the root has no ancestors", f["ancestors_"] == CP.states(KSTATES.default(c)))]


class RootInitial(Root):
    given = False


def contracts():
    ctor = lambda *x: lambda t: all(y in t if y[0] != "!" else y[1:] not in t for y in x)
    return [ItCtor(sig=lambda t: "iterator" not in t), Begin(), End(), Step("++"), Step("--"), Compare("=="), Compare("!="), Deref(),
            RootCtor(sig=ctor("Pddl&")), ChildCtor(sig=ctor("State&&")), Getter("action"), Getter("state"), Getter("depth"),
            Goal(), SameNode(), Hash(sig=lambda t: "Planner::Node&" in t), Root(sig=lambda t: t.startswith("void(constPddl&,constState&")),
            RootInitial(sig=lambda t: t == "void(constPddl&)")]


def install(sp):
    plan.install(sp)
    sp.reference_members = True
    sp.kinds.update({PLANNERC: KPLANNER, "Planner": KPLANNER, NODEC: KNODE, "Planner::Node": KNODE, "Node": KNODE, IMPLC: KIMPL, "NodeImpl": KIMPL,
                     "Planner::Node::NodeImpl": KIMPL})
    for n_ in ("Cache", IMPLC + "::Cache", "Planner::Node::NodeImpl::Cache"):
        sp.kinds[n_] = KSTATES
    for n_ in ("std::unordered_set", "unordered_set", "std::set"):
        sp.kinds[n_] = lambda a: KSTATES
    for n_ in ("std::shared_ptr", "shared_ptr"):
        sp.kinds[n_] = lambda a: KNP if "NodeImpl" in a[0] and "Cache" not in a[0] else KCP
    for n_ in ("ParameterGenerator::const_iterator", "symbolic::ParameterGenerator::const_iterator",
               "symbolic::CombinationGenerator<const std::vector<symbolic::Object>>::const_iterator",
               "symbolic::CombinationGenerator<const std::vector<symbolic::Object>>::Iterator<true>"):
        sp.kinds[n_] = KGIT
    sp.hooks[:0] = [node_hooks]
    sp.construct = construct
    sp.functions = dict(getattr(sp, "functions", {}) or {}, make_shared=make_shared)
    sp.sort_ops.update({
        (str(NP), "deref"): deref_node, (str(NP), "*"): deref_node, (str(NP), "->"): lambda c, a: Ptr(deref_node(c, a)),
        (str(NP), ".get"): lambda c, a: a, (str(NP), "null"): lambda c, a: NP.is_nonode(a),
        (str(NP), ".operator bool"): lambda c, a: NP.is_anode(a),
        (str(CP), "deref"): deref_states, (str(CP), "*"): deref_states, (str(CP), "->"): lambda c, a: Ptr(deref_states(c, a)),
        (str(CP), ".get"): lambda c, a: a, (str(CP), "null"): lambda c, a: CP.is_nostates(a),
        (str(CP), ".operator bool"): lambda c, a: CP.is_states(a),
        (str(SETS), "@insert"): insert, (str(SETS), "@emplace"): insert, (str(SETS), ".count"): count,
        (str(SETS), ".find"): lambda c, m, n: Abs(FOUND, m[state_in(c, n)]),
        (str(SETS), ".end"): lambda c, m: Abs(FOUND, None), (str(SETS), ".cend"): lambda c, m: Abs(FOUND, None),
        (str(SETS), ".contains"): lambda c, m, n: m[state_in(c, n)],
        ("*", "assign"): assign})
    sp.base_axioms = sp.base_axioms + node_defs
    sp.axioms = sp.axioms + node_defs
    sp.cands = sp.cands + [candidates]


def tasks(prop_, repo, missing, trusted, assume):
    from ..ast import Program
    from ..verify import Task, fn_tasks
    sp = Spec(Program(SOURCE, repo))
    install(sp)
    use = contracts()
    sp.contracts = use + assumed_here() + [Consistent(sig=lambda t: t.startswith("State("))]
    assume += domain_assumptions() + [
        "the domain has at least one action, actions have parameters, and the domain's actions are as constructed (C07, C11)",
        "applying effects and computing derived predicates are functions of the action, the arguments and the state: "
        "C11 and C13 decide what these functions are",
        "the domain and the node outlive an iterator over the node's children (kept by reference); "
        "the printed text of a call is an opaque function of the action and its arguments",
        "std::unordered_set<Planner::Node> is a set of nodes up to ==; == compares states (proved), and std::hash depends only on the state (both proved)"]
    return fn_tasks(sp, use, missing, prop_)
