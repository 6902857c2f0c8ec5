"""Symbolic execution of clang's typed AST with contracts and loop invariants.

One path is one execution of the function under verification; choices are taken
from a script, so alternatives are explored by re-execution. Loops are cut at
their heads by invariants drawn from candidate schemas (Houdini); calls to
functions under contract use only the contract.
"""
import z3

from .ast import norm, FUNCS, sig_matches
from .values import *

Z = z3
TWO64 = 1 << 64
TWO32 = 1 << 32


class Kill(Exception):
    """The path ends here."""


class Restart(Exception):
    """A loop modifies more than assumed; start the function again."""


class Return(Exception):
    def __init__(self, v):
        self.v = v


class Break(Exception):
    pass


class Continue(Exception):
    pass


class CppThrow(Exception):
    def __init__(self, what, val=None):
        self.what, self.val = what, val


class Obl:
    __slots__ = ("name", "kind", "lit", "hyps", "goal", "where", "fn")

    def __init__(self, name, kind, lit, hyps, goal, where):
        self.name, self.kind, self.lit = name, kind, lit
        self.hyps, self.goal, self.where = hyps, goal, where


class Guarded:
    __slots__ = ("lit", "f")

    def __init__(self, lit, f):
        self.lit, self.f = lit, f


class Contract:
    """Base class of contracts; see specs/ for instances."""
    qname = None
    sig = None
    modifies = ()          # 'this', argument indices
    returns_this = False
    may_throw = False     # may throw whenever on_throw's facts hold
    throws_what = None    # name of the exception
    trusted = False        # assumed, not verified
    lemma_axioms = ()

    def __init__(self, **kw):
        for k, v in kw.items():
            setattr(self, k, v)

    def enter(self, c):
        """-> (this value or None, [argument values])"""
        raise NotImplementedError

    def pre(self, c, s):
        return []

    def post(self, c, o, n, ret):
        return []

    def steps(self, c, o, n, ret):
        """Intermediate obligations towards the postconditions."""
        return []

    def throws(self, c, s):
        return None

    def on_throw(self, c, o, n, e):
        return []

    def ret(self, c, s):
        return VOID


class Snap:
    """Values of this and the arguments at one moment."""
    def __init__(self, this, args, this_place=None, arg_places=()):
        self.this, self.args = this, args
        self.this_place, self.arg_places = this_place, arg_places


class Frame:
    __slots__ = ("fn", "this", "env", "key", "parent", "names")

    def __init__(self, fn, this, key, parent=None):
        self.fn, self.this, self.env, self.key = fn, this, {}, key
        self.parent = parent
        self.names = {}


def kids(n):
    return [x for x in n.get("inner", ()) if isinstance(x, dict)]


def ty(n):
    t = n.get("type", {})
    return norm(t.get("desugaredQualType") or t.get("qualType", ""))


def ty0(n):
    return norm(n.get("type", {}).get("qualType", ""))


def strip_cv(t):
    t = t.strip()
    while True:
        if t.startswith("const "):
            t = t[6:].strip()
        elif t.endswith(" const"):
            t = t[:-6].strip()
        elif t.endswith("&"):
            t = t.rstrip("&").strip()
        elif t.startswith("volatile "):
            t = t[9:].strip()
        elif t.startswith("class ") or t.startswith("struct "):
            t = t.split(" ", 1)[1]
        else:
            return t


INTS = {"int": (32, True), "unsigned int": (32, False), "long": (64, True),
        "unsigned long": (64, False), "long long": (64, True),
        "unsigned long long": (64, False), "size_t": (64, False),
        "std::size_t": (64, False), "ptrdiff_t": (64, True),
        "std::ptrdiff_t": (64, True), "difference_type": (64, True),
        "size_type": (64, False), "short": (16, True),
        "uint64_t": (64, False), "int64_t": (64, True), "uint32_t": (32, False),
        "char": (8, True), "unsigned char": (8, False)}


def split_targs(t):
    """'std::vector<a, b<c>>' -> ('std::vector', ['a', 'b<c>'])"""
    i = t.find("<")
    if i < 0 or not t.endswith(">"):
        return t, []
    head, s = t[:i], t[i + 1:-1]
    out, d, cur = [], 0, ""
    for ch in s:
        if ch in "<([":
            d += 1
        if ch in ">)]":
            d -= 1
        if ch == "," and d == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return head.strip(), out


TEXT_STREAMS = ("basic_stringstream<", "basic_ostringstream<", "basic_ostream<", "stringstream", "std::ostream")
KSTREAM = KPrim(z3.DeclareSort("TextStream"), "TextStream")
KSTREAM.default = lambda c: c.fresh_const("stream", KSTREAM.sort())


class Spec:
    """What a property needs besides the AST: contracts, kinds, models."""

    def __init__(self, prog):
        self.prog = prog
        self.contracts = []
        self.kinds = {}          # class name -> Kind (or factory(targs))
        self.axioms = []         # z3 formulas true in every query
        self.hooks = []          # fn(c, q, fn, this, args, node) -> value | NotImplemented
        self.cands = []          # fn(c, loop) -> [(key, thunk)]
        self.sort_ops = {}       # (sort name, op) -> fn(c, a, b)
        self.timeout_ms = 20000
        self.inv_timeout_ms = 2500
        self.rlimit = 0

    def contract_for(self, fn):
        q = self.prog.qfn(fn)
        sig = fn["type"]["qualType"]
        for k in self.contracts:
            if k.qname == q and sig_matches(k.sig, sig):
                return k
        return None

    # -- kinds from C++ type names
    def kind(self, t):
        t = strip_cv(norm(t))
        if t in INTS:
            return KUINT if not INTS[t][1] else KINT
        if t == "bool":
            return KBOOL
        if t in self.kinds:
            return self.kinds[t]
        if any(x in t for x in TEXT_STREAMS) and not t.endswith("*"):
            return KSTREAM
        if t.endswith("*"):
            f = getattr(self, "pointer_kind", None)
            k = f(t[:-1].strip()) if f else None
            if k is None:
                raise Unsupported("pointer type " + t)
            return k
        head, args = split_targs(t)
        h = head.split("::")[-1]
        if head in self.kinds:
            k = self.kinds[head]
            return k(args) if callable(k) and not isinstance(k, Kind) else k
        if t.split("::")[-1] in self.kinds:
            return self.kinds[t.split("::")[-1]]
        if h in self.kinds and (not args or h == "basic_string"):
            return self.kinds[h]
        if h == "vector":
            return KVec("vector", self.kind(args[0]))
        if h == "initializer_list":
            return KVec("vector", self.kind(args[0]))
        if h == "UniqueVector":
            return KVec("UniqueVector", self.kind(args[0]))
        if h == "pair":
            return KRec("pair", [("first", self.kind(args[0])), ("second", self.kind(args[1]))])
        raise Unsupported("type " + t)

    def zero_value(self, c, t):
        """Default-constructed value of class type t."""
        k = self.kind(t)
        if isinstance(k, KVec):
            return k.empty(c)
        if hasattr(k, "default"):
            return k.default(c)
        raise Unsupported("default value of " + t)


class Ctx:
    """One path."""

    def __init__(self, task, script):
        self.task, self.spec, self.prog = task, task.spec, task.spec.prog
        self.script, self.pos = script, 0
        self.pending = []
        self.hyps = []
        self.hypids = {}
        self.mem = {}
        self.n = 0
        self.obls = []
        self.frames = []
        self.loops = []          # active loops: (key, entry roots)
        self.depth = 0
        self.nfresh = {}
        self.trace = []
        self.rootdecl = {}
        self.dead = set()

    # ------------------------------------------------------------ basics
    def fresh_name(self, base):
        k = self.nfresh.get(base, 0)
        self.nfresh[base] = k + 1
        return "%s!%d" % (base, k)

    def fresh_const(self, base, sort):
        return z3.Const(self.fresh_name(base), sort)

    def dflt(self, sort):
        return z3.Const("dflt_" + str(sort), sort)

    def dflt_elem(self, k):
        """Packed value-initialised element."""
        if isinstance(k, KVec):
            return k.pack(k.empty(self))
        if k.sort() == z3.IntSort():
            return z3.IntVal(0)
        if k.sort() == z3.BoolSort():
            return z3.BoolVal(False)
        if hasattr(k, "default"):
            return k.pack(k.default(self))
        raise Unsupported("value-initialised " + str(k))

    def assume(self, f):
        if z3.is_true(f):
            return
        i = f.get_id()
        if i in self.hypids:
            return
        self.hypids[i] = f
        self.hyps.append(f)

    def check(self, name, goal, node=None, kind="assert", lit=None):
        g = z3.simplify(goal) if not z3.is_quantifier(goal) else goal
        if z3.is_true(g) and kind == "assert":
            self.task.trivial(name)
            return
        self.obls.append(Obl(name, kind, lit, list(self.hyps), goal,
                             self.prog.where(node) if node else ""))
        if kind == "assert":
            # Later obligations may rely on it: it is checked on its own.
            self.hyps.append(goal)

    def feasible(self, f):
        return self.task.feasible(self.hyps, f)

    def branch(self, cond):
        """Python bool for a symbolic condition, forking when both can hold."""
        if isinstance(cond, bool):
            return cond
        s = z3.simplify(cond)
        if z3.is_true(s):
            return True
        if z3.is_false(s):
            return False
        if self.pos < len(self.script):
            b = self.script[self.pos]
            self.pos += 1
        else:
            t = self.feasible(cond)
            f = self.feasible(z3.Not(cond))
            if not t and not f:
                raise Kill()
            b = t
            if t and f:
                self.pending.append(self.script[:self.pos] + [False])
            self.script = self.script + [b]
            self.pos += 1
        self.hyps.append(cond if b else z3.Not(cond))
        self.trace.append(cond if b else z3.Not(cond))
        if len(self.script) > 400:
            raise Unsupported("path too long")
        return b

    def choose(self, n=2):
        """Non-deterministic choice."""
        if self.pos < len(self.script):
            b = self.script[self.pos]
            self.pos += 1
            return b
        for k in range(1, n):
            self.pending.append(self.script[:self.pos] + [k])
        self.script = self.script + [0]
        self.pos += 1
        return 0

    # ------------------------------------------------------------ memory
    def new_root(self, base, value):
        r = base
        if r in self.mem or r in self.dead:
            k = 1
            while "%s#%d" % (base, k) in self.mem or "%s#%d" % (base, k) in self.dead:
                k += 1
            r = "%s#%d" % (base, k)
        self.mem[r] = value
        return Place(r)

    def temp(self, value):
        key = self.frames[-1].key if self.frames else "top"
        return self.new_root(key + "/tmp", value)

    def read(self, p):
        if not isinstance(p, Place):
            return p
        if p.root in self.dead:
            self.check("the object referred to still exists (%s)" % p.root.split("/")[-1], z3.BoolVal(False))
            raise Kill()
        if p.root not in self.mem:
            raise Unsupported("dangling reference %r" % p)
        v = self.mem[p.root]
        return self._descend(v, p.path)

    def _descend(self, v, path):
        for s in path:
            if s[0] == "f":
                if isinstance(v, Rec):
                    if s[1] not in v.fields:
                        raise Unsupported("field %s of %s" % (s[1], v.cls))
                    v = v.fields[s[1]]
                elif isinstance(v, Abs):
                    v = v.model.field(self, v, s[1])
                elif isinstance(v, Opt) and s[1] == "*":
                    v = v.val
                else:
                    raise Unsupported("field %s of %r" % (s[1], v))
            else:
                if isinstance(v, Vec):
                    e = v.at(s[1])
                    if isinstance(e, Vec):
                        self.assume(e.len >= 0)
                    v = e
                elif isinstance(v, Abs):
                    v = v.model.item(self, v, s[1])
                else:
                    r = self.spec_item(v, s[1])
                    v = r
        return v

    def spec_item(self, v, idx):
        if z3.is_expr(v):
            f = self.spec.sort_ops.get((str(v.sort()), "item"))
            if f:
                return f(self, v, idx)
        raise Unsupported("element of %r" % (v,))

    def write(self, p, val):
        if isinstance(p, _NoWrite):
            raise Unsupported("write to read-only view")
        old = self.mem.get(p.root)
        for key, entry in self.loops:
            if p.root in entry:
                pre = []
                for s in p.path:
                    if s[0] == "i":
                        break
                    pre.append(s[1])
                self.task.note_write(key, p.root, tuple(pre))
        self.mem[p.root] = self._upd(old, p.path, val)

    def _upd(self, v, path, val):
        if not path:
            return val
        s = path[0]
        if s[0] == "f":
            if isinstance(v, Opt) and s[1] == "*":
                return Opt(v.has, self._upd(v.val, path[1:], val))
            if isinstance(v, Abs):
                return v.model.upd(self, v, s, path[1:], val)
            if not isinstance(v, Rec):
                raise Unsupported("write field %s of %r" % (s[1], v))
            return v.with_(s[1], self._upd(v.fields[s[1]], path[1:], val))
        if isinstance(v, Vec):
            e = v.at(s[1]) if len(path) > 1 else None
            nv = self._upd(e, path[1:], val)
            return Vec(v.cls, v.ek, v.len, z3.Store(v.arr, s[1], v.ek.pack(nv)))
        if isinstance(v, Abs):
            return v.model.upd(self, v, s, path[1:], val)
        if z3.is_expr(v):
            f = self.spec.sort_ops.get((str(v.sort()), "upd"))
            if f:
                return f(self, v, s, path[1:], val)
        raise Unsupported("write element of %r" % (v,))

    def fresh_like(self, v, base):
        if z3.is_expr(v):
            return self.fresh_const(base, v.sort())
        if isinstance(v, Vec):
            n = self.fresh_const(base + ".len", z3.IntSort())
            self.assume(n >= 0)
            return Vec(v.cls, v.ek, n, self.fresh_const(base + ".arr", v.arr.sort()))
        if isinstance(v, Rec):
            return Rec(v.cls, {f: self.fresh_like(x, base + "." + f) for f, x in v.fields.items()})
        if isinstance(v, Ptr):
            if v.place is None:
                raise Unsupported("havoc of a null pointer")
            return Ptr(self.fresh_place(v.place, base))
        if isinstance(v, It):
            return It(v.place, self.fresh_const(base + ".it", z3.IntSort()), v.rev)
        if isinstance(v, Opt):
            if v.val is None:
                raise Unsupported("havoc of an optional of unknown payload")
            return Opt(self.fresh_const(base + ".has", z3.BoolSort()),
                       self.fresh_like(v.val, base + ".val"))
        if isinstance(v, Abs):
            return v.model.fresh(self, v, base)
        if v is VOID:
            return v
        raise Unsupported("havoc of %r" % (v,))

    def fresh_place(self, p, base):
        return Place(p.root, [s if s[0] == "f" else
                              ("i", self.fresh_const(base + ".idx", z3.IntSort()))
                              for s in p.path], p.xv)

    def rv(self, x):
        return self.read(x) if isinstance(x, Place) else x

    def moved_from(self, v, base="moved"):
        if isinstance(v, Vec):
            return Vec(v.cls, v.ek, z3.IntVal(0), v.arr)
        if isinstance(v, Rec):
            return Rec(v.cls, {f: self.moved_from(x) for f, x in v.fields.items()})
        if isinstance(v, Abs) and hasattr(v.model, "moved"):
            return v.model.moved(self, v)
        if z3.is_expr(v) and v.sort().kind() not in (z3.Z3_INT_SORT, z3.Z3_BOOL_SORT):
            return self.fresh_const(base, v.sort())
        return v

    def take(self, x):
        """Value of x; when x is an xvalue the source is left moved-from."""
        if isinstance(x, Place):
            v = self.read(x)
            if x.xv and (isinstance(v, (Vec, Rec, Abs)) or z3.is_expr(v)):
                if not (z3.is_expr(v) and v.sort().kind() in (z3.Z3_INT_SORT, z3.Z3_BOOL_SORT)):
                    self.write(x, self.moved_from(v))
            return v
        return x

    OUTLIVE = ("global/", "symname", "val/", "vallist/", "heap/", "ext/")

    def retire(self, keep):
        """The function has returned: only what the values in keep own is left
        of its local objects and parameters."""
        live = set()

        def own(v):
            if isinstance(v, Place):
                if v.root not in live:
                    live.add(v.root)
                    own(self.mem.get(v.root))
            elif isinstance(v, Clo):
                for p in v.owned:
                    own(p)
            elif isinstance(v, Rec):
                for x in v.fields.values():
                    own(x)
            elif isinstance(v, Opt):
                own(v.val)
        for v in keep:
            own(v)
        for r in self.mem:
            if r not in live and not r.startswith(self.OUTLIVE):
                self.dead.add(r)

    # ------------------------------------------------------------ calls
    def lookup(self, declid):
        for fr in reversed(self.frames):
            f = fr
            if declid in f.env:
                return f.env[declid]
            break
        f = self.frames[-1].parent
        while f is not None:
            if declid in f.env:
                return f.env[declid]
            f = f.parent
        return None

    def call(self, fn, this, args, node=None):
        """Call of a repository function. this: Place or None; args: Place|Value."""
        d = self.prog.defs.get(fn["id"], fn)
        q = self.prog.qfn(d)
        for h in self.spec.hooks:
            r = h(self, q, d, this, args, node)
            if r is not NotImplemented:
                return r
        k = self.spec.contract_for(d)
        if k is not None and not getattr(k, "verify_only", False):
            return self.call_contract(k, d, this, args, node)
        return self.inline(d, this, args, node)

    def call_contract(self, k, d, this, args, node):
        self.task.used_contract(k)
        name = k.qname.split("::")[-1]
        if this is not None and not isinstance(this, Place):
            this = self.temp(this)
        places = [a for a in args]
        s = Snap(self.rv(this) if this is not None else None,
                 [self.rv(a) for a in args], this, places)
        for nm, f in k.pre(self, s):
            self.check("call %s: requires %s" % (name, nm), f, node)
        t = k.throws(self, s)
        if t is not None and self.branch(t):
            raise CppThrow(k.qname)
        if k.may_throw and self.branch(self.fresh_const("throws", z3.BoolSort())):
            e = CppThrow(k.throws_what or k.qname)
            for _, f in k.on_throw(self, s, s, e):
                self.assume(f)
            raise e
        for m in k.modifies:
            if m == "this":
                self.write(this, self.fresh_like(s.this, name + ".this"))
            else:
                p = places[m]
                if isinstance(p, Place):
                    self.write(p, self.fresh_like(s.args[m], name + ".arg%d" % m))
        r = this if k.returns_this else k.ret(self, s)
        n = Snap(self.rv(this) if this is not None else None,
                 [self.rv(a) for a in args], this, places)
        for nm, f in getattr(k, "call_post", k.post)(self, s, n, r):
            self.assume(f)
        after = getattr(k, "after_call", None)
        if after is not None:
            for nm, f in after(self, s, n, r):
                self.hint(nm, f, node)
        return r

    def hint(self, name, goal, node=None):
        """An intermediate assertion: used once proved, dropped otherwise."""
        lit = "hint@%s|%s" % (self.frames[-1].key + (node or {}).get("id", ""), name)
        self.check("ghost assertion " + name, goal, node, "inv", lit)
        if lit not in self.task.dropped:
            self.hyps.append(Guarded(lit, goal))

    def inline(self, d, this, args, node=None):
        body = self.prog.body(d)
        if body is None:
            raise Unsupported("no body for " + self.prog.qfn(d))
        if self.depth > 24:
            raise Unsupported("call depth (recursion without contract?) in " + self.prog.qfn(d))
        key = (self.frames[-1].key if self.frames else "") + "/" + d.get("name", "?")
        if node is not None:
            key += ":" + node.get("id", "")[-5:]
        n = 1
        while any(f.key == key for f in self.frames):
            n += 1
            key = key + str(n)
        fr = Frame(d, this if (this is None or isinstance(this, Place)) else self.temp(this), key)
        self.bind_params(fr, d, args)
        self.task.inlined(self.prog.qfn(d))
        self.frames.append(fr)
        self.depth += 1
        try:
            self.ex(body)
            ret = VOID
        except Return as r:
            ret = r.v
        finally:
            self.depth -= 1
            self.frames.pop()
        return ret

    def bind_params(self, fr, d, args):
        ps = self.prog.params(d)
        args = list(args)
        for i, p in enumerate(ps):
            t = norm(p["type"]["qualType"])
            if i >= len(args):
                raise Unsupported("missing argument")
            a = args[i]
            if t.endswith("&"):
                if not isinstance(a, Place):
                    a = self.new_root(fr.key + "/" + p.get("name", "arg%d" % i), a)
                else:
                    a = Place(a.root, a.path)
                fr.env[p["id"]] = a
            else:
                v = self.take(a)
                fr.env[p["id"]] = self.new_root(fr.key + "/" + p.get("name", "arg%d" % i), v)

    # ------------------------------------------------------------ statements
    def ex(self, n):
        m = getattr(self, "ex_" + n["kind"], None)
        if m:
            return m(n)
        if n["kind"].endswith("Expr") or n["kind"].endswith("Operator") or \
                n["kind"] in ("ExprWithCleanups",):
            self.ev(n)
            return
        raise Unsupported("statement %s at %s" % (n["kind"], self.prog.where(n)))

    def ex_CompoundStmt(self, n):
        for s in kids(n):
            self.ex(s)

    def ex_NullStmt(self, n):
        pass

    def ex_DeclStmt(self, n):
        for d in kids(n):
            if d["kind"] == "VarDecl":
                self.decl_var(d)
            elif d["kind"] in ("StaticAssertDecl", "TypedefDecl", "TypeAliasDecl", "UsingDecl", "UsingDirectiveDecl", "EmptyDecl"):
                pass
            elif d["kind"] == "DecompositionDecl":
                self.decl_decomposition(d)
            else:
                raise Unsupported("declaration " + d["kind"])

    def decl_decomposition(self, d):
        binds = [b for b in kids(d) if b["kind"] == "BindingDecl"]
        inits = [b for b in kids(d) if b["kind"] != "BindingDecl"]
        v = self.ev(inits[-1])
        if not (isinstance(v, Place) and ty0(d).endswith("&")):
            v = self.temp(self.take(v))
        r = self.read(v)
        if not isinstance(r, Rec):
            raise Unsupported("structured binding of %r" % (r,))
        for b, f in zip(binds, r.fields):
            self.frames[-1].env[b["id"]] = v.f(f)

    def decl_var(self, d):
        fr = self.frames[-1]
        init = [x for x in kids(d) if x.get("kind") not in ("FullComment",) and "Attr" not in x.get("kind", "")]
        t = norm(d["type"]["qualType"])
        base = fr.key + "/" + d.get("name", d["id"])
        if t.endswith("&"):
            a = self.ev(init[-1])
            if not isinstance(a, Place):
                a = self.bind_root(base, a, d["id"])
            fr.env[d["id"]] = Place(a.root, a.path)
            return
        if not init:
            v = self.uninit(ty(d))
        else:
            v = self.take(self.ev(init[-1]))
        fr.env[d["id"]] = self.bind_root(base, v, d["id"])

    def bind_root(self, base, v, did=None):
        # A local declared again (loop body) reuses its root.
        while self.rootdecl.setdefault(base, did) != did:
            base += "'"
        self.mem[base] = v
        return Place(base)

    def uninit(self, t):
        k = self.spec.kind(t)
        return k.fresh(self, "uninit")

    def ex_ReturnStmt(self, n):
        ks = kids(n)
        if not ks:
            raise Return(VOID)
        v = self.ev(ks[0])
        fn = self.frames[-1].fn
        rt = norm(fn["type"]["qualType"])
        rt = self.alias(ret_type(rt), fn)
        if not rt.endswith("&") and not self.frames[-1].key.endswith("lambda&"):
            v = self.take(v)
        raise Return(v)

    def alias(self, t, fn):
        """A member type alias of the function's class, resolved."""
        if "::" in t or not t.isidentifier():
            return t
        par = self.prog.scope(self.prog.byid.get(fn.get("previousDecl"), fn))
        for m in kids(par) if par else ():
            if m.get("kind") in ("TypeAliasDecl", "TypedefDecl") and m.get("name") == t:
                return norm(m["type"]["qualType"])
        return t

    def ex_IfStmt(self, n):
        ks = kids(n)
        if n.get("hasInit"):
            self.ex(ks[0])
            ks = ks[1:]
        if n.get("hasVar"):
            self.ex(ks[0])
            ks = ks[1:]
        c = self.truth(ks[0])
        if c:
            self.ex(ks[1])
        elif n.get("hasElse"):
            self.ex(ks[2])

    def truth(self, n):
        """Evaluates a condition to a python bool (forking)."""
        k = n["kind"]
        if k in ("ImplicitCastExpr", "ParenExpr", "ExprWithCleanups") and len(kids(n)) == 1 \
                and n.get("castKind") in (None, "LValueToRValue", "NoOp") and k != "ImplicitCastExpr":
            return self.truth(kids(n)[0])
        if k == "BinaryOperator" and n["opcode"] == "&&":
            a, b = kids(n)
            return self.truth(a) and self.truth(b)
        if k == "BinaryOperator" and n["opcode"] == "||":
            a, b = kids(n)
            return self.truth(a) or self.truth(b)
        if k == "UnaryOperator" and n["opcode"] == "!":
            return not self.truth(kids(n)[0])
        v = self.rv(self.ev(n))
        if z3.is_expr(v) and v.sort() == z3.IntSort():
            v = v != 0
        if not (z3.is_expr(v) and v.sort() == z3.BoolSort()):
            raise Unsupported("condition %r" % (v,))
        return self.branch(v)

    def ex_WhileStmt(self, n):
        ks = kids(n)
        self.loop(n, lambda: self.truth(ks[-2]), lambda: self.ex(ks[-1]), lambda: None)

    def ex_DoStmt(self, n):
        body, cond = kids(n)
        # One arbitrary iteration is: invariant, body, condition.
        self.loop(n, lambda: True, lambda: self.ex(body), lambda: None,
                  after=lambda: self.truth(cond))

    def ex_ForStmt(self, n):
        inner = n["inner"]
        init, _, cond, inc, body = inner[0], inner[1], inner[2], inner[3], inner[4]
        if init:
            self.ex(init)
        self.loop(n, (lambda: self.truth(cond)) if cond else (lambda: True),
                  lambda: self.ex(body), (lambda: self.ev(inc)) if inc else (lambda: None))

    def ex_CXXForRangeStmt(self, n):
        inner = n["inner"]
        init, rng, beg, end, cond, inc, var, body = inner
        if init:
            self.ex(init)
        self.ex(rng)
        self.ex(beg)
        self.ex(end)

        def bd():
            self.ex(var)
            self.ex(body)
        self.loop(n, lambda: self.truth(cond), bd, lambda: self.ev(inc))

    def ex_SwitchStmt(self, n):
        ks = kids(n)
        v = self.as_int(self.val(ks[-2]))
        body = kids(ks[-1]) if ks[-1]["kind"] == "CompoundStmt" else [ks[-1]]
        cases, default, stmts = [], None, []
        for s in body:
            while s["kind"] in ("CaseStmt", "DefaultStmt"):
                sub = kids(s)
                if s["kind"] == "CaseStmt":
                    if len(sub) > 2:
                        raise Unsupported("case range")
                    cases.append((sub[0], len(stmts)))
                else:
                    default = len(stmts)
                s = sub[-1]
            stmts.append(s)
        start = default
        for e, at in cases:
            k = z3.IntVal(int(e["value"])) if "value" in e else self.as_int(self.val(e))
            if self.branch(v == k):
                start = at
                break
        if start is None:
            return
        try:
            for s in stmts[start:]:
                self.ex(s)
        except Break:
            pass

    def ex_BreakStmt(self, n):
        raise Break()

    def ex_ContinueStmt(self, n):
        raise Continue()

    def ex_CXXTryStmt(self, n):
        ks = kids(n)
        try:
            self.ex(ks[0])
        except CppThrow as e:
            for h in ks[1:]:
                hk = kids(h)
                var = hk[0] if hk and hk[0].get("kind") == "VarDecl" else None
                if self.catches(var, e):
                    if var is not None:
                        self.frames[-1].env[var["id"]] = self.temp(
                            e.val if e.val is not None else Abs(ExcModel(), e.what))
                    self.ex(hk[-1])
                    return
            raise

    def catches(self, var, e):
        if var is None:
            return True
        t = strip_cv(ty0(var)).split("::")[-1]
        w = e.what.split("::")[-1]
        if t == w or t == "exception":
            return True
        h = self.spec.exc_parents.get(w, ()) if hasattr(self.spec, "exc_parents") else ()
        return t in h

    # ------------------------------------------------------------ loops
    def loop(self, n, cond, body, inc, after=None):
        fr = self.frames[-1]
        key = fr.key + "@" + n["id"]
        entry = dict(self.mem)
        havoc = self.task.havoc.setdefault(key, set())
        lp = Loop(self, key, n, entry, havoc)
        # An invariant is assumed below only if it was checked here, and every
        # one assumed is checked again after the body.
        begun = set()
        for ckey, f in self.formulas(lp):
            begun.add(ckey)
            self.check("invariant %s holds on entry" % ckey, f, n, "inv", key + "|" + ckey)
        # Arbitrary iteration.
        for root, path in sorted(havoc):
            if root not in self.mem:
                continue
            p = Place(root, [("f", x) for x in path])
            try:
                old = self.read(p)
            except Unsupported:
                continue
            self.mem[root] = self._upd(self.mem[root], p.path,
                                       self.fresh_like(old, root.split("/")[-1] + "".join("." + x for x in path)))
            # enclosing loops see the write too
            for k2, e2 in self.loops:
                if root in e2:
                    self.task.note_write(k2, root, path)
        lp.head = dict(self.mem)
        held = set()
        for ckey, f in self.formulas(lp):
            lit = key + "|" + ckey
            if lit in self.task.dropped:
                continue
            if ckey not in begun:
                self.task.unbegun.add(lit)
                continue
            held.add(ckey)
            self.hyps.append(Guarded(lit, f))
            self.task.all_lits.add(lit)
        go = cond()
        if not go:
            return
        self.loops.append((key, set(entry)))
        depth = len(self.loops)
        try:
            try:
                body()
            except Continue:
                pass
            except Break:
                del self.loops[depth - 1:]
                return
            if after is not None and not after():
                del self.loops[depth - 1:]
                return
            inc()
        finally:
            del self.loops[depth - 1:]
        for ckey, f in self.formulas(lp):
            if ckey in held:
                held.discard(ckey)
                self.check("invariant %s is preserved" % ckey, f, n, "inv", key + "|" + ckey)
        for ckey in sorted(held):
            self.task.unbegun.add(key + "|" + ckey + " (lost)")
            self.check("invariant %s is preserved" % ckey, z3.BoolVal(False), n, "inv", key + "|" + ckey)
        raise Kill()

    def formulas(self, lp):
        """The candidate invariants in the present state, by key; none of those
        whose key is ambiguous."""
        out, twice = {}, set()
        for ckey, thunk in self.candidates(lp):
            try:
                f = thunk()
            except Unsupported:
                continue
            if f is None:
                continue
            if ckey in out and not z3.eq(out[ckey], f):
                twice.add(ckey)
            out[ckey] = f
        for ckey in twice:
            self.task.unbegun.add(ckey + " (ambiguous)")
        return [(a, b) for a, b in out.items() if a not in twice]

    def candidates(self, lp):
        out = list(default_candidates(self, lp))
        for g in self.spec.cands:
            out += list(g(self, lp))
        return out

    # ------------------------------------------------------------ expressions
    def ev(self, n):
        m = getattr(self, "ev_" + n["kind"], None)
        if m is None:
            raise Unsupported("expression %s at %s" % (n["kind"], self.prog.where(n)))
        return m(n)

    def val(self, n):
        return self.rv(self.ev(n))

    def _pass(self, n):
        return self.ev(kids(n)[0])

    ev_ParenExpr = ev_ExprWithCleanups = ev_ConstantExpr = _pass
    ev_SubstNonTypeTemplateParmExpr = ev_CXXBindTemporaryExpr = _pass
    ev_CXXStdInitializerListExpr = _pass

    def ev_SubstNonTypeTemplateParmExpr(self, n):
        return self.ev(kids(n)[-1])

    def ev_MaterializeTemporaryExpr(self, n):
        v = self.ev(kids(n)[0])
        if isinstance(v, Place):
            return v
        return self.temp(v)

    def ev_IntegerLiteral(self, n):
        return z3.IntVal(int(n["value"]))

    def ev_CharacterLiteral(self, n):
        return z3.IntVal(int(n["value"]))

    def ev_CXXBoolLiteralExpr(self, n):
        return z3.BoolVal(bool(n["value"]))

    def ev_CXXNullPtrLiteralExpr(self, n):
        return Ptr(None)

    ev_GNUNullExpr = ev_CXXNullPtrLiteralExpr

    def ev_StringLiteral(self, n):
        f = getattr(self.spec, "string_literal", None)
        if f:
            return f(self, n["value"])
        return Abs(StrLit(), n["value"])

    def ev_CXXThisExpr(self, n):
        t = self.frames[-1].this
        if t is None:
            raise Unsupported("this")
        return Ptr(t)

    def ev_DeclRefExpr(self, n):
        d = n["referencedDecl"]
        p = self.lookup(d["id"])
        if p is not None:
            return p
        if d["kind"] in ("FunctionDecl", "CXXMethodDecl"):
            return Abs(FnRef(), d)
        if d["kind"] == "EnumConstantDecl":
            return z3.IntVal(self.task.enum_value(d, n))
        if d["kind"] == "VarDecl":
            # an init-capture: its declaration is not part of the dump
            f = self.frames[-1]
            while f is not None and d["id"] not in self.prog.byid:
                if d.get("name") in f.names:
                    return f.names[d["name"]]
                f = f.parent
            return self.global_var(d, n)
        raise Unsupported("reference to %s %s" % (d["kind"], d.get("name")))

    def global_var(self, d, n):
        full = self.prog.byid.get(d["id"])
        h = getattr(self.spec, "global_var", None)
        if h:
            r = h(self, d, full)
            if r is not None:
                return r
        if full is not None:
            root = "global/" + d.get("name", "")
            if root in self.mem:
                return Place(root)
            init = [x for x in kids(full) if "Attr" not in x.get("kind", "")]
            if init and (full.get("constexpr") or "const" in norm(full["type"]["qualType"])):
                self.frames.append(Frame(full, None, "global"))
                try:
                    v = self.take(self.ev(init[-1]))
                finally:
                    self.frames.pop()
                self.mem[root] = v
                return Place(root)
        if d.get("name") in ("cout", "cerr", "clog"):
            root = "global/" + d["name"]
            if root not in self.mem:
                self.mem[root] = KSTREAM.fresh(self, "stream")
            return Place(root)
        raise Unsupported("global variable " + d.get("name", "?"))

    def ev_MemberExpr(self, n):
        b = self.ev(kids(n)[0])
        if n.get("isArrow"):
            b = self.deref(self.rv(b), n)
        if not isinstance(b, Place):
            b = self.temp(b)
        if n.get("name") == "" or n.get("name") is None:
            return b
        rd = self.prog.byid.get(n.get("referencedMemberDecl"))
        if rd is not None and rd["kind"] == "VarDecl":
            return self.global_var(rd, n)
        v = self.read(b)
        if z3.is_expr(v):
            f = self.spec.sort_ops.get((str(v.sort()), "." + n["name"]))
            if f:
                r = f(self, v)
                return r if isinstance(r, Place) else self.temp(r)
            f = getattr(self.spec, "opaque_field", None)
            r = f(self, v, n["name"], n) if f else NotImplemented
            if r is not NotImplemented:
                return r if isinstance(r, Place) else self.temp(r)
        return b.f(n["name"])

    def deref(self, p, n=None):
        if isinstance(p, Ptr):
            if p.place is None:
                self.check("null pointer is not dereferenced", z3.BoolVal(False), n)
                raise Kill()
            return p.place
        if isinstance(p, It):
            return self.deref_it(p, n)
        if isinstance(p, Opt):
            raise Unsupported("deref optional value")
        if z3.is_expr(p):
            f = self.spec.sort_ops.get((str(p.sort()), "deref"))
            if f:
                return f(self, p)
        if isinstance(p, Abs):
            return p.model.deref(self, p)
        raise Unsupported("dereference of %r" % (p,))

    def deref_it(self, it, n=None):
        v = self.read(it.place)
        idx = it.idx
        if it.rev:
            idx = it.idx - 1
        ln = self.seq_len(v)
        self.check("iterator is dereferenced inside its range", z3.And(idx >= 0, idx < ln), n)
        return it.place.i(idx)

    def seq_len(self, v):
        if isinstance(v, Vec):
            return v.len
        if isinstance(v, Abs):
            return v.model.length(self, v)
        if z3.is_expr(v):
            f = self.spec.sort_ops.get((str(v.sort()), "len"))
            if f:
                return f(self, v)
        raise Unsupported("length of %r" % (v,))

    def ev_ArraySubscriptExpr(self, n):
        raise Unsupported("array subscript")

    # -- casts
    def ev_ImplicitCastExpr(self, n):
        return self.cast(n)

    ev_CXXStaticCastExpr = ev_CStyleCastExpr = ev_CXXFunctionalCastExpr = ev_CXXConstCastExpr = \
        lambda self, n: self.cast(n)

    def cast(self, n):
        ck = n.get("castKind")
        sub = kids(n)[0]
        if ck == "LValueToRValue":
            return self.val(sub)
        if ck in ("NoOp", "DerivedToBase", "UncheckedDerivedToBase", "ConstructorConversion",
                  "UserDefinedConversion", "FunctionToPointerDecay", "ArrayToPointerDecay",
                  "BuiltinFnToFnPtr", "BitCast"):
            return self.ev(sub)
        if ck == "NullToPointer":
            f = getattr(self.spec, "pointer_kind", None)
            k = f(ty(n).rstrip().removesuffix("const").rstrip()[:-1].strip()) if f and "*" in ty(n) else None
            return k.null if k is not None and hasattr(k, "null") else Ptr(None)
        if ck == "ToVoid":
            self.ev(sub)
            return VOID
        if ck == "BaseToDerived":
            return self.ev(sub)
        if ck == "IntegralCast":
            v = self.val(sub)
            return self.convert_int(v, ty(sub), ty(n))
        if ck == "IntegralToBoolean":
            v = self.val(sub)
            return v if v.sort() == z3.BoolSort() else v != 0
        if ck == "PointerToBoolean":
            v = self.val(sub)
            return z3.Not(self.is_null(v))
        raise Unsupported("cast %s" % ck)

    def ev_CXXDynamicCastExpr(self, n):
        f = getattr(self.spec, "dynamic_cast", None)
        if f is None:
            raise Unsupported("dynamic_cast")
        return f(self, self.val(kids(n)[0]), ty(n))

    def is_null(self, v):
        if isinstance(v, Ptr):
            return z3.BoolVal(v.place is None)
        if z3.is_expr(v):
            f = self.spec.sort_ops.get((str(v.sort()), "null"))
            if f:
                return f(self, v)
        if isinstance(v, Abs):
            return v.model.is_null(self, v)
        raise Unsupported("null test of %r" % (v,))

    def named(self, v):
        """v as a constant of its own where terms must be legal triggers."""
        if not getattr(self.spec, "exact", False) or z3.is_const(v) or not z3.is_app_of(v, z3.Z3_OP_ITE):
            return v
        t = self.fresh_const("t", v.sort())
        self.assume(t == v)
        return t

    def convert_int(self, v, ft, tt):
        return self.named(self.convert_int_(v, ft, tt))

    def convert_int_(self, v, ft, tt):
        if z3.is_expr(v) and v.sort() == z3.BoolSort():
            v = z3.If(v, z3.IntVal(1), z3.IntVal(0))
            return v
        f, t = self.int_info(ft), self.int_info(tt)
        if f is None or t is None:
            return v
        if f == t or (t[0] >= f[0] and t[1] and f[1]) or (t[0] > f[0] and not f[1]):
            return v
        s = z3.simplify(v)
        if z3.is_int_value(s):
            k = s.as_long() % (1 << t[0])
            if t[1] and k >= 1 << (t[0] - 1):
                k -= 1 << t[0]
            return z3.IntVal(k)
        if f[1] and not t[1] and t[0] >= f[0]:
            return z3.If(v >= 0, v, v + (1 << t[0]))
        lo, hi = (-(1 << (t[0] - 1)), (1 << (t[0] - 1)) - 1) if t[1] else (0, (1 << t[0]) - 1)
        if not f[1] and t[1] and t[0] < f[0]:
            m = 1 << f[0]
            wrap = z3.Function("wrap%d%s" % (t[0], "s"), z3.IntSort(), z3.IntSort())
            return z3.If(v <= hi, v, z3.If(v >= m + lo, v - m, wrap(v)))
        wrap = z3.Function("wrap%d%s" % (t[0], "s" if t[1] else "u"), z3.IntSort(), z3.IntSort())
        if f == (64, False) and t == (64, True):
            return z3.If(v <= hi, v, v - TWO64)
        return z3.If(z3.And(v >= lo, v <= hi), v, wrap(v))

    def int_info(self, t):
        t = strip_cv(t)
        if t in INTS:
            return INTS[t]
        if t.split("::")[-1] in INTS:
            return INTS[t.split("::")[-1]]
        return None

    # -- operators
    def ev_UnaryOperator(self, n):
        op = n["opcode"]
        sub = kids(n)[0]
        if op == "!":
            v = self.val(sub)
            if z3.is_expr(v) and v.sort() == z3.IntSort():
                return v == 0
            return z3.Not(v)
        if op == "*":
            return self.deref(self.val(sub), n)
        if op == "&":
            p = self.ev(sub)
            if isinstance(p, Abs):
                return p
            if not isinstance(p, Place):
                raise Unsupported("address of a value")
            h = getattr(self.spec, "address_of", None)
            if h:
                r = h(self, p)
                if r is not None:
                    return r
            return Ptr(Place(p.root, p.path))
        if op in ("++", "--"):
            p = self.ev(sub)
            v = self.read(p)
            if z3.is_expr(v) and v.sort() == z3.IntSort():
                nv = self.arith("+" if op == "++" else "-", v, z3.IntVal(1), ty(sub))
            elif isinstance(v, It):
                nv = It(v.place, v.idx + 1 if (op == "++") != v.rev else v.idx - 1, v.rev)
            else:
                raise Unsupported("increment of %r" % (v,))
            self.write(p, nv)
            return v if n.get("isPostfix") else p
        if op == "-":
            v = self.val(sub)
            t = self.int_info(ty(n))
            if t and not t[1]:
                return z3.If(v == 0, v, (1 << t[0]) - v)
            return -v
        if op == "+":
            return self.val(sub)
        if op == "~":
            return self.uf("bitnot", self.val(sub))
        raise Unsupported("unary " + op)

    def uf(self, name, *a):
        return z3.Function(name, *([z3.IntSort()] * (len(a) + 1)))(*a)

    def arith(self, op, a, b, t):
        return self.named(self.arith_(op, a, b, t))

    def arith_(self, op, a, b, t):
        info = self.int_info(t)
        uns = info is not None and not info[1]
        exact = getattr(self.spec, "exact", False)
        if op == "+":
            if uns and exact:
                return z3.If(a + b < (1 << info[0]), a + b, a + b - (1 << info[0]))
            return a + b
        if op == "-":
            if uns:
                if z3.is_int_value(z3.simplify(a - b)):
                    k = z3.simplify(a - b).as_long()
                    return z3.IntVal(k % (1 << info[0]))
                return z3.If(a >= b, a - b, a - b + (1 << info[0]))
            return a - b
        if op == "*":
            f = getattr(self.spec, "mul_fn", None)
            if f is None or z3.is_int_value(z3.simplify(a)) or z3.is_int_value(z3.simplify(b)):
                return a * b
            r = f(a, b)
            if exact:
                self.check("the product does not overflow", z3.And(r >= (0 if uns else -(1 << info[0] - 1)),
                           r < (1 << (info[0] - (0 if uns else 1)))))
            return r
        if op in ("/", "%"):
            self.check("division by zero does not happen", b != 0)
            g = getattr(self.spec, "div_fn", None)
            if g is not None and not z3.is_int_value(z3.simplify(b)):
                if uns:
                    return g(a, b) if op == "/" else self.spec.mod_fn(a, b)
                f = g if op == "/" else self.spec.mod_fn
                return z3.If(z3.And(a >= 0, b > 0), f(a, b), self.uf("sdiv" if op == "/" else "smod", a, b))
            if uns:
                if op == "%" and getattr(self.spec, "mod_fn", None) is not None and \
                        not z3.is_int_value(z3.simplify(b)):
                    return self.spec.mod_fn(a, b)
                return a / b if op == "/" else a % b
            # C++ truncates toward zero.
            q = z3.If(z3.And(a >= 0, b > 0), a / b,
                      z3.If(z3.And(a < 0, b > 0), -((-a) / b),
                            z3.If(z3.And(a >= 0, b < 0), -(a / (-b)), (-a) / (-b))))
            if op == "/":
                return q
            return z3.If(z3.And(a >= 0, b > 0), a % b,
                         z3.If(z3.And(a < 0, b > 0), -((-a) % b),
                               z3.If(z3.And(a >= 0, b < 0), a % (-b), -((-a) % (-b)))))
        if op == "^":
            return self.uf("bitxor", a, b)
        if op == "&":
            return self.uf("bitand", a, b)
        if op == "|":
            return self.uf("bitor", a, b)
        if op == "<<":
            return self.uf("shl", a, b)
        if op == ">>":
            return self.uf("shr", a, b)
        raise Unsupported("operator " + op)

    def as_int(self, v):
        if z3.is_expr(v) and v.sort() == z3.BoolSort():
            return z3.If(v, z3.IntVal(1), z3.IntVal(0))
        return v

    def ev_BinaryOperator(self, n):
        op = n["opcode"]
        a, b = kids(n)
        if op in ("&&", "||"):
            r = self.truth(n)
            return z3.BoolVal(r)
        if op == ",":
            self.ev(a)
            return self.ev(b)
        if op == "=":
            v = self.val(b)
            p = self.ev(a)
            self.write(p, v)
            return p
        x, y = self.val(a), self.val(b)
        return self.binop(op, x, y, ty(n), n)

    def binop(self, op, x, y, t, n=None):
        if op in ("==", "!="):
            r = self.equal(x, y)
            return r if op == "==" else z3.Not(r)
        if z3.is_expr(x) and z3.is_expr(y):
            if x.sort() == z3.BoolSort() and y.sort() == z3.BoolSort() and op in ("&", "|", "^"):
                return {"&": z3.And, "|": z3.Or, "^": z3.Xor}[op](x, y)
            x, y = self.as_int(x), self.as_int(y)
            if op in ("<", "<=", ">", ">="):
                return {"<": x < y, "<=": x <= y, ">": x > y, ">=": x >= y}[op]
            return self.arith(op, x, y, t)
        raise Unsupported("binary %s on %r, %r" % (op, x, y))

    def equal(self, x, y):
        if z3.is_expr(x) and z3.is_expr(y):
            if x.sort() != y.sort():
                x, y = self.as_int(x), self.as_int(y)
            if x.sort() != y.sort():
                raise Unsupported("== on different sorts")
            return x == y
        if isinstance(x, Ptr) and isinstance(y, Ptr):
            if x.place is None or y.place is None:
                return z3.BoolVal(x.place is None and y.place is None)
            if x.place.shape() != y.place.shape():
                return z3.BoolVal(False)
            return z3.And([a == b for a, b in zip(x.place.idx_terms(), y.place.idx_terms())] + [z3.BoolVal(True)])
        if isinstance(x, Ptr) and x.place is None:
            return self.is_null(y)
        if isinstance(y, Ptr) and y.place is None:
            return self.is_null(x)
        if isinstance(x, It) and isinstance(y, It):
            if x.place.shape() != y.place.shape():
                raise Unsupported("comparing iterators of different containers")
            return x.idx == y.idx
        if isinstance(x, Abs) and hasattr(x.model, "equal"):
            return x.model.equal(self, x, y)
        raise Unsupported("== on %r, %r" % (x, y))

    def ev_CompoundAssignOperator(self, n):
        op = n["opcode"][:-1]
        a, b = kids(n)
        y = self.val(b)
        p = self.ev(a)
        x = self.read(p)
        lt = ty(a)
        ct = norm(n.get("computeResultType", {}).get("desugaredQualType") or
                  n.get("computeResultType", {}).get("qualType", lt))
        was_bool = z3.is_expr(x) and x.sort() == z3.BoolSort()
        if was_bool and z3.is_expr(y) and y.sort() == z3.BoolSort() and op in ("|", "&", "^"):
            r = self.binop(op, x, y, "bool")
        elif was_bool and op in ("|", "&") and z3.is_expr(y):
            yb = self.int_as_bool(y)
            r = z3.Or(x, yb) if op == "|" else z3.And(x, yb)
        else:
            xi = x
            if self.int_info(lt) and self.int_info(ct):
                xi = self.convert_int(x, lt, ct)
            r = self.binop(op, xi, y, ct, n)
            if self.int_info(lt) and self.int_info(ct):
                r = self.convert_int(r, ct, lt)
        self.write(p, r)
        return p

    def int_as_bool(self, y):
        if y.sort() == z3.BoolSort():
            return y
        # (int)b of a bool b
        if z3.is_app(y) and y.decl().kind() == z3.Z3_OP_ITE and \
                z3.is_int_value(y.arg(1)) and y.arg(1).as_long() == 1 and \
                z3.is_int_value(y.arg(2)) and y.arg(2).as_long() == 0:
            return y.arg(0)
        return y != 0

    def ev_ConditionalOperator(self, n):
        c, a, b = kids(n)
        if self.truth(c):
            return self.ev(a)
        return self.ev(b)

    # -- calls
    def callee_decl(self, n):
        while n["kind"] in ("ImplicitCastExpr", "ParenExpr"):
            n = kids(n)[0]
        return n

    def args_of(self, nodes):
        return [self.arg(a) for a in nodes]

    def arg(self, n):
        if n["kind"] == "CXXDefaultArgExpr":
            if kids(n):
                return self.ev(kids(n)[0])
            return Abs(DefaultArg(), n)
        return self.ev(n)

    def ev_CXXDefaultArgExpr(self, n):
        return self.arg(n)

    def ev_CallExpr(self, n):
        ks = kids(n)
        cal = self.callee_decl(ks[0])
        if cal["kind"] == "DeclRefExpr":
            d = cal["referencedDecl"]
            if d["id"] in self.prog.defs:
                fn = self.prog.defs[d["id"]]
                args = self.fill_defaults(fn, self.args_of(ks[1:]))
                return self.call(fn, None, args, n)
            fn = self.prog.byid.get(d["id"])
            if fn is not None and self.spec.contract_for(fn) is not None:     # defined elsewhere
                return self.call(fn, None, self.fill_defaults(fn, self.args_of(ks[1:])), n)
            from . import stl
            return stl.function(self, d["name"], ks[1:], n, d)
        v = self.val(ks[0])
        if isinstance(v, Abs) and isinstance(v.model, FnRef):
            fn = self.prog.defs.get(v.data["id"])
            if fn:
                return self.call(fn, None, self.args_of(ks[1:]), n)
        raise Unsupported("call through %s" % cal["kind"])

    def fill_defaults(self, fn, args):
        ps = self.prog.params(fn)
        out = []
        for i, p in enumerate(ps):
            if i < len(args):
                a = args[i]
                if isinstance(a, Abs) and isinstance(a.model, DefaultArg):
                    a = self.default_arg(fn, i)
                out.append(a)
            else:
                out.append(self.default_arg(fn, i))
        return out

    def default_arg(self, fn, i):
        # The default may sit on an earlier declaration.
        d = fn
        for _ in range(6):
            p = self.prog.params(d)[i]
            if p.get("init") or kids(p):
                ks = [k for k in kids(p) if "Attr" not in k["kind"]]
                if ks:
                    return self.ev(ks[-1])
            if "previousDecl" not in d:
                break
            d = self.prog.byid.get(d["previousDecl"])
            if d is None:
                break
        raise Unsupported("default argument of " + fn.get("name", "?"))

    def ev_CXXMemberCallExpr(self, n):
        ks = kids(n)
        me = self.callee_decl(ks[0])
        if me["kind"] != "MemberExpr":
            raise Unsupported("member call through " + me["kind"])
        base = kids(me)[0]
        b = self.ev(base)
        if me.get("isArrow"):
            b = self.deref(self.rv(b), me)
        d = self.prog.byid.get(me.get("referencedMemberDecl"))
        return self.method(b, me.get("name"), d, ks[1:], n)

    def method(self, b, name, d, argnodes, n):
        if d is not None:
            fn = self.prog.defs.get(d["id"], d)
            if fn["kind"] in FUNCS:
                v = self.rv(b)
                q = self.prog.qfn(fn)
                # dynamic dispatch
                if d.get("virtual") or d.get("pure"):
                    fn = self.dispatch(v, fn)
                if not isinstance(b, Place):
                    b = self.temp(b)
                args = self.fill_defaults(fn, self.args_of(argnodes))
                return self.call(fn, Place(b.root, b.path), args, n)
        from . import stl
        if not isinstance(b, Place):
            b = self.temp(b)
        return stl.method(self, b, name, argnodes, n)

    def dispatch(self, v, fn):
        if isinstance(v, Rec):
            for c in self.prog.classes.get(v.cls, ()):
                for m in kids(c):
                    if m.get("kind") == "CXXMethodDecl" and m.get("name") == fn.get("name") \
                            and m["type"]["qualType"] == fn["type"]["qualType"]:
                        return self.prog.defs.get(m["id"], m)
        return fn

    def ev_CXXOperatorCallExpr(self, n):
        ks = kids(n)
        cal = self.callee_decl(ks[0])
        d = cal.get("referencedDecl")
        if d is None:
            raise Unsupported("operator call")
        fn = self.prog.defs.get(d["id"])
        if fn is None and d["id"] in self.prog.byid:
            fn = self.prog.byid[d["id"]]
        if d["name"] == "operator<<" and any(x in ty(ks[1]) for x in TEXT_STREAMS):
            # Writing text: the stream is all that changes.
            from .stl import used
            used("operator<< on a text stream changes only the stream")
            a = self.ev(ks[1])
            if not self.manipulator(ks[2]):
                self.ev(ks[2])
            if isinstance(a, Place):
                self.write(a, KSTREAM.fresh(self, "stream"))
            return a
        if fn is not None and fn["kind"] == "CXXMethodDecl" and self.lambda_of(fn) is None \
                and not fn.get("isImplicit") and not fn.get("explicitlyDefaulted"):
            b = self.ev(ks[1])
            if not isinstance(b, Place):
                b = self.temp(b)
            if d["name"] == "operator()":
                v = self.rv(b)
                if isinstance(v, Clo):
                    return self.call_closure(v, self.args_of(ks[2:]), n)
            return self.call(fn, Place(b.root, b.path), self.args_of(ks[2:]), n)
        if fn is not None and fn["kind"] == "FunctionDecl":
            return self.call(fn, None, self.args_of(ks[1:]), n)
        from . import stl
        return stl.operator(self, d["name"], ks[1:], n, d)

    def manipulator(self, n):
        while n["kind"] in ("ImplicitCastExpr", "ParenExpr") and kids(n):
            n = kids(n)[0]
        return n["kind"] in ("DeclRefExpr", "OverloadExpr") and \
            (n.get("referencedDecl") or {}).get("kind", "").startswith("Function")

    def lambda_of(self, fn):
        return None

    # -- construction
    def ev_CXXTemporaryObjectExpr(self, n):
        return self.ev_CXXConstructExpr(n)

    def class_of(self, t):
        t = strip_cv(t)
        for cand in (t,):
            if cand in self.prog.classes:
                return cand, self.prog.classes[cand][0]
        # shortened spellings
        hits = [q for q in self.prog.classes if q == "symbolic::" + t]
        if not hits:
            hits = [q for q in self.prog.classes if q.endswith("::" + t)]
        if not hits:
            hits = [q for q in self.prog.classes if q.replace("symbolic::", "") == t.replace("symbolic::", "")]
        if len(hits) >= 1:
            return hits[0], self.prog.classes[hits[0]][0]
        return None, None

    def ev_CXXConstructExpr(self, n, into=None):
        t = strip_cv(ty(n))
        ct = norm(n.get("ctorType", {}).get("qualType", ""))
        args = kids(n)
        for h in getattr(self.spec, "ctor_hooks", ()):
            r = h(self, t, ct, args, n, into)
            if r is not NotImplemented:
                return r
        cls, rec = self.class_of(t)
        if rec is None or self.is_modelled(cls):
            from . import stl
            v = stl.construct(self, t, args, n, ct)
            if into is not None:
                self.write_init(into, v)
            return v
        ctor = None
        for m in kids(rec):
            cands = [m]
            if m.get("kind") == "FunctionTemplateDecl":
                cands = kids(m)
            for m2 in cands:
                if m2.get("kind") == "CXXConstructorDecl" and norm(m2["type"]["qualType"]) == ct:
                    ctor = m2
        short = cls.split("::")[-1].split("<")[0]
        copy = len(args) == 1 and (ctor is None or ctor.get("isImplicit") or ctor.get("explicitlyDefaulted"))
        if copy and ctor is not None and len(self.prog.params(ctor)) == 1 and \
                short in norm(self.prog.params(ctor)[0]["type"]["qualType"]):
            v = self.take(self.ev(args[0]))
            if into is not None:
                self.write_init(into, v)
            return v
        if ctor is None:
            raise Unsupported("constructor of %s: %s" % (t, ct))
        return self.construct(cls, rec, ctor, self.fill_defaults(ctor, self.args_of(args)), n, into)

    def write_init(self, into, v):
        """Initialises a base subobject or the object itself."""
        cur = self.mem.get(into.root)
        if isinstance(v, Rec) and isinstance(cur, Rec) and not into.path:
            d = dict(cur.fields)
            d.update(v.fields)
            self.mem[into.root] = Rec(cur.cls, d)
        else:
            self.write(into, v)

    def is_modelled(self, cls):
        k = self.spec.kinds.get(cls, self.spec.kinds.get(cls.split("::")[-1]))
        return k is not None and not getattr(k, "real", False)

    def all_fields(self, rec):
        """Field declarations including those of bases (bases first)."""
        out = []
        for b in rec.get("bases", ()):
            bt = norm(b["type"].get("desugaredQualType") or b["type"]["qualType"])
            cls, br = self.class_of(bt)
            if br is not None:
                out += self.all_fields(br)
        return out + self.prog.fields(rec)

    def construct(self, cls, rec, ctor, args, n, into=None):
        d = self.prog.defs.get(ctor["id"], ctor)
        k = self.spec.contract_for(d)
        if k is not None and self.depth > 0:
            self.task.used_contract(k)
            s = Snap(None, [self.rv(a) for a in args], None, args)
            for nm, f in k.pre(self, s):
                self.check("call %s: requires %s" % (cls, nm), f, n)
            t = k.throws(self, s)
            if t is not None and self.branch(t):
                raise CppThrow(k.qname)
            v = k.ret(self, s)
            for nm, f in k.post(self, s, Snap(v, s.args), v):
                self.assume(f)
            if into is not None:
                self.write_init(into, v)
            return v
        obj = into
        if obj is None:
            obj = self.temp(Rec(cls, {f["name"]: UNINIT for f in self.all_fields(rec)}))
        if not args and self.prog.body(d) is None and (
                d.get("explicitlyDefaulted") or d.get("isImplicit")) and \
                not any(i.get("kind") == "CXXCtorInitializer" for i in kids(d)):
            self.default_init(rec, obj, n)
        else:
            self.run_ctor(cls, rec, d, args, obj)
        if into is None:
            return self.read(obj)
        return VOID

    def default_init(self, rec, obj, n):
        """A defaulted default constructor: bases, then members."""
        for b in rec.get("bases", ()):
            bt = norm(b["type"].get("desugaredQualType") or b["type"]["qualType"])
            self.default_of(bt, n, obj)
        for f in self.prog.fields(rec):
            ini = [x for x in kids(f) if "Attr" not in x["kind"] and "Comment" not in x["kind"]]
            if ini:
                self.init_field(obj.f(f["name"]), ini[-1], f)
                continue
            v = self.default_of(norm(f["type"].get("desugaredQualType") or f["type"]["qualType"]), n)
            self.mem[obj.root] = self._upd(self.mem[obj.root], obj.path + (("f", f["name"]),), v)

    def default_of(self, t, n, into=None):
        """Default-initialised object of class type t."""
        cls, rec = self.class_of(strip_cv(t))
        if rec is None or self.is_modelled(cls):
            from . import stl
            v = stl.construct(self, strip_cv(t), [], n or {}, "void ()")
        else:
            ctor = [m for m in kids(rec) if m.get("kind") == "CXXConstructorDecl" and not self.prog.params(m)]
            if not ctor:
                raise Unsupported("default constructor of " + t)
            v = self.construct(cls, rec, ctor[0], [], n)
        if into is not None:
            self.write_init(into, v)
        return v

    def run_ctor(self, cls, rec, d, args, obj):
        key = (self.frames[-1].key if self.frames else "") + "/" + d.get("name", "ctor")
        while any(f.key == key for f in self.frames):
            key += "+"
        fr = Frame(d, obj, key)
        self.bind_params(fr, d, args)
        self.task.inlined(self.prog.qfn(d))
        self.frames.append(fr)
        self.depth += 1
        try:
            done = set()
            for it in kids(d):
                if it.get("kind") != "CXXCtorInitializer":
                    continue
                e = kids(it)
                if "anyInit" in it:
                    f = it["anyInit"]["name"]
                    done.add(f)
                    self.init_field(obj.f(f), e[0], it["anyInit"])
                else:
                    self.ctor_into(e[0], obj)
            if not any(i.get("kind") == "CXXCtorInitializer" for i in kids(d)):
                for f in self.prog.fields(rec):
                    if f["name"] not in done:
                        ini = [x for x in kids(f) if "Attr" not in x["kind"] and "Comment" not in x["kind"]]
                        if ini:
                            self.init_field(obj.f(f["name"]), ini[-1], f)
            body = self.prog.body(d)
            if body is not None:
                try:
                    self.ex(body)
                except Return:
                    pass
        finally:
            self.depth -= 1
            self.frames.pop()

    def ctor_into(self, e, obj):
        while e["kind"] in ("ExprWithCleanups", "ImplicitCastExpr", "CXXBindTemporaryExpr"):
            e = kids(e)[0]
        if e["kind"] in ("CXXConstructExpr", "CXXInheritedCtorInitExpr"):
            self.ev_CXXConstructExpr(e, into=obj)
        else:
            v = self.take(self.ev(e))
            self.write_init(obj, v)

    def init_field(self, p, e, fd):
        if e["kind"] == "CXXDefaultInitExpr":
            full = self.prog.byid.get(fd.get("id"))
            ini = [x for x in kids(full) if "Attr" not in x["kind"] and "Comment" not in x["kind"]] if full else []
            if not ini:
                raise Unsupported("default member initialiser")
            e = ini[-1]
        t = norm(fd.get("type", {}).get("qualType", ""))
        v = self.ev(e)
        if t.endswith("&"):
            if not getattr(self.spec, "reference_members", False):
                raise Unsupported("reference member")
            v = self.rv(v)   # what it refers to must not change (assumed)
        if v is VOID:
            return
        v = self.take(v)
        self.mem[p.root] = self._upd(self.mem[p.root], p.path, v)

    def ev_InitListExpr(self, n):
        t = ty(n)
        ks = kids(n)
        if strip_cv(t).startswith("std::hash<") and self.class_of(strip_cv(t))[1] is None:
            from .stl import HashFn
            return Abs(HashFn(), strip_cv(t))
        k = None
        try:
            k = self.spec.kind(t)
        except Unsupported:
            pass
        if "[" in t:  # array backing an initializer_list
            et = t[:t.index("[")]
            k = KVec("vector", self.spec.kind(et))
            v = k.empty(self)
            arr = v.arr
            for i, e in enumerate(ks):
                arr = z3.Store(arr, i, k.ek.pack(self.take(self.ev(e))))
            return Vec("vector", k.ek, z3.IntVal(len(ks)), arr)
        if len(ks) == 1 and not isinstance(k, KRec):
            return self.ev(ks[0])
        if not ks and k is None and self.class_of(t)[1] is None:
            return Rec(t, {})
        if not ks and k is not None:
            return self.spec.zero_value(self, t)
        cls, rec = self.class_of(t)
        if rec is not None:
            fs = self.all_fields(rec)
            return Rec(cls, {f["name"]: self.take(self.ev(e)) for f, e in zip(fs, ks)})
        raise Unsupported("initializer list of " + t)

    def ev_CXXThrowExpr(self, n):
        ks = kids(n)
        if not ks:
            raise CppThrow("rethrow")
        t = strip_cv(ty0(ks[0]))
        h = getattr(self.spec, "throw_hook", None)
        v = h(self, t, ks[0]) if h else None
        raise CppThrow(t, v)

    def ev_LambdaExpr(self, n):
        rec = kids(n)[0]
        call = [m for m in kids(rec) if m.get("kind") == "CXXMethodDecl" and m.get("name") == "operator()"]
        fn = call[0] if call else None
        caps = []
        fr = self.frames[-1]
        lam = Frame(fn, fr.this, fr.key + "/lambda", fr)
        # captures: initialisers follow the record, before the body
        fields = [f for f in kids(rec) if f.get("kind") == "FieldDecl"]
        inits = [x for x in kids(n)[1:] if x.get("kind") != "CompoundStmt"]
        env, named, owned = {}, {}, []
        for f, e in zip(fields, inits):
            e2 = e
            while e2["kind"] in ("ImplicitCastExpr", "ExprWithCleanups", "ParenExpr") or \
                    (e2["kind"] == "CXXConstructExpr" and len(kids(e2)) == 1):
                e2 = kids(e2)[0]
            if e2["kind"] == "CXXThisExpr" and "*" in ty(e2) and self.prog.token(f) in ("this", "", "&", "="):
                continue
            byref = norm(f["type"]["qualType"]).endswith("&")
            if byref:
                p = self.ev(e)
                if not isinstance(p, Place):
                    p = self.temp(p)
                p = Place(p.root, p.path)
            else:
                p = self.new_root(fr.key + "/captured", self.take(self.ev(e)))
                owned.append(p)
            if e2["kind"] == "DeclRefExpr":
                env[e2["referencedDecl"]["id"]] = p
            tok = self.prog.token(f)
            if tok.isidentifier():
                named[tok] = p
            elif e2["kind"] != "DeclRefExpr":
                raise Unsupported("lambda capture " + e2["kind"])
        return Clo(n, lam, env, fr.this, named, owned)

    def call_closure(self, clo, args, node=None):
        rec = kids(clo.node)[0]
        fn = [m for m in kids(rec) if m.get("kind") == "CXXMethodDecl" and m.get("name") == "operator()"][0]
        body = self.prog.body(fn) or [x for x in kids(clo.node) if x.get("kind") == "CompoundStmt"][-1]
        key = clo.frame.key
        fr = Frame(fn, clo.this, key, clo.frame.parent)
        fr.env.update(clo.caps)
        fr.names = dict(clo.named)
        self.bind_params(fr, fn, args)
        self.frames.append(fr)
        self.depth += 1
        try:
            self.ex(body)
            return VOID
        except Return as r:
            return r.v
        finally:
            self.depth -= 1
            self.frames.pop()

    def ev_CXXDefaultInitExpr(self, n):
        raise Unsupported("default member initialiser")

    def ev_CXXRewrittenBinaryOperator(self, n):
        return self.ev(kids(n)[0])

    def ev_ImplicitValueInitExpr(self, n):
        k = self.spec.kind(ty(n))
        if k in (KINT, KUINT):
            return z3.IntVal(0)
        if k is KBOOL:
            return z3.BoolVal(False)
        return self.spec.zero_value(self, ty(n))

    ev_CXXScalarValueInitExpr = ev_ImplicitValueInitExpr


class _Uninit:
    def __repr__(self):
        return "UNINIT"


UNINIT = _Uninit()


class _NoWrite:
    pass


class StrLit:
    def __repr__(self):
        return "str"


class FnRef:
    def __repr__(self):
        return "fn"


class DefaultArg:
    pass


class ExcModel:
    pass


def ret_type(t):
    """Return type in a function type spelling."""
    d = 0
    for i, ch in enumerate(t):
        if ch == "<":
            d += 1
        elif ch == ">":
            d -= 1
        elif ch == "(" and d == 0:
            return t[:i].strip()
    return t


class Loop:
    """What candidate generators see."""
    def __init__(self, c, key, node, entry, havoc):
        self.c, self.key, self.node = c, key, node
        self.entry, self.havoc = entry, havoc
        self.head = None

    def roots(self):
        """Visible roots: those alive at loop entry."""
        return [r for r in self.entry if r in self.c.mem and "/tmp" not in r]


def int_items(c, lp, mem=None):
    """Named integer-valued terms in scope of the loop."""
    mem = mem if mem is not None else c.mem
    out = []

    def add(name, v, depth=0):
        if z3.is_expr(v):
            if v.sort() == z3.IntSort():
                out.append((name, v))
        elif isinstance(v, Vec):
            out.append((name + ".size", v.len))
        elif isinstance(v, It):
            if v.idx.sort() == z3.IntSort():
                out.append((name + ".idx", v.idx))
        elif isinstance(v, Ptr) and v.place is not None:
            for k, t in enumerate(v.place.idx_terms()):
                if t.sort() == z3.IntSort():
                    out.append((name + "->idx%d" % k, t))
        elif isinstance(v, Rec) and depth < 3:
            for f, x in v.fields.items():
                add(name + "." + f, x, depth + 1)
        elif isinstance(v, Abs) and hasattr(v.model, "ints"):
            for nm, t in v.model.ints(c, v):
                out.append((name + "." + nm, t))

    skip = getattr(c.spec, "skip_int", None)
    for r in lp.entry:
        if r not in mem or r in c.dead or ("/tmp" in r and not any(h[0] == r for h in lp.havoc)):
            continue
        add(r, mem[r])
    if skip is not None:
        out = [x for x in out if not skip(c, lp, x[0])]
    return out


def default_candidates(c, lp):
    """Linear relations between the integers in scope."""
    items = int_items(c, lp)
    changed = set()
    ent = dict(int_items(c, lp, lp.entry))
    for name, t in items:
        for root, path in lp.havoc:
            full = root + "".join("." + p for p in path)
            if name == full or name.startswith(full + ".") or name.startswith(full + "->") or name.startswith(full + "->idx"):
                changed.add(name)
    for r in lp.entry:
        v = c.mem.get(r)
        if z3.is_expr(v) and v.sort() == z3.BoolSort() and "/tmp" not in r and any(h[0] == r for h in lp.havoc):
            yield ("%s" % r, lambda v=v: v)
            yield ("not %s" % r, lambda v=v: z3.Not(v))
    # which are changed is syntactic, so the set of keys is stable per havoc set
    for name, t in items:
        if name in changed:
            yield ("%s >= 0" % name, lambda t=t: t >= 0)
            yield ("%s >= -1" % name, lambda t=t: t >= -1)
            if name in ent:
                e = ent[name]
                yield ("%s >= entry" % name, lambda t=t, e=e: t >= e)
                yield ("%s <= entry" % name, lambda t=t, e=e: t <= e)
    for i, (na, a) in enumerate(items):
        for nb, b in items[i + 1:]:
            if na not in changed and nb not in changed:
                continue
            if z3.eq(a, b) and na in changed and nb in changed:
                pass
            yield ("%s == %s" % (na, nb), lambda a=a, b=b: a == b)
            yield ("%s <= %s" % (na, nb), lambda a=a, b=b: a <= b)
            yield ("%s <= %s" % (nb, na), lambda a=a, b=b: b <= a)
            yield ("%s < %s" % (na, nb), lambda a=a, b=b: a < b)
            yield ("%s < %s" % (nb, na), lambda a=a, b=b: b < a)


def _call_top(self, fn, tp, aps):
    """Runs the body of the function under verification."""
    key = fn.get("name", "?")
    fr = Frame(fn, tp, key)
    self.bind_params(fr, fn, aps)
    self.frames.append(fr)
    self.depth = 1
    try:
        self.ex(self.prog.body(fn))
        return VOID
    except Return as r:
        return r.v
    finally:
        self.frames.pop()


Ctx.call_top = _call_top
