"""Abstract domain-level vocabulary shared by formulas, actions, axioms, ...:
objects, finite object sequences, variable substitution, object lists of the
parse tree, argument generators, atoms and states.

Each abstraction is what a lower level establishes: objects compare by name
(C08), states are sets of atoms identified by predicate and argument names (C01,
C02, C08), generators enumerate the type-correct tuples (C05, C06).
"""
import z3

from ..engine import *
from ..stl import it_op, used
from ..task import Lemma
from ..values import *
from . import prop, val
from .prop import H, KOBJ, KPROP, KVOBJ, OBJ, ArrO, ArrS, ao, ii, jj, l_1, n1, n2, names, ndiff, nm, ph
from .val import *

SEQ = z3.DeclareSort("Seq")            # finite sequences of objects
TYP = z3.DeclareSort("TypeOfObject")
ATOM = z3.DeclareSort("Atom")
KATOM = KPrim(ATOM, "Atom")
KTYP = KPrim(TYP, "Type")

seqO = z3.Function("seq", ArrO, IS, SEQ)
slen = z3.Function("slen", SEQ, IS)
sat = z3.Function("sat", SEQ, IS, OBJ)
sdiff = z3.Function("sdiff", SEQ, SEQ, IS)
scat = z3.Function("scat", SEQ, SEQ, SEQ)
lastm = z3.Function("last_match", SEQ, IS, STR, IS)
look = z3.Function("look", SEQ, SEQ, OBJ, OBJ)
objOf = z3.Function("objectOf", PDDL, SYM, OBJ)
olist = z3.Function("objectsOf", PDDL, SYML, SEQ)
llen = z3.Function("listLen", SYML, IS)
lit = z3.Function("listItem", SYML, IS, SYM)
inst = z3.Function("instantiate", PDDL, SYML, SEQ, SEQ, SEQ)   # list, parameters, arguments
typeO = z3.Function("typeOf", OBJ, TYP)
tnm = z3.Function("typeName", TYP, STR)
isaT = z3.Function("isSubtype", TYP, STR, B)
inh = z3.Function("inhabited", PDDL, STR, B)
tc = z3.Function("typeCorrect", PDDL, SEQ, SEQ, B)
gsize = z3.Function("tupleCount", PDDL, SEQ, IS)
gtup = z3.Function("tupleAt", PDDL, SEQ, IS, KVOBJ.sort())
gidx = z3.Function("tupleIndex", PDDL, SEQ, SEQ, IS)
aname = z3.Function("atomName", ATOM, STR)
atom = z3.Function("atom", STR, ArrS, IS, ATOM)
cls = z3.Function("classOf", SYM, IS)

p, q, r_ = z3.Consts("p q r_", SEQ)
pd = z3.Const("pd", PDDL)
ob = z3.Const("ob", OBJ)
st_ = z3.Const("st_", STR)
sy = z3.Const("sy", SYM)
li = z3.Const("li", SYML)
nn_ = z3.Int("nn_")

LM = lastm(p, nn_, st_)
seq_defs = [
    z3.ForAll([ao, nn_], z3.Implies(nn_ >= 0, slen(seqO(ao, nn_)) == nn_), patterns=[seqO(ao, nn_)]),
    z3.ForAll([ao, nn_, ii], z3.Implies(z3.And(0 <= ii, ii < nn_), sat(seqO(ao, nn_), ii) == ao[ii]),
              patterns=[sat(seqO(ao, nn_), ii), z3.MultiPattern(seqO(ao, nn_), ao[ii])]),
    z3.ForAll([p], slen(p) >= 0, patterns=[slen(p)]),
    z3.ForAll([p, q], slen(scat(p, q)) == slen(p) + slen(q), patterns=[scat(p, q)]),
    z3.ForAll([p, q, ii], sat(scat(p, q), ii) == z3.If(ii < slen(p), sat(p, ii), sat(q, ii - slen(p))),
              patterns=[sat(scat(p, q), ii)]),
    # the last position below n whose name is s
    z3.ForAll([p, nn_, st_], z3.Implies(nn_ >= 0, z3.And(-1 <= LM, LM < nn_, z3.Implies(LM >= 0, nm(sat(p, LM)) == st_))),
              patterns=[LM]),
    z3.ForAll([p, nn_, st_, ii], z3.Implies(z3.And(LM < ii, ii < nn_, 0 <= ii), nm(sat(p, ii)) != st_),
              patterns=[z3.MultiPattern(LM, sat(p, ii))]),
    # variable substitution: the innermost parameter of that name, or itself
    z3.ForAll([p, q, ob], look(p, q, ob) == z3.If(
        lastm(p, slen(p), nm(ob)) >= 0, sat(q, lastm(p, slen(p), nm(ob))), ob), patterns=[look(p, q, ob)]),
    # object lists of the parse tree
    z3.ForAll([li], llen(li) == z3.If(li == nullL, 0, KVSYM.len_of(items(li))), patterns=[llen(li)]),
    z3.ForAll([li], llen(li) >= 0, patterns=[llen(li)]),
    z3.ForAll([li, ii], lit(li, ii) == KVSYM.arr_of(items(li))[ii],
              patterns=[lit(li, ii), KVSYM.arr_of(items(li))[ii]]),
    z3.ForAll([pd, li], slen(olist(pd, li)) == llen(li), patterns=[olist(pd, li)]),
    z3.ForAll([pd, li, ii], z3.Implies(z3.And(0 <= ii, ii < llen(li)), sat(olist(pd, li), ii) == objOf(pd, lit(li, ii))),
              patterns=[sat(olist(pd, li), ii)]),
    z3.ForAll([pd, sy], nm(objOf(pd, sy)) == nameS(sy), patterns=[objOf(pd, sy)]),
    z3.ForAll([pd, li, p, q], slen(inst(pd, li, p, q)) == llen(li), patterns=[inst(pd, li, p, q)]),
    z3.ForAll([pd, li, p, q, ii], z3.Implies(z3.And(0 <= ii, ii < llen(li)), sat(inst(pd, li, p, q), ii) ==
              look(p, q, sat(olist(pd, li), ii))), patterns=[sat(inst(pd, li, p, q), ii)]),
    z3.ForAll([ao, ii], names(ao)[ii] == nm(ao[ii]), patterns=[names(ao)[ii]]),
]


def ext(x, y, vs):
    """Sequences are equal when their elements are."""
    return z3.ForAll(vs, z3.Or(x == y, slen(x) != slen(y), z3.And(
        0 <= sdiff(x, y), sdiff(x, y) < slen(x), sat(x, sdiff(x, y)) != sat(y, sdiff(x, y)))),
        patterns=[z3.MultiPattern(x, y)])


a2 = z3.Const("a2", ArrO)
m_ = z3.Int("m_")
p2, q2 = z3.Consts("p2 q2", SEQ)
seq_ext = [ext(seqO(ao, nn_), seqO(a2, m_), [ao, nn_, a2, m_]),
           ext(seqO(ao, nn_), scat(p, q), [ao, nn_, p, q]),
           ext(seqO(ao, nn_), olist(pd, li), [ao, nn_, pd, li]),
           ext(seqO(ao, nn_), inst(pd, li, p, q), [ao, nn_, pd, li, p, q])]

V = z3.Const("V", SEQ)
T = z3.Const("T", SEQ)


def tup_seq(pd, V, i):
    t = gtup(pd, V, i)
    return seqO(KVOBJ.arr_of(t), KVOBJ.len_of(t))


gen_defs = [
    z3.ForAll([pd, V], gsize(pd, V) >= 0, patterns=[gsize(pd, V)]),
    z3.ForAll([pd, V, ii], z3.Implies(z3.And(0 <= ii, ii < gsize(pd, V)), z3.And(
        KVOBJ.len_of(gtup(pd, V, ii)) == slen(V), tc(pd, V, tup_seq(pd, V, ii)))), patterns=[gtup(pd, V, ii)]),
    z3.ForAll([pd, V, T], z3.Implies(z3.And(tc(pd, V, T), slen(V) > 0), z3.And(
        0 <= gidx(pd, V, T), gidx(pd, V, T) < gsize(pd, V), tup_seq(pd, V, gidx(pd, V, T)) == T)),
        patterns=[tc(pd, V, T)]),
    z3.ForAll([pd, V, T], z3.Implies(tc(pd, V, T), slen(T) == slen(V)), patterns=[tc(pd, V, T)]),
]

# atoms: identified by predicate and argument names
atom_defs = [
    z3.ForAll([st_, n1, n2, l_1], z3.Or(atom(st_, n1, l_1) == atom(st_, n2, l_1), z3.And(
        0 <= ndiff(n1, l_1, n2, l_1), ndiff(n1, l_1, n2, l_1) < l_1,
        n1[ndiff(n1, l_1, n2, l_1)] != n2[ndiff(n1, l_1, n2, l_1)])),
        patterns=[z3.MultiPattern(atom(st_, n1, l_1), atom(st_, n2, l_1))]),
]
atomS = z3.Function("atomOfSeq", STR, SEQ, ATOM)
atom_defs += [z3.ForAll([st_, ao, nn_], z3.Implies(nn_ >= 0, atomS(st_, seqO(ao, nn_)) == atom(st_, names(ao), nn_)),
                        patterns=[atomS(st_, seqO(ao, nn_)), z3.MultiPattern(atom(st_, names(ao), nn_))])]
anm = z3.Function("argumentNames", SEQ, ArrS)
atom_defs += [z3.ForAll([st_, p], atomS(st_, p) == atom(st_, anm(p), slen(p)), patterns=[atomS(st_, p)]),
              z3.ForAll([p, ii], anm(p)[ii] == nm(sat(p, ii)), patterns=[anm(p)[ii]])]


def vseq(v):
    """Sequence of an argument vector."""
    return seqO(v.arr, v.len)


def atom_of(name, v):
    return atomS(name, vseq(v))


# ------------------------------------------------------------------ classes

CLASSES = ["simple_goal", "conj_goal", "disj_goal", "neg_goal", "qfied_goal", "con_goal", "constraint_goal",
           "preference", "imply_goal", "timed_goal", "comparison", "action", "axiom"]


def isa_cls(s, name):
    return z3.And(s != nullS, cls(s) == CLASSES.index(name))


def dynamic_cast(c, v, t):
    name = strip_cv(t.rstrip("*").strip().removesuffix("*").strip()).split("::")[-1].rstrip("*").strip()
    if name not in CLASSES:
        raise Unsupported("dynamic_cast to " + t)
    v = KSYM.pack(v)
    return z3.If(isa_cls(v, name), v, nullS)


# ------------------------------------------------------------------ hooks

def object_ops(c, qn, fn, this, args, node):
    """Objects: comparison, name, type and hash (C08)."""
    if this is not None and qn.startswith("symbolic::Object::"):
        v = c.rv(this)
        if z3.is_expr(v) and v.sort() == OBJ:
            if qn.endswith("::name"):
                return c.new_root("ext/oname", nm(v))
            if qn.endswith("Object::type"):
                return c.new_root("ext/otype", typeO(v))
            if qn.endswith("::hash"):
                return hs(nm(v))
        if z3.is_expr(v) and v.sort() == TYP:
            if qn.endswith("::name"):
                return c.new_root("ext/tname", tnm(v))
            if qn.endswith("::IsSubtype"):
                a = c.rv(args[0])
                if a.sort() == TYP:
                    a = tnm(a)
                return isaT(v, a)
    if fn.get("name") in ("operator==", "operator!=", "operator<"):
        xs = [c.rv(a) for a in args] if this is None else [c.rv(this), c.rv(args[0])]
        if len(xs) == 2 and all(z3.is_expr(x) and x.sort() == OBJ for x in xs):
            x, y = xs
            return {"operator==": nm(x) == nm(y), "operator!=": nm(x) != nm(y),
                    "operator<": slt(nm(x), nm(y))}[fn["name"]]
    return NotImplemented


class ObjectMap:
    """The domain's map from type names to objects: what C06 establishes about it."""
    def method(self, c, b, v, name, argnodes, n):
        if name in ("find", "count"):
            k = c.val(argnodes[0])
            if name == "count":
                return z3.If(inh(v.data, k), z3.IntVal(1), z3.IntVal(0))
            return Abs(MapIt(), (v.data, k))
        if name in ("end", "cend"):
            return Abs(MapIt(), (v.data, None))
        raise Unsupported("object map " + name)

    def same(self, c, a, b):
        return a.data == b.data

    def __repr__(self):
        return "object_map"


class MapIt:
    def present(self, v):
        return z3.BoolVal(False) if v.data[1] is None else inh(v.data[0], v.data[1])

    def operator(self, c, a, x, op, argnodes, n):
        if op in ("==", "!="):
            y = c.val(argnodes[1])
            px, py = x.model.present(x), y.model.present(y)
            if x.data[1] is not None and y.data[1] is not None:
                raise Unsupported("comparison of map positions")
            r = px == py
            return r if op == "==" else z3.Not(r)
        raise Unsupported("map iterator " + op)

    def __repr__(self):
        return "map_it"


def pddl_ops(c, qn, fn, this, args, node):
    if this is not None and qn == "symbolic::Pddl::object_map":
        v = c.rv(this)
        return c.new_root("ext/omap", Abs(ObjectMap(), v))
    return NotImplemented


GEN = z3.DeclareSort("Generator")
KGEN = KPrim(GEN, "Generator")
genOf = z3.Function("generator", PDDL, SEQ, GEN)
gpd = z3.Function("genPddl", GEN, PDDL)
gvs = z3.Function("genParams", GEN, SEQ)
gen_defs += [z3.ForAll([pd, V], z3.And(gpd(genOf(pd, V)) == pd, gvs(genOf(pd, V)) == V), patterns=[genOf(pd, V)])]


def gen_item(c, v, idx):
    t = KVOBJ.unpack(gtup(gpd(v), gvs(v), idx))
    c.assume(t.len >= 0)
    return t


def gen_ctor(c, t, ct, args, n, into):
    if strip_cv(t).split("::")[-1] != "ParameterGenerator":
        return NotImplemented
    vs = [c.ev(a) for a in args]
    if len(vs) == 1:
        v = c.take(vs[0])
    elif not vs:
        v = c.fresh_const("generator", GEN)     # says nothing: to be assigned
    else:
        used("ParameterGenerator(pddl, types): see C06")
        v = genOf(c.rv(vs[0]), vseq(c.rv(vs[1])))
    if into is not None:
        c.write_init(into, v)
    return v


def gen_ops(c, qn, fn, this, args, node):
    """Generators and their iterators: see C05 and C06."""
    if this is not None:
        v = c.rv(this)
        if z3.is_expr(v) and v.sort() == GEN:
            nme = fn.get("name")
            if nme in ("begin", "cbegin"):
                return It(Place(this.root, this.path), z3.IntVal(0))
            if nme in ("end", "cend"):
                return It(Place(this.root, this.path), gsize(gpd(v), gvs(v)))
            if nme == "size":
                return gsize(gpd(v), gvs(v))
            if nme == "empty":
                return gsize(gpd(v), gvs(v)) == 0
            if nme == "pddl":
                return gpd(v)
            if nme == "operator=":
                used("ParameterGenerator is assigned as a value: see C06")
                c.write(this, c.take(args[0]))
                return this
            raise Unsupported("generator " + str(nme))
    if "CombinationGenerator" in qn or fn.get("name", "").startswith("operator"):
        xs = ([this] if this is not None else []) + list(args)
        vs = [c.rv(a) for a in xs]
        if vs and isinstance(vs[0], It):
            x = vs[0]
            h = c.read(x.place)
            if not (z3.is_expr(h) and h.sort() == GEN):
                return NotImplemented
            o = fn.get("name", "")[len("operator"):]
            if o in ("==", "!="):
                r = c.equal(x, vs[1])
                return r if o == "==" else z3.Not(r)
            if o in ("++", "--"):
                c.write(xs[0], It(x.place, x.idx + 1 if o == "++" else x.idx - 1, x.rev))
                return x if len(xs) > 1 else xs[0]
            if o == "*":
                return c.deref_it(x, node)
    return NotImplemented


class CreateList(Contract):
    """Object::CreateList<T>(pddl, symbols)"""
    qname = "symbolic::Object::CreateList"
    sig = staticmethod(lambda t: "(constPddl&" in t)

    def enter(self, c):
        return None, [c.fresh_const("pddl", PDDL), c.fresh_const("symbols", SYML)]

    def ret(self, c, s):
        return KVOBJ.fresh(c, "objects")

    def post(self, c, o, nw, ret):
        p_, l_ = o.args[0], KSYML.pack(o.args[1])
        return [("one object per symbol", ret.len == llen(l_)),
                ("each is the object of its symbol", z3.ForAll([ii], z3.Implies(z3.And(0 <= ii, ii < ret.len),
                 ret.arr[ii] == objOf(p_, lit(l_, ii))), patterns=[ret.arr[ii]]))]


def construct_object(c, args):
    """Object(pddl, symbol) and Object(pddl, name)"""
    a, t = [c.rv(x) for x in args]
    if z3.is_expr(a) and a.sort() == PDDL and z3.is_expr(t) and t.sort() == SYM:
        return objOf(a, t)
    return prop.construct_object(c, args)


class KObj(KPrim):
    pass


def list_candidates(c, lp):
    """Vectors of objects filled alongside a list of symbols."""
    its = [(r, c.mem[r]) for r in lp.entry if isinstance(c.mem.get(r), It) and any(h[0] == r for h in lp.havoc)]
    outs = [(r, c.mem[r]) for r in lp.entry if isinstance(c.mem.get(r), Vec) and c.mem[r].ek is KOBJ and
            any(h[0] == r for h in lp.havoc)]
    pds = [c.mem[r] for r in lp.entry if z3.is_expr(c.mem.get(r)) and c.mem[r].sort() == PDDL]
    for ri, it in its:
        src = c.read(it.place)
        if not (isinstance(src, Vec) and src.ek is KSYM):
            continue
        for ro, v in outs:
            for x in pds:
                yield "%s has the objects of the symbols before %s" % (ro, ri), lambda v=v, x=x, src=src: z3.ForAll(
                    [ii], z3.Implies(z3.And(0 <= ii, ii < v.len), v.arr[ii] == objOf(x, src.arr[ii])),
                    patterns=[v.arr[ii]])


def append_candidates(c, lp):
    """A vector extended by the elements another one holds before a position."""
    moved = [r for r in lp.entry if r in c.mem and any(h[0] == r for h in lp.havoc)]
    vecs = [(r, c.mem[r]) for r in c.mem if isinstance(c.mem[r], Vec)]
    for ro in moved:
        v, e = c.mem[ro], lp.entry[ro]
        if not (isinstance(v, Vec) and isinstance(e, Vec)):
            continue
        yield "%s keeps what it had" % ro, lambda v=v, e=e: z3.And(v.len >= e.len, z3.ForAll(
            [ii], z3.Implies(z3.And(0 <= ii, ii < e.len), v.arr[ii] == e.arr[ii]), patterns=[v.arr[ii]]))
        for rp in moved:
            x = c.mem[rp]
            if isinstance(x, It):
                src = c.read(x.place)
                srcs = [(str(x.place), src)] if isinstance(src, Vec) else []
                pos = x.idx
            elif z3.is_expr(x) and x.sort() == IS and "/tmp" not in rp:
                srcs, pos = vecs, x
            else:
                continue
            yield "%s has grown by %s" % (ro, rp), lambda v=v, e=e, pos=pos: v.len == e.len + pos
            for rs, w in srcs:
                if w.ek.sort() != v.ek.sort() or rs == ro:
                    continue
                yield "%s is extended by %s before %s" % (ro, rs, rp), lambda v=v, e=e, w=w: z3.ForAll(
                    [ii], z3.Implies(z3.And(e.len <= ii, ii < v.len), v.arr[ii] == w.arr[ii - e.len]),
                    patterns=[v.arr[ii]])


# ------------------------------------------------------------------ application

AF = z3.DeclareSort("Application")
KAF = KPrim(AF, "Application")
KAF.default = lambda c: c.fresh_const("no_application", AF)
afP = z3.Function("appParams", AF, SEQ)
afT = z3.Function("appTerms", AF, SEQ)


def apply_af(c, a, arg):
    """Apply(arguments): the terms with their variables replaced. The result is a
    buffer that the function owns and overwrites at its next call."""
    f = c.rv(a)
    v = c.rv(arg)
    c.check("an argument for every parameter", v.len == slen(afP(f)))
    root = "ext/applied/" + f.sexpr()
    res = KVOBJ.fresh(c, "applied")
    c.assume(res.len == slen(afT(f)))
    c.assume(z3.ForAll([ii], z3.Implies(z3.And(0 <= ii, ii < res.len), res.arr[ii] == look(
        afP(f), vseq(v), sat(afT(f), ii))), patterns=[res.arr[ii]]))
    if root not in c.mem:
        c.mem[root] = res
    c.write(Place(root), res)
    return Place(root)


def call_fn(c, v, args):
    """Calls a function value: a closure of the code or an abstract function."""
    if isinstance(v, Clo):
        return c.call_closure(v, args)
    f = c.spec.sort_ops.get((str(v.sort()), "@()")) if z3.is_expr(v) else None
    if f is None:
        raise Unsupported("call of %r" % (v,))
    return f(c, v, *args)


def heap_vectors(c):
    return [r for r in c.mem if r.startswith("heap/") and isinstance(c.mem[r], Vec) and c.mem[r].ek is KOBJ]


class CreateApplication(Contract):
    """The returned function maps arguments to the terms with the parameters
    replaced, whatever it was called with before."""
    qname = "symbolic::Formula::CreateApplicationFunction"

    def enter(self, c):
        return None, [KVOBJ.fresh(c, "params"), KVOBJ.fresh(c, "terms")]

    def ret(self, c, s):
        return c.fresh_const("Apply", AF)

    def call_post(self, c, o, nw, ret):
        return [("", z3.And(afP(ret) == vseq(o.args[0]), afT(ret) == vseq(o.args[1])))]

    def post(self, c, o, nw, ret):
        P, Tm = o.args
        F = c.rv(ret)
        c.retire([F])

        def inv(v):
            return [z3.And(v.len == Tm.len), z3.ForAll([ii], z3.Implies(z3.And(
                0 <= ii, ii < Tm.len, lastm(vseq(P), P.len, nm(Tm.arr[ii])) < 0), v.arr[ii] == Tm.arr[ii]),
                patterns=[v.arr[ii]])]
        for r in heap_vectors(c):
            for f in inv(c.mem[r]):
                c.check("the stored terms without a parameter are kept (on creation)", f)
            c.mem[r] = c.fresh_like(c.mem[r], "buffer")
            for f in inv(c.mem[r]):
                c.assume(f)
        av = KVOBJ.fresh(c, "arguments")
        c.assume(av.len == P.len)
        a = c.new_root("ext/arguments", av)
        R = c.rv(call_fn(c, F, [a]))
        x = z3.Int(c.fresh_name("x"))
        c.assume(z3.And(0 <= x, x < Tm.len))
        out = [("as many as terms", R.len == Tm.len),
               ("every term has its parameter replaced", R.arr[x] == look(vseq(P), vseq(av), Tm.arr[x])),
               ("the arguments are unchanged", z3.BoolVal(c.read(a) is av))]
        for r in heap_vectors(c):
            for f in inv(c.mem[r]):
                out.append(("the stored terms without a parameter are kept (by a call)", f))
        return out


# a ground occurrence for quantified facts to match
mark = z3.Function("mark", IS, B)
mark_def = [z3.ForAll([ii], mark(ii), patterns=[mark(ii)])]

# pairs (term, parameter): the last pair below a position that sets a term
KPAIR = KRec("pair", [("first", KUINT), ("second", KUINT)])
ArrP = z3.ArraySort(IS, KPAIR.sort())
lastset = z3.Function("last_set", ArrP, IS, IS, IS)
pa, pb = z3.Consts("pa pb", ArrP)
LS = lastset(pa, nn_, jj)
pairdiff = z3.Function("pair_diff", ArrP, ArrP, IS, IS)
LSB = lastset(pb, m_, jj)
PD = pairdiff(pa, pb, nn_)
pair_defs = [
    z3.ForAll([pa, nn_, jj], z3.Implies(nn_ >= 0, z3.And(-1 <= LS, LS < nn_, z3.Implies(
        LS >= 0, KPAIR.get(pa[LS], "first") == jj))), patterns=[LS]),
    z3.ForAll([pa, nn_, jj, ii], z3.Implies(z3.And(LS < ii, ii < nn_, 0 <= ii), KPAIR.get(pa[ii], "first") != jj),
              patterns=[z3.MultiPattern(LS, pa[ii])]),
    # appending pairs keeps the last setting position unless a later pair sets the term
    z3.ForAll([pa, nn_, pb, m_, jj], z3.Implies(z3.And(0 <= nn_, nn_ < m_), z3.Or(
        z3.And(0 <= PD, PD < nn_, pa[PD] != pb[PD]),
        z3.And(z3.If(LSB >= nn_, LSB < m_, LSB == LS), z3.Implies(KPAIR.get(pb[nn_], "first") == jj, LSB >= nn_)))),
        patterns=[z3.MultiPattern(LS, LSB)]),
]


def app_candidates(c, lp):
    """Pairs collected so far / pairs applied so far."""
    def ints():
        for r in lp.entry:
            v = c.mem.get(r)
            if z3.is_expr(v) and v.sort() == IS and "/tmp" not in r:
                yield r, v
    vecs = [(r, c.mem[r]) for r in c.mem if isinstance(c.mem.get(r), Vec)]
    pv = [(r, v) for r, v in vecs if isinstance(v.ek, KRec) and v.ek.cls == "pair" and v.ek.sort() == KPAIR.sort()]
    ov = [(r, v) for r, v in vecs if v.ek is KOBJ]
    for r, w in pv:
        moved = any(h[0] == r for h in lp.havoc)
        if moved:
            # collecting: every term below i (and i up to parameter j) has its last match last
            for rt, tv in ov:
                for rp, pvv in ov:
                    if rt == rp:
                        continue
                    P = vseq(pvv)

                    def done(k, n, w=w, P=P, tv=tv):
                        ls = lastset(w.arr, w.len, k)
                        lm = lastm(P, n, nm(tv.arr[k]))
                        return z3.And(ls < w.len, z3.If(lm >= 0, z3.And(ls >= 0, KPAIR.get(w.arr[ls], "second") == lm),
                                                        ls < 0))
                    for ri, i in ints():
                        yield "%s: terms of %s below %s are matched in %s" % (r, rt, ri, rp), \
                            lambda i=i, done=done, pvv=pvv, w=w, tv=tv: z3.ForAll([ii], z3.Implies(
                                z3.And(mark(ii), 0 <= ii, ii < i), done(ii, pvv.len)), patterns=[lastset(w.arr, w.len, ii), mark(ii)])
                        yield "%s: no term of %s from %s on is set (%s)" % (r, rt, ri, rp), \
                            lambda i=i, w=w, tv=tv: z3.ForAll([ii], z3.Implies(z3.And(mark(ii), ii >= i), lastset(w.arr, w.len, ii) < 0),
                                                              patterns=[lastset(w.arr, w.len, ii), mark(ii)])
                        yield "%s: no term of %s above %s is set (%s)" % (r, rt, ri, rp), \
                            lambda i=i, w=w, tv=tv: z3.ForAll([ii], z3.Implies(z3.And(mark(ii), ii > i), lastset(w.arr, w.len, ii) < 0),
                                                              patterns=[lastset(w.arr, w.len, ii), mark(ii)])
                        for rj, j in ints():
                            if rj != ri:
                                yield "%s: term %s of %s is matched below %s of %s" % (r, ri, rt, rj, rp), \
                                    lambda i=i, j=j, done=done: done(i, j)
                    yield "%s: pairs are in range (%s, %s)" % (r, rt, rp), lambda w=w, tv=tv, pvv=pvv: z3.ForAll(
                        [ii], z3.Implies(z3.And(0 <= ii, ii < w.len), z3.And(
                            0 <= KPAIR.get(w.arr[ii], "first"), KPAIR.get(w.arr[ii], "first") < tv.len,
                            0 <= KPAIR.get(w.arr[ii], "second"), KPAIR.get(w.arr[ii], "second") < pvv.len)),
                        patterns=[w.arr[ii]])
        # applying: terms set by the pairs passed hold the argument, others what they held
        for rb, bv in ov:
            if not any(h[0] == rb for h in lp.havoc) or rb not in lp.entry:
                continue
            for ra, av in ov:
                if ra == rb:
                    continue
                for rx, x in [(q_, c.mem.get(q_)) for q_ in lp.entry]:
                    n_ = x.idx if isinstance(x, It) else x if z3.is_expr(x) and x.sort() == IS else None
                    if n_ is None or not any(h[0] == rx for h in lp.havoc):
                        continue
                    b0 = lp.entry[rb]
                    yield "%s holds the elements of %s set before %s by %s" % (rb, ra, rx, r), \
                        lambda bv=bv, av=av, n_=n_, w=w, b0=b0: z3.ForAll([ii], z3.Implies(
                            z3.And(0 <= ii, ii < bv.len), bv.arr[ii] == z3.If(
                                lastset(w.arr, n_, ii) >= 0,
                                av.arr[KPAIR.get(w.arr[lastset(w.arr, n_, ii)], "second")], b0.arr[ii])),
                            patterns=[bv.arr[ii]])


TEXT_METHODS = ("to_pddl", "to_string", "str")


def some_text(c, *_):
    used("text printed for the user is not specified")
    return c.fresh_const("text", STR)


def text_ops(c, qn, fn, this, args, node):
    """Printing has no part in the properties decided here."""
    if fn.get("name") in TEXT_METHODS and this is not None:
        return some_text(c)
    return NotImplemented


def install(sp):
    val.install(sp)
    sp.hooks.append(text_ops)
    sp.sort_ops[("TextStream", ".str")] = some_text
    sp.sort_ops[("Str", "+")] = some_text
    sp.sort_ops[("Str", ".empty")] = lambda c, v: v == val.strlit("")
    KSTR.default = lambda c: val.strlit("")
    sp.kinds["symbolic::Object"] = sp.kinds["Object"] = KOBJ
    sp.kinds["symbolic::Object::Type"] = sp.kinds["Object::Type"] = KTYP
    for n_ in ("symbolic::Proposition", "Proposition"):
        sp.kinds[n_] = KPROP
    sp.kinds["symbolic::ParameterGenerator"] = sp.kinds["ParameterGenerator"] = KGEN
    for n_ in ("VAL::quantifier", "quantifier"):
        sp.kinds[n_] = KINT
    sp.sort_ops[("Obj", "==")] = lambda c, x, y: nm(x) == nm(y)
    sp.sort_ops[("Obj", "!=")] = lambda c, x, y: nm(x) != nm(y)
    sp.sort_ops[("Obj", "<")] = lambda c, x, y: slt(nm(x), nm(y))
    sp.sort_ops[("Generator", "len")] = lambda c, v: gsize(gpd(v), gvs(v))
    sp.sort_ops[("Generator", "item")] = gen_item
    sp.sort_ops[("Application", "@()")] = apply_af
    sp.hooks += [object_ops, pddl_ops, gen_ops, prop.object_hash]
    sp.ctor_hooks = [gen_ctor]
    sp.dynamic_cast = dynamic_cast
    sp.base_axioms = sp.base_axioms + prop.prop_defs[:3] + seq_defs + seq_ext + gen_defs + atom_defs + pair_defs + mark_def
    sp.axioms = sp.base_axioms + [prop.hash_ext]
    sp.cands = [list_candidates, app_candidates, append_candidates]
    KOBJ.construct = construct_object
