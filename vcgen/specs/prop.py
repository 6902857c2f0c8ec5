"""Objects, propositions, their comparison, hash and text (C08)."""
import z3

from ..engine import *
from ..task import Lemma
from ..values import *
from . import val
from .val import *

SOURCE = '''
#include "proposition.cc"
#include "object.cc"
namespace symbolic {
void verif_use(const Proposition& p, const PropositionBase& b, const PropositionRef& r, const Object& o) {
  std::hash<Proposition>{}(p); std::hash<PropositionBase>{}(b); std::hash<PropositionRef>{}(r);
  std::hash<Object>{}(o);
  Proposition q(p); Proposition q2(std::move(q)); q = q2; q = std::move(q2); Proposition z(b);
}
}
'''

# ---------------------------------------------------------------- objects

KTYPE = KRec("symbolic::Object::Type", [("symbol_", KSYM)])
KTYPE.real = True
KOBJR = KRec("symbolic::Object", [("symbol_", KSYM), ("type_", KTYPE), ("hash_", KUINT)])
KOBJR.real = True
DEFAULT = val.strlit("object")


def oname(ob):
    return nameS(ob.fields["symbol_"])


def wfo(ob):
    return [("the object has a symbol", ob.fields["symbol_"] != nullS),
            ("the stored hash is the hash of the name", ob.fields["hash_"] == hs(oname(ob)))]


def tname(ty_):
    return z3.If(ty_.fields["symbol_"] == nullS, DEFAULT, nameS(ty_.fields["symbol_"]))


class ObjName(Contract):
    qname = "symbolic::Object::name"
    verify_only = True

    def enter(self, c):
        return KOBJR.fresh(c, "object"), []

    def pre(self, c, s):
        return wfo(s.this)

    def post(self, c, o, nw, ret):
        return [("the symbol's name", c.rv(ret) == oname(o.this))]


class TypeName(Contract):
    qname = "symbolic::Object::Type::name"
    verify_only = True

    def enter(self, c):
        return KTYPE.fresh(c, "type"), []

    def post(self, c, o, nw, ret):
        return [("the symbol's name, or the default type's", c.rv(ret) == tname(o.this))]


class ObjCompare(Contract):
    rel = None
    sig = "bool (const Object &, const Object &)"

    def enter(self, c):
        return None, [KOBJR.fresh(c, "lhs"), KOBJR.fresh(c, "rhs")]

    def pre(self, c, s):
        return [("%d: %s" % (k, nm), f) for k in (0, 1) for nm, f in wfo(s.args[k])]

    def ret(self, c, s):
        return c.fresh_const("cmp", B)

    def names(self, s):
        return oname(s.args[0]), oname(s.args[1])

    def post(self, c, o, nw, ret):
        p, q = self.names(o)
        want = {"==": p == q, "!=": p != q, "<": slt(p, q)}[self.rel]
        return [("compares the names", ret == want)]


class TypeCompare(ObjCompare):
    sig = "bool (const Object::Type &, const Object::Type &)"

    def enter(self, c):
        return None, [KTYPE.fresh(c, "lhs"), KTYPE.fresh(c, "rhs")]

    def pre(self, c, s):
        return []

    def names(self, s):
        return tname(s.args[0]), tname(s.args[1])


class ObjHash(Contract):
    qname = "operator()"
    sig = staticmethod(lambda t: "Object&)" in t)
    verify_only = True

    def enter(self, c):
        return Rec("hash", {}), [KOBJR.fresh(c, "object")]

    def pre(self, c, s):
        return wfo(s.args[0])

    def post(self, c, o, nw, ret):
        return [("the hash of the name", ret == hs(oname(o.args[0])))]


t1 = z3.Const("t1", SYM)
t2 = z3.Const("t2", SYM)
ii, jj, kk, nn = z3.Ints("ii jj kk nn")


class GetTypeSymbol(Contract):
    qname = "GetTypeSymbol"

    def enter(self, c):
        return None, [c.fresh_const("types", SYML), c.fresh_const("symbol", SYM)]

    def ret(self, c, s):
        return c.fresh_const("type", SYM)

    def post(self, c, o, nw, ret):
        types, sym = o.args
        ret = KSYM.pack(ret)
        return [("a given type is kept", z3.Implies(sym != nullS, ret == sym)),
                ("otherwise nothing or the root type named object", z3.Implies(sym == nullS, z3.Or(
                    ret == nullS, z3.And(nameS(ret) == DEFAULT, field("type", ret) == nullS))))]


def consts(p):
    return field("constants", field("the_domain", analysis(p)), KSYML)


def objs(p):
    return field("objects", field("the_problem", analysis(p)), KSYML)


def known(p, name):
    """Some constant or problem object has the name."""
    def among(lst):
        v = items(lst)
        return z3.Exists([ii], z3.And(0 <= ii, ii < KVSYM.len_of(v), KVSYM.arr_of(v)[ii] != nullS,
                                      nameS(KVSYM.arr_of(v)[ii]) == name))
    return z3.Or(z3.And(consts(p) != nullL, among(consts(p))),
                 z3.And(field("the_problem", analysis(p)) != nullS, among(objs(p))))


def loaded(p):
    """The parse tree is complete."""
    return [("the domain was parsed", z3.And(analysis(p) != nullS, field("the_domain", analysis(p)) != nullS)),
            ("a problem has an object list", z3.Implies(field("the_problem", analysis(p)) != nullS, objs(p) != nullL))]


class GetSymbol(Contract):
    qname = "GetSymbol"

    def enter(self, c):
        return None, [c.fresh_const("pddl", PDDL), c.fresh_const("name", STR)]

    def pre(self, c, s):
        return loaded(s.args[0])

    def throws(self, c, s):
        return z3.Not(known(s.args[0], s.args[1]))

    def ret(self, c, s):
        return c.fresh_const("symbol", SYM)

    def post(self, c, o, nw, ret):
        ret = KSYM.pack(ret)
        return [("a symbol of that name", z3.And(ret != nullS, nameS(ret) == o.args[1]))]


class ObjCtor(Contract):
    """Object(pddl, symbol) and Object(types, symbol)."""
    qname = "symbolic::Object::Object"
    first = None

    def enter(self, c):
        return None, [c.fresh_const("first", self.first), c.fresh_const("symbol", SYM)]

    def pre(self, c, s):
        return [("a symbol", s.args[1] != nullS)] + (loaded(s.args[0]) if self.first == PDDL else [])

    def ret(self, c, s):
        return KOBJR.fresh(c, "object")

    def post(self, c, o, nw, ret):
        return [("refers to the symbol", ret.fields["symbol_"] == o.args[1]),
                ("a declared type is kept", z3.Implies(field("type", o.args[1]) != nullS,
                                                       ret.fields["type_"].fields["symbol_"] == field("type", o.args[1])))] \
            + wfo(ret)


class ObjByName(ObjCtor):
    def enter(self, c):
        return None, [c.fresh_const("pddl", PDDL), c.fresh_const("name", STR)]

    def pre(self, c, s):
        return loaded(s.args[0])

    def throws(self, c, s):
        return z3.Not(known(s.args[0], s.args[1]))

    def post(self, c, o, nw, ret):
        return [("has the name", oname(ret) == o.args[1]),
                ("a declared type is kept", z3.Implies(
                    field("type", ret.fields["symbol_"]) != nullS,
                    ret.fields["type_"].fields["symbol_"] == field("type", ret.fields["symbol_"])))] + wfo(ret)


def object_contracts():
    out = [ObjName(), TypeName(), ObjHash(), GetTypeSymbol(), GetSymbol(),
           ObjCtor(first=PDDL, sig=lambda t: "constPddl&" in t and "pddl_typed_symbol" in t),
           ObjCtor(first=SYML, sig=lambda t: "pddl_type_list" in t),
           ObjByName(sig=lambda t: "string&" in t)]
    for r in ("==", "!=", "<"):
        out.append(ObjCompare(qname="symbolic::operator" + r, rel=r))
        if r != "!=":
            out.append(TypeCompare(qname="symbolic::operator" + r, rel=r))
    return out


def list_candidates(c, lp):
    """No element passed so far has the name."""
    its = [(r, c.mem[r]) for r in lp.entry if isinstance(c.mem.get(r), It)
           and any(h[0] == r for h in lp.havoc)]
    strs = [(r, c.mem[r]) for r in lp.entry if z3.is_expr(c.mem.get(r)) and c.mem[r].sort() == STR]
    for r, it in its:
        v = c.read(it.place)
        if not (isinstance(v, Vec) and v.ek is KSYM):
            continue
        for rs, t in strs:
            yield "no element before %s has the name %s" % (r, rs), lambda it=it, v=v, t=t: z3.ForAll(
                [ii], z3.Implies(z3.And(0 <= ii, ii < it.idx), z3.Or(v.arr[ii] == nullS, nameS(v.arr[ii]) != t)),
                patterns=[v.arr[ii]])


# ------------------------------------------------------------ propositions
# Objects are abstract here; what is used about them (comparison and hash by
# name) is what the contracts above establish.

OBJ = z3.DeclareSort("Obj")
KOBJ = KPrim(OBJ, "Obj")
nm = z3.Function("name", OBJ, STR)
KVOBJ = KVec("vector", KOBJ)
ArrO = z3.ArraySort(IS, OBJ)
ArrS = z3.ArraySort(IS, STR)
names = z3.Function("names", ArrO, ArrS)
H = z3.Function("hash_of", ArrS, IS, IS, IS)     # names, count, hash of the predicate name
ndiff = z3.Function("first_difference", ArrS, IS, ArrS, IS, IS)
lexlt = z3.Function("lexlt_" + str(KVOBJ.sort()), KVOBJ.sort(), KVOBJ.sort(), B)

KPROP = KRec("symbolic::Proposition", [("hash_", KUINT), ("name_", KSTR), ("arguments_", KVOBJ)])
KPROP.real = True
KSIGNED = KRec("symbolic::SignedProposition", KPROP.flds + [("is_pos_", KBOOL)])
KSIGNED.real = True
o1 = z3.Const("o1", OBJ)
ao = z3.Const("ao", ArrO)
n1, n2, n3 = z3.Consts("n1 n2 n3", ArrS)
l_1, l_2, l_3, ph = z3.Ints("l_1 l_2 l_3 ph")
v1, v2, v3 = z3.Consts("v1 v2 v3", KVOBJ.sort())


def vn(v):
    """(names, length) of a packed argument vector."""
    return names(KVOBJ.arr_of(v)), KVOBJ.len_of(v)


def ndiff_of(v, w):
    (a, p), (b, q) = vn(v), vn(w)
    return ndiff(a, p, b, q)


d12 = ndiff(n1, l_1, n2, l_2)
prop_defs = [
    z3.ForAll([ao, ii], names(ao)[ii] == nm(ao[ii]), patterns=[names(ao)[ii], z3.MultiPattern(names(ao), ao[ii])]),
    # the first position where two name sequences differ (the shorter length if none)
    z3.ForAll([n1, l_1, n2, l_2], z3.Implies(z3.And(l_1 >= 0, l_2 >= 0), z3.And(
        0 <= d12, d12 <= l_1, d12 <= l_2,
        z3.Or(d12 == l_1, d12 == l_2, n1[d12] != n2[d12]))), patterns=[d12]),
    z3.ForAll([n1, l_1, n2, l_2, ii], z3.Implies(z3.And(0 <= ii, ii < d12), n1[ii] == n2[ii]),
              patterns=[z3.MultiPattern(d12, n1[ii]), z3.MultiPattern(d12, n2[ii])]),
    # lexicographic order of argument vectors
    z3.ForAll([v1, v2], z3.Implies(z3.And(KVOBJ.len_of(v1) >= 0, KVOBJ.len_of(v2) >= 0), lexlt(v1, v2) == z3.And(
        ndiff_of(v1, v2) < KVOBJ.len_of(v2), z3.Or(
            ndiff_of(v1, v2) == KVOBJ.len_of(v1),
            slt(vn(v1)[0][ndiff_of(v1, v2)], vn(v2)[0][ndiff_of(v1, v2)])))), patterns=[lexlt(v1, v2)]),
]
# The hash is a function of the names (see PropHash) and so equal for equal names.
hash_ext = z3.ForAll([n1, n2, l_1, ph], z3.Or(
    H(n1, l_1, ph) == H(n2, l_1, ph),
    z3.And(0 <= ndiff(n1, l_1, n2, l_1), ndiff(n1, l_1, n2, l_1) < l_1)),
    patterns=[z3.MultiPattern(H(n1, l_1, ph), H(n2, l_1, ph))])


def same(v, w):
    """Argument vectors with the same names."""
    return z3.And(v.len == w.len, ndiff(names(v.arr), v.len, names(w.arr), w.len) == v.len)


def prop_value(c, p):
    """(name, arguments, stored hash) of any kind of proposition."""
    f = p.fields
    if p.cls.endswith("PropositionRef"):
        return c.rv(c.read(f["name_"].place)), c.read(f["arguments_"].place), f["hash_"]
    return f["name_"], f["arguments_"], f["hash_"]


def ghash(name, args):
    return H(names(args.arr), args.len, hs(name))


def wfprop(c, p):
    n_, a_, h_ = prop_value(c, p)
    return [("the stored hash is the hash of the contents", h_ == ghash(n_, a_)), ("arguments", a_.len >= 0)]


def fresh_prop(c, cls, nm_):
    if cls == "Ref":
        pn = c.new_root(nm_ + ".name", c.fresh_const(nm_ + ".name", STR))
        pa = c.new_root(nm_ + ".args", KVOBJ.fresh(c, nm_ + ".args"))
        return Rec("symbolic::PropositionRef", {"hash_": KUINT.fresh(c, nm_ + ".hash"), "name_": Ptr(pn),
                                                "arguments_": Ptr(pa)})
    return KPROP.fresh(c, nm_)


class PropHash(Contract):
    """Hash(prop, predicate_hash): a function of the argument names and the seed."""
    qname = "symbolic::PropositionBase::Hash"
    sig = staticmethod(lambda t: "size_t)" in t)
    cls = "Prop"

    def enter(self, c):
        return None, [fresh_prop(c, self.cls, "prop"), KUINT.fresh(c, "predicate_hash")]

    def ret(self, c, s):
        return KUINT.fresh(c, "hash")

    def call_post(self, c, o, nw, ret):
        n_, a_, _ = prop_value(c, o.args[0])
        return [("the hash", ret == H(names(a_.arr), a_.len, o.args[1]))]

    def post(self, c, o, nw, ret):
        n_, a_, _ = prop_value(c, o.args[0])
        fs = find_folds(c)
        return [("is a function of the argument names and the seed", z3.Or(
            [ret == f(names(a_.arr), a_.len, o.args[1]) for f in fs] + [z3.BoolVal(False)]))]


class PropHash1(PropHash):
    """Hash(prop)"""
    sig = staticmethod(lambda t: "size_t)" not in t)
    verify_only = True

    def enter(self, c):
        return None, [fresh_prop(c, self.cls, "prop")]

    def post(self, c, o, nw, ret):
        n_, a_, _ = prop_value(c, o.args[0])
        return [("the hash of name and arguments", ret == ghash(n_, a_))]


def find_folds(c):
    out = {}
    for h in c.hyps:
        f = h.f if isinstance(h, Guarded) else h
        stack = [f]
        while stack:
            x = stack.pop()
            if z3.is_app(x) and x.decl().name().startswith("fold_"):
                out[x.decl().name()] = x.decl()
            stack += x.children()
    return list(out.values())


def fold_candidates(c, lp):
    """An integer that accumulates the objects a position passes: fold is defined
    along the positions by the loop body itself, provided the new value is a
    function of the old value and the element's name alone."""
    from .sets import consts_of
    def vectors():
        seen = []
        for r in c.mem:
            v = c.mem[r]
            for w in ([v] if isinstance(v, Vec) else list(v.fields.values()) if isinstance(v, Rec) else []):
                if isinstance(w, Vec) and w.ek is KOBJ and not any(z3.eq(w.arr, x.arr) for x in seen):
                    seen.append(w)
        return seen
    moved = [r for r in lp.entry if r in c.mem and any(h[0] == r for h in lp.havoc)]
    for r in moved:
        p = c.mem[r]
        pos = lambda v: v.idx if isinstance(v, It) else v
        if not (isinstance(p, It) or z3.is_expr(p) and p.sort() == IS):
            continue
        for rs in moved:
            x = c.mem[rs]
            if rs == r or not (z3.is_expr(x) and x.sort() == IS):
                continue
            for v in vectors():
                def th(r=r, rs=rs, v=v, x=x):
                    seed = lp.entry[rs]
                    fold = z3.Function("fold_" + rs.split("/")[-1], ArrS, IS, IS, IS)
                    if lp.head is None:
                        return pos(lp.entry[r]) == 0
                    if all(c.mem.get(k) is w for k, w in lp.head.items()):
                        return z3.And(x == fold(names(v.arr), pos(c.mem[r]), seed), pos(c.mem[r]) >= 0)
                    h = lp.head
                    q = z3.simplify(pos(c.mem[r]) - pos(h[r]))
                    el = nm(v.arr[pos(h[r])])
                    y = z3.simplify(x)
                    bad = consts_of(y, [h[rs], z3.simplify(el), el], [])
                    return z3.BoolVal(not bad and z3.is_int_value(q) and q.as_long() == 1)
                yield "%s folds the names before %s" % (rs, r), th


class PropCompare(Contract):
    rel = None
    sig = "bool (const PropositionBase &, const PropositionBase &)"
    cls = ("Prop", "Prop")
    verify_only = True

    def enter(self, c):
        return None, [fresh_prop(c, self.cls[0], "lhs"), fresh_prop(c, self.cls[1], "rhs")]

    def pre(self, c, s):
        return [("%d: %s" % (k, n_), f) for k in (0, 1) for n_, f in wfprop(c, s.args[k])]

    def post(self, c, o, nw, ret):
        (p, a, _), (q, b, _) = [prop_value(c, x) for x in o.args]
        eq = z3.And(p == q, same(a, b))
        if self.rel == "<":
            return [("the lexicographic order of name and arguments", ret == z3.Or(slt(p, q), z3.And(
                p == q, lexlt(KVOBJ.pack(a), KVOBJ.pack(b)))))]
        return [("same name and same argument names", ret == (eq if self.rel == "==" else z3.Not(eq)))]


class PropHasher(Contract):
    """std::hash<...>::operator()"""
    qname = "operator()"
    verify_only = True
    cls = None
    any = False

    def enter(self, c):
        return Rec("hash", {}), [fresh_prop(c, self.cls, "prop")]

    def pre(self, c, s):
        return wfprop(c, s.args[0])

    def post(self, c, o, nw, ret):
        n_, a_, _ = prop_value(c, o.args[0])
        return [("the hash of name and arguments", ret == ghash(n_, a_))]


class PropCtor(Contract):
    """Proposition(name, arguments)"""
    qname = "symbolic::Proposition::Proposition"

    def enter(self, c):
        return None, [c.fresh_const("name", STR), KVOBJ.fresh(c, "arguments")]

    def ret(self, c, s):
        return KPROP.fresh(c, "prop")

    def contents(self, c, s):
        return s.args

    def post(self, c, o, nw, ret):
        n_, a_ = self.contents(c, o)
        r = ret.fields
        return [("has the name", r["name_"] == n_),
                ("has the arguments", z3.And(r["arguments_"].len == a_.len, z3.ForAll([ii], z3.Implies(
                    z3.And(0 <= ii, ii < a_.len), r["arguments_"].arr[ii] == a_.arr[ii]),
                    patterns=[r["arguments_"].arr[ii]])))] + wfprop(c, ret)


class PropFromBase(PropCtor):
    """Proposition(PropositionBase): owns a copy."""
    cls = "Prop"

    def enter(self, c):
        return None, [fresh_prop(c, self.cls, "other")]

    def pre(self, c, s):
        return wfprop(c, s.args[0])

    def contents(self, c, s):
        return prop_value(c, s.args[0])[:2]


class SignedCtor(PropCtor):
    qname = "symbolic::SignedProposition::SignedProposition"

    def enter(self, c):
        return None, PropCtor.enter(self, c)[1] + [c.fresh_const("is_pos", B)]

    def ret(self, c, s):
        return KSIGNED.fresh(c, "prop")

    def contents(self, c, s):
        return s.args[:2]

    def post(self, c, o, nw, ret):
        return PropCtor.post(self, c, o, nw, ret) + [("has the sign", ret.fields["is_pos_"] == o.args[-1])]


class SignedFromProp(SignedCtor):
    def enter(self, c):
        return None, [fresh_prop(c, "Prop", "prop"), c.fresh_const("is_pos", B)]

    def pre(self, c, s):
        return wfprop(c, s.args[0])

    def contents(self, c, s):
        return prop_value(c, s.args[0])[:2]


class RefCtor(Contract):
    qname = "symbolic::PropositionRef::PropositionRef"

    def enter(self, c):
        pn = c.new_root("pname", c.fresh_const("name", STR))
        pa = c.new_root("pargs", KVOBJ.fresh(c, "args"))
        return None, [Ptr(pn), Ptr(pa), KUINT.fresh(c, "predicate_hash")]

    def pre(self, c, s):
        return [("the given hash is the hash of the name", s.args[2] == hs(c.read(s.args[0].place)))]

    def post(self, c, o, nw, ret):
        f = ret.fields
        return [("refers to the name", z3.BoolVal(isinstance(f["name_"], Ptr) and f["name_"].place.root == o.args[0].place.root)),
                ("refers to the arguments", z3.BoolVal(isinstance(f["arguments_"], Ptr) and
                                                       f["arguments_"].place.root == o.args[1].place.root))] + wfprop(c, ret)


tokens = z3.Function("tokens", STR, KVSTR.sort())
head = z3.Function("head", STR, STR)
knownf = z3.Function("known", PDDL, STR, B)
allknown = z3.Function("all_known", PDDL, ArrS, IS, B)
pd = z3.Const("pd", PDDL)
parse_defs = [
    z3.ForAll([pd, n1, l_1, ii], z3.Implies(z3.And(allknown(pd, n1, l_1), 0 <= ii, ii < l_1), knownf(pd, n1[ii])),
              patterns=[z3.MultiPattern(allknown(pd, n1, l_1), n1[ii])]),
    z3.ForAll([pd, n1, l_1], z3.Implies(z3.Not(allknown(pd, n1, l_1)), z3.Exists(
        [ii], z3.And(0 <= ii, ii < l_1, z3.Not(knownf(pd, n1[ii]))))), patterns=[allknown(pd, n1, l_1)]),
    z3.ForAll([s1], KVSTR.len_of(tokens(s1)) >= 0, patterns=[tokens(s1)]),
]


def construct_object(c, args):
    """Object(pddl, name): see ObjByName."""
    p, t = [c.rv(a) for a in args]
    if not (z3.is_expr(p) and p.sort() == PDDL and z3.is_expr(t) and t.sort() == STR):
        raise Unsupported("construction of an object")
    if not c.branch(knownf(p, t)):
        raise CppThrow("symbolic::Object::Object")
    ob = c.fresh_const("object", OBJ)
    c.assume(nm(ob) == t)
    return ob


KOBJ.construct = construct_object


class Tokens(Contract):
    """Opaque here; its text is decided by the text contracts."""
    qname = "TokenizeArguments"
    trusted = True

    def ret(self, c, s):
        return KVSTR.unpack(tokens(s.args[0]))


class ParseNames(Contract):
    qname = "symbolic::Object::ParseArguments"

    def enter(self, c):
        return None, [c.fresh_const("pddl", PDDL), KVSTR.fresh(c, "names")]

    def wanted(self, s):
        return s.args[1]

    def throws(self, c, s):
        v = self.wanted(s)
        return z3.Not(allknown(s.args[0], v.arr, v.len))

    def ret(self, c, s):
        return KVOBJ.fresh(c, "args")

    def post(self, c, o, nw, ret):
        v = self.wanted(o)
        return [("one object per name", ret.len == v.len),
                ("each has its name", z3.ForAll([ii], z3.Implies(z3.And(0 <= ii, ii < v.len),
                                                                 nm(ret.arr[ii]) == v.arr[ii]), patterns=[ret.arr[ii]]))]


class ParseAtom(ParseNames):
    def enter(self, c):
        return None, [c.fresh_const("pddl", PDDL), c.fresh_const("atom", STR)]

    def wanted(self, s):
        return KVSTR.unpack(tokens(s.args[1]))


class PropParse(PropCtor):
    """Proposition(pddl, text)"""
    def enter(self, c):
        return None, [c.fresh_const("pddl", PDDL), c.fresh_const("text", STR)]

    def throws(self, c, s):
        v = KVSTR.unpack(tokens(s.args[1]))
        return z3.Not(allknown(s.args[0], v.arr, v.len))

    def post(self, c, o, nw, ret):
        r = ret.fields
        v = KVSTR.unpack(tokens(o.args[1]))
        a_ = r["arguments_"]
        return [("has the name before the parenthesis", r["name_"] == head(o.args[1])),
                ("has the named arguments", z3.And(a_.len == v.len, z3.ForAll([ii], z3.Implies(
                    z3.And(0 <= ii, ii < v.len), nm(a_.arr[ii]) == v.arr[ii]), patterns=[a_.arr[ii]])))] + wfprop(c, ret)


def parse_candidates(c, lp):
    """Objects made so far carry the names passed so far."""
    its = [(r, c.mem[r]) for r in lp.entry if (isinstance(c.mem.get(r), It) or z3.is_expr(c.mem.get(r)) and
                                               c.mem[r].sort() == IS) and any(h[0] == r for h in lp.havoc)]
    outs = [(r, c.mem[r]) for r in lp.entry if isinstance(c.mem.get(r), Vec) and c.mem[r].ek is KOBJ and
            any(h[0] == r for h in lp.havoc)]
    srcs = [(r, c.mem[r]) for r in lp.entry if isinstance(c.mem.get(r), Vec) and c.mem[r].ek is KSTR]
    pds = [c.mem[r] for r in lp.entry if z3.is_expr(c.mem.get(r)) and c.mem[r].sort() == PDDL]
    for ri, it in its:
        p = it.idx if isinstance(it, It) else it
        for ro, v in outs:
            yield "%s has as many as %s passed" % (ro, ri), lambda p=p, v=v: v.len == p
            for rs, w in srcs:
                yield "%s has the names of %s before %s" % (ro, rs, ri), lambda p=p, v=v, w=w: z3.ForAll(
                    [ii], z3.Implies(z3.And(0 <= ii, ii < v.len), nm(v.arr[ii]) == w.arr[ii]), patterns=[v.arr[ii]])
        for rs, w in srcs:
            for q in pds:
                yield "names of %s before %s are known" % (rs, ri), lambda p=p, w=w, q=q: z3.ForAll(
                    [ii], z3.Implies(z3.And(0 <= ii, ii < p), knownf(q, w.arr[ii])), patterns=[w.arr[ii]])


def prop_contracts():
    out = [PropHash(), PropHash1(), PropCtor(sig=lambda t: "Object>&&)" in t, modifies=(1,)),
           PropCtor(sig=lambda t: "Object>&)" in t, modifies=()), PropFromBase(sig=lambda t: "PropositionBase" in t),
           RefCtor(), SignedCtor(sig=lambda t: "string" in t, modifies=(1,)),
           SignedFromProp(sig=lambda t: "string" not in t, modifies=(0,)),
           ParseNames(sig=lambda t: "vector<std::string" in t), ParseAtom(sig=lambda t: "vector<std::string" not in t),
           Tokens(), PropParse(sig=lambda t: "Pddl&" in t)]
    out += [PropHasher(sig=lambda t: "PropositionBase&)" in t, any=True),
            PropHasher(sig=lambda t: "(constProposition&)" in t),
            PropHasher(sig=lambda t: "PropositionRef&)" in t, cls="Ref")]
    for r in ("==", "!=", "<"):
        out.append(PropCompare(qname="symbolic::operator" + r, rel=r))
    return out


def lemmas():
    a, b, d = z3.Const("a!", KVOBJ.sort()), z3.Const("b!", KVOBJ.sort()), z3.Const("d!", KVOBJ.sort())
    p, q, r = z3.Consts("p! q! r!", STR)
    L = KVOBJ.len_of
    nn = [L(a) >= 0, L(b) >= 0, L(d) >= 0]

    def lt(p, x, q, y):
        return z3.Or(slt(p, q), z3.And(p == q, lexlt(x, y)))

    def eq(p, x, q, y):
        return z3.And(p == q, L(x) == L(y), ndiff_of(x, y) == L(x))
    terms = [ndiff_of(x, y) >= 0 for x in (a, b, d) for y in (a, b, d)]
    look = [vn(x)[0][ndiff_of(y, z)] == vn(x)[0][ndiff_of(y, z)] for x in (a, b, d) for y in (a, b, d) for z in (a, b, d)]
    f = z3.Function("f!", ArrS, IS, IS, IS)
    st = z3.Function("step!", IS, STR, IS)
    N, M = z3.Consts("N! M!", ArrS)
    s, k = z3.Ints("s! k!")
    return [
        Lemma("order of propositions", [
            ("irreflexive", nn + terms + look, z3.Not(lt(p, a, p, a))),
            ("transitive", nn + terms + look + [lt(p, a, q, b), lt(q, b, r, d)], lt(p, a, r, d)),
            ("asymmetric", nn + terms + look + [lt(p, a, q, b)], z3.Not(lt(q, b, p, a))),
            ("total and consistent with equality", nn + terms + look,
             z3.Or(lt(p, a, q, b), lt(q, b, p, a), eq(p, a, q, b))),
            ("equal ones are not ordered", nn + terms + look + [eq(p, a, q, b)], z3.Not(lt(p, a, q, b))),
            ("equality is symmetric", nn + terms + look + [eq(p, a, q, b)], eq(q, b, p, a)),
        ]),
        Lemma("equal names give equal hashes (induction)", [
            ("step", [f(N, k, s) == f(M, k, s), N[k] == M[k], f(N, k + 1, s) == st(f(N, k, s), N[k]),
                      f(M, k + 1, s) == st(f(M, k, s), M[k])], f(N, k + 1, s) == f(M, k + 1, s)),
            ("equal propositions hash equally", nn + [eq(p, a, q, b)],
             H(vn(a)[0], L(a), hs(p)) == H(vn(b)[0], L(b), hs(q))),
        ], [hash_ext]),
    ]


def object_hash(c, q, fn, this, args, node):
    if fn.get("name") == "operator()" and len(args) == 1:
        v = c.rv(args[0])
        if z3.is_expr(v) and v.sort() == OBJ:
            return hs(nm(v))
    return NotImplemented


def tasks(prop, repo, missing, trusted, assume):
    from ..ast import Program
    from ..verify import Task, fn_tasks
    prog = Program(SOURCE, repo)
    sp = Spec(prog)
    val.install(sp)
    sp.kinds["symbolic::Object"] = sp.kinds["Object"] = KOBJR
    sp.kinds["symbolic::Object::Type"] = sp.kinds["Type"] = KTYPE
    sp.contracts = object_contracts()
    sp.axioms = list(sp.base_axioms)
    sp.cands = [list_candidates]
    out = fn_tasks(sp, sp.contracts, missing)
    def prop_spec():
        sp = Spec(prog)
        val.install(sp)
        sp.kinds["symbolic::Object"] = sp.kinds["Object"] = KOBJ
        for n_ in ("symbolic::Proposition", "Proposition"):
            sp.kinds[n_] = KPROP
        sp.kinds["symbolic::SignedProposition"] = sp.kinds["SignedProposition"] = KSIGNED
        sp.sort_ops[("Obj", "==")] = lambda c, x, y: nm(x) == nm(y)
        sp.sort_ops[("Obj", "!=")] = lambda c, x, y: nm(x) != nm(y)
        sp.sort_ops[("Obj", "<")] = lambda c, x, y: slt(nm(x), nm(y))
        sp.sort_ops[("Obj", ".hash")] = lambda c, x: hs(nm(x))
        sp.sort_ops[("Obj", ".name")] = lambda c, x: nm(x)
        sp.hooks.append(object_hash)
        sp.base_axioms = sp.base_axioms + prop_defs + parse_defs
        sp.axioms = sp.base_axioms + [hash_ext]
        sp.cands = [fold_candidates, parse_candidates]
        sp.hooks.append(lambda c, q, fn, this, args, node: head(c.rv(args[0]))
                        if q == "symbolic::PropositionBase::ParseHead" else NotImplemented)
        return sp
    for a in ("Prop", "Ref"):
        for b in ("Prop", "Ref"):
            sp = prop_spec()
            sp.contracts = [k for k in prop_contracts()]
            for k in sp.contracts:
                if isinstance(k, PropCompare):
                    k.cls = (a, b)
                elif isinstance(k, (PropHash, PropFromBase)) or isinstance(k, PropHasher) and k.cls is None:
                    k.cls = a
            use = [k for k in sp.contracts if isinstance(k, PropCompare) or a == b and
                   (a == "Prop" or isinstance(k, (PropHash, PropFromBase)) or
                    isinstance(k, PropHasher) and k.any)]
            for t in fn_tasks(sp, use, missing):
                t.label += " <%s>" % (a if a == b else a + "," + b)
                out.append(t)
    out += [Task("lemma", "lemma " + l.name, sp, obj=l) for l in lemmas()]
    return out
