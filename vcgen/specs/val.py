"""Strings, VAL parse-tree pointers and domain objects, shared by several specs.

The parse tree is immutable and its getters are pure: every field and getter is
an uninterpreted function of the pointer.  Lists are finite sequences of
pointers.
"""
import os
import re

import z3

from ..engine import *
from ..values import *

IS = z3.IntSort()
B = z3.BoolSort()
SYM = z3.DeclareSort("Sym")            # pointer to a VAL node
SYML = z3.DeclareSort("SymList")       # pointer to a VAL list of pointers
PDDL = z3.DeclareSort("Pddl")
nullS = z3.Const("null", SYM)
nullL = z3.Const("nullList", SYML)
nameS = z3.Function("nameOf", SYM, STR)
hs = z3.Function("std_hash", STR, IS)
slt = z3.Function("str_lt", STR, STR, B)


class KPtr(KPrim):
    """Pointer kind with a null value."""
    def __init__(self, sort, name, null):
        KPrim.__init__(self, sort, name)
        self.null = null

    def pack(self, v):
        if isinstance(v, Ptr) and v.place is None:
            return self.null
        return KPrim.pack(self, v)

    def default(self, c):
        return self.null


KSYM = KPtr(SYM, "Sym", nullS)
KSYML = KPtr(SYML, "SymList", nullL)
KPDDL = KPrim(PDDL, "Pddl")
KVSYM = KVec("vector", KSYM)
KVSTR = KVec("vector", KSTR)
items = z3.Function("items", SYML, KVSYM.sort())
analysis = z3.Function("analysis", PDDL, SYM)

s1, s2, s3 = z3.Consts("s1 s2 s3", STR)
l1 = z3.Const("l1", SYML)
string_order = [
    z3.ForAll([s1], z3.Not(slt(s1, s1)), patterns=[slt(s1, s1)]),
    z3.ForAll([s1, s2], z3.Or(slt(s1, s2), slt(s2, s1), s1 == s2), patterns=[slt(s1, s2)]),
    z3.ForAll([s1, s2, s3], z3.Implies(z3.And(slt(s1, s2), slt(s2, s3)), slt(s1, s3)),
              patterns=[z3.MultiPattern(slt(s1, s2), slt(s2, s3))]),
    z3.ForAll([s1, s2], z3.Not(z3.And(slt(s1, s2), slt(s2, s1))), patterns=[slt(s1, s2)]),
]
base_facts = [z3.ForAll([s1], hs(s1) >= 0, patterns=[hs(s1)]),
              z3.ForAll([l1], KVSYM.len_of(items(l1)) >= 0, patterns=[items(l1)])]


def strlit(text):
    """The string with this text; distinct texts are told apart by literal_facts."""
    return z3.Const("lit:" + text, STR)


class Names:
    """Storage of symbol names: reading position sym gives its name."""
    def item(self, c, v, sym):
        return nameS(sym)

    def __repr__(self):
        return "names"


def name_ref(c, v):
    """getNameRef(): a reference into the symbol."""
    c.mem.setdefault("symname", Abs(Names(), None))
    return Place("symname").i(v)


def val_classes():
    """Class names of the parse tree (the code spells them with and without VAL::)."""
    here = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    text = open(os.path.join(here, "stub", "VAL", "ptree.h")).read()
    return set(re.findall(r"^(?:class|struct) (\w+)", text, re.M)) | set(re.findall(r"^using (\w+) =", text, re.M))


VAL_NAMES = val_classes()


def pointer_kind(t):
    t = strip_cv(norm(t))
    head = t.split("<")[0]
    if not head.startswith("VAL::") and head not in VAL_NAMES:
        return None
    return KSYML if "_list" in t and not t.endswith("effect_lists") else KSYM


def deref(c, p):
    root = "val/" + p.sexpr()
    if root not in c.mem:
        c.mem[root] = p
    return Place(root)


def list_place(c, p):
    root = "vallist/" + p.sexpr()
    if root not in c.mem:
        c.mem[root] = KVSYM.unpack(items(p))
    return Place(root)


def deref_list(c, p):
    c.check("null list is not dereferenced", p != nullL)
    return list_place(c, p)


def val_field(sp):
    def f(c, v, name, n):
        """Field or getter `name` of the VAL node v; n: the expression."""
        if v.sort() != SYM:
            return NotImplemented
        t = ty(n)
        if t.endswith("const") and "*" in t:
            t = t[:-5].strip()
        if strip_cv(t).split("<")[0].split("::")[-1] == "pc_list":     # a list held by value
            return list_place(c, z3.Function("val." + name, SYM, SYML)(v))
        k = sp.kind(t)
        return z3.Function("val." + name, SYM, k.sort())(v)
    return f


def field(name, v, k=KSYM):
    return z3.Function("val." + name, SYM, k.sort())(v)


def string_literal(c, text):
    return strlit(text.strip('"'))


def install(sp):
    sp.kinds["symbolic::Pddl"] = KPDDL
    sp.kinds["Pddl"] = KPDDL
    for nm in ("std::string", "basic_string", "string"):
        sp.kinds[nm] = KSTR
    sp.pointer_kind = pointer_kind
    sp.string_literal = string_literal
    sp.sort_ops[("Sym", "deref")] = deref
    sp.sort_ops[("SymList", "deref")] = deref_list
    sp.sort_ops[("Sym", "null")] = lambda c, v: v == nullS
    sp.sort_ops[("SymList", "null")] = lambda c, v: v == nullL
    sp.sort_ops[("Sym", ".getName")] = lambda c, v: nameS(v)
    sp.sort_ops[("Sym", ".getNameRef")] = name_ref
    sp.opaque_field = val_field(sp)
    sp.sort_ops[("Str", "<")] = lambda c, x, y: slt(x, y)
    sp.sort_ops[("Str", ">")] = lambda c, x, y: slt(y, x)

    def pddl_symbol(c, q, fn, this, args, node):
        if q == "symbolic::Pddl::symbol" and this is not None:
            v = c.rv(this)
            if z3.is_expr(v) and v.sort() == PDDL:
                return analysis(v)
        return NotImplemented
    sp.hooks.append(pddl_symbol)
    sp.base_axioms = string_order + base_facts
    sp.std_hash = lambda c, v: hs(v)
