"""Loads clang's typed AST of the current sources and indexes it."""
import json
import os
import re
import subprocess

FUNCS = ("FunctionDecl", "CXXMethodDecl", "CXXConstructorDecl",
         "CXXDestructorDecl", "CXXConversionDecl")
RECS = ("CXXRecordDecl", "ClassTemplateSpecializationDecl",
        "ClassTemplatePartialSpecializationDecl")


class ExtractionError(Exception):
    pass


def norm(t):
    t = t.replace("anonymous_symbolic", "symbolic")
    return t


def sigkey(t):
    """Function type without qualification of the repository's namespace."""
    return re.sub(r"\s+", "", norm(t).replace("symbolic::", ""))


def sig_text(sig):
    """Printable form of a contract's signature filter."""
    if sig is None:
        return ""
    return " [%s]" % sig if isinstance(sig, str) else " [overload]"


def sig_matches(sig, t):
    """sig: None, an exact type, or a predicate on the normalised type."""
    if sig is None:
        return True
    if callable(sig):
        return sig(sigkey(t))
    return sigkey(sig) == sigkey(t)


class Node(dict):
    __slots__ = ()


def dump(source, repo, extra=()):
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    cmd = ["clang++", "-std=c++17", "-DNDEBUG", "-DDOCTEST_CONFIG_DISABLE", "-w",
           "-Dsymbolic=anonymous_symbolic", "-I" + here + "/stub",
           "-I" + repo + "/include", "-I" + repo + "/src", *extra,
           "-fsyntax-only", "-Xclang", "-ast-dump=json", "-Xclang",
           "-ast-dump-filter=anonymous", "-x", "c++", "-"]
    p = subprocess.run(cmd, input=source.encode(), stdout=subprocess.PIPE,
                       stderr=subprocess.PIPE)
    if p.returncode:
        raise ExtractionError("clang: " + p.stderr.decode(errors="replace")[:3000])
    s = p.stdout.decode(errors="replace")
    dec = json.JSONDecoder()
    i, out = 0, []
    while True:
        j = s.find("{", i)
        if j < 0:
            break
        o, i = dec.raw_decode(s, j)
        out.append(o)
    return out


class Program:
    def __init__(self, source, repo, extra=()):
        self.byid = {}
        self.parent = {}
        self.defs = {}          # decl id -> defining decl (with body)
        self.funcs = {}         # qualified name -> list of decls with bodies
        self.classes = {}       # qualified name -> list of record decls (complete)
        self.lambda_owner = {}
        self.text = {}
        for o in dump(source, repo, extra):
            self._files(o)
            self._index(o, None)
        self._finish()

    def _files(self, o):
        """Spells out the file of every location (clang prints it when it changes)."""
        cur = [None]
        stack = [o]
        while stack:
            x = stack.pop()
            if isinstance(x, dict):
                if "offset" in x:
                    if "file" in x:
                        cur[0] = x["file"]
                    elif cur[0]:
                        x["file"] = cur[0]
                stack.extend(v for k, v in reversed(x.items()) if k != "includedFrom" and isinstance(v, (dict, list)))
            elif isinstance(x, list):
                stack.extend(v for v in reversed(x) if isinstance(v, (dict, list)))

    def token(self, n):
        """Source text of the token a declaration is named at."""
        l = n.get("loc", {})
        l = l.get("expansionLoc", l)
        f = l.get("file")
        if f is None or "offset" not in l:
            return ""
        if f not in self.text:
            try:
                self.text[f] = open(f, "rb").read()
            except OSError:
                self.text[f] = b""
        return self.text[f][l["offset"]:l["offset"] + l.get("tokLen", 0)].decode(errors="replace")

    def _index(self, n, par):
        stack = [(n, par)]
        while stack:
            n, par = stack.pop()
            i = n.get("id")
            if i and "kind" in n and i not in self.byid:
                self.byid[i] = n
                self.parent[i] = par
            elif i and i in self.byid and n.get("inner") and not self.byid[i].get("inner"):
                self.byid[i] = n
            for c in n.get("inner", ()):
                if isinstance(c, dict) and c:
                    stack.append((c, n))

    def name_of(self, n):
        k = n.get("name", "")
        if n["kind"] in RECS and n["kind"] != "CXXRecordDecl":
            args = []
            for c in n.get("inner", ()):
                if c.get("kind") == "TemplateArgument":
                    a = c.get("type", {}).get("qualType") or str(c.get("value", ""))
                    a = {"-1": "true"}.get(a, a)  # clang prints bool arguments as -1
                    args.append(norm(a))
            k += "<" + ", ".join(args) + ">"
        return k

    def scope(self, n):
        if "parentDeclContextId" in n and n["parentDeclContextId"] in self.byid:
            return self.byid[n["parentDeclContextId"]]
        return self.parent.get(n["id"])

    def qname(self, n):
        parts = []
        seen = 0
        while n is not None and seen < 40:
            seen += 1
            k = n.get("kind")
            if k in FUNCS or k in RECS or k == "NamespaceDecl" or k == "FieldDecl" or k == "VarDecl":
                nm = self.name_of(n)
                if nm:
                    parts.append(norm(nm))
            n = self.scope(n)
        q = "::".join(reversed(parts))
        return q

    @staticmethod
    def body(n):
        for c in n.get("inner", ()):
            if c.get("kind") in ("CompoundStmt", "CXXTryStmt"):
                return c
        return None

    def in_template(self, n):
        """Whether the declaration is an uninstantiated template pattern."""
        p = n
        child = None
        lex = self.parent.get(n["id"])
        if lex is not None and lex.get("kind") == "FunctionTemplateDecl" and \
                not any(c.get("kind") == "TemplateArgument" for c in n.get("inner", ())):
            return True
        while p is not None:
            if p.get("kind") in ("ClassTemplateDecl",):
                # Patterns are the CXXRecordDecl child.
                if child is not None and child.get("kind") == "CXXRecordDecl":
                    return True
            if p.get("kind") == "FunctionTemplateDecl" and child is not None:
                if not any(c.get("kind") == "TemplateArgument" for c in child.get("inner", ())):
                    return True
            if p.get("kind") == "ClassTemplatePartialSpecializationDecl":
                return True
            child = p
            p = self.scope(p)
        return False

    def _finish(self):
        for i, n in list(self.byid.items()):
            k = n.get("kind")
            if k in FUNCS:
                if self.body(n) is not None or (k == "CXXConstructorDecl" and any(
                        c.get("kind") == "CXXCtorInitializer" for c in n.get("inner", ()))):
                    self.defs[i] = n
                    j = n
                    hops = 0
                    while "previousDecl" in j and hops < 10:
                        self.defs[j["previousDecl"]] = n
                        j = self.byid.get(j["previousDecl"], {})
                        hops += 1
            elif k in RECS and n.get("completeDefinition"):
                if self.in_template(n):
                    continue
                self.classes.setdefault(self.qname(n), []).append(n)
        for i, n in self.defs.items():
            if n["id"] != i or self.in_template(n):
                continue
            self.funcs.setdefault(self.qfn(n), []).append(n)

    def qfn(self, n):
        # Out-of-line definitions: qualify through the previous declaration.
        m = n
        if "previousDecl" in n and n["previousDecl"] in self.byid:
            m = self.byid[n["previousDecl"]]
        return self.qname(m)

    def find(self, qname, sig=None):
        out = [f for f in self.funcs.get(qname, [])
               if sig_matches(sig, f["type"]["qualType"])]
        return out

    def params(self, fn):
        return [c for c in fn.get("inner", ()) if c.get("kind") == "ParmVarDecl"]

    def fields(self, rec):
        return [c for c in rec.get("inner", ()) if c.get("kind") == "FieldDecl"]

    def where(self, n):
        r = n.get("range", {}).get("begin", {})
        r = r.get("expansionLoc", r)
        l = n.get("loc", {})
        line = l.get("line") or r.get("line")
        f = l.get("file") or r.get("file")
        return "%s:%s" % (f or "?", line or "?")
