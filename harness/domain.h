// Random PDDL domains with an independent reference semantics over sets of
// strings.  Nothing here calls /repo code except Load(), which hands the PDDL
// text to symbolic::Pddl through the stub parser.
#ifndef VERIF_HARNESS_DOMAIN_H_
#define VERIF_HARNESS_DOMAIN_H_

#include <unistd.h>

#include <functional>
#include <memory>

#include "common.h"
#include "symbolic/pddl.h"

namespace hv {

inline std::string Str(long i) { return std::to_string(i); }

struct Atom {
  std::string pred;
  std::vector<std::string> args;  // "?x" or object name
};
using Vars = std::vector<std::pair<std::string, std::string>>;  // name, type
struct F {
  enum K { ATOM, AND, OR, NOT, FORALL, EXISTS } k = AND;
  Atom a;
  std::vector<F> kids;
  Vars vars;
};
struct E {
  std::vector<Atom> add, del;
  std::vector<std::pair<Vars, E>> forall;
  std::vector<std::pair<F, E>> cond;
};
struct Act {
  std::string name;
  Vars params;
  F pre;
  E eff;
};
struct Ax {
  Vars params;
  bool pos;
  Atom ctx;
  E eff;
};
struct Der {
  std::string name;
  Vars params;
  F body;
};
using Env = std::map<std::string, std::string>;
using St = std::set<std::string>;

inline std::string Ground(const std::string& p, const std::vector<std::string>& args) {
  std::string s = p + "(";
  for (size_t i = 0; i < args.size(); i++) s += (i ? ", " : "") + args[i];
  return s + ")";
}
inline std::string Sub(const std::string& t, const Env& env) {
  return t[0] == '?' ? env.at(t) : t;
}
inline std::string Ground(const Atom& a, const Env& env) {
  std::vector<std::string> v;
  for (auto& t : a.args) v.push_back(Sub(t, env));
  return Ground(a.pred, v);
}

struct Unknown {
  std::string atom;
};

struct Dom {
  std::vector<std::pair<std::string, std::string>> types;  // name, parent
  std::vector<std::pair<std::string, std::string>> consts, objs;
  std::vector<std::pair<std::string, Vars>> preds;
  std::vector<Act> acts;
  std::vector<Ax> axioms;
  std::vector<Der> ders;
  St init;
  F goal;

  // ------------------------------------------------------------- reference
  std::vector<std::pair<std::string, std::string>> all() const {
    auto v = consts;
    v.insert(v.end(), objs.begin(), objs.end());
    return v;
  }
  std::string typeOf(const std::string& o) const {
    for (auto& p : all())
      if (p.first == o) return p.second;
    return "";
  }
  bool sub(std::string t, const std::string& super) const {
    if (super == "object") return true;
    while (t != "object") {
      if (t == super) return true;
      std::string parent = "object";
      for (auto& p : types)
        if (p.first == t) parent = p.second;
      t = parent;
    }
    return false;
  }
  std::vector<std::string> of(const std::string& type) const {
    std::vector<std::string> v;
    for (auto& o : all())
      if (sub(o.second, type)) v.push_back(o.first);
    return v;
  }
  bool isType(const std::string& n) const {
    if (n == "object") return true;
    for (auto& t : types)
      if (t.first == n) return true;
    return false;
  }
  // All argument tuples, rightmost fastest; none for no variables.
  std::vector<std::vector<std::string>> tuples(const Vars& vars) const {
    std::vector<std::vector<std::string>> out;
    if (vars.empty()) return out;
    out.push_back({});
    for (auto& v : vars) {
      std::vector<std::vector<std::string>> next;
      for (auto& t : out)
        for (auto& o : of(v.second)) {
          auto u = t;
          u.push_back(o);
          next.push_back(u);
        }
      out = next;
    }
    return out;
  }
  static Env bind(Env env, const Vars& vars, const std::vector<std::string>& args) {
    for (size_t i = 0; i < vars.size(); i++) env[vars[i].first] = args[i];
    return env;
  }
  // Atom lookup: true/false or throws Unknown.
  using Look = std::function<bool(const std::string&)>;
  bool evalAtom(const Atom& a, const Env& env, const Look& look) const {
    if (a.pred == "=") return Sub(a.args[0], env) == Sub(a.args[1], env);
    if (isType(a.pred)) {
      std::string t = typeOf(Sub(a.args[0], env));
      return sub(t, a.pred);
    }
    return look(Ground(a, env));
  }
  bool eval(const F& f, const Env& env, const Look& look) const {
    switch (f.k) {
      case F::ATOM: return evalAtom(f.a, env, look);
      case F::NOT: return !eval(f.kids[0], env, look);
      case F::AND:
        for (auto& k : f.kids)
          if (!eval(k, env, look)) return false;
        return true;
      case F::OR:
        for (auto& k : f.kids)
          if (eval(k, env, look)) return true;
        return false;
      case F::FORALL:
        for (auto& t : tuples(f.vars))
          if (!eval(f.kids[0], bind(env, f.vars, t), look)) return false;
        return true;
      case F::EXISTS:
        for (auto& t : tuples(f.vars))
          if (eval(f.kids[0], bind(env, f.vars, t), look)) return true;
        return false;
    }
    return false;
  }
  bool eval(const F& f, const Env& env, const St& s) const {
    return eval(f, env, [&](const std::string& x) { return s.count(x) > 0; });
  }
  // Ground atoms of the state occurring in the grounding of f.
  void atoms(const F& f, const Env& env, St* out) const {
    if (f.k == F::ATOM) {
      if (f.a.pred != "=" && !isType(f.a.pred)) out->insert(Ground(f.a, env));
      return;
    }
    if (f.k == F::FORALL || f.k == F::EXISTS) {
      for (auto& t : tuples(f.vars)) atoms(f.kids[0], bind(env, f.vars, t), out);
      return;
    }
    for (auto& k : f.kids) atoms(k, env, out);
  }
  // Ground effects fired in a state; cond_atoms collects atoms of conditions.
  void effects(const E& e, const Env& env, const Look& look, St* add, St* del, St* cond_atoms) const {
    for (auto& a : e.add) add->insert(Ground(a, env));
    for (auto& a : e.del) del->insert(Ground(a, env));
    for (auto& fe : e.forall)
      for (auto& t : tuples(fe.first)) effects(fe.second, bind(env, fe.first, t), look, add, del, cond_atoms);
    for (auto& ce : e.cond) {
      atoms(ce.first, env, cond_atoms);
      bool c;
      try {
        c = eval(ce.first, env, look);
      } catch (const Unknown&) {
        c = false;
      }
      if (c) effects(ce.second, env, look, add, del, cond_atoms);
    }
  }
  // Truth of "the effects hold" in a complete state.
  bool effHold(const E& e, const Env& env, const St& s) const {
    for (auto& a : e.add)
      if (!s.count(Ground(a, env))) return false;
    for (auto& a : e.del)
      if (s.count(Ground(a, env))) return false;
    for (auto& fe : e.forall)
      for (auto& t : tuples(fe.first))
        if (!effHold(fe.second, bind(env, fe.first, t), s)) return false;
    for (auto& ce : e.cond)
      if (eval(ce.first, env, s) && !effHold(ce.second, env, s)) return false;
    return true;
  }
  void effAtoms(const E& e, const Env& env, St* out) const {
    for (auto& a : e.add) out->insert(Ground(a, env));
    for (auto& a : e.del) out->insert(Ground(a, env));
    for (auto& fe : e.forall)
      for (auto& t : tuples(fe.first)) effAtoms(fe.second, bind(env, fe.first, t), out);
    for (auto& ce : e.cond) {
      atoms(ce.first, env, out);
      effAtoms(ce.second, env, out);
    }
  }
  std::vector<std::string> groundAtoms(bool typed) const {
    std::vector<std::string> out;
    for (auto& p : preds) {
      if (p.second.empty()) {
        out.push_back(Ground(p.first, {}));
        continue;
      }
      Vars v = p.second;
      if (!typed)
        for (auto& x : v) x.second = "object";
      for (auto& t : tuples(v)) out.push_back(Ground(p.first, t));
    }
    return out;
  }

  // ------------------------------------------------------------------ text
  static std::string T(const Vars& v) {
    std::string s;
    for (auto& p : v) s += (s.empty() ? "" : " ") + p.first + " - " + p.second;
    return s;
  }
  static std::string T(const Atom& a) {
    std::string s = "(" + a.pred;
    for (auto& x : a.args) s += " " + x;
    return s + ")";
  }
  static std::string T(const F& f) {
    switch (f.k) {
      case F::ATOM: return T(f.a);
      case F::NOT: return "(not " + T(f.kids[0]) + ")";
      case F::FORALL: return "(forall (" + T(f.vars) + ") " + T(f.kids[0]) + ")";
      case F::EXISTS: return "(exists (" + T(f.vars) + ") " + T(f.kids[0]) + ")";
      default: break;
    }
    std::string s = f.k == F::AND ? "(and" : "(or";
    for (auto& k : f.kids) s += " " + T(k);
    return s + ")";
  }
  static std::string T(const E& e) {
    std::string s = "(and";
    for (auto& a : e.add) s += " " + T(a);
    for (auto& a : e.del) s += " (not " + T(a) + ")";
    for (auto& fe : e.forall) s += " (forall (" + T(fe.first) + ") " + T(fe.second) + ")";
    for (auto& ce : e.cond) s += " (when " + T(ce.first) + " " + T(ce.second) + ")";
    return s + ")";
  }
  std::string domainText() const {
    std::string s = "(define (domain d)\n";
    if (!types.empty()) {
      s += " (:types";
      for (auto& t : types) s += " " + t.first + " - " + t.second;
      s += ")\n";
    }
    if (!consts.empty()) {
      s += " (:constants";
      for (auto& t : consts) s += " " + t.first + " - " + t.second;
      s += ")\n";
    }
    s += " (:predicates";
    for (auto& p : preds) s += " (" + p.first + (p.second.empty() ? "" : " ") + T(p.second) + ")";
    s += ")\n";
    for (auto& a : axioms) {
      std::string c = T(a.ctx);
      s += " (:axiom :vars (" + T(a.params) + ") :context " + (a.pos ? c : "(not " + c + ")") + " :implies " + T(a.eff) + ")\n";
    }
    for (auto& d : ders) s += " (:derived (" + d.name + " " + T(d.params) + ") " + T(d.body) + ")\n";
    for (auto& a : acts)
      s += " (:action " + a.name + " :parameters (" + T(a.params) + ") :precondition " + T(a.pre) + " :effect " + T(a.eff) + ")\n";
    return s + ")\n";
  }
  std::string problemText() const {
    std::string s = "(define (problem p)\n (:domain d)\n (:objects";
    for (auto& t : objs) s += " " + t.first + " - " + t.second;
    s += ")\n (:init";
    for (auto& a : init) {
      std::string b = a;
      for (char& c : b)
        if (c == '(' || c == ')' || c == ',') c = ' ';
      s += " (" + b + ")";
    }
    return s + ")\n (:goal " + T(goal) + "))\n";
  }
};

inline std::unique_ptr<symbolic::Pddl> Load(const Dom& d, bool apply_axioms = false) {
  char path[] = "/tmp/hvdomXXXXXX";
  int fd = mkstemp(path);
  if (fd < 0) throw std::logic_error("mkstemp");
  std::string t = d.domainText();
  if (write(fd, t.data(), t.size()) < 0) throw std::logic_error("write");
  close(fd);
  std::unique_ptr<symbolic::Pddl> p;
  try {
    p = std::make_unique<symbolic::Pddl>(path, d.problemText(), apply_axioms);
  } catch (...) {
    unlink(path);
    throw;
  }
  unlink(path);
  return p;
}

// -------------------------------------------------------------- conversions
inline symbolic::State MakeState(const symbolic::Pddl& p, const St& s, Rng* rng = nullptr) {
  std::vector<std::string> v(s.begin(), s.end());
  if (rng)
    for (int i = static_cast<int>(v.size()) - 1; i > 0; i--) std::swap(v[i], v[rng->in(0, i)]);
  symbolic::State out;
  for (auto& x : v) out.emplace(p, x);
  return out;
}
inline St ToSt(const symbolic::State& s) {
  St out;
  size_t n = 0;
  for (const symbolic::Proposition& p : s) {
    std::vector<std::string> a;
    for (auto& o : p.arguments()) a.push_back(o.name());
    out.insert(Ground(p.name(), a));
    n++;
  }
  if (n != out.size() || n != s.size()) throw Failure("a state holds a proposition twice or has a wrong size");
  return out;
}
inline std::vector<std::string> Names(const std::vector<symbolic::Object>& v) {
  std::vector<std::string> out;
  for (auto& o : v) out.push_back(o.name());
  return out;
}
inline std::vector<symbolic::Object> Objs(const symbolic::Pddl& p, const std::vector<std::string>& v) {
  std::vector<symbolic::Object> out;
  for (auto& n : v) out.emplace_back(p, n);
  return out;
}
inline std::string Show(const St& s) {
  std::string o = "{";
  for (auto& x : s) o += " " + x;
  return o + " }";
}
inline std::string Show(const std::vector<std::string>& s) {
  std::string o = "(";
  for (auto& x : s) o += " " + x;
  return o + " )";
}

// ---------------------------------------------------------------- generator
struct Gen {
  Rng& r;
  Dom d;
  bool nullary_preds = true;
  bool empty_types = true;
  bool use_types = true;
  int next_var = 0;
  std::vector<std::string> typeNames;
  std::vector<std::string> fluents;  // predicate names usable in effects
  explicit Gen(Rng& rng) : r(rng) {}

  void Base(int max_objs = 4, int max_preds = 3, int max_arity = 2) {
    int nt = r.in(0, 3);
    static const char* kT[] = {"block", "tool", "place"};
    for (int i = 0; i < nt; i++) {
      std::string parent = i > 0 && r.chance(45) ? d.types[r.in(0, i - 1)].first : "object";
      d.types.emplace_back(kT[i], parent);
    }
    typeNames.push_back("object");
    for (auto& t : d.types) typeNames.push_back(t.first);
    int no = r.in(1, max_objs);
    static const char* kO[] = {"a", "b", "ab", "hook", "z"};
    for (int i = 0; i < no; i++) {
      std::string t = d.types.empty() ? "object" : r.chance(12) ? "object" : d.types[r.in(0, nt - 1)].first;
      if (r.chance(25)) {
        d.consts.emplace_back(kO[i], t);
      } else {
        d.objs.emplace_back(kO[i], t);
      }
    }
    if (!empty_types) {
      // Every type gets an object.
      for (auto& t : d.types)
        if (d.of(t.first).empty()) d.objs.emplace_back("o" + t.first, t.first);
    }
    int np = r.in(1, max_preds);
    static const char* kP[] = {"on", "clear", "in", "p"};
    for (int i = 0; i < np; i++) {
      Vars v;
      int ar = r.in(nullary_preds && r.chance(20) ? 0 : 1, max_arity);
      if (nullary_preds && r.chance(10)) ar = 0;
      for (int k = 0; k < ar; k++) v.emplace_back("?v" + Str(k), RandType());
      d.preds.emplace_back(kP[i], v);
      fluents.push_back(kP[i]);
    }
  }
  std::string RandType() { return r.chance(40) ? "object" : r.pick(typeNames); }
  std::vector<std::string> Consts() const {
    std::vector<std::string> v;
    for (auto& o : d.all()) v.push_back(o.first);
    return v;
  }
  std::string Term(const std::vector<std::string>& scope) {
    if (!scope.empty() && r.chance(80)) return r.pick(scope);
    // Constants of the domain only would be legal PDDL; objects are accepted
    // by the library in goals as well.
    return r.pick(Consts());
  }
  Atom RandAtom(const std::vector<std::string>& scope, bool specials) {
    Atom a;
    int k = r.in(0, 99);
    if (specials && k < 12) {
      a.pred = "=";
      a.args = {Term(scope), Term(scope)};
      return a;
    }
    if (specials && use_types && k < 22) {
      a.pred = r.pick(typeNames);
      a.args = {Term(scope)};
      return a;
    }
    auto& p = r.pick(d.preds);
    a.pred = p.first;
    for (size_t i = 0; i < p.second.size(); i++) a.args.push_back(Term(scope));
    return a;
  }
  Vars NewVars(int n, const std::vector<std::string>& scope, bool shadow) {
    Vars v;
    for (int i = 0; i < n; i++) {
      std::string name = "?x" + Str(next_var++ % 5);
      if (shadow && !scope.empty() && r.chance(25)) name = r.pick(scope);
      bool dup = false;
      for (auto& q : v) dup |= q.first == name;
      if (!shadow)
        for (auto& q : scope) dup |= q == name;
      if (dup) {
        if (next_var > 100000) break;
        name = "?y" + Str(next_var++);
      }
      v.emplace_back(name, RandType());
    }
    return v;
  }
  static std::vector<std::string> Extend(std::vector<std::string> scope, const Vars& v) {
    for (auto& x : v) scope.push_back(x.first);
    return scope;
  }
  F RandF(const std::vector<std::string>& scope, int depth, bool specials = true) {
    F f;
    int k = depth <= 0 ? 0 : r.in(0, 9);
    if (k <= 2) {
      f.k = F::ATOM;
      f.a = RandAtom(scope, specials);
      return f;
    }
    if (k == 3 || k == 4) {
      f.k = F::NOT;
      f.kids.push_back(RandF(scope, depth - 1, specials));
      return f;
    }
    if (k <= 7) {
      f.k = k == 5 || k == 6 ? F::AND : F::OR;
      if (k == 7 && r.chance(30)) f.k = F::AND;
      for (int n = r.in(r.chance(15) ? 0 : 1, 3); n > 0; n--) f.kids.push_back(RandF(scope, depth - 1, specials));
      return f;
    }
    f.k = k == 8 ? F::FORALL : F::EXISTS;
    f.vars = NewVars(r.chance(75) ? 1 : 2, scope, true);
    f.kids.push_back(RandF(Extend(scope, f.vars), depth - 1, specials));
    return f;
  }
  E RandE(const std::vector<std::string>& scope, int depth) {
    E e;
    for (int n = r.in(0, 2); n > 0; n--) e.add.push_back(RandAtom(scope, false));
    for (int n = r.in(0, 2); n > 0; n--) e.del.push_back(RandAtom(scope, false));
    if (depth > 0 && r.chance(35)) {
      Vars v = NewVars(r.chance(80) ? 1 : 2, scope, true);
      E k = RandE(Extend(scope, v), depth - 1);
      e.forall.emplace_back(v, k);
    }
    if (depth > 0 && r.chance(45)) {
      F c = RandF(scope, 2);
      E k = RandE(scope, depth - 1);
      e.cond.emplace_back(c, k);
    }
    return e;
  }
  void Actions(int lo, int hi, int fdepth, int edepth, int min_params = 1) {
    int n = r.in(lo, hi);
    static const char* kA[] = {"pick", "place", "push", "pic"};
    for (int i = 0; i < n; i++) {
      Act a;
      a.name = kA[i];
      a.params = NewVars(r.in(min_params, 2), {}, false);
      auto scope = Extend({}, a.params);
      a.pre = RandF(scope, fdepth);
      a.eff = RandE(scope, edepth);
      d.acts.push_back(a);
    }
  }
  St RandState(int percent) {
    St s;
    for (auto& a : d.groundAtoms(false))
      if (r.chance(percent)) s.insert(a);
    return s;
  }
};

}  // namespace hv

#endif  // VERIF_HARNESS_DOMAIN_H_
