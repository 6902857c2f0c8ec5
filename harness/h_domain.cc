// Replay harness for the PDDL layer, selected with --mode C06 .. C18.
#include "domain.h"

#include <VAL/ptree.h>

#include "symbolic/normal_form.h"
#include "symbolic/planning/planner.h"

namespace hv {
namespace {

using symbolic::Action;
using symbolic::Axiom;
using symbolic::DerivedPredicate;
using symbolic::DisjunctiveFormula;
using symbolic::Formula;
using symbolic::Object;
using symbolic::ParameterGenerator;
using symbolic::PartialState;
using symbolic::Pddl;
using symbolic::Planner;
using symbolic::Predicate;
using symbolic::Proposition;
using symbolic::PropositionRef;
using symbolic::State;
using symbolic::StateIndex;

using Tuples = std::vector<std::vector<std::string>>;

void LogDom(H& h, const Dom& d) {
  h.log(d.domainText());
  h.log(d.problemText());
}

Env EnvOf(const Vars& v, const std::vector<std::string>& args) { return Dom::bind({}, v, args); }

// ----------------------------------------------------------------- C06
void CheckGen(H& h, const std::string& what, const ParameterGenerator& g, const Tuples& want, const Pddl* p) {
  h.req(&g.pddl() == p, what + ": pddl() is not the domain it was built from");
  h.req(g.size() == want.size(), what + ": size " + Str(g.size()) + ", expected " + Str(want.size()));
  h.req(g.empty() == want.empty(), what + ": empty() disagrees with size");
  size_t i = 0;
  for (const auto& args : g) {
    h.req(i < want.size() && Names(args) == want[i], what + ": tuple " + Str(i) + " is " + Show(Names(args)));
    h.req(g.find(args) == static_cast<int>(i), what + ": find() of tuple " + Str(i));
    i++;
  }
  h.req(i == want.size(), what + ": enumeration stops after " + Str(i));
  for (auto it = g.rbegin(); it != g.rend(); ++it) {
    i--;
    h.req(i < want.size() && Names(*it) == want[i], what + ": reverse tuple " + Str(i));
  }
  h.req(i == 0, what + ": reverse enumeration stops early");
  if (!want.empty()) {
    int k = h.rng.in(0, static_cast<int>(want.size()) - 1);
    h.req(Names(g.at(k)) == want[k], what + ": at()");
    h.req(Names(g.at(k - static_cast<int>(want.size()))) == want[k], what + ": at() wrapped");
    h.req(Names(g[k]) == want[k], what + ": []");
  }
}
void C06(H& h) {
  Gen g(h.rng);
  g.Base(5, 2, 2);
  int na = h.rng.in(1, 2);
  for (int i = 0; i < na; i++) {
    Act a;
    a.name = "act" + Str(i);
    a.params = g.NewVars(h.rng.in(1, 3), {}, false);
    g.d.acts.push_back(a);
  }
  LogDom(h, g.d);
  auto p = Load(g.d);
  Tuples want0 = g.d.tuples(g.d.acts[0].params);
  const Vars& v1 = g.d.acts.back().params;
  Tuples want1 = g.d.tuples(v1);
  auto g0 = std::make_unique<ParameterGenerator>(*p, p->actions()[0].parameters());
  CheckGen(h, "fresh generator", *g0, want0, p.get());
  auto copy = std::make_unique<ParameterGenerator>(*g0);
  ParameterGenerator assigned(*p, p->actions().back().parameters());
  CheckGen(h, "second generator", assigned, want1, p.get());
  ParameterGenerator dflt;
  h.req(dflt.size() == 0 && dflt.begin() == dflt.end(), "default generator is not empty");
  assigned = *copy;
  const ParameterGenerator& self = *copy;
  *copy = self;
  ParameterGenerator moved(std::move(*g0));
  g0.reset();
  CheckGen(h, "moved generator", moved, want0, p.get());
  CheckGen(h, "copied generator", *copy, want0, p.get());
  dflt = std::move(*copy);
  copy.reset();
  CheckGen(h, "copy-assigned generator after the original is gone", assigned, want0, p.get());
  CheckGen(h, "move-assigned generator after the original is gone", dflt, want0, p.get());
  std::vector<ParameterGenerator> many;
  for (int i = 0; i < 4; i++) many.push_back(i % 2 ? assigned : moved);
  for (auto& x : many) CheckGen(h, "generator in a grown vector", x, want0, p.get());
  CheckGen(h, "generator of a loaded action", p->actions().back().parameter_generator(), want1, p.get());
  for (size_t i = 0; i < g.d.preds.size(); i++) {
    h.req(&p->predicates()[i].pddl() == p.get(), "predicate pddl()");
    CheckGen(h, "generator of a predicate", p->predicates()[i].parameter_generator(), g.d.tuples(g.d.preds[i].second),
             p.get());
  }
  if (want0.size() > 1) h.nontrivial(g.d.domainText());
  if (g.d.types.empty()) return;
  // Objects added and removed later.
  const std::string type = g.d.types[h.rng.in(0, static_cast<int>(g.d.types.size()) - 1)].first;
  h.log("add object zz of type " + type);
  p->AddObject("zz", type);
  Dom d2 = g.d;
  d2.objs.emplace_back("zz", type);
  Tuples want2 = d2.tuples(v1);
  CheckGen(h, "generator built after an object was added", ParameterGenerator(*p, p->actions().back().parameters()), want2,
           p.get());
  h.log("remove object zz");
  p->RemoveObject("zz");
  CheckGen(h, "generator built after the object was removed",
           ParameterGenerator(*p, p->actions().back().parameters()), want1, p.get());
}

// ----------------------------------------------------------------- C07
void C07(H& h) {
  Gen g(h.rng);
  g.nullary_preds = false;
  g.Base(4, 4, 2);
  // Nullary predicates are a listed known finding.
  for (auto& pr : g.d.preds)
    if (pr.second.empty()) pr.second.emplace_back("?v0", "object");
  LogDom(h, g.d);
  auto p = Load(g.d);
  bool cache = h.rng.chance(50);
  StateIndex own(p->predicates(), cache);
  const StateIndex& idx = h.rng.chance(30) ? p->state_index() : own;
  std::vector<std::string> want;
  for (auto& pr : g.d.preds)
    for (auto& t : g.d.tuples(pr.second)) want.push_back(Ground(pr.first, t));
  h.log("cache=" + Str(cache));
  h.req(idx.size() == want.size(), "size " + Str(idx.size()) + " expected " + Str(want.size()));
  h.req(&idx.pddl() == p.get(), "pddl()");
  int n = static_cast<int>(want.size());
  for (int k = 0; n > 0 && k < 2 * n; k++) {
    int i = h.rng.in(0, n - 1);
    Proposition q(*p, want[i]);
    if (h.rng.chance(50)) {
      Proposition r = idx.GetProposition(i);
      h.req(r.to_string() == want[i] && r == q, "proposition at " + Str(i) + " is " + r.to_string() + " expected " + want[i]);
      h.req(idx.GetPropositionIndex(r) == static_cast<size_t>(i), "index of proposition at " + Str(i));
    } else {
      size_t j = idx.GetPropositionIndex(q);
      h.req(j == static_cast<size_t>(i), "index of " + want[i] + " is " + Str(j));
      h.req(idx.GetProposition(j) == q, "proposition at index of " + want[i]);
    }
  }
  int i = 0;
  for (const Proposition& q : idx) {
    h.req(i < n && q.to_string() == want[i], "iterator position " + Str(i));
    i++;
  }
  h.req(i == n, "iterator visits " + Str(i));
  if (n > 0) {
    int a = h.rng.in(0, n - 1), b = h.rng.in(0, n - 1);
    auto it = idx.begin() + a;
    it += b - a;
    h.req((*it).to_string() == want[b] && it->to_string() == want[b], "iterator jump");
    h.req((it - (b - a))->to_string() == want[a], "iterator jump back");
    h.req(it[a - b].to_string() == want[a] && it - idx.begin() == b, "iterator offset");
    h.req((idx.end() - 1)->to_string() == want[n - 1], "last");
  }
  St s;
  for (auto& a : want)
    if (h.rng.chance(40)) s.insert(a);
  State st = MakeState(*p, s, &h.rng);
  auto v = idx.GetIndexedState(st);
  h.req(static_cast<int>(v.size()) == n, "indexed state size");
  for (int k = 0; k < n; k++) h.req(static_cast<bool>(v[k]) == (s.count(want[k]) > 0), "bit of " + want[k]);
  State back = idx.GetState(v);
  h.req(back == st && ToSt(back) == s, "state round trip");
  auto w = idx.GetIndexedState(back);
  for (int k = 0; k < n; k++) h.req(static_cast<bool>(w[k]) == static_cast<bool>(v[k]), "indexed round trip");
  if (n > 2) h.nontrivial(g.d.domainText() + Show(s));
}

// ----------------------------------------------------------------- C08
std::string Variant(Rng& r, const std::string& pred, const std::vector<std::string>& args) {
  auto sp = [&] { return std::string(r.chance(30) ? r.in(1, 2) : 0, r.chance(20) ? '\t' : ' '); };
  std::string s = pred + "(" + sp();
  for (size_t i = 0; i < args.size(); i++) s += (i ? sp() + (r.chance(75) ? "," + sp() : " ") : "") + args[i];
  return s + sp() + ")";
}
void C08(H& h) {
  Gen g(h.rng);
  g.Base(5, 3, 3);
  LogDom(h, g.d);
  auto p = Load(g.d);
  auto atom = [&](std::string* pred, std::vector<std::string>* args) {
    *pred = h.rng.chance(85) ? h.rng.pick(g.d.preds).first : "onto";
    args->clear();
    for (int n = h.rng.in(0, 3); n > 0; n--) args->push_back(h.rng.pick(g.Consts()));
  };
  std::vector<Proposition> props;
  std::vector<std::pair<std::string, std::vector<std::string>>> keys;
  for (int k = h.rng.in(2, 5); k > 0; k--) {
    std::string pr;
    std::vector<std::string> ar;
    if (!keys.empty() && h.rng.chance(40)) {
      pr = keys.back().first;
      ar = keys.back().second;
      if (!ar.empty() && h.rng.chance(50)) ar[h.rng.in(0, static_cast<int>(ar.size()) - 1)] = h.rng.pick(g.Consts());
    } else {
      atom(&pr, &ar);
    }
    std::string text = Variant(h.rng, pr, ar);
    h.log("atom " + text);
    switch (h.rng.in(0, 3)) {
      case 0: props.emplace_back(*p, text); break;
      case 1: props.emplace_back(pr, Objs(*p, ar)); break;
      case 2: {
        auto v = Objs(*p, ar);
        props.emplace_back(pr, v);
        break;
      }
      default: {
        auto v = Objs(*p, ar);
        PropositionRef ref(&pr, &v, std::hash<std::string>{}(pr));
        props.emplace_back(static_cast<const symbolic::PropositionBase&>(ref));
      }
    }
    keys.emplace_back(pr, ar);
    const Proposition& q = props.back();
    h.req(q.name() == pr && Names(q.arguments()) == ar, "parsed as " + q.to_string());
    h.req(q.to_string() == Ground(pr, ar), "printed as " + q.to_string());
    std::string pd = "(" + pr;
    for (auto& a : ar) pd += " " + a;
    h.req(q.to_pddl() == pd + ")", "pddl form " + q.to_pddl());
    h.req(Proposition(*p, q.to_string()) == q, "print and parse");
    h.req(symbolic::PropositionBase::ParseHead(text) == pr, "head");
    for (size_t i = 0; i < ar.size(); i++)
      h.req(q.arguments()[i].type().name() == g.d.typeOf(ar[i]), "argument type");
  }
  std::set<std::string> seen;
  for (size_t i = 0; i < props.size(); i++) {
    auto vi = props[i].arguments();
    std::string ni = props[i].name();
    PropositionRef ri(&ni, &vi, std::hash<std::string>{}(ni));
    h.req(std::hash<PropositionRef>{}(ri) == std::hash<Proposition>{}(props[i]), "reference hashes differently");
    for (size_t j = 0; j < props.size(); j++) {
      bool same = keys[i] == keys[j];
      h.req((props[i] == props[j]) == same, "equality of " + props[i].to_string() + " and " + props[j].to_string());
      h.req((props[i] != props[j]) == !same, "inequality");
      h.req((ri == props[j]) == same && (props[j] == ri) == same, "reference equality");
      if (same) h.req(props[i].hash() == props[j].hash(), "hash");
      bool lt = keys[i] < keys[j];
      h.req((props[i] < props[j]) == lt && (ri < props[j]) == lt, "order of " + props[i].to_string() + " and " + props[j].to_string());
      if (!same) h.req((props[i] < props[j]) != (props[j] < props[i]), "order is not total");
      if (same && i != j) h.nontrivial(Desc());
    }
  }
  // Objects.
  auto names = g.Consts();
  for (auto& a : names) {
    Object oa(*p, a);
    h.req(oa.name() == a && oa.type().name() == g.d.typeOf(a), "object by name");
    for (auto& b : names) {
      Object ob(*p, b);
      h.req((oa == ob) == (a == b) && (oa != ob) == (a != b) && (oa < ob) == (a < b), "object identity of " + a + ", " + b);
      if (a == b) h.req(std::hash<Object>{}(oa) == std::hash<Object>{}(ob), "object hash");
    }
    for (auto& t : g.typeNames)
      h.req(oa.type().IsSubtype(t) == g.d.sub(g.d.typeOf(a), t), a + " subtype of " + t);
    auto lt = oa.type().ListTypes();
    std::set<std::string> ls(lt.begin(), lt.end()), want;
    for (auto& t : g.typeNames)
      if (g.d.sub(g.d.typeOf(a), t)) want.insert(t);
    h.req(ls == want && ls.size() == lt.size(), "listed types of " + a);
  }
  bool thrown = false;
  try {
    Proposition q(*p, "on(nosuch)");
  } catch (const std::exception&) {
    thrown = true;
  }
  h.req(thrown, "an unknown object is accepted");
}

// ------------------------------------------------------------- C09 / C10
// A type predicate nobody inhabits is handled as an ordinary (never true)
// proposition; leave such atoms to C09 only.
bool HasEmptyTypeAtom(const Dom& d, const F& f) {
  if (f.k == F::ATOM) return d.isType(f.a.pred) && d.of(f.a.pred).empty();
  for (auto& k : f.kids)
    if (HasEmptyTypeAtom(d, k)) return true;
  return false;
}
bool HasEmptyTypeAtom(const Dom& d, const E& e) {
  for (auto& f : e.forall)
    if (HasEmptyTypeAtom(d, f.second)) return true;
  for (auto& c : e.cond)
    if (HasEmptyTypeAtom(d, c.first) || HasEmptyTypeAtom(d, c.second)) return true;
  return false;
}
struct Probe {
  const F* f;
  Vars params;
  const Formula* formula;
};
void C09(H& h) {
  Gen g(h.rng);
  g.Base(3, 3, 2);
  g.Actions(1, 2, 4, 0, 1);
  g.d.goal = g.RandF({}, 4);
  for (auto& a : g.d.groundAtoms(true))
    if (h.rng.chance(40)) g.d.init.insert(a);
  LogDom(h, g.d);
  auto p = Load(g.d);
  std::vector<Probe> probes;
  probes.push_back({&g.d.goal, {}, &p->goal()});
  for (size_t i = 0; i < g.d.acts.size(); i++)
    probes.push_back({&g.d.acts[i].pre, g.d.acts[i].params, &p->actions()[i].preconditions()});
  int trues = 0, falses = 0;
  Formula goal_copy = p->goal();
  for (int k = 0; k < 12; k++) {
    const Probe& pr = h.rng.pick(probes);
    St s = h.rng.chance(15) ? St() : g.RandState(h.rng.chance(50) ? 50 : 20);
    State st = MakeState(*p, s, &h.rng);
    std::vector<std::string> args;
    for (size_t i = 0; i < pr.params.size(); i++) args.push_back(h.rng.pick(g.Consts()));
    bool want = g.d.eval(*pr.f, EnvOf(pr.params, args), s);
    (want ? trues : falses)++;
    std::string what = Dom::T(*pr.f) + " with " + Show(args) + " in " + Show(s);
    auto objs = Objs(*p, args);
    bool got = (*pr.formula)(st, objs);
    h.req(got == want, "formula " + what + " is " + Str(got) + ", expected " + Str(want));
    if (pr.params.empty()) {
      h.req((*pr.formula)(st) == want && goal_copy(st) == want, "goal evaluated without arguments: " + what);
      h.req(p->IsGoalSatisfied(st) == want && p->IsGoalSatisfied(s) == want, "IsGoalSatisfied: " + what);
    } else {
      for (auto& a : p->actions())
        if (&a.preconditions() == pr.formula) h.req(a.IsValid(st, objs) == want, "Action::IsValid: " + what);
    }
    h.req(ToSt(st) == s, "evaluation changed the state: " + what);
  }
  if (trues && falses) h.nontrivial(Desc());
}

// Left-to-right evaluation that raises Unknown only for a consulted atom.
void C10(H& h) {
  Gen g(h.rng);
  g.Base(3, 3, 2);
  g.Actions(1, 2, 4, 0, 1);
  g.d.goal = g.RandF({}, 4);
  if (HasEmptyTypeAtom(g.d, g.d.goal)) return;
  for (auto& a : g.d.acts)
    if (HasEmptyTypeAtom(g.d, a.pre)) return;
  LogDom(h, g.d);
  auto p = Load(g.d);
  std::vector<Probe> probes;
  probes.push_back({&g.d.goal, {}, &p->goal()});
  for (size_t i = 0; i < g.d.acts.size(); i++)
    probes.push_back({&g.d.acts[i].pre, g.d.acts[i].params, &p->actions()[i].preconditions()});
  auto all = g.d.groundAtoms(false);
  int unknowns = 0, known = 0;
  for (int k = 0; k < 10; k++) {
    const Probe& pr = h.rng.pick(probes);
    int pu = h.rng.chance(25) ? 0 : h.rng.in(10, 60);
    St pos, neg;
    for (auto& a : all)
      if (!h.rng.chance(pu)) (h.rng.chance(50) ? pos : neg).insert(a);
    PartialState ps(MakeState(*p, pos, &h.rng), MakeState(*p, neg, &h.rng));
    std::vector<std::string> args;
    for (size_t i = 0; i < pr.params.size(); i++) args.push_back(h.rng.pick(g.Consts()));
    Env env = EnvOf(pr.params, args);
    std::string what = Dom::T(*pr.f) + " with " + Show(args) + " in +" + Show(pos) + " -" + Show(neg);
    std::optional<bool> got = (*pr.formula)(ps, Objs(*p, args));
    if (pr.params.empty()) h.req((*pr.formula)(ps) == got, "evaluation without arguments differs: " + what);
    for (auto& a : p->actions())
      if (&a.preconditions() == pr.formula) h.req(a.IsValid(ps, Objs(*p, args)) == got, "Action::IsValid differs: " + what);
    h.req(ToSt(ps.pos()) == pos && ToSt(ps.neg()) == neg, "evaluation changed the partial state");
    St atoms;
    g.d.atoms(*pr.f, env, &atoms);
    std::vector<std::string> unk;
    for (auto& a : atoms)
      if (!pos.count(a) && !neg.count(a)) unk.push_back(a);
    if (unk.empty()) h.req(got.has_value(), "no value although every proposition is known: " + what);
    if (!got.has_value()) {
      unknowns++;
      // Some left-to-right or other short-circuit order has to consult an
      // unknown atom: the strict left-to-right one is the documented order.
      bool raised = false;
      try {
        g.d.eval(*pr.f, env, [&](const std::string& a) -> bool {
          if (pos.count(a)) return true;
          if (neg.count(a)) return false;
          throw Unknown{a};
        });
      } catch (const Unknown&) {
        raised = true;
      }
      h.req(raised, "no value although no unknown proposition is consulted: " + what);
      continue;
    }
    known++;
    if (unk.size() > 8) continue;
    for (int m = 0; m < (1 << unk.size()); m++) {
      St s = pos;
      for (size_t i = 0; i < unk.size(); i++)
        if (m >> i & 1) s.insert(unk[i]);
      bool full = g.d.eval(*pr.f, env, s);
      h.req(full == *got, "value " + Str(*got) + " but the completion " + Show(s) + " gives " + Str(full) + ": " + what);
    }
  }
  if (unknowns && known) h.nontrivial(Desc());
}

// ----------------------------------------------------------------- C11
bool Disjoint(const St& a, const St& b) {
  for (auto& x : a)
    if (b.count(x)) return false;
  return true;
}
void C11(H& h) {
  Gen g(h.rng);
  g.Base(3, 3, 2);
  g.Actions(1, 2, 1, 2, 1);
  for (auto& a : g.d.acts) a.pre = F();
  LogDom(h, g.d);
  auto p = Load(g.d);
  auto all = g.d.groundAtoms(false);
  for (int k = 0; k < 10; k++) {
    int ai = h.rng.in(0, static_cast<int>(g.d.acts.size()) - 1);
    const Act& act = g.d.acts[ai];
    const Action& A = p->actions()[ai];
    Tuples ts = g.d.tuples(act.params);
    if (ts.empty()) continue;
    auto args = h.rng.pick(ts);
    Env env = EnvOf(act.params, args);
    auto objs = Objs(*p, args);
    St s = g.RandState(h.rng.chance(50) ? 50 : 15);
    St add, del, cond;
    g.d.effects(act.eff, env, [&](const std::string& x) { return s.count(x) > 0; }, &add, &del, &cond);
    St eff_all, changed = add;
    changed.insert(del.begin(), del.end());
    if (Disjoint(add, del) && Disjoint(cond, changed)) {
      St want = s;
      for (auto& x : add) want.insert(x);
      for (auto& x : del) want.erase(x);
      std::string what = act.name + Show(args) + " in " + Show(s);
      const State st = MakeState(*p, s, &h.rng);
      State r = A.Apply(st, objs);
      h.req(ToSt(r) == want, "result of " + what + " is " + Show(ToSt(r)) + ", expected " + Show(want));
      h.req(ToSt(st) == s, "the argument state changed: " + what);
      State in = st;
      bool ch = A.Apply(objs, &in);
      h.req(in == r, "in-place result differs: " + what);
      h.req(ch == (want != s), "change flag " + Str(ch) + " of " + what);
      h.req(p->NextState(st, A.to_string(objs)) == r, "NextState differs: " + what);
      if (want != s) h.nontrivial(Desc() + what);
    }
    // Partial state.
    if (HasEmptyTypeAtom(g.d, act.eff)) continue;
    St pos, neg;
    int pu = h.rng.in(0, 50);
    for (auto& a : all)
      if (!h.rng.chance(pu)) (h.rng.chance(50) ? pos : neg).insert(a);
    add.clear(), del.clear(), cond.clear();
    // Conditions over known atoms only: an unknown condition does not fire.
    bool cond_known = true;
    g.d.effects(act.eff, env,
                [&](const std::string& x) -> bool {
                  if (!pos.count(x) && !neg.count(x)) cond_known = false;
                  return pos.count(x) > 0;
                },
                &add, &del, &cond);
    changed = add;
    changed.insert(del.begin(), del.end());
    if (!cond_known || !Disjoint(add, del) || !Disjoint(cond, changed)) continue;
    St wp = pos, wn = neg;
    int want_flag = 0;
    for (auto& x : add) {
      want_flag = std::max(want_flag, neg.count(x) ? 2 : pos.count(x) ? 0 : 1);
      wp.insert(x), wn.erase(x);
    }
    for (auto& x : del) {
      want_flag = std::max(want_flag, pos.count(x) ? 2 : neg.count(x) ? 0 : 1);
      wn.insert(x), wp.erase(x);
    }
    std::string what = act.name + Show(args) + " in +" + Show(pos) + " -" + Show(neg);
    const PartialState ps(MakeState(*p, pos, &h.rng), MakeState(*p, neg, &h.rng));
    PartialState r = A.Apply(ps, objs);
    h.req(ToSt(r.pos()) == wp && ToSt(r.neg()) == wn, "partial result of " + what);
    h.req(ToSt(ps.pos()) == pos && ToSt(ps.neg()) == neg, "the partial argument changed: " + what);
    PartialState in = ps;
    int fl = A.Apply(objs, &in);
    h.req(in == r, "in-place partial result differs: " + what);
    h.req(fl == want_flag, "change code " + Str(fl) + ", expected " + Str(want_flag) + ": " + what);
    if (want_flag == 2) h.nontrivial(Desc() + what);
  }
}

// ----------------------------------------------------------------- C12
struct Skip {};
struct AxGen : Gen {
  std::map<std::string, bool> dir;  // true: axioms only add
  bool cond_axioms = false;
  std::set<std::string> cond_preds;
  using Gen::Gen;
  void Axioms(int n) {
    for (auto& q : d.preds) dir[q.first] = r.chance(50);
    for (int i = 0; i < n; i++) {
      Ax a;
      auto& q = r.pick(d.preds);
      if (q.second.empty()) continue;
      a.pos = r.chance(65);
      a.ctx.pred = q.first;
      // Every parameter occurs in the context.
      int m = r.in(1, static_cast<int>(q.second.size()));
      for (int k = 0; k < m; k++) a.params.emplace_back("?u" + Str(k), r.chance(60) ? "object" : r.pick(typeNames));
      std::vector<std::string> pos;
      for (size_t k = 0; k < q.second.size(); k++) {
        if (static_cast<int>(k) < m) pos.push_back("?u" + Str(k));
        else pos.push_back(r.chance(50) ? "?u" + Str(r.in(0, m - 1)) : r.pick(Consts()));
      }
      for (int k = static_cast<int>(pos.size()) - 1; k > 0; k--) std::swap(pos[k], pos[r.in(0, k)]);
      a.ctx.args = pos;
      auto scope = Extend({}, a.params);
      auto fill = [&](E* e) {
        for (int k = r.in(1, 2); k > 0; k--) {
          Atom x = RandAtom(scope, false);
          (dir[x.pred] ? e->add : e->del).push_back(x);
        }
      };
      fill(&a.eff);
      if (r.chance(20)) {
        E sub;
        Vars v = NewVars(1, scope, false);
        auto sc2 = Extend(scope, v);
        Atom x = RandAtom(sc2, false);
        (dir[x.pred] ? sub.add : sub.del).push_back(x);
        a.eff.forall.emplace_back(v, sub);
      }
      if (cond_axioms && r.chance(50)) {
        // A consequence under a simple condition.
        E sub;
        Atom x = RandAtom(scope, false);
        (dir[x.pred] ? sub.add : sub.del).push_back(x);
        F c;
        c.k = F::ATOM;
        c.a = RandAtom(scope, false);
        cond_preds.insert(c.a.pred);
        if (!dir[c.a.pred]) {
          F n;
          n.k = F::NOT;
          n.kids.push_back(c);
          c = n;
        }
        a.eff.cond.emplace_back(c, sub);
      }
      d.axioms.push_back(a);
    }
  }
  bool ctxHolds(const Ax& a, const Env& env, const St& s) const { return (s.count(Ground(a.ctx, env)) > 0) == a.pos; }
  // One sweep; returns whether an instance still changes s.
  bool Step(St* s) const {
    bool ch = false;
    for (auto& a : d.axioms)
      for (auto& t : d.tuples(a.params)) {
        Env env = Dom::bind({}, a.params, t);
        if (!ctxHolds(a, env, *s)) continue;
        St add, del, c;
        d.effects(a.eff, env, [s](const std::string& x) { return s->count(x) > 0; }, &add, &del, &c);
        for (auto& x : add) ch |= s->insert(x).second;
        for (auto& x : del) ch |= s->erase(x) > 0;
      }
    return ch;
  }
  bool Valid(const St& s) const {
    for (auto& a : d.axioms)
      for (auto& t : d.tuples(a.params)) {
        Env env = Dom::bind({}, a.params, t);
        if (ctxHolds(a, env, s) && !d.effHold(a.eff, env, s)) return false;
      }
    return true;
  }
  // Reference for triggered axioms.
  void Set(St* s, const std::string& pred, const std::vector<std::string>& args, bool value, int depth) const {
    std::string g = Ground(pred, args);
    bool ch = value ? s->insert(g).second : s->erase(g) > 0;
    if (!ch) return;
    if (depth > 200) throw Skip();
    for (auto& a : d.axioms) {
      if (a.pos != value || a.ctx.pred != pred) continue;
      Env env;
      bool ok = true;
      for (size_t i = 0; i < args.size() && ok; i++) {
        const std::string& t = a.ctx.args[i];
        if (t[0] != '?') ok = t == args[i];
        else if (env.count(t)) ok = env[t] == args[i];
        else env[t] = args[i];
      }
      for (auto& v : a.params) ok = ok && env.count(v.first) && d.sub(d.typeOf(env[v.first]), v.second);
      if (!ok) continue;
      if ((s->count(g) > 0) != value) throw Skip();  // The context no longer holds.
      Fire(a.eff, env, s, depth + 1);
    }
  }
  void Fire(const E& e, const Env& env, St* s, int depth) const {
    auto args = [&](const Atom& a) {
      std::vector<std::string> v;
      for (auto& t : a.args) v.push_back(Sub(t, env));
      return v;
    };
    for (auto& fe : e.forall)
      for (auto& t : d.tuples(fe.first)) Fire(fe.second, Dom::bind(env, fe.first, t), s, depth);
    for (auto& a : e.add) Set(s, a.pred, args(a), true, depth);
    for (auto& a : e.del) Set(s, a.pred, args(a), false, depth);
  }
};
void C12(H& h) {
  AxGen g(h.rng);
  g.nullary_preds = false;
  g.Base(3, 3, 2);
  g.cond_axioms = h.index % 3 == 0;
  g.Axioms(h.rng.in(1, 3));
  if (g.d.axioms.empty()) return;
  Act a;
  a.name = "act";
  a.params = g.NewVars(h.rng.in(1, 2), {}, false);
  auto scope = Gen::Extend({}, a.params);
  for (int k = h.rng.in(1, 2); k > 0; k--) (h.rng.chance(50) ? a.eff.add : a.eff.del).push_back(g.RandAtom(scope, false));
  if (h.rng.chance(30)) {
    E sub;
    Vars v = g.NewVars(1, scope, true);
    auto sc2 = Gen::Extend(scope, v);
    (h.rng.chance(50) ? sub.add : sub.del).push_back(g.RandAtom(sc2, false));
    a.eff.forall.emplace_back(v, sub);
  }
  g.d.acts.push_back(a);
  LogDom(h, g.d);
  auto p = Load(g.d);
  auto all = g.d.groundAtoms(false);
  // Least-fixpoint case: positive contexts over added predicates, negative
  // contexts over deleted ones.
  bool monotone = true;
  for (auto& x : g.d.axioms) monotone &= x.pos == g.dir[x.ctx.pred];
  for (int k = 0; k < 8; k++) {
    St s = g.RandState(h.rng.in(5, 70));
    State st = MakeState(*p, s, &h.rng);
    bool valid = g.Valid(s);
    h.req(p->IsValidState(st) == valid, "IsValidState of " + Show(s) + " should be " + Str(valid));
    State c = p->ConsistentState(st);
    St cs = ToSt(c);
    h.req(ToSt(st) == s, "ConsistentState changed its argument");
    St chk = cs;
    h.req(!g.Step(&chk), "ConsistentState of " + Show(s) + " is not closed: " + Show(cs));
    h.req(p->IsValidState(c), "the consistent state of " + Show(s) + " is not valid");
    if (valid) h.req(cs == s, "a closed state " + Show(s) + " changed to " + Show(cs));
    if (!valid) h.nontrivial(Desc() + Show(s));
    for (auto& x : cs)
      if (!s.count(x)) h.req(g.dir[x.substr(0, x.find('('))], "closing added " + x);
    for (auto& x : s)
      if (!cs.count(x)) h.req(!g.dir[x.substr(0, x.find('('))], "closing removed " + x);
    if (monotone) {
      St want = s;
      while (g.Step(&want)) {
      }
      h.req(cs == want, "closure of " + Show(s) + " is " + Show(cs) + ", expected " + Show(want));
    }
    h.req(p->ConsistentState(c) == c, "ConsistentState twice");
    bool each = true;
    for (auto& ax : p->axioms()) each &= ax->IsConsistent(st);
    h.req(each == valid, "Axiom::IsConsistent");

    if (!g.cond_preds.empty()) continue;

    // Partial states.
    St pos, neg;
    int pu = h.rng.in(10, 60);
    for (auto& x : all)
      if (!h.rng.chance(pu)) (h.rng.chance(50) ? pos : neg).insert(x);
    PartialState ps(MakeState(*p, pos, &h.rng), MakeState(*p, neg, &h.rng));
    bool lib = p->IsValidState(ps);
    h.req(ToSt(ps.pos()) == pos && ToSt(ps.neg()) == neg, "IsValidState changed its partial argument");
    if (!lib) {
      St cp = pos, cn = neg;
      bool bad = false, ch = true;
      while (ch) {
        ch = false;
        for (auto& x : g.d.axioms)
          for (auto& t : g.d.tuples(x.params)) {
            Env env = Dom::bind({}, x.params, t);
            if (!(x.pos ? cp : cn).count(Ground(x.ctx, env))) continue;
            St add, del, c2;
            g.d.effects(x.eff, env, [](const std::string&) { return false; }, &add, &del, &c2);
            for (auto& y : add) ch |= cp.insert(y).second;
            for (auto& y : del) ch |= cn.insert(y).second;
          }
      }
      bad = !Disjoint(cp, cn);
      h.req(bad, "partial state +" + Show(pos) + " -" + Show(neg) + " is reported invalid but nothing contradicts it");
    }

    // Axioms triggered by an action.
    Tuples ts = g.d.tuples(a.params);
    if (ts.empty()) continue;
    auto args = h.rng.pick(ts);
    St want = s;
    try {
      g.Fire(a.eff, EnvOf(a.params, args), &want, 0);
    } catch (const Skip&) {
      continue;
    }
    St got = ToSt(p->actions()[0].Apply(st, Objs(*p, args)));
    h.req(got == want, "act" + Show(args) + " in " + Show(s) + " gives " + Show(got) + ", expected " + Show(want));
  }
}

// ----------------------------------------------------------------- C13
bool UsesPred(const F& f, const std::set<std::string>& names, bool negative_only, bool under_not = false) {
  if (f.k == F::ATOM) return names.count(f.a.pred) && (!negative_only || under_not);
  for (auto& k : f.kids)
    if (UsesPred(k, names, negative_only, under_not != (f.k == F::NOT))) return true;
  return false;
}
// Derived predicates over the base predicates of g; acyclic (any order) or
// ordered with positive self recursion.
void AddDerived(Gen& g, int n, Rng& r) {
  std::vector<std::pair<std::string, Vars>> base = g.d.preds, decl;
  for (int i = 0; i < n; i++) {
    Vars v;
    for (int k = r.in(1, 2); k > 0; k--) v.emplace_back("?q" + Str(k), g.RandType());
    decl.emplace_back("der" + Str(i), v);
  }
  bool ordered = r.chance(50);
  std::vector<Der> ders;
  for (int i = 0; i < n; i++) {
    g.d.preds = base;
    for (int k = 0; k < i; k++) g.d.preds.push_back(decl[k]);
    bool rec = ordered && r.chance(60);
    if (rec) g.d.preds.push_back(decl[i]);
    F f;
    for (int t = 0; t < 20; t++) {
      f = g.RandF(Gen::Extend({}, decl[i].second), 3);
      if (!UsesPred(f, {decl[i].first}, true)) break;
      f = F();
    }
    ders.push_back({decl[i].first, decl[i].second, f});
  }
  if (!ordered)
    for (int i = n - 1; i > 0; i--) std::swap(ders[i], ders[r.in(0, i)]);
  g.d.preds = base;
  for (auto& x : decl) g.d.preds.push_back(x);
  g.d.ders = ders;
}
bool IsDer(const Dom& d, const std::string& atom) {
  for (auto& x : d.ders)
    if (atom.compare(0, x.name.size() + 1, x.name + "(") == 0) return true;
  return false;
}
void C13(H& h) {
  Gen g(h.rng);
  g.nullary_preds = false;
  g.Base(3, 2, 2);
  AddDerived(g, h.rng.in(1, 3), h.rng);
  LogDom(h, g.d);
  auto p = Load(g.d);
  for (int k = 0; k < 8; k++) {
    St s;
    for (auto& x : g.RandState(h.rng.in(10, 70)))
      if (!IsDer(g.d, x)) s.insert(x);
    const State st = MakeState(*p, s, &h.rng);
    State r = DerivedPredicate::Apply(st, p->derived_predicates());
    St rs = ToSt(r);
    h.req(ToSt(st) == s, "the argument state changed");
    std::string what = "derived state of " + Show(s) + " is " + Show(rs);
    St other;
    for (auto& x : rs)
      if (!IsDer(g.d, x)) other.insert(x);
    h.req(other == s, what + ": other propositions changed");
    size_t nder = 0;
    for (auto& dr : g.d.ders)
      for (auto& t : g.d.tuples(dr.params)) {
        std::string at = Ground(dr.name, t);
        bool body = g.d.eval(dr.body, EnvOf(dr.params, t), rs);
        h.req((rs.count(at) > 0) == body, what + ": " + at + " should be " + Str(body));
        nder += body;
      }
    h.req(rs.size() == s.size() + nder, what + ": ill-typed derived atoms");
    State in = st;
    bool ch = DerivedPredicate::Apply(p->derived_predicates(), &in);
    h.req(in == r, "in-place result differs");
    h.req(ch == (rs != s), what + ": change flag " + Str(ch));
    State again = r;
    h.req(!DerivedPredicate::Apply(p->derived_predicates(), &again) && again == r, what + ": not idempotent");
    h.req(p->DerivedState(st) == r, "DerivedState differs");
    if (nder) h.nontrivial(Desc() + Show(s));
    // A single rule on its own.
    const DerivedPredicate& one = p->derived_predicates()[0];
    State single = r;
    h.req(!one.Apply(&single) && single == r, "a settled rule changes the state");
  }
}

// ----------------------------------------------------------------- C14
bool UsesSpecial(const Dom& d, const F& f) {
  if (f.k == F::ATOM) return f.a.pred == "=" || d.isType(f.a.pred);
  for (auto& k : f.kids)
    if (UsesSpecial(d, k)) return true;
  return false;
}
bool UsesSpecial(const Dom& d, const E& e) {
  for (auto& f : e.forall)
    if (UsesSpecial(d, f.second)) return true;
  for (auto& c : e.cond)
    if (UsesSpecial(d, c.first) || UsesSpecial(d, c.second)) return true;
  return false;
}
bool PropTrue(const Dom& d, const Proposition& q, const St& s) {
  auto names = Names(q.arguments());
  if (q.name() == "=") return names[0] == names[1];
  if (d.isType(q.name())) return d.sub(d.typeOf(names[0]), q.name());
  return s.count(Ground(q.name(), names)) > 0;
}
bool DnfTrue(const Dom& d, const DisjunctiveFormula& f, const St& s) {
  if (f.empty()) return true;
  for (const auto& c : f.conjunctions) {
    bool ok = true;
    for (const Proposition& q : c.pos()) ok = ok && PropTrue(d, q, s);
    for (const Proposition& q : c.neg()) ok = ok && !PropTrue(d, q, s);
    if (ok) return true;
  }
  return false;
}
// The number of disjuncts can be exponential; skip conditions that are large.
long DnfSize(const Dom& d, const F& f, const Env& env, bool neg) {
  const long kMax = 400;
  auto combine = [&](bool conj, const std::vector<long>& v) {
    long r = conj ? 1 : 0;
    for (long x : v) r = std::min(kMax, conj ? r * std::max(1l, x) : r + x);
    return r;
  };
  // Negate() converts the finished DNF, so its cost is driven by the DNF size.
  switch (f.k) {
    case F::ATOM: return 1;
    case F::NOT: {
      long k = DnfSize(d, f.kids[0], env, neg);
      return k >= 9 ? kMax : std::min(kMax, 1l << (2 * k));
    }
    case F::AND:
    case F::OR: {
      std::vector<long> v;
      for (auto& k : f.kids) v.push_back(DnfSize(d, k, env, neg));
      return combine(f.k == F::AND, v);
    }
    default: {
      std::vector<long> v;
      for (auto& t : d.tuples(f.vars)) v.push_back(DnfSize(d, f.kids[0], Dom::bind(env, f.vars, t), neg));
      return combine(f.k == F::FORALL, v);
    }
  }
}
long DnfSize(const Dom& d, const E& e, const Env& env) {
  long r = 1;
  for (auto& f : e.forall)
    for (auto& t : d.tuples(f.first)) r = std::min(400l, r * DnfSize(d, f.second, Dom::bind(env, f.first, t)));
  for (auto& c : e.cond) {
    long k = DnfSize(d, c.first, env, false);
    long n = k >= 9 ? 400 : std::min(400l, 1l << (2 * k));
    r = std::min(400l, r * (n + DnfSize(d, c.second, env)));
  }
  return r;
}
using Truth = std::function<bool(const St&)>;
void CheckDnf(H& h, const Dom& d, const std::string& what, const std::optional<DisjunctiveFormula>& dnf,
              const St& atoms, const Truth& truth, bool special) {
  std::vector<std::string> v(atoms.begin(), atoms.end());
  St used = atoms;
  if (dnf)
    for (auto& c : dnf->conjunctions)
      for (const State* side : {&c.pos(), &c.neg()})
        for (auto& q : *side)
          if (q.name() != "=" && !d.isType(q.name()))
            h.req(atoms.count(Ground(q.name(), Names(q.arguments()))) > 0, what + ": foreign proposition " + q.to_string());
  bool sat = false, val = true;
  for (int m = 0; m < (1 << v.size()); m++) {
    St s;
    for (size_t i = 0; i < v.size(); i++)
      if (m >> i & 1) s.insert(v[i]);
    bool want = truth(s);
    sat |= want, val &= want;
    bool got = dnf ? DnfTrue(d, *dnf, s) : false;
    std::stringstream ss;
    if (dnf) ss << *dnf;
    else ss << "no value";
    h.req(got == want, what + " converts to " + ss.str() + " which is " + Str(got) + " in " + Show(s) + ", expected " + Str(want));
  }
  if (!special && !sat) h.req(!dnf, what + ": a contradiction is not reported as false");
  if (sat && !val) h.nontrivial(Desc() + what);
}
void C14(H& h) {
  Gen g(h.rng);
  g.Base(3, 3, 2);
  g.use_types = true;
  g.Actions(1, 1, 3, 2, 1);
  g.d.goal = g.RandF({}, 3);
  if (HasEmptyTypeAtom(g.d, g.d.goal) || HasEmptyTypeAtom(g.d, g.d.acts[0].pre)) return;
  // An exists over nothing or a forall over nothing is fine; a nested
  // condition that is contradictory on its own is part of the space.
  LogDom(h, g.d);
  auto p = Load(g.d);
  St atoms;
  g.d.atoms(g.d.goal, {}, &atoms);
  if (atoms.size() <= 9 && DnfSize(g.d, g.d.goal, {}, false) < 200) {
    auto dnf = DisjunctiveFormula::NormalizeGoal(*p);
    std::string what = "goal " + Dom::T(g.d.goal);
    CheckDnf(h, g.d, what, dnf, atoms, [&](const St& s) { return g.d.eval(g.d.goal, {}, s); }, UsesSpecial(g.d, g.d.goal));
    auto again = DisjunctiveFormula::NormalizeGoal(*p);
    h.req(again.has_value() == dnf.has_value() && (!dnf || *again == *dnf), what + ": second conversion differs");
  }
  const Act& act = g.d.acts[0];
  Tuples ts = g.d.tuples(act.params);
  if (ts.empty()) return;
  for (int k = 0; k < 2; k++) {
    auto args = h.rng.pick(ts);
    Env env = EnvOf(act.params, args);
    std::string call = Ground(act.name, args);
    std::optional<DisjunctiveFormula> pre, post;
    bool have_pre = false, have_post = false;
    St pa;
    g.d.atoms(act.pre, env, &pa);
    if (pa.size() <= 9 && DnfSize(g.d, act.pre, env, false) < 200) {
      pre = DisjunctiveFormula::NormalizePreconditions(*p, call);
      have_pre = true;
      CheckDnf(h, g.d, "precondition of " + call, pre, pa, [&](const St& s) { return g.d.eval(act.pre, env, s); },
               UsesSpecial(g.d, act.pre));
    }
    St ea;
    g.d.effAtoms(act.eff, env, &ea);
    if (ea.size() <= 9 && DnfSize(g.d, act.eff, env) < 200) {
      post = DisjunctiveFormula::NormalizePostconditions(*p, call);
      have_post = true;
      CheckDnf(h, g.d, "effects of " + call, post, ea, [&](const St& s) { return g.d.effHold(act.eff, env, s); },
               UsesSpecial(g.d, act.eff));
    }
    if (have_pre && have_post) {
      auto both = DisjunctiveFormula::NormalizeConditions(*p, call);
      h.req(both.has_value() == (pre.has_value() && post.has_value()), "NormalizeConditions of " + call + " has a value");
      if (both) h.req(both->first == *pre && both->second == *post, "NormalizeConditions of " + call);
    }
  }
}

// ----------------------------------------------------------------- C15
struct Child {
  std::string action;
  St state;
  size_t depth;
  bool operator<(const Child& o) const { return std::tie(action, state, depth) < std::tie(o.action, o.state, o.depth); }
  bool operator==(const Child& o) const { return action == o.action && state == o.state && depth == o.depth; }
};
void C15(H& h) {
  Gen g(h.rng);
  g.Base(3, 2, 2);
  g.Actions(1, 3, 2, 1, 1);
  if (h.rng.chance(35)) AddDerived(g, 1, h.rng);
  for (auto& a : g.d.acts) {
    if (h.rng.chance(50)) a.pre = F();
  }
  for (auto& a : g.d.groundAtoms(true))
    if (h.rng.chance(40) && !IsDer(g.d, a)) g.d.init.insert(a);
  LogDom(h, g.d);
  auto p = Load(g.d);
  St start;
  for (auto& x : g.RandState(40))
    if (!IsDer(g.d, x)) start.insert(x);
  bool from_init = h.rng.chance(50);
  Planner planner = from_init ? Planner(*p) : Planner(*p, MakeState(*p, start, &h.rng));
  Planner::Node node = planner.root();
  h.req(node.depth() == 0, "root depth");
  const size_t depth0 = h.rng.chance(30) ? h.rng.in(1, 4) : 0;
  if (depth0) {
    node = Planner::Node(*p, node.state(), depth0);
    h.req(node.depth() == depth0, "starting depth");
  }
  St root_want = from_init ? g.d.init : start;
  h.req(ToSt(node.state()) == root_want, "root state");
  std::vector<St> path = {ToSt(node.state())};
  for (int level = 0; level < 3; level++) {
    const St here = path.back();
    const State st = node.state();
    h.req(static_cast<bool>(node) == p->goal()(st), "goal test of a node");
    std::vector<Child> want;
    for (const Action& a : p->actions())
      for (const auto& args : a.parameter_generator()) {
        if (!a.IsValid(st, args)) continue;
        State n = a.Apply(st, args);
        DerivedPredicate::Apply(p->derived_predicates(), &n);
        St ns = ToSt(n);
        if (std::find(path.begin(), path.end(), ns) != path.end()) continue;
        want.push_back({Ground(a.name(), Names(args)), ns, depth0 + path.size()});
      }
    auto walk = [&](const Planner::Node& nd) {
      std::vector<Child> got;
      size_t guard = 0;
      for (const Planner::Node& c : nd) {
        got.push_back({c.action(), ToSt(c.state()), c.depth()});
        if (++guard > want.size() + 3) break;
      }
      return got;
    };
    auto show = [&](const std::vector<Child>& v) {
      std::string o;
      for (auto& c : v) o += " [" + c.action + " d" + Str(c.depth) + " " + Show(c.state) + "]";
      return o;
    };
    std::vector<Child> got = walk(node);
    auto sorted = [](std::vector<Child> v) {
      std::sort(v.begin(), v.end());
      return v;
    };
    std::string ctx = "children of a node at depth " + Str(level) + " (starting depth " + Str(depth0) + ") with state " + Show(here) + ":" + show(got) + " expected:" + show(want);
    h.req(sorted(got) == sorted(want), ctx);
    h.req(walk(node) == got, "second enumeration differs; " + ctx);
    h.req(node.state() == st && node.depth() == depth0 + path.size() - 1, "enumeration changed the node; " + ctx);
    std::vector<Child> back;
    if (!got.empty()) {
      auto it = node.end();
      for (size_t i = 0; i < got.size(); i++) {
        --it;
        const Planner::Node& c = *it;
        back.push_back({c.action(), ToSt(c.state()), c.depth()});
      }
      std::reverse(back.begin(), back.end());
      h.req(back == got, "backward enumeration gives" + show(back) + "; " + ctx);
      // Back and forth from the middle.
      auto mid = node.begin();
      int k = h.rng.in(0, static_cast<int>(got.size()) - 1);
      for (int i = 0; i < k; i++) ++mid;
      if (k > 0) {
        --mid;
        ++mid;
      }
      h.req((*mid).action() == got[k].action && ToSt((*mid).state()) == got[k].state, "stepping back and forth; " + ctx);
    }
    if (want.size() > 1) h.nontrivial(Desc() + Show(here) + Str(level));
    if (got.empty()) break;
    int pick = h.rng.in(0, static_cast<int>(got.size()) - 1);
    Planner::Node next;
    if (h.rng.chance(50)) {
      auto it = node.begin();
      for (int i = 0; i < pick; i++) ++it;
      next = *it;
    } else {
      auto it = node.end();
      for (int i = static_cast<int>(got.size()); i > pick; i--) --it;
      next = *it;
    }
    path.push_back(got[pick].state);
    node = next;
  }
}

// ----------------------------------------------------------------- C18
template <typename Fn>
bool Throws(Fn fn) {
  try {
    fn();
  } catch (const std::exception&) {
    return true;
  }
  return false;
}
void C18(H& h) {
  Gen g(h.rng);
  g.Base(4, 3, 2);
  g.Actions(1, 3, 2, 1, 1);
  for (auto& a : g.d.acts)
    if (h.rng.chance(60)) a.pre = F();
  if (h.rng.chance(30)) AddDerived(g, 1, h.rng);
  g.d.goal = g.RandF({}, 2);
  for (auto& a : g.d.groundAtoms(true))
    if (h.rng.chance(40) && !IsDer(g.d, a)) g.d.init.insert(a);
  LogDom(h, g.d);
  auto p = Load(g.d);
  h.req(ToSt(p->initial_state()) == g.d.init, "initial state");
  auto find = [&](const std::string& name) -> const Action& {
    for (const Action& a : p->actions())
      if (a.name() == name) return a;
    throw std::logic_error("action");
  };
  auto step = [&](const State& s, const Action& a, const std::vector<Object>& args) {
    State n = a.Apply(s, args);
    DerivedPredicate::Apply(p->derived_predicates(), &n);
    return n;
  };
  struct Call {
    int act;
    std::vector<std::string> args;
    std::string text;
  };
  std::vector<Call> calls;
  for (size_t i = 0; i < g.d.acts.size(); i++)
    for (auto& t : g.d.tuples(g.d.acts[i].params)) calls.push_back({static_cast<int>(i), t, Ground(g.d.acts[i].name, t)});
  // Listings.
  for (int k = 0; k < 3; k++) {
    St s;
    for (auto& x : g.RandState(40))
      if (!IsDer(g.d, x)) s.insert(x);
    State st = MakeState(*p, s, &h.rng);
    std::vector<std::string> listed;
    for (size_t i = 0; i < g.d.acts.size(); i++) {
      const Action& A = find(g.d.acts[i].name);
      std::multiset<std::vector<std::string>> want, got, got2;
      for (auto& t : g.d.tuples(g.d.acts[i].params))
        if (A.IsValid(st, Objs(*p, t))) want.insert(t), listed.push_back(Ground(A.name(), t));
      for (auto& t : p->ListValidArguments(st, A)) got.insert(Names(t));
      for (auto& t : p->ListValidArguments(s, A.name())) got2.insert(t);
      h.req(got == want && got2 == want, "valid arguments of " + A.name() + " in " + Show(s));
    }
    auto l1 = p->ListValidActions(st), l2 = p->ListValidActions(s);
    std::sort(listed.begin(), listed.end()), std::sort(l1.begin(), l1.end()), std::sort(l2.begin(), l2.end());
    h.req(l1 == listed && l2 == listed, "valid actions in " + Show(s) + ": " + Show(l1) + " expected " + Show(listed));
    for (int q = 0; q < 3 && !calls.empty(); q++) {
      const Call& c = h.rng.pick(calls);
      const Action& A = find(g.d.acts[c.act].name);
      auto objs = Objs(*p, c.args);
      std::string text = Variant(h.rng, A.name(), c.args);
      bool ok = A.IsValid(st, objs);
      State n = step(st, A, objs);
      std::string what = text + " in " + Show(s);
      h.req(p->IsValidAction(st, text) == ok, "IsValidAction " + what);
      h.req(p->NextState(st, text) == n, "NextState " + what);
      h.req(p->IsValidTuple(st, text, n) == ok, "IsValidTuple with the successor: " + what);
      h.req(p->IsValidTuple(s, text, ToSt(n)) == ok, "IsValidTuple on strings with the successor: " + what);
      St wrong = ToSt(n);
      std::string flip = h.rng.pick(g.d.groundAtoms(false));
      if (!wrong.erase(flip)) wrong.insert(flip);
      h.req(!p->IsValidTuple(st, text, MakeState(*p, wrong)), "IsValidTuple with a wrong successor: " + what);
      h.req(!p->IsValidTuple(s, text, wrong), "IsValidTuple on strings with a wrong successor: " + what);
      h.req(ToSt(st) == s, "a query changed its argument");
      auto pr = Action::Parse(*p, text);
      h.req(pr.first.name() == A.name() && Names(pr.second) == c.args, "Parse " + text);
    }
  }
  // Plans.
  for (int k = 0; k < 4 && !calls.empty(); k++) {
    std::vector<std::string> plan;
    State s = p->initial_state();
    bool ok = true;
    for (int len = h.rng.in(0, 4); len > 0; len--) {
      std::vector<const Call*> good;
      for (auto& c : calls)
        if (find(g.d.acts[c.act].name).IsValid(s, Objs(*p, c.args))) good.push_back(&c);
      const Call& c = !good.empty() && h.rng.chance(85) ? *h.rng.pick(good) : h.rng.pick(calls);
      const Action& A = find(g.d.acts[c.act].name);
      ok = ok && A.IsValid(s, Objs(*p, c.args));
      s = step(s, A, Objs(*p, c.args));
      plan.push_back(Variant(h.rng, A.name(), c.args));
    }
    bool want = ok && p->goal()(s);
    h.req(p->IsValidPlan(plan) == want, "IsValidPlan " + Show(plan) + " should be " + Str(want));
    h.req(p->ApplyActions(p->initial_state(), plan) == s, "ApplyActions " + Show(plan));
    h.req(ToSt(p->initial_state()) == g.d.init, "the initial state changed");
    if (ok && plan.size() > 1) h.nontrivial(Desc() + Show(plan));
  }
  // Rejection.
  const Act& act = h.rng.pick(g.d.acts);
  auto names = g.Consts();
  std::vector<std::string> args;
  for (size_t i = 0; i < act.params.size(); i++) args.push_back(h.rng.pick(names));
  const State& s0 = p->initial_state();
  auto rejected = [&](const std::string& text, const std::string& why) {
    h.req(Throws([&] { Action::Parse(*p, text); }), "Parse accepts " + text + " (" + why + ")");
    h.req(Throws([&] { p->IsValidAction(s0, text); }), "IsValidAction accepts " + text + " (" + why + ")");
    h.req(Throws([&] { p->NextState(s0, text); }), "NextState accepts " + text + " (" + why + ")");
    h.req(Throws([&] { p->ApplyActions(s0, {text}); }), "ApplyActions accepts " + text + " (" + why + ")");
    h.req(Throws([&] { p->IsValidPlan({text}); }), "IsValidPlan accepts " + text + " (" + why + ")");
    h.req(Throws([&] { p->IsValidTuple(s0, text, s0); }), "IsValidTuple accepts " + text + " (" + why + ")");
  };
  rejected(Variant(h.rng, "nosuch", args), "unknown action");
  rejected(Variant(h.rng, act.name + "x", args), "unknown action");
  auto more = args;
  more.push_back(h.rng.pick(names));
  rejected(Variant(h.rng, act.name, more), "too many arguments");
  auto fewer = args;
  fewer.pop_back();
  rejected(Variant(h.rng, act.name, fewer), "too few arguments");
  auto unk = args;
  unk[h.rng.in(0, static_cast<int>(unk.size()) - 1)] = "nobody";
  rejected(Variant(h.rng, act.name, unk), "unknown object");
  bool typed = true;
  for (size_t i = 0; i < args.size(); i++) typed &= g.d.sub(g.d.typeOf(args[i]), act.params[i].second);
  if (!typed) rejected(Variant(h.rng, act.name, args), "wrong type");
  else h.req(!Throws([&] { Action::Parse(*p, Variant(h.rng, act.name, args)); }), "Parse rejects a correct call");
}

std::string g_mode;
void Run(H& h) {
  static const std::map<std::string, void (*)(H&)> kModes = {
      {"C06", C06}, {"C07", C07}, {"C08", C08}, {"C09", C09}, {"C10", C10}, {"C11", C11},
      {"C12", C12}, {"C13", C13}, {"C14", C14}, {"C15", C15}, {"C18", C18}};
  kModes.at(g_mode)(h);
}

}  // namespace
}  // namespace hv

int main(int argc, char** argv) {
  for (int i = 1; i + 1 < argc; i += 2)
    if (std::string(argv[i]) == "--mode") hv::g_mode = argv[i + 1];
  return hv::Main(argc, argv, hv::Run);
}
