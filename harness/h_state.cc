// C01-C04: UniqueVector, HashSet, State and PartialState against std::set.
#include <VAL/ptree.h>

#include <type_traits>

#include "common.h"
#include "symbolic/pddl.h"
#include "symbolic/state.h"
#include "symbolic/utils/hash_set.h"
#include "symbolic/utils/unique_vector.h"

// Element type with a controllable, colliding hash.
struct Key {
  int v = 0;
  static int mode;
  bool operator<(const Key& o) const { return v < o.v; }
  bool operator==(const Key& o) const { return v == o.v; }
  bool operator!=(const Key& o) const { return v != o.v; }
};
int Key::mode = 0;
namespace std {
template <>
struct hash<Key> {
  size_t operator()(const Key& k) const noexcept {
    switch (Key::mode) {
      case 0: return static_cast<size_t>(k.v);
      case 1: return 0;
      case 2: return static_cast<size_t>(k.v) % 3;
      case 3: return ~static_cast<size_t>(k.v);
      case 4: return static_cast<size_t>(k.v) * 0x9e3779b97f4a7c15ull;
      case 5: return static_cast<size_t>(-1) - (k.v % 2);
    }
    return 7;
  }
};
}  // namespace std

namespace {
using hv::H;
using symbolic::HashSet;
using symbolic::Object;
using symbolic::PartialState;
using symbolic::Proposition;
using symbolic::PropositionBase;
using symbolic::PropositionRef;
using symbolic::State;
using symbolic::UniqueVector;

std::string S(int i) { return std::to_string(i); }

// ---------------------------------------------------------------- elements
struct World {
  std::vector<std::string> preds;
  std::vector<std::unique_ptr<VAL::const_symbol>> syms;
  std::vector<Object> objs;
  std::vector<Proposition> props;
  std::vector<std::string> names;
  void Make(H& h) {
    int np = h.rng.in(1, 3), no = h.rng.in(1, 4);
    static const char* kP[] = {"on", "clear", "p", "q0", "holding"};
    static const char* kO[] = {"a", "b", "c1", "box", "z9"};
    std::vector<int> pi{0, 1, 2, 3, 4}, oi{0, 1, 2, 3, 4};
    for (int i = 4; i > 0; i--) {
      std::swap(pi[i], pi[h.rng.in(0, i)]);
      std::swap(oi[i], oi[h.rng.in(0, i)]);
    }
    for (int i = 0; i < np; i++) preds.push_back(kP[pi[i]]);
    for (int i = 0; i < no; i++) {
      syms.push_back(std::make_unique<VAL::const_symbol>(kO[oi[i]]));
      objs.emplace_back(static_cast<const VAL::pddl_type_list*>(nullptr),
                        syms.back().get());
    }
    for (auto& p : preds) {
      if (h.rng.chance(30)) Add(p, {});
      for (auto& a : objs) {
        Add(p, {a});
        for (auto& b : objs)
          if (h.rng.chance(60)) Add(p, {a, b});
      }
    }
    if (props.size() > 24) {
      props.resize(24);
      names.resize(24);
    }
  }
  void Add(const std::string& p, std::vector<Object> args) {
    props.emplace_back(p, args);
    std::string n = p + "(";
    for (size_t i = 0; i < args.size(); i++)
      n += (i ? ", " : "") + std::string(args[i].name());
    names.push_back(n + ")");
  }
};

template <typename Set>
std::vector<int> Forward(H& h, Set& s, const std::function<int(const typename std::decay<decltype(*s.begin())>::type&)>& id) {
  std::vector<int> out;
  size_t guard = 0;
  for (auto it = s.begin(); it != s.end(); ++it) {
    out.push_back(id(*it));
    h.req(++guard < 10000, "iteration does not reach end()");
  }
  return out;
}
template <typename Set>
std::vector<int> Backward(H& h, Set& s, size_t n, const std::function<int(const typename std::decay<decltype(*s.begin())>::type&)>& id) {
  std::vector<int> out;
  auto it = s.end();
  for (size_t i = 0; i < n; i++) {
    --it;
    out.push_back(id(*it));
  }
  if (n > 0) h.req(it == s.begin(), "walking back size() steps from end() does not give begin()");
  return out;
}

void CheckIter(H& h, std::vector<int> f, std::vector<int> b, const std::set<int>& m) {
  std::vector<int> fs = f;
  std::sort(fs.begin(), fs.end());
  h.req(fs == std::vector<int>(m.begin(), m.end()),
        "forward iteration does not visit each element exactly once");
  std::reverse(b.begin(), b.end());
  h.req(f == b, "backward iteration is not the reverse of forward iteration");
}

// Compare a HashSet<Key>/UniqueVector<Key> to its model.
void CheckKeys(H& h, const HashSet<Key>& s, const std::set<int>& m, int range) {
  h.req(s.size() == m.size(), "size() = " + S(s.size()) + ", expected " + S(m.size()));
  h.req(s.empty() == m.empty(), "empty() is wrong");
  for (int v = 0; v < range; v++)
    h.req(s.contains(Key{v}) == (m.count(v) > 0), "contains(" + S(v) + ") is wrong");
  auto id = [](const Key& k) { return k.v; };
  CheckIter(h, Forward(h, s, id), Backward(h, s, m.size(), id), m);
  HashSet<Key>& ms = const_cast<HashSet<Key>&>(s);
  CheckIter(h, Forward(h, ms, id), Backward(h, ms, m.size(), id), m);
}
void CheckKeys(H& h, const UniqueVector<Key>& s, const std::set<int>& m, int range) {
  h.req(s.size() == m.size(), "size() = " + S(s.size()) + ", expected " + S(m.size()));
  h.req(s.empty() == m.empty(), "empty() is wrong");
  for (int v = 0; v < range; v++)
    h.req(s.contains(Key{v}) == (m.count(v) > 0), "contains(" + S(v) + ") is wrong");
  int i = 0;
  for (int v : m) h.req(s[i++].v == v, "elements are not sorted/unique");
}

template <typename Set>
void KeyCase(H& h, const char* what) {
  Key::mode = h.rng.in(0, 5);
  int range = h.rng.in(1, h.rng.chance(20) ? 40 : 9);
  int nops = h.rng.in(0, h.rng.chance(20) ? 120 : 24);
  int pe = h.rng.in(10, 70);
  h.log(std::string(what) + "<Key>, hash mode " + S(Key::mode));
  std::set<int> m;
  Set s;
  if (h.rng.chance(30)) {
    int a = h.rng.in(0, range - 1), b = h.rng.in(0, range - 1), c = h.rng.in(0, range - 1);
    h.log("init {" + S(a) + "," + S(b) + "," + S(c) + "," + S(a) + "}");
    s = Set({Key{a}, Key{b}, Key{c}, Key{a}});
    m = {a, b, c};
    CheckKeys(h, s, m, range);
  }
  for (int k = 0; k < nops; k++) {
    int v = h.rng.in(0, range - 1);
    bool r, e;
    if (h.rng.chance(pe)) {
      h.log("erase " + S(v));
      e = m.erase(v) > 0;
      r = s.erase(Key{v});
    } else if (h.rng.chance(50)) {
      h.log("insert const& " + S(v));
      e = m.insert(v).second;
      const Key key{v};
      r = s.insert(key);
    } else {
      h.log("insert && " + S(v));
      e = m.insert(v).second;
      r = s.insert(Key{v});
    }
    h.req(r == e, "operation returned " + S(r) + ", expected " + S(e));
    CheckKeys(h, s, m, range);
    if (h.rng.chance(10)) {
      h.log("copy and continue with the copy");
      Set t = s;
      CheckKeys(h, t, m, range);
      s = std::move(t);
    }
  }
  if (m.size() >= 2) h.nontrivial(hv::Desc());
  // Another history with the same contents.
  Set t;
  std::vector<int> order(m.begin(), m.end());
  for (int i = 0; i < range; i++)
    if (!m.count(i) && h.rng.chance(50)) order.push_back(i);
  for (int i = static_cast<int>(order.size()) - 1; i > 0; i--)
    std::swap(order[i], order[h.rng.in(0, i)]);
  std::string o;
  for (int v : order) {
    t.insert(Key{v});
    o += " " + S(v);
  }
  for (int v : order)
    if (!m.count(v)) t.erase(Key{v});
  h.log("second history: insert" + o + ", then erase what the first lacks");
  CheckKeys(h, t, m, range);
  h.req(s == t && t == s && !(s != t), "same contents built differently compare unequal");
  h.req(!(s < t) && !(t < s), "equal sets are ordered by <");
  // Order laws against a third set.
  std::set<int> m3 = m;
  Set u = t;
  for (int k = h.rng.in(1, 3); k > 0; k--) {
    int v = h.rng.in(0, range - 1);
    if (m3.count(v)) {
      m3.erase(v);
      u.erase(Key{v});
    } else {
      m3.insert(v);
      u.insert(Key{v});
    }
  }
  bool eq = m3 == m;
  h.req((s == u) == eq && (u == s) == eq, "== differs from set equality");
  h.req((s != u) == !eq, "!= differs from set equality");
  h.req(static_cast<int>(s < u) + static_cast<int>(u < s) == (eq ? 0 : 1),
        "< is not total and consistent with ==");
}

// ---------------------------------------------------------------- State
void CheckState(H& h, const State& s, const std::set<int>& m, const World& w) {
  h.req(s.size() == m.size(), "State::size() = " + S(s.size()) + ", expected " + S(m.size()));
  h.req(s.empty() == m.empty(), "State::empty() is wrong");
  std::map<std::string, int> ids;
  for (size_t i = 0; i < w.names.size(); i++) ids[w.names[i]] = i;
  const size_t before = s.size();
  for (size_t i = 0; i < w.props.size(); i++) {
    h.req(s.contains(w.props[i]) == (m.count(i) > 0),
          "State::contains(" + w.names[i] + ") is wrong");
    PropositionRef ref(&w.props[i].name(), &w.props[i].arguments(),
                       std::hash<std::string>{}(w.props[i].name()));
    h.req(s.contains(ref) == (m.count(i) > 0),
          "State::contains(reference to " + w.names[i] + ") is wrong");
  }
  h.req(s.size() == before, "contains changed the state");
  auto id = [&](const Proposition& p) {
    std::string n = p.name() + "(";
    for (size_t i = 0; i < p.arguments().size(); i++)
      n += (i ? ", " : "") + p.arguments()[i].name();
    auto it = ids.find(n + ")");
    if (it == ids.end()) throw hv::Failure("iteration produced unknown proposition " + n);
    return it->second;
  };
  CheckIter(h, Forward(h, s, id), Backward(h, s, m.size(), id), m);
  State& ms = const_cast<State&>(s);
  CheckIter(h, Forward(h, ms, id), Backward(h, ms, m.size(), id), m);
  std::unordered_set<std::string> str;
  std::set<std::string> sorted;
  for (int i : m) {
    str.insert(w.names[i]);
    sorted.insert(w.names[i]);
  }
  h.req(s.Stringify() == str, "State::Stringify is not the set of contained propositions");
  std::string want = "{ ", d;
  for (auto& x : sorted) {
    want += d + x;
    d = ", ";
  }
  want += " }";
  std::stringstream ss;
  ss << s;
  h.req(ss.str() == want, "printed form is " + ss.str() + ", expected " + want);
  h.req(symbolic::Stringify(s) == sorted, "Stringify(State) is wrong");
}

void StateCase(H& h) {
  World w;
  w.Make(h);
  int n = w.props.size();
  h.log("State over " + S(n) + " propositions");
  std::set<int> m;
  State s;
  if (n >= 3 && h.rng.chance(30)) {
    s = State{w.props[0], w.props[1], w.props[0]};
    m = {0, 1};
    h.log("init {" + w.names[0] + "; " + w.names[1] + "; " + w.names[0] + "}");
  }
  int nops = h.rng.in(0, 40), pe = h.rng.in(10, 60);
  for (int k = 0; k < nops; k++) {
    int i = h.rng.in(0, n - 1);
    const Proposition& p = w.props[i];
    PropositionRef ref(&p.name(), &p.arguments(), std::hash<std::string>{}(p.name()));
    bool r, e;
    if (h.rng.chance(pe)) {
      e = m.erase(i) > 0;
      bool by_ref = h.rng.chance(50);
      h.log(std::string("erase ") + (by_ref ? "(ref) " : "") + w.names[i]);
      r = by_ref ? s.erase(ref) : s.erase(p);
    } else {
      e = m.insert(i).second;
      switch (h.rng.in(0, 5)) {
        case 0: h.log("insert " + w.names[i]); r = s.insert(p); break;
        case 1: h.log("insert(ref) " + w.names[i]); r = s.insert(ref); break;
        case 2: h.log("insert(&&) " + w.names[i]); r = s.insert(Proposition(p)); break;
        case 3: h.log("emplace " + w.names[i]); r = s.emplace(p.name(), p.arguments()); break;
        case 4: h.log("emplace(prop) " + w.names[i]); r = s.emplace(p); break;
        default: {
          // Range insert of up to 4 propositions.
          std::vector<Proposition> range{p};
          std::string l = "insert range " + w.names[i];
          for (int q = h.rng.in(0, 3); q > 0; q--) {
            int j = h.rng.in(0, n - 1);
            range.push_back(w.props[j]);
            e |= m.insert(j).second;
            l += "; " + w.names[j];
          }
          h.log(l);
          r = s.insert(range.begin(), range.end());
        }
      }
    }
    h.req(r == e, "operation returned " + S(r) + ", expected " + S(e));
    if (nops < 12 || k % 5 == 0 || k == nops - 1) CheckState(h, s, m, w);
    if (h.rng.chance(8)) {
      h.log("copy; edit the copy; original must keep its contents");
      State t = s;
      t.insert(w.props[h.rng.in(0, n - 1)]);
      t.erase(w.props[h.rng.in(0, n - 1)]);
      CheckState(h, s, m, w);
      State u = std::move(t);
      s = State(s);
    }
  }
  CheckState(h, s, m, w);
  if (m.size() >= 2) h.nontrivial(hv::Desc());

  // Same contents, different history.
  std::vector<int> order(m.begin(), m.end());
  for (int i = 0; i < n; i++)
    if (!m.count(i) && h.rng.chance(50)) order.push_back(i);
  for (int i = static_cast<int>(order.size()) - 1; i > 0; i--) std::swap(order[i], order[h.rng.in(0, i)]);
  State t;
  for (int i : order) t.insert(w.props[i]);
  for (int i : order)
    if (!m.count(i)) t.erase(w.props[i]);
  h.log("second history with the same contents");
  CheckState(h, t, m, w);
  h.req(s == t && t == s && !(s != t), "same contents built differently compare unequal");
  h.req(!(s < t) && !(t < s), "equal states are ordered by <");
  h.req(std::hash<State>{}(s) == std::hash<State>{}(t), "equal states have different hashes");

  // Total order on several states.
  std::vector<State> v{s, t};
  std::vector<std::set<int>> mv{m, m};
  for (int k = 0; k < 4; k++) {
    std::set<int> mm = h.rng.chance(50) ? m : std::set<int>();
    for (int q = h.rng.in(0, 4); q > 0; q--) {
      int i = h.rng.in(0, n - 1);
      if (!mm.insert(i).second) mm.erase(i);
    }
    State x;
    for (int i : mm) x.insert(w.props[i]);
    v.push_back(x);
    mv.push_back(mm);
  }
  for (size_t a = 0; a < v.size(); a++)
    for (size_t b = 0; b < v.size(); b++) {
      bool eq = mv[a] == mv[b];
      h.req((v[a] == v[b]) == eq, "State == differs from set equality");
      h.req((v[a] != v[b]) == !eq, "State != differs from set equality");
      h.req(static_cast<int>(v[a] < v[b]) + static_cast<int>(v[b] < v[a]) == (eq ? 0 : 1),
            "State < is not total and consistent with ==");
      for (size_t c = 0; c < v.size(); c++)
        if (v[a] < v[b] && v[b] < v[c]) h.req(v[a] < v[c], "State < is not transitive");
    }
}

// ---------------------------------------------------------------- PartialState
void CheckPartial(H& h, const PartialState& s, const std::map<int, bool>& m, const World& w) {
  std::set<int> pos, neg;
  for (auto& kv : m) (kv.second ? pos : neg).insert(kv.first);
  CheckState(h, s.pos(), pos, w);
  CheckState(h, s.neg(), neg, w);
  h.req(s.size() == m.size() && s.empty() == m.empty(), "PartialState size/empty wrong");
  h.req(s.IsConsistent(), "IsConsistent() is false on disjoint sets");
  for (size_t i = 0; i < w.props.size(); i++) {
    auto it = m.find(i);
    for (int which = 0; which < 2; which++) {
      int got;  // 0 false, 1 true, 2 unknown
      try {
        got = which ? s.does_not_contain(w.props[i]) : s.contains(w.props[i]);
      } catch (const PartialState::UnknownEvaluation& e) {
        got = 2;
        h.req(e.proposition() == w.props[i] && e.what() == w.names[i],
              "UnknownEvaluation names another proposition");
      }
      int want = it == m.end() ? 2 : (it->second != (which == 1));
      h.req(got == want, std::string(which ? "does_not_contain(" : "contains(") +
                             w.names[i] + ") answered " + S(got) + ", expected " + S(want));
    }
  }
  auto str = s.Stringify();
  std::unordered_set<std::string> sp, sn;
  for (int i : pos) sp.insert(w.names[i]);
  for (int i : neg) sn.insert(w.names[i]);
  h.req(str.first == sp && str.second == sn, "PartialState::Stringify is wrong");
}

PartialState Build(const std::map<int, bool>& m, const World& w, bool reversed) {
  PartialState s;
  std::vector<std::pair<int, bool>> v(m.begin(), m.end());
  if (reversed) std::reverse(v.begin(), v.end());
  for (auto& kv : v) kv.second ? s.insert(w.props[kv.first]) : s.erase(w.props[kv.first]);
  return s;
}

void PartialCase(H& h) {
  World w;
  w.Make(h);
  int n = w.props.size();
  h.log("PartialState over " + S(n) + " propositions");
  PartialState s;
  std::map<int, bool> m;
  if (h.rng.chance(40)) {
    State a, b;
    for (int i = 0; i < n; i++) {
      int r = h.rng.in(0, 3);
      if (r == 0) {
        a.insert(w.props[i]);
        m[i] = true;
      } else if (r == 1) {
        b.insert(w.props[i]);
        m[i] = false;
      }
    }
    if (h.rng.chance(50)) {
      s = PartialState(a, b);
    } else {
      s = PartialState(std::move(a), std::move(b));
    }
    h.log("constructed with " + S(m.size()) + " known propositions");
    CheckPartial(h, s, m, w);
  }
  int nops = h.rng.in(0, 25);
  for (int k = 0; k < nops; k++) {
    int i = h.rng.in(0, n - 1);
    bool val = h.rng.chance(50);
    int want = !m.count(i) ? 1 : (m[i] == val ? 0 : 2);
    m[i] = val;
    int got;
    const Proposition& p = w.props[i];
    PropositionRef ref(&p.name(), &p.arguments(), std::hash<std::string>{}(p.name()));
    int form = h.rng.in(0, 3);
    h.log(std::string(val ? "insert " : "erase ") + w.names[i] + " form " + S(form));
    if (val) {
      got = form == 0 ? s.insert(p) : form == 1 ? s.insert(ref) : form == 2 ? s.insert(Proposition(p)) : s.emplace(p.name(), p.arguments());
    } else {
      got = form == 0 ? s.erase(p) : form == 1 ? s.erase(ref) : s.erase(Proposition(p));
    }
    h.req(got == want, "edit returned " + S(got) + ", expected " + S(want));
    if (nops < 10 || k % 6 == 0 || k == nops - 1) CheckPartial(h, s, m, w);
  }
  CheckPartial(h, s, m, w);
  if (m.size() >= 2) h.nontrivial(hv::Desc());
  // Consistency test on overlapping sets.
  {
    State a = s.pos(), b = s.neg();
    bool overlap = false;
    for (int q = h.rng.in(0, 2); q > 0; q--) {
      int i = h.rng.in(0, n - 1);
      a.insert(w.props[i]);
      if (h.rng.chance(60)) b.insert(w.props[i]);
    }
    for (auto& p : w.props) overlap |= a.contains(p) && b.contains(p);
    h.req(PartialState(a, b).IsConsistent() == !overlap, "IsConsistent() is wrong");
  }
  // Equality and order.
  h.req(s == Build(m, w, true) && !(s != Build(m, w, false)), "same contents compare unequal");
  std::vector<PartialState> v;
  std::vector<std::map<int, bool>> mv;
  for (int k = 0; k < 4; k++) {
    std::map<int, bool> mm = h.rng.chance(60) ? m : std::map<int, bool>();
    for (int q = h.rng.in(0, 3); q > 0; q--) {
      int i = h.rng.in(0, n - 1);
      if (mm.count(i) && h.rng.chance(40)) {
        mm.erase(i);
      } else {
        mm[i] = h.rng.chance(50);
      }
    }
    v.push_back(Build(mm, w, h.rng.chance(50)));
    mv.push_back(mm);
  }
  v.push_back(s);
  mv.push_back(m);
  for (size_t a = 0; a < v.size(); a++)
    for (size_t b = 0; b < v.size(); b++) {
      bool eq = mv[a] == mv[b];
      h.req((v[a] == v[b]) == eq, "PartialState == is wrong");
      h.req((v[a] != v[b]) == !eq, "PartialState != is wrong");
      h.req(static_cast<int>(v[a] < v[b]) + static_cast<int>(v[b] < v[a]) == (eq ? 0 : 1),
            "PartialState < is not total and consistent with ==");
      for (size_t c = 0; c < v.size(); c++)
        if (v[a] < v[b] && v[b] < v[c]) h.req(v[a] < v[c], "PartialState < is not transitive");
    }
}

void Run(H& h) {
  switch (h.index % 6) {
    case 0: KeyCase<HashSet<Key>>(h, "HashSet"); break;
    case 1: KeyCase<UniqueVector<Key>>(h, "UniqueVector"); break;
    case 2:
    case 3: StateCase(h); break;
    default:
#ifdef C04
      PartialCase(h);
#else
      h.index % 2 ? PartialCase(h) : KeyCase<HashSet<Key>>(h, "HashSet");
#endif
  }
}
}  // namespace

int main(int argc, char** argv) { return hv::Main(argc, argv, Run); }
