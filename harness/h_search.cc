// C16/C17: graph searches against direct path enumeration on random graphs.
#include "common.h"
#include <thread>

#include "symbolic/planning/a_star.h"
#include "symbolic/planning/breadth_first_search.h"
#include "symbolic/planning/depth_first_search.h"

namespace {
using hv::H;
std::string S(long i) { return std::to_string(i); }

struct Graph;
// A node whose identity is owned by a string, so that using a moved-from node
// is noticed.
struct Node {
  const Graph* g = nullptr;
  std::string id;
  explicit operator bool() const;
  std::vector<Node>::const_iterator begin() const;
  std::vector<Node>::const_iterator end() const;
  bool operator==(const Node& o) const { return id == o.id; }
};
std::ostream& operator<<(std::ostream& os, const Node& n) { return os << n.id; }
struct Graph {
  mutable int stall_at = -1;  // the expansion (counted down) that takes long
  std::vector<std::vector<Node>> kids;
  std::vector<bool> goal;
  std::vector<int> cost;
  int of(const Node& n) const {
    if (n.g != this || n.id.empty()) throw hv::Failure("a moved-from or default node was used");
    return std::stoi(n.id.substr(30));
  }
};
Node::operator bool() const { return g->goal[g->of(*this)]; }
std::vector<Node>::const_iterator Node::begin() const {
  if (g->stall_at >= 0 && g->stall_at-- == 0) std::this_thread::sleep_for(std::chrono::microseconds(2500));
  return g->kids[g->of(*this)].begin();
}
std::vector<Node>::const_iterator Node::end() const { return g->kids[g->of(*this)].end(); }

using Path = std::vector<int>;
std::string Str(const Path& p) {
  std::string s;
  for (int x : p) s += (s.empty() ? "" : "-") + S(x);
  return s;
}

struct Compare {
  const Graph* g;
  // priority_queue pops the greatest: cheapest total cost first.
  int key(const symbolic::SearchNode<Node>& n) const {
    int c = g->cost[g->of(n.node)];
    for (auto& a : n.ancestors) c += g->cost[g->of(a)];
    return c;
  }
  bool operator()(const symbolic::SearchNode<Node>& a, const symbolic::SearchNode<Node>& b) const {
    return key(a) > key(b);
  }
};

void Enumerate(const Graph& g, Path* p, size_t max_depth, std::vector<Path>* out, long* work) {
  if (++*work > 4000) return;
  if (g.goal[p->back()]) {
    out->push_back(*p);
    return;
  }
  if (p->size() > max_depth) return;
  for (auto& c : g.kids[p->back()]) {
    p->push_back(g.of(c));
    Enumerate(g, p, max_depth, out, work);
    p->pop_back();
  }
}

template <typename Search>
std::vector<Path> Collect(H& h, const Graph& g, Search& s, size_t limit, const char* what) {
  std::vector<Path> got;
  auto end = s.end();
  for (auto it = s.begin(); it != end; ++it) {
    Path p;
    for (auto& n : *it) p.push_back(g.of(n));
    got.push_back(p);
    h.req(!(it == end), "== and != disagree");
    h.req(got.size() <= limit, std::string(what) + " yields more paths than there are");
  }
  // Stays at the end.
  return got;
}

void Run(H& h) {
  Graph g;
  int n = h.rng.in(1, 6);
  g.kids.resize(n);
  std::string d = "graph";
  for (int i = 0; i < n; i++) {
    g.goal.push_back(h.rng.chance(h.index % 3 ? 30 : 12));
    g.cost.push_back(h.rng.in(0, 3));
  }
  auto mk = [&](int i) { return Node{&g, std::string(30, 'x') + S(i)}; };
  for (int i = 0; i < n; i++) {
    int k = h.rng.in(0, 3);
    d += " " + S(i) + (g.goal[i] ? "*" : "") + "[" + S(g.cost[i]) + "]:";
    for (int j = 0; j < k; j++) {
      int t = h.rng.in(0, n - 1);
      g.kids[i].push_back(mk(t));
      d += (j ? "," : "") + S(t);
    }
  }
  size_t depth = h.rng.in(0, 5);
  h.log(d + "; depth limit " + S(depth));
  Node root = mk(0);
  std::vector<Path> want;
  Path p{0};
  long work = 0;
  Enumerate(g, &p, depth, &want, &work);
  if (work > 4000) return;
  std::vector<Path> sorted = want;
  std::sort(sorted.begin(), sorted.end());
  auto same = [&](std::vector<Path> got, const char* what) {
    std::sort(got.begin(), got.end());
    std::string a, b;
    for (auto& x : got) a += " " + Str(x);
    for (auto& x : sorted) b += " " + Str(x);
    h.req(got == sorted, std::string(what) + " yields" + a + "; expected" + b);
  };
  if (want.size() > 1) h.nontrivial(d + S(depth));
#ifndef C17
  {
    symbolic::BreadthFirstSearch<Node> bfs(root, depth);
    auto got = Collect(h, g, bfs, want.size(), "BFS");
    same(got, "BFS");
    for (size_t i = 1; i < got.size(); i++)
      h.req(got[i - 1].size() <= got[i].size(), "BFS yields a longer path before a shorter one");
    // Second iteration over the same search object agrees.
    h.req(Collect(h, g, bfs, want.size(), "BFS") == got, "second BFS iteration differs");
    // The iterator is an input iterator whose copy is independent.
    auto it = bfs.begin();
    if (it != bfs.end()) {
      auto copy = it;
      ++it;
      Path c;
      for (auto& x : *copy) c.push_back(g.of(x));
      h.req(c == got[0], "advancing a BFS iterator changed a copy of it");
    }
    // A generous timeout changes nothing; a tiny one only truncates.
    symbolic::BreadthFirstSearch<Node> slow(root, depth, false, std::chrono::microseconds(60000000));
    h.req(Collect(h, g, slow, want.size(), "BFS with timeout") == got, "a generous timeout changes the result");
    symbolic::BreadthFirstSearch<Node> fast(root, depth, false, std::chrono::microseconds(1));
    auto part = Collect(h, g, fast, want.size(), "BFS with tiny timeout");
    h.req(part.size() <= got.size() && std::equal(part.begin(), part.end(), got.begin()),
          "BFS with a tiny timeout yields a wrong path");
    // A timeout that strikes between any two expansions only truncates.
    if (want.size() > 1 && h.index % 4 == 0) {
      for (int k = 0; k < 8; k++) {
        symbolic::BreadthFirstSearch<Node> late(root, depth, false, std::chrono::microseconds(2000));
        g.stall_at = k;
        auto part = Collect(h, g, late, want.size(), "BFS with a timeout");
        bool used = g.stall_at < 0;
        g.stall_at = -1;
        h.req(part.size() <= got.size() && std::equal(part.begin(), part.end(), got.begin()),
              "BFS whose timeout strikes after expansion " + S(k) + " yields a wrong path");
        if (!used) break;
      }
    }
    if (h.index % 16 == 0) {
      std::stringstream sink;
      auto* old = std::cout.rdbuf(sink.rdbuf());
      symbolic::BreadthFirstSearch<Node> verbose(root, depth, true);
      std::vector<Path> v;
      try {
        v = Collect(h, g, verbose, want.size(), "verbose BFS");
      } catch (...) {
        std::cout.rdbuf(old);
        throw;
      }
      std::cout.rdbuf(old);
      h.req(v == got, "verbose output changes the result");
    }
  }
#endif
#ifndef C16
  {
    symbolic::DepthFirstSearch<Node> dfs(root, depth);
    auto got = Collect(h, g, dfs, want.size(), "DFS");
    same(got, "DFS");
    // Most recently discovered first: last child first, whole subtree at once.
    std::vector<Path> order;
    std::vector<Path> open{{0}};
    while (!open.empty()) {
      Path q = open.back();
      open.pop_back();
      if (g.goal[q.back()]) {
        order.push_back(q);
        continue;
      }
      if (q.size() > depth) continue;
      for (auto& c : g.kids[q.back()]) {
        Path r = q;
        r.push_back(g.of(c));
        open.push_back(r);
      }
    }
    h.req(got == order, "DFS does not expand the most recently discovered node first");
    h.req(Collect(h, g, dfs, want.size(), "DFS") == got, "second DFS iteration differs");
  }
  {
    Compare cmp{&g};
    symbolic::AStar<Node, Compare> astar(cmp, root, depth);
    auto got = Collect(h, g, astar, want.size(), "A*");
    same(got, "A*");
    // Costs are non-negative, so goals come out in order of total cost.
    int last = -1;
    for (auto& q : got) {
      int c = 0;
      for (int x : q) c += g.cost[x];
      h.req(c >= last, "A* yields a dearer path before a cheaper one");
      last = c;
    }
    h.req(Collect(h, g, astar, want.size(), "A*") == got, "second A* iteration differs");
  }
#endif
}
}  // namespace

int main(int argc, char** argv) { return hv::Main(argc, argv, Run); }
