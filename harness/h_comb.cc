// C05: CombinationGenerator against a directly enumerated Cartesian product.
#include "common.h"
#include "symbolic/utils/combination_generator.h"

namespace {
using hv::H;
std::string S(long i) { return std::to_string(i); }
using Combo = std::vector<int>;
std::string Str(const Combo& c) {
  std::string s = "(";
  for (int x : c) s += " " + S(x);
  return s + " )";
}

template <typename ContainerT, typename It, typename Gen>
void Walk(H& h, It it, It end, Gen& gen, const std::vector<Combo>& want, int pos, const char* what,
          bool reverse) {
  // Random walk over positions pos in [-k, n + k]; in reverse, position i
  // denotes element n - 1 - i.
  const int n = want.size();
  auto el = [&](int i) -> const Combo& { return want[reverse ? n - 1 - i : i]; };
  auto check = [&] {
    if (pos >= 0 && pos < n) {
      h.req(*it == el(pos), std::string(what) + ": at position " + S(pos) + " got " + Str(*it) +
                                ", expected " + Str(el(pos)));
      h.req(it->size() == el(pos).size(), "operator-> is wrong");
    }
    h.req(end - it == n - pos, std::string(what) + ": end - it is " + S(end - it) + ", expected " + S(n - pos));
    h.req((it == end) == (pos == n) && (it != end) == (pos != n), std::string(what) + ": comparison with end");
    h.req((it < end) == (pos < n) && (it > end) == (pos > n) && (it <= end) == (pos <= n) &&
              (it >= end) == (pos >= n),
          std::string(what) + ": ordering against end");
  };
  check();
  for (int k = h.rng.in(1, 14); k > 0; k--) {
    int to;
    switch (h.rng.in(0, 9)) {
      case 0: to = n; break;
      case 1: to = n - 1; break;
      case 2: to = 0; break;
      case 3: to = h.rng.in(-3, n + 3); break;
      default: to = h.rng.in(0, n);
    }
    int d = to - pos;
    switch (h.rng.in(0, 7)) {
      case 0: h.log(S(pos) + " ++"); ++it; to = pos + 1; break;
      case 1: h.log(S(pos) + " --"); --it; to = pos - 1; break;
      case 2: {
        h.log(S(pos) + " post++");
        It old = it++;
        if (pos >= 0 && pos < n) h.req(*old == el(pos), "post-increment returns another element");
        to = pos + 1;
        break;
      }
      case 3: {
        h.log(S(pos) + " post--");
        It old = it--;
        if (pos >= 0 && pos < n) h.req(*old == el(pos), "post-decrement returns another element");
        to = pos - 1;
        break;
      }
      case 4: h.log(S(pos) + " += " + S(d)); it += d; break;
      case 5: h.log(S(pos) + " -= " + S(-d)); it -= -d; break;
      case 6: h.log(S(pos) + " = it + " + S(d)); it = h.rng.chance(50) ? it + d : d + it; break;
      case 7: h.log(S(pos) + " = it - " + S(-d)); it = it - (-d); break;
    }
    pos = to;
    if (pos < -4 || pos > n + 4) return;
    check();
    if (n > 0) {
      int j = h.rng.in(0, n - 1);
      h.req(it[j - pos] == el(j), std::string(what) + ": it[" + S(j - pos) + "] from position " + S(pos));
    }
  }
}

template <typename ContainerT>
void Case(H& h) {
  int k = h.rng.in(0, 4);
  if (h.index < 40) k = h.index % 5;
  std::vector<std::vector<int>> opts;
  bool distinct = h.rng.chance(80), empty = k > 0 && h.rng.chance(5);
  std::string d = "options";
  size_t total = k == 0 ? 0 : 1;
  for (int i = 0; i < k; i++) {
    int n = h.rng.chance(35) ? 1 : h.rng.in(1, k > 3 ? 3 : 5);
    std::vector<int> o;
    for (int j = 0; j < n; j++) o.push_back(distinct ? 10 * (i + 1) + (n - j) : h.rng.in(0, 2));
    opts.push_back(o);
    total *= n;
    d += " " + Str(o);
  }
  if (empty) {
    int e = h.rng.in(0, k - 1);
    opts[e].clear();
    d += " with option " + S(e) + " empty";
  }
  h.log(d);
  std::vector<ContainerT*> ptrs;
  for (auto& o : opts) ptrs.push_back(&o);
  if (empty) {
    bool threw = false;
    try {
      symbolic::CombinationGenerator<ContainerT> g(ptrs);
    } catch (const std::invalid_argument&) {
      threw = true;
    }
    h.req(threw, "an empty option was accepted");
    return;
  }
  symbolic::CombinationGenerator<ContainerT> gen(ptrs);
  if (h.rng.chance(30)) {
    symbolic::CombinationGenerator<ContainerT> copy(gen);
    gen = copy;
  }
  const auto& cgen = gen;

  // Reference enumeration: rightmost digit fastest.
  std::vector<Combo> want;
  if (k > 0) {
    std::vector<size_t> digit(k, 0);
    for (bool more = true; more;) {
      Combo c;
      for (int i = 0; i < k; i++) c.push_back(opts[i][digit[i]]);
      want.push_back(c);
      more = false;
      for (int i = k - 1; i >= 0; i--) {
        if (++digit[i] < opts[i].size()) {
          more = true;
          break;
        }
        digit[i] = 0;
      }
    }
  }
  h.req(gen.size() == total && want.size() == total, "size() is " + S(gen.size()) + ", expected " + S(total));
  h.req(gen.empty() == (total == 0), "empty() is wrong");
  auto list = [&](auto b, auto e, bool rev, const char* what) {
    std::vector<Combo> got;
    for (auto it = b; it != e; ++it) {
      got.push_back(*it);
      h.req(got.size() <= want.size(), std::string(what) + " yields too many combinations");
    }
    if (rev) std::reverse(got.begin(), got.end());
    h.req(got.size() == want.size(), std::string(what) + " yields too few combinations");
    for (size_t i = 0; i < want.size(); i++)
      h.req(got[i] == want[i], std::string(what) + " is wrong at " + S(i) + ": got " + Str(got[i]) + ", expected " + Str(want[i]));
  };
  list(gen.begin(), gen.end(), false, "iteration");
  list(cgen.begin(), cgen.end(), false, "const iteration");
  list(gen.cbegin(), gen.cend(), false, "c-iteration");
  list(gen.rbegin(), gen.rend(), true, "reverse iteration");
  list(cgen.rbegin(), cgen.rend(), true, "const reverse iteration");
  list(gen.crbegin(), gen.crend(), true, "c-reverse iteration");
  const int n = total;
  for (int i = -n - 2; i <= n + 2; i++) {
    bool ok = i >= -n && i < n;
    bool threw = false;
    Combo got;
    try {
      got = gen.at(i);
    } catch (const std::out_of_range&) {
      threw = true;
    }
    h.req(threw == !ok, "at(" + S(i) + ") " + (threw ? "was rejected" : "was not rejected"));
    if (ok) h.req(got == want[i < 0 ? i + n : i], "at(" + S(i) + ") is " + Str(got));
    if (i >= 0 && i < n) h.req(gen[i] == want[i], "[" + S(i) + "] is " + Str(gen[i]));
  }
  if (n > 0) {
    for (int i = 0; i < n; i++) {
      int f = gen.find(want[i]);
      if (distinct) h.req(f == i, "find" + Str(want[i]) + " is " + S(f) + ", expected " + S(i));
      h.req(f >= 0 && f < n && want[f] == want[i], "find returns the position of another combination");
    }
    Combo bad = want[h.rng.in(0, n - 1)];
    bad[h.rng.in(0, k - 1)] = 999;
    bool threw = false;
    try {
      gen.find(bad);
    } catch (const std::out_of_range&) {
      threw = true;
    }
    h.req(threw, "find accepted an unknown element");
  }
  if (n > 1) h.nontrivial(d);
  for (int r = 0; r < 4; r++) {
    int from = h.rng.chance(30) ? n : h.rng.in(0, n);
    h.log("walk from " + S(from));
    if (from == 0) {
      Walk<ContainerT>(h, gen.begin(), gen.end(), gen, want, 0, "iterator", false);
    } else if (from == n) {
      Walk<ContainerT>(h, cgen.end(), cgen.end(), gen, want, n, "iterator", false);
    } else {
      Walk<ContainerT>(h, gen.begin() + from, gen.end(), gen, want, from, "iterator", false);
    }
#ifdef REVERSE_ARITH
    if (n > 0) {
      h.log("reverse walk");
      if (from % 2) {
        Walk<ContainerT>(h, gen.rbegin(), gen.rend(), gen, want, 0, "reverse iterator", true);
      } else {
        Walk<ContainerT>(h, gen.rend(), gen.rend(), gen, want, n, "reverse iterator", true);
      }
    }
#endif
  }
}

void Run(H& h) { h.rng.chance(60) ? Case<const std::vector<int>>(h) : Case<std::vector<int>>(h); }
}  // namespace

int main(int argc, char** argv) { return hv::Main(argc, argv, Run); }
