// Witnesses of the known findings.  `h_known NAME` exits 1 while the finding is
// still present and 0 once the code behaves as the property says.
#include <iostream>

#include "domain.h"

using symbolic::DerivedPredicate;
using symbolic::PartialState;
using symbolic::Pddl;
using symbolic::State;
using symbolic::StateIndex;

extern "C" const char* __asan_default_options();

namespace {

std::unique_ptr<Pddl> Text(const std::string& body, const std::string& objects, const std::string& init,
                           const std::string& goal) {
  char path[] = "/tmp/hvknownXXXXXX";
  int fd = mkstemp(path);
  std::string t = "(define (domain d)\n" + body + ")\n";
  if (fd < 0 || write(fd, t.data(), t.size()) < 0) throw std::logic_error("scratch file");
  close(fd);
  std::unique_ptr<Pddl> p;
  try {
    p = std::make_unique<Pddl>(path,
                               "(define (problem p) (:domain d) (:objects " + objects + ") (:init " + init +
                                   ") (:goal " + goal + "))",
                               false);
  } catch (...) {
    unlink(path);
    throw;
  }
  unlink(path);
  return p;
}

bool C07Nullary() {
  auto p = Text("(:predicates (done) (q ?a - object))", "a - object", "(done)", "(done)");
  StateIndex idx(p->predicates());
  State s;
  s.emplace(*p, "done()");
  try {
    return idx.size() == 2 && idx.GetState(idx.GetIndexedState(s)) == s;
  } catch (const std::exception&) {
    return false;
  }
}
bool C09EmptyForall() {
  auto p = Text("(:predicates (q ?a - object))", "a - object", "", "(forall () (q a))");
  return !p->goal()(State());
}
bool C09Capture() {
  // Variable ?a and constant a: VAL names variables without the question mark.
  auto p = Text("(:constants a - object) (:predicates (q ?x - object)) (:action act :parameters (?a - object) "
                ":precondition (q a) :effect (and))",
                "b - object", "", "(q a)");
  State s;
  s.emplace(*p, "q(a)");
  return p->IsValidAction(s, "act(b)");
}
bool C10EmptyType() {
  auto p = Text("(:types t - object) (:predicates (q ?a - object))", "a - object", "", "(not (t a))");
  State all_neg;
  all_neg.emplace(*p, "q(a)");
  return p->goal()(PartialState(State(), all_neg)).has_value();
}
bool C12FreeParam() {
  auto p = Text("(:predicates (q ?a - object) (r ?a - object)) "
                "(:axiom :vars (?x - object ?y - object) :context (q ?x) :implies (r ?y)) "
                "(:action act :parameters (?z - object) :precondition (and) :effect (q ?z))",
                "a - object b - object", "", "(q a)");
  State n = p->NextState(State(), "act(a)");
  for (const symbolic::Proposition& q : n)
    for (const symbolic::Object& o : q.arguments())
      if (o.name() != "a" && o.name() != "b") return false;
  return true;
}
bool C12NullaryAxiom() {
  auto p = Text("(:predicates (q) (r ?a - object)) (:axiom :vars () :context (q) :implies (r a))", "a - object", "",
                "(q)");
  State s;
  s.emplace(*p, "q()");
  return !p->IsValidState(s);
}
bool C13Nullary() {
  auto p = Text("(:predicates (q ?a - object) (any)) (:derived (any) (exists (?x - object) (q ?x)))", "a - object",
                "", "(any)");
  State s;
  s.emplace(*p, "q(a)");
  return p->DerivedState(s).size() == 2;
}
bool C18Nullary() {
  auto p = Text("(:predicates (q ?a - object)) (:action noop :parameters () :precondition (and) :effect (q a))",
                "a - object", "", "(q a)");
  return p->ListValidActions(State()).size() == 1;
}

}  // namespace

int main(int argc, char** argv) {
  const std::map<std::string, bool (*)()> kWitness = {
      {"C07-nullary-predicate", C07Nullary},   {"C09-empty-forall", C09EmptyForall},
      {"C09-variable-named-like-constant", C09Capture}, {"C10-uninhabited-type", C10EmptyType},
      {"C12-parameter-not-in-context", C12FreeParam}, {"C12-axiom-without-parameters", C12NullaryAxiom},
      {"C13-nullary-derived", C13Nullary},     {"C18-nullary-action", C18Nullary}};
  if (argc < 2) {
    int rc = 0;
    for (auto& w : kWitness) std::cout << w.first << " " << (w.second() ? "absent" : "present") << std::endl;
    return rc;
  }
  auto it = kWitness.find(argv[1]);
  if (it == kWitness.end()) return 2;
  return it->second() ? 0 : 1;
}
