// Stand-in for VAL's parse tree (VAL itself is an absent submodule).
//
// Only the part of the interface that /repo uses is declared, with the same
// names, the same inheritance and the same ownership-free pointer structure.
// val_stub.cc fills it from PDDL text.
#ifndef VERIF_STUB_VAL_PTREE_H_
#define VERIF_STUB_VAL_PTREE_H_

#include <iostream>
#include <list>
#include <map>
#include <string>

// VAL's header leaks this name globally and formula.cc relies on it.
using std::ostream;

extern int line_no;

namespace VAL {

class symbol {
 public:
  explicit symbol(const std::string& nm) : name(nm) {}
  virtual ~symbol() = default;
  std::string getName() const { return name; }
  const std::string& getNameRef() const { return name; }

 protected:
  std::string name;
};

class pred_symbol : public symbol {
 public:
  using symbol::symbol;
};
class operator_symbol : public symbol {
 public:
  using symbol::symbol;
};

class pddl_type;
template <typename T>
class typed_symbol_list;
using pddl_type_list = class typed_symbol_list<pddl_type>;

class pddl_typed_symbol : public symbol {
 public:
  using symbol::symbol;
  pddl_type* type = nullptr;
  pddl_type_list* either_types = nullptr;
};
class parameter_symbol : public pddl_typed_symbol {
 public:
  using pddl_typed_symbol::pddl_typed_symbol;
};
class var_symbol : public parameter_symbol {
 public:
  using parameter_symbol::parameter_symbol;
};
class const_symbol : public parameter_symbol {
 public:
  using parameter_symbol::parameter_symbol;
};
class pddl_type : public pddl_typed_symbol {
 public:
  using pddl_typed_symbol::pddl_typed_symbol;
};

template <typename T>
class typed_symbol_list : public std::list<T*> {};
using var_symbol_list = typed_symbol_list<var_symbol>;
using const_symbol_list = typed_symbol_list<const_symbol>;
using parameter_symbol_list = typed_symbol_list<parameter_symbol>;

class proposition {
 public:
  pred_symbol* head = nullptr;
  parameter_symbol_list* args = nullptr;
};

class goal {
 public:
  virtual ~goal() = default;
};
class goal_list : public std::list<goal*> {};

class simple_goal : public goal {
 public:
  explicit simple_goal(proposition* p) : prop(p) {}
  const proposition* getProp() const { return prop; }

 private:
  proposition* prop;
};
class conj_goal : public goal {
 public:
  explicit conj_goal(goal_list* g) : goals(g) {}
  const goal_list* getGoals() const { return goals; }

 private:
  goal_list* goals;
};
class disj_goal : public goal {
 public:
  explicit disj_goal(goal_list* g) : goals(g) {}
  const goal_list* getGoals() const { return goals; }

 private:
  goal_list* goals;
};
class neg_goal : public goal {
 public:
  explicit neg_goal(goal* g) : gl(g) {}
  const goal* getGoal() const { return gl; }

 private:
  goal* gl;
};
enum quantifier { E_FORALL, E_EXISTS };
class qfied_goal : public goal {
 public:
  qfied_goal(quantifier q, var_symbol_list* v, goal* g)
      : qfier(q), vars(v), gl(g) {}
  quantifier getQuantifier() const { return qfier; }
  const var_symbol_list* getVars() const { return vars; }
  const goal* getGoal() const { return gl; }

 private:
  quantifier qfier;
  var_symbol_list* vars;
  goal* gl;
};
class con_goal : public goal {};
class constraint_goal : public con_goal {};
class preference : public con_goal {};
class imply_goal : public goal {};
class timed_goal : public goal {};
class comparison : public goal {};

class effect_lists;
class simple_effect {
 public:
  explicit simple_effect(proposition* p) : prop(p) {}
  proposition* prop;
};
class forall_effect {
 public:
  forall_effect(effect_lists* e, var_symbol_list* v) : eff(e), vars(v) {}
  const var_symbol_list* getVarsList() const { return vars; }
  const effect_lists* getEffects() const { return eff; }

 private:
  effect_lists* eff;
  var_symbol_list* vars;
};
class cond_effect {
 public:
  cond_effect(goal* g, effect_lists* e) : cond(g), eff(e) {}
  const goal* getCondition() const { return cond; }
  const effect_lists* getEffects() const { return eff; }

 private:
  goal* cond;
  effect_lists* eff;
};
template <typename T>
class pc_list : public std::list<T> {};
class effect_lists {
 public:
  pc_list<simple_effect*> add_effects;
  pc_list<simple_effect*> del_effects;
  pc_list<forall_effect*> forall_effects;
  pc_list<cond_effect*> cond_effects;
};

class operator_ {
 public:
  virtual ~operator_() = default;
  operator_symbol* name = nullptr;
  var_symbol_list* parameters = nullptr;
  goal* precondition = nullptr;
  effect_lists* effects = nullptr;
};
class action : public operator_ {};
class axiom : public operator_ {};
class operator_list : public std::list<operator_*> {};

class derivation_rule {
 public:
  derivation_rule(proposition* p, goal* g) : head(p), body(g) {}
  proposition* get_head() const { return head; }
  goal* get_body() const { return body; }

 private:
  proposition* head;
  goal* body;
};
class derivations_list : public std::list<derivation_rule*> {};

class pred_decl {
 public:
  pred_decl(pred_symbol* h, var_symbol_list* a) : head(h), args(a) {}
  const pred_symbol* getPred() const { return head; }
  const var_symbol_list* getArgs() const { return args; }

 private:
  pred_symbol* head;
  var_symbol_list* args;
};
class pred_decl_list : public std::list<pred_decl*> {};

using pddl_req_flag = int;
inline std::string pddl_req_flags_string(pddl_req_flag) { return ""; }

class domain {
 public:
  std::string name;
  pddl_req_flag req = 0;
  pddl_type_list* types = nullptr;
  const_symbol_list* constants = nullptr;
  pred_decl_list* predicates = nullptr;
  operator_list* ops = nullptr;
  derivations_list* drvs = nullptr;
};
class problem {
 public:
  std::string name;
  std::string domain_name;
  pddl_req_flag req = 0;
  const_symbol_list* objects = nullptr;
  effect_lists* initial_state = nullptr;
  goal* the_goal = nullptr;
};

class parse_error_list {
 public:
  void report() {}
};
class parse_category {};

class analysis {
 public:
  domain* the_domain = nullptr;
  problem* the_problem = nullptr;
  parse_error_list error_list;
  // Symbol tables.
  std::map<std::string, pddl_type*> type_tab;
  std::map<std::string, const_symbol*> const_tab;
  std::map<std::string, pred_symbol*> pred_tab;
};

extern parse_category* top_thing;
extern analysis* current_analysis;

}  // namespace VAL

class yyFlexLexer;
namespace VAL {
extern yyFlexLexer* yfl;
}

#endif
