// PDDL reader standing in for VAL's parser: fills the stub parse tree.
#include <cctype>
#include <iterator>
#include <stdexcept>
#include <vector>

#include "VAL/FlexLexer.h"
#include "VAL/ptree.h"

int line_no = 0;
int yydebug = 0;
const char* current_filename = nullptr;

namespace {

struct Sexp {
  bool atom = false;
  std::string text;
  std::vector<Sexp> kids;
};

struct Reader {
  std::string s;
  size_t i = 0;
  void skip() {
    while (i < s.size()) {
      if (std::isspace(static_cast<unsigned char>(s[i]))) {
        i++;
      } else if (s[i] == ';') {
        while (i < s.size() && s[i] != '\n') i++;
      } else {
        break;
      }
    }
  }
  Sexp read() {
    skip();
    if (i >= s.size()) throw std::runtime_error("eof");
    Sexp e;
    if (s[i] == '(') {
      i++;
      for (skip(); i < s.size() && s[i] != ')'; skip()) e.kids.push_back(read());
      if (i >= s.size()) throw std::runtime_error("eof");
      i++;
      return e;
    }
    if (s[i] == ')') throw std::runtime_error("unexpected )");
    e.atom = true;
    while (i < s.size() && s[i] != '(' && s[i] != ')' &&
           !std::isspace(static_cast<unsigned char>(s[i])))
      e.text += s[i++];
    return e;
  }
};

using Scope = std::vector<std::map<std::string, VAL::var_symbol*>>;

VAL::pddl_type* Type(const std::string& n) {
  auto& t = VAL::current_analysis->type_tab[n];
  if (t == nullptr) t = new VAL::pddl_type(n);
  return t;
}
VAL::pred_symbol* Pred(const std::string& n) {
  auto& t = VAL::current_analysis->pred_tab[n];
  if (t == nullptr) t = new VAL::pred_symbol(n);
  return t;
}
VAL::const_symbol* Const(const std::string& n) {
  auto& t = VAL::current_analysis->const_tab[n];
  if (t == nullptr) t = new VAL::const_symbol(n);
  return t;
}

// a b - t c d - u e
template <typename F>
void TypedList(const std::vector<Sexp>& v, size_t from, F f) {
  std::vector<std::string> pend;
  for (size_t k = from; k < v.size(); k++) {
    if (v[k].text == "-") {
      VAL::pddl_type* t = Type(v.at(k + 1).text);
      for (auto& n : pend) f(n, t);
      pend.clear();
      k++;
    } else {
      pend.push_back(v[k].text);
    }
  }
  for (auto& n : pend) f(n, nullptr);
}

VAL::var_symbol_list* Vars(const Sexp& e, size_t from, Scope* scope) {
  auto* l = new VAL::var_symbol_list;
  std::map<std::string, VAL::var_symbol*> frame;
  TypedList(e.kids, from, [&](const std::string& n, VAL::pddl_type* t) {
    if (n.empty() || n[0] != '?') throw std::runtime_error("variable expected");
    auto* v = new VAL::var_symbol(n.substr(1));
    v->type = t;
    l->push_back(v);
    frame[n] = v;
  });
  scope->push_back(frame);
  return l;
}

VAL::proposition* Prop(const Sexp& e, const Scope& scope) {
  auto* p = new VAL::proposition;
  p->head = Pred(e.kids.at(0).text);
  p->args = new VAL::parameter_symbol_list;
  for (size_t k = 1; k < e.kids.size(); k++) {
    const std::string& n = e.kids[k].text;
    if (n[0] == '?') {
      VAL::var_symbol* v = nullptr;
      for (auto it = scope.rbegin(); it != scope.rend() && v == nullptr; ++it) {
        auto f = it->find(n);
        if (f != it->end()) v = f->second;
      }
      if (v == nullptr) throw std::runtime_error("unbound variable " + n);
      p->args->push_back(v);
    } else {
      p->args->push_back(Const(n));
    }
  }
  return p;
}

VAL::goal* Goal(const Sexp& e, Scope* scope) {
  if (e.kids.empty()) return new VAL::conj_goal(new VAL::goal_list);
  const std::string& h = e.kids[0].text;
  if (h == "and" || h == "or") {
    auto* l = new VAL::goal_list;
    for (size_t k = 1; k < e.kids.size(); k++)
      l->push_back(Goal(e.kids[k], scope));
    if (h == "and") return new VAL::conj_goal(l);
    return new VAL::disj_goal(l);
  }
  if (h == "not") return new VAL::neg_goal(Goal(e.kids.at(1), scope));
  if (h == "forall" || h == "exists") {
    auto* v = Vars(e.kids.at(1), 0, scope);
    auto* g = Goal(e.kids.at(2), scope);
    scope->pop_back();
    return new VAL::qfied_goal(h == "forall" ? VAL::E_FORALL : VAL::E_EXISTS, v,
                               g);
  }
  if (h == "imply") return new VAL::imply_goal;
  return new VAL::simple_goal(Prop(e, *scope));
}

void Effects(const Sexp& e, Scope* scope, VAL::effect_lists* out) {
  if (e.kids.empty()) return;
  const std::string& h = e.kids[0].text;
  if (h == "and") {
    for (size_t k = 1; k < e.kids.size(); k++) Effects(e.kids[k], scope, out);
  } else if (h == "not") {
    out->del_effects.push_back(
        new VAL::simple_effect(Prop(e.kids.at(1), *scope)));
  } else if (h == "forall") {
    auto* v = Vars(e.kids.at(1), 0, scope);
    auto* l = new VAL::effect_lists;
    Effects(e.kids.at(2), scope, l);
    scope->pop_back();
    out->forall_effects.push_back(new VAL::forall_effect(l, v));
  } else if (h == "when") {
    auto* g = Goal(e.kids.at(1), scope);
    auto* l = new VAL::effect_lists;
    Effects(e.kids.at(2), scope, l);
    out->cond_effects.push_back(new VAL::cond_effect(g, l));
  } else {
    out->add_effects.push_back(new VAL::simple_effect(Prop(e, *scope)));
  }
}

void Operator(const Sexp& e, VAL::operator_* op, const std::string& name,
              size_t from) {
  op->name = new VAL::operator_symbol(name);
  Scope scope;
  op->parameters = new VAL::var_symbol_list;
  op->effects = new VAL::effect_lists;
  for (size_t k = from; k + 1 < e.kids.size(); k += 2) {
    const std::string& f = e.kids[k].text;
    const Sexp& b = e.kids[k + 1];
    if (f == ":parameters" || f == ":vars") {
      op->parameters = Vars(b, 0, &scope);
    } else if (f == ":precondition" || f == ":context") {
      op->precondition = Goal(b, &scope);
    } else if (f == ":effect" || f == ":implies") {
      Effects(b, &scope, op->effects);
    }
  }
  if (op->precondition == nullptr)
    op->precondition = new VAL::conj_goal(new VAL::goal_list);
}

void Domain(const Sexp& e) {
  auto* d = new VAL::domain;
  d->name = e.kids.at(1).kids.at(1).text;
  d->predicates = new VAL::pred_decl_list;
  d->ops = new VAL::operator_list;
  d->drvs = new VAL::derivations_list;
  for (size_t k = 2; k < e.kids.size(); k++) {
    const Sexp& x = e.kids[k];
    const std::string& h = x.kids.at(0).text;
    if (h == ":types") {
      d->types = new VAL::pddl_type_list;
      TypedList(x.kids, 1, [&](const std::string& n, VAL::pddl_type* t) {
        VAL::pddl_type* s = Type(n);
        s->type = t;
        d->types->push_back(s);
      });
    } else if (h == ":constants") {
      d->constants = new VAL::const_symbol_list;
      TypedList(x.kids, 1, [&](const std::string& n, VAL::pddl_type* t) {
        VAL::const_symbol* s = Const(n);
        s->type = t;
        d->constants->push_back(s);
      });
    } else if (h == ":predicates") {
      for (size_t j = 1; j < x.kids.size(); j++) {
        Scope scope;
        auto* v = Vars(x.kids[j], 1, &scope);
        d->predicates->push_back(
            new VAL::pred_decl(Pred(x.kids[j].kids.at(0).text), v));
      }
    } else if (h == ":action") {
      auto* op = new VAL::action;
      Operator(x, op, x.kids.at(1).text, 2);
      d->ops->push_back(op);
    } else if (h == ":axiom") {
      auto* op = new VAL::axiom;
      Operator(x, op, "axiom", 1);
      d->ops->push_back(op);
    } else if (h == ":derived") {
      Scope scope;
      const Sexp& head = x.kids.at(1);
      Vars(head, 1, &scope);
      // The head is a proposition over the declared variables.
      auto* p = new VAL::proposition;
      p->head = Pred(head.kids.at(0).text);
      p->args = new VAL::parameter_symbol_list;
      TypedList(head.kids, 1, [&](const std::string& n, VAL::pddl_type*) {
        p->args->push_back(scope.back().at(n));
      });
      d->drvs->push_back(
          new VAL::derivation_rule(p, Goal(x.kids.at(2), &scope)));
    }
  }
  VAL::current_analysis->the_domain = d;
}

void Problem(const Sexp& e) {
  auto* p = new VAL::problem;
  p->name = e.kids.at(1).kids.at(1).text;
  p->objects = new VAL::const_symbol_list;
  p->initial_state = new VAL::effect_lists;
  for (size_t k = 2; k < e.kids.size(); k++) {
    const Sexp& x = e.kids[k];
    const std::string& h = x.kids.at(0).text;
    if (h == ":domain") {
      p->domain_name = x.kids.at(1).text;
    } else if (h == ":objects") {
      TypedList(x.kids, 1, [&](const std::string& n, VAL::pddl_type* t) {
        VAL::const_symbol* s = Const(n);
        s->type = t;
        p->objects->push_back(s);
      });
    } else if (h == ":init") {
      for (size_t j = 1; j < x.kids.size(); j++) {
        p->initial_state->add_effects.push_back(
            new VAL::simple_effect(Prop(x.kids[j], {})));
      }
    } else if (h == ":goal") {
      Scope scope;
      p->the_goal = Goal(x.kids.at(1), &scope);
    }
  }
  VAL::current_analysis->the_problem = p;
}

}  // namespace

int yyparse() {
  std::istream* in = VAL::yfl->in_;
  if (in == nullptr || !*in) return 1;
  Reader r;
  r.s.assign(std::istreambuf_iterator<char>(*in),
             std::istreambuf_iterator<char>());
  try {
    const Sexp e = r.read();
    if (e.kids.at(1).kids.at(0).text == "domain") {
      Domain(e);
    } else {
      Problem(e);
    }
  } catch (const std::exception&) {
    return 1;
  }
  return 0;
}
