// Canonical serialisation of expressions and formulas through the public accessors:
// two objects have the same text exactly when they are structurally the same object,
// whatever the library's own order, equality and printing do.
#pragma once
#include <algorithm>

#include "sym.h"

namespace vh {
inline std::string hexd(double d) { if (d == 0) d = 0; char b[64]; snprintf(b, sizeof b, "%a", d); return b; }
inline std::string ser(const dreal::Formula& f);
inline std::string ser(const dreal::Variables& vs) {
  std::string s = "{";
  std::vector<Variable::Id> ids;
  for (const auto& v : vs) ids.push_back(v.get_id());
  std::sort(ids.begin(), ids.end());
  for (auto i : ids) s += std::to_string(i) + ",";
  return s + "}";
}
inline std::string ser(const dreal::Expression& e) {
  using namespace dreal;
  auto join = [](std::vector<std::string> v) { std::sort(v.begin(), v.end()); std::string s; for (auto& x : v) s += x + ";"; return s; };
  switch (e.get_kind()) {
    case ExpressionKind::Constant: return hexd(get_constant_value(e));
    case ExpressionKind::RealConstant: return "rc[" + hexd(get_lb_of_real_constant(e)) + "," + hexd(get_ub_of_real_constant(e)) + "," + hexd(get_constant_value(e)) + "]";
    case ExpressionKind::NaN: return "NaN";
    case ExpressionKind::Var: return "v" + std::to_string(get_variable(e).get_id());
    case ExpressionKind::Add: {
      std::vector<std::string> v;
      for (const auto& q : get_expr_to_coeff_map_in_addition(e)) v.push_back(hexd(q.second) + "*" + ser(q.first));
      return "+(" + hexd(get_constant_in_addition(e)) + ";" + join(v) + ")";
    }
    case ExpressionKind::Mul: {
      std::vector<std::string> v;
      for (const auto& q : get_base_to_exponent_map_in_multiplication(e)) v.push_back(ser(q.first) + "^" + ser(q.second));
      return "*(" + hexd(get_constant_in_multiplication(e)) + ";" + join(v) + ")";
    }
    case ExpressionKind::Div: case ExpressionKind::Pow: case ExpressionKind::Atan2: case ExpressionKind::Min: case ExpressionKind::Max:
      return "k" + std::to_string((int)e.get_kind()) + "(" + ser(get_first_argument(e)) + "," + ser(get_second_argument(e)) + ")";
    case ExpressionKind::IfThenElse: return "ite(" + ser(get_conditional_formula(e)) + "," + ser(get_then_expression(e)) + "," + ser(get_else_expression(e)) + ")";
    case ExpressionKind::UninterpretedFunction: return "uf(" + get_uninterpreted_function_name(e) + ":" + ser(e.GetVariables()) + ")";
    default: return "k" + std::to_string((int)e.get_kind()) + "(" + ser(get_argument(e)) + ")";
  }
}
inline std::string ser(const dreal::Formula& f) {
  using namespace dreal;
  switch (f.get_kind()) {
    case FormulaKind::True: return "T";
    case FormulaKind::False: return "F";
    case FormulaKind::Var: return "b" + std::to_string(get_variable(f).get_id());
    case FormulaKind::And: case FormulaKind::Or: {
      std::vector<std::string> v;
      for (const auto& o : get_operands(f)) v.push_back(ser(o));
      std::sort(v.begin(), v.end());
      std::string s = is_conjunction(f) ? "&(" : "|(";
      for (auto& x : v) s += x + ";";
      return s + ")";
    }
    case FormulaKind::Not: return "!" + ser(get_operand(f));
    case FormulaKind::Forall: return "A" + ser(get_quantified_variables(f)) + "." + ser(get_quantified_formula(f));
    default: return "r" + std::to_string((int)f.get_kind()) + "(" + ser(get_lhs_expression(f)) + "," + ser(get_rhs_expression(f)) + ")";
  }
}
}  // namespace vh
