// Reference meaning of the Python helpers (wicked/utils.py), over the operations of py.h.
#include "py.h"

namespace spec {
using wpy::strs;
//@ C24,C22 pyutils::py_string_to_expr
Expression py_string_to_expr(const std::string &s) {
  Expression sum;
  for (const auto &line : wpy::pysplit(s, "\n")) sum += make_expression(line, SymmetryType::Antisymmetric);
  return sum;
}
//@ C24 pyutils::py_gen_op
OperatorExpression py_gen_op(const std::string &label, int rank, const std::string &cre_spaces, const std::string &ann_spaces, bool diagonal) {
  strs cre, ann;
  for (char c : cre_spaces) cre.push_back(std::string(1, c));
  for (char c : ann_spaces) ann.push_back(std::string(1, c));
  std::map<std::string, int> position;
  for (int n = 0; n < orbital_subspaces->num_spaces(); n++) position[std::string(1, orbital_subspaces->label(n))] = n;
  std::vector<strs> cres, anns;
  for (int n = 0; n < rank; n++) cres.push_back(cre);
  for (int n = 0; n < rank; n++) anns.push_back(ann);
  strs terms;
  for (const auto &l : wpy::pyproduct(cres)) {
    bool up = true;
    for (int i = 0; i + 1 < (int)l.size(); i++)
      if (position.at(l[i]) > position.at(l[i + 1])) up = false;
    if (not up) continue;
    for (const auto &r : wpy::pyproduct(anns)) {
      bool down = true;
      for (int i = 0; i + 1 < (int)r.size(); i++)
        if (position.at(r[i]) < position.at(r[i + 1])) down = false;
      if (not down) continue;
      if (not diagonal and l == r) continue;
      std::string t;
      for (int i = 0; i < (int)l.size(); i++) {
        if (i > 0) t += " ";
        t += l[i] + "+";
      }
      t += " ";
      for (int i = 0; i < (int)r.size(); i++) {
        if (i > 0) t += " ";
        t += r[i];
      }
      terms.push_back(t);
    }
  }
  return make_diag_operator_expression(label, terms, false);
}
std::string letters_of(const Tensor &t, std::map<std::string, strs> &free_letters, std::map<std::string, std::string> &taken) {
  std::string out;
  std::vector<Index> ids = t.upper();
  for (const auto &i : t.lower()) ids.push_back(i);
  for (const auto &i : ids) {
    std::string name = i.str();
    if (taken.count(name) == 0) {
      strs &pool = free_letters.at(std::string(1, name.at(0)));
      if (pool.empty()) throw std::out_of_range("no letter left");
      std::string letter = pool[0];
      pool.erase(pool.begin());
      taken[name] = letter;
    }
    out += taken.at(name);
  }
  return out;
}
//@ C24,C18 pyutils::py_compile_einsum
std::string py_compile_einsum(const Equation &eq) {
  std::map<std::string, strs> pool = orbital_subspaces->to_dict();
  std::map<std::string, std::string> taken;
  std::string subscripts, operands;
  for (const auto &t : eq.rhs().tensors()) {
    operands += t.label() + "[\"";
    for (const auto &i : t.upper()) operands += std::string(1, i.str().at(0));
    for (const auto &i : t.lower()) operands += std::string(1, i.str().at(0));
    operands += "\"],";
    subscripts += letters_of(t, pool, taken);
    subscripts += ",";
  }
  if (subscripts.size() > 0) subscripts = subscripts.substr(0, subscripts.size() - 1);
  subscripts += "->";
  operands += "optimize='optimal')";
  const Tensor &l = eq.lhs().tensors().at(0);
  std::string left = l.label();
  if (l.upper().size() > 0 or l.lower().size() > 0) {
    for (const auto &i : l.upper()) left += std::string(1, orbital_subspaces->label(i.space()));
    for (const auto &i : l.lower()) left += std::string(1, orbital_subspaces->label(i.space()));
    subscripts += letters_of(l, pool, taken);
  }
  return left + " " + "+= " + wpy::fmt("+.8f", eq.rhs_factor().to_double()) + " * np.einsum('" + subscripts + "', " + operands;
}
} // namespace spec
