// Reference functions for the diagrammatic part.
#include <algorithm>
#include <array>
#include <map>
#include <numeric>
#include "helpers/combinatorics.h"
#include "helpers/helpers.h"
#include "helpers/orbital_space.h"
#include "diagrams/contraction.h"
#include "diagrams/operator_expression.h"
namespace spec {
// ------------------------------------------------------------------ graph matrices
//@ C04,C06,C14,C17,C29 GraphMatrix::GraphMatrix | bounds
void gm_ctor(GraphMatrix &self, const std::vector<int> &cre, const std::vector<int> &ann) {
  self.elements_ = {};
  for (int s = 0; s < orbital_subspaces->num_spaces(); s++) {
    self.elements_.at(s).first = cre.at(s);
    self.elements_.at(s).second = ann.at(s);
  }
}
//@ C06,C13,C14,C17 GraphMatrix::GraphMatrix
void gm_ctor0(GraphMatrix &self) { self.elements_ = {}; }
//@ C04,C13,C17,C26 GraphMatrix::elements | bounds
const std::pair<int, int> &gm_elements(const GraphMatrix &self, int s) { return self.elements_.at(s); }
//@ C13,C17,C26 GraphMatrix::elements
const std::array<std::pair<int, int>, 8> &gm_all(const GraphMatrix &self) { return self.elements_; }
//@ C04,C06,C12,C13,C17,C27 GraphMatrix::cre | bounds
int gm_cre(const GraphMatrix &self, int s) { return self.elements_.at(s).first; }
//@ C04,C06,C12,C13,C17,C27 GraphMatrix::ann | bounds
int gm_ann(const GraphMatrix &self, int s) { return self.elements_.at(s).second; }
//@ C04,C06,C13,C17,C27 GraphMatrix::set_cre | bounds
void gm_set_cre(GraphMatrix &self, int s, int v) { self.elements_.at(s).first = v; }
//@ C04,C06,C13,C17,C27 GraphMatrix::set_ann | bounds
void gm_set_ann(GraphMatrix &self, int s, int v) { self.elements_.at(s).second = v; }
//@ C12,C17,C26,C28 GraphMatrix::num_ops | bounds
int gm_num_ops_s(const GraphMatrix &self, int s) { return self.elements_.at(s).first + self.elements_.at(s).second; }
//@ C08,C12,C17,C26,C28 GraphMatrix::num_ops
int gm_num_ops(const GraphMatrix &self) {
  int n = 0;
  for (const auto &e : self.elements_) n += e.first + e.second;
  return n;
}
//@ C05,C07,C28 GraphMatrix::operator<
bool gm_less(const GraphMatrix &self, const GraphMatrix &o) { return self.elements_ < o.elements_; }
//@ C05,C07,C26 GraphMatrix::operator==
bool gm_eq(const GraphMatrix &self, const GraphMatrix &o) { return self.elements_ == o.elements_; }
//@ C05 GraphMatrix::operator!=
bool gm_ne(const GraphMatrix &self, const GraphMatrix &o) { return !(self.elements_ == o.elements_); }
//@ C13,C29,C04 GraphMatrix::operator+= | self bounds
GraphMatrix &gm_add(GraphMatrix &self, const GraphMatrix &o) {
  for (int s = 0; s < orbital_subspaces->num_spaces(); s++) {
    self.elements_.at(s).first += o.elements_.at(s).first;
    self.elements_.at(s).second += o.elements_.at(s).second;
  }
  return self;
}
//@ C13,C26,C04 GraphMatrix::operator-= | self bounds
GraphMatrix &gm_sub(GraphMatrix &self, const GraphMatrix &o) {
  for (int s = 0; s < orbital_subspaces->num_spaces(); s++) {
    self.elements_.at(s).first -= o.elements_.at(s).first;
    self.elements_.at(s).second -= o.elements_.at(s).second;
  }
  return self;
}
//@ C06,C04 GraphMatrix::adjoint
GraphMatrix gm_adjoint(const GraphMatrix &self) {
  std::vector<int> cre, ann;
  for (int s = 0; s < orbital_subspaces->num_spaces(); s++) {
    cre.push_back(self.ann(s));
    ann.push_back(self.cre(s));
  }
  return GraphMatrix(cre, ann);
}
//@ C22 GraphMatrix::str
std::string gm_str(const GraphMatrix &self) {
  std::vector<std::string> v;
  for (int s = 0; s < orbital_subspaces->num_spaces(); s++)
    for (int i = 0; i < self.cre(s); i++) v.push_back(std::string(1, orbital_subspaces->label(s)) + "+");
  for (int s = 0; s < orbital_subspaces->num_spaces(); s++)
    for (int i = 0; i < self.ann(s); i++) v.push_back(std::string(1, orbital_subspaces->label(s)));
  return join(v, " ");
}
//@ C12,C28 sum_num_ops
int gm_sum_num_ops(const std::vector<GraphMatrix> &v) {
  int n = 0;
  for (const auto &g : v) n += g.num_ops();
  return n;
}
//@ C11 to_string
std::string gm_to_string(const std::vector<GraphMatrix> &v) {
  std::vector<std::string> lines;
  for (int s = 0; s < orbital_subspaces->num_spaces(); s++) {
    std::string l;
    for (const auto &g : v) l += std::to_string(g.cre(s)) + " " + std::to_string(g.ann(s)) + "   ";
    lines.push_back(l);
  }
  return join(lines, "\n");
}
//@ C08,C26,C28 signature
std::string gm_signature(const GraphMatrix &g) {
  std::string r;
  for (int s = 0; s < orbital_subspaces->num_spaces(); s++) r += std::to_string(g.cre(s));
  for (int s = 0; s < orbital_subspaces->num_spaces(); s++) r += std::to_string(g.ann(s));
  return r;
}
//@ C08,C26,C28 signature
std::string gm_signature_vec(const std::vector<GraphMatrix> &v) {
  std::string r;
  for (const auto &g : v) r += signature(g);
  return r;
}

// ------------------------------------------------------------------ operators
//@ C17,C29,C04 Operator::Operator
void op_ctor(Operator &self, const std::string &label, const std::vector<int> &cre, const std::vector<int> &ann) { self.label_ = label; self.graph_matrix_ = GraphMatrix(cre, ann); }
//@ C06,C17,C29,C04 Operator::Operator
void op_ctor2(Operator &self, const std::string &label, const GraphMatrix &g) { self.label_ = label; self.graph_matrix_ = g; }
//@ C27 Operator::label
const std::string &op_label(const Operator &self) { return self.label_; }
//@ C13,C26 Operator::graph_matrix
GraphMatrix op_graph_matrix(const Operator &self) { return self.graph_matrix_; }
//@ C02,C21,C26 Operator::factor
scalar_t op_factor(const Operator &self) {
  scalar_t r = 1;
  for (int s = 0; s < orbital_subspaces->num_spaces(); s++) r /= scalar_t(factorial(self.cre(s)));
  for (int s = 0; s < orbital_subspaces->num_spaces(); s++) r /= scalar_t(factorial(self.ann(s)));
  return r;
}
//@ C06 Operator::adjoint
Operator op_adjoint(const Operator &self) { return Operator(self.label_, self.graph_matrix_.adjoint()); }
//@ C17,C27 Operator::cre
int op_cre(const Operator &self, int s) { return self.graph_matrix_.cre(s); }
//@ C17,C27 Operator::ann
int op_ann(const Operator &self, int s) { return self.graph_matrix_.ann(s); }
//@ C08,C12,C28 Operator::num_ops
int op_num_ops(const Operator &self) { return self.graph_matrix_.num_ops(); }
//@ C05,C07,C08,C28 Operator::operator<
bool op_less(const Operator &self, const Operator &o) { return self.label_ == o.label_ ? self.graph_matrix_ < o.graph_matrix_ : self.label_ < o.label_; }
//@ C05,C07,C26 Operator::operator==
bool op_eq(const Operator &self, const Operator &o) { return self.label_ == o.label_ && self.graph_matrix_ == o.graph_matrix_; }
//@ C05 Operator::operator!=
bool op_ne(const Operator &self, const Operator &o) { return !(self.label_ == o.label_ && self.graph_matrix_ == o.graph_matrix_); }
//@ C22 Operator::str
std::string op_str(const Operator &self) {
  std::vector<std::string> v;
  if (!(self.factor() == scalar_t(1))) v.push_back(self.factor().str(false));
  v.push_back(self.label_);
  v.push_back("{");
  const int n = orbital_subspaces->num_spaces();
  for (int s = 0; s < n; s++)
    for (int i = 0; i < self.cre(s); i++) v.push_back(std::string(1, orbital_subspaces->label(s)) + "+");
  for (int s = n - 1; s >= 0; s--)
    for (int i = 0; i < self.ann(s); i++) v.push_back(std::string(1, orbital_subspaces->label(s)));
  v.push_back("}");
  return join(v, " ");
}
//@ C08,C28 do_operators_commute
bool commute(const Operator &a, const Operator &b) {
  int n = 0;
  for (int s = 0; s < orbital_subspaces->num_spaces(); s++) n += a.ann(s) * b.cre(s) + a.cre(s) * b.ann(s);
  return n == 0;
}
//@ C05,C08 operator_noncommuting_less
bool noncommuting_less(const Operator &a, const Operator &b) { return do_operators_commute(a, b) && a < b; }
//@ C14,C29,C04 make_diag_operator
Operator diag_operator(const std::string &label, const std::vector<char> &cl, const std::vector<char> &al) {
  std::vector<int> cre(orbital_subspaces->num_spaces(), 0), ann(orbital_subspaces->num_spaces(), 0);
  for (char c : cl) cre[orbital_subspaces->label_to_space(c)]++;
  for (char c : al) ann[orbital_subspaces->label_to_space(c)]++;
  return Operator(label, cre, ann);
}
//@ C12,C28 sum_num_ops
int op_sum_num_ops(const std::vector<Operator> &v) {
  int n = 0;
  for (const auto &o : v) n += o.num_ops();
  return n;
}

// ------------------------------------------------------------------ operator products
//@ C08,C12,C28 OperatorProduct::num_ops
int opp_num_ops(const OperatorProduct &self) {
  int n = 0;
  for (const auto &o : self.elements_) n += o.num_ops();
  return n;
}
//@ C08 OperatorProduct::canonicalize
scalar_t opp_canonicalize(OperatorProduct &self) {
  int swaps = 0;
  const int n = self.elements_.size();
  for (int i = 0; i < n - 1; i++)
    for (int j = 0; j < n - i - 1; j++)
      if (operator_noncommuting_less(self.elements_[j + 1], self.elements_[j])) {
        swaps += self.elements_[j].num_ops() * self.elements_[j + 1].num_ops();
        std::swap(self.elements_[j], self.elements_[j + 1]);
      }
  return swaps % 2 == 0 ? 1 : -1;
}
//@ C02,C07,C25 operator*
OperatorProduct opp_mul(const OperatorProduct &l, const OperatorProduct &r) {
  OperatorProduct p;
  for (const auto &e : l) p.push_back(e);
  for (const auto &e : r) p.push_back(e);
  return p;
}

// ------------------------------------------------------------------ operator expressions
//@ C07,C25,C29 OperatorExpression::OperatorExpression | lin1
void opx_ctor(OperatorExpression &self, const std::vector<OperatorProduct> &v, scalar_t factor) {
  self.terms_.clear();
  for (const auto &p : v) add_to_map(self.terms_, p, factor);
}
//@ C02,C07,C25,C29 OperatorExpression::add2 | lin1 self
void opx_add2(OperatorExpression &self, const OperatorExpression &e, scalar_t factor) {
  auto copy = e.terms_;
  for (const auto &[k, c] : copy) add_to_map(self.terms_, k, factor * c);
}
//@ C07,C08,C25 OperatorExpression::canonicalize | lin1
void opx_canonicalize(OperatorExpression &self) {
  OperatorExpression::opexpr_t r;
  for (const auto &[k, c] : self.terms_) {
    OperatorProduct p = k;
    scalar_t sign = p.canonicalize();
    add_to_map(r, p, c * sign);
  }
  self.terms_ = r;
}
//@ C06 OperatorExpression::adjoint | lin1
OperatorExpression opx_adjoint(const OperatorExpression &self) {
  OperatorExpression r;
  for (const auto &[k, c] : self.terms_) {
    OperatorProduct p(k.adjoint());
    add_to_map(r.terms_, p, c);
  }
  return r;
}
//@ C22 OperatorExpression::str
std::string opx_str(const OperatorExpression &self) {
  std::vector<std::string> v;
  for (const auto &[k, c] : self.terms_) {
    std::string s = c.str(true);
    for (const auto &o : k) s += " " + o.str();
    v.push_back(s);
  }
  return join(v, "\n");
}
//@ C02,C07,C15,C25 operator*
OperatorExpression opx_mul(OperatorExpression l, const OperatorExpression &r) { l *= r; return l; }
//@ C02,C07,C15,C25 operator+
OperatorExpression opx_add(OperatorExpression l, const OperatorExpression &r) { l += r; return l; }
//@ C02,C07,C15,C25 operator-
OperatorExpression opx_sub(OperatorExpression l, const OperatorExpression &r) { l -= r; return l; }
//@ C14,C29 make_diag_operator_expression | lin1
OperatorExpression diag_operator_expression(const std::string &label, const std::vector<std::string> &components, bool unique) {
  OperatorExpression r;
  for (const auto &comp : components) {
    std::vector<int> cre(orbital_subspaces->num_spaces(), 0), ann(orbital_subspaces->num_spaces(), 0);
    for (const auto &x : findall(comp, std::regex(R"(([a-zA-Z][+^]?))"))) {
      if (x.size() > 1) cre[orbital_subspaces->label_to_space(x[0])]++;
      else ann[orbital_subspaces->label_to_space(x[0])]++;
    }
    OperatorProduct p{Operator(label, cre, ann)};
    if (unique && r.terms_.count(p) > 0) continue;
    add_to_map(r.terms_, p, scalar_t(1));
  }
  return r;
}
//@ C14,C25 commutator
OperatorExpression comm(const OperatorExpression &A, const OperatorExpression &B) {
  OperatorExpression l = A, r = B;
  l *= B;
  r *= A;
  l -= r;
  return l;
}
//@ C02,C14,C25 bch_series
OperatorExpression bch(const OperatorExpression &A, const OperatorExpression &B, int n) {
  OperatorExpression r = A, t = A;
  for (int k = 1; k <= n; k++) {
    t = commutator(t, B);
    t *= scalar_t(1, k);
    r += t;
  }
  return r;
}

// ------------------------------------------------------------------ contractions
//@ C12,C17,C26,C28 ElementaryContraction::num_ops
int ec_num_ops(const ElementaryContraction &self) {
  int n = 0;
  for (const auto &g : self.elements_) n += g.num_ops();
  return n;
}
//@ C17,C27 ElementaryContraction::spaces_in_elementary_contraction
std::vector<int> ec_spaces(const ElementaryContraction &self) {
  std::vector<int> r;
  for (const auto &g : self.elements_)
    for (int s = 0; s < orbital_subspaces->num_spaces(); s++)
      if (g.cre(s) + g.ann(s) > 0) r.push_back(s);
  return r;
}
} // namespace spec
