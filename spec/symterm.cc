// Reference meaning of symbolic terms and of vacuum normal ordering.
#include <algorithm>
#include <map>
#include "helpers/combinatorics.h"
#include "helpers/helpers.h"
#include "helpers/orbital_space.h"
#include "algebra/symbolic_term.h"
#include "algebra/term.h"
#include "algebra/expression.h"

std::pair<Product<SQOperator>, bool> operator_product_1(const SymbolicTerm &lhs, const SymbolicTerm &rhs);
std::pair<Product<SQOperator>, bool> operator_product_2(const SymbolicTerm &lhs, const SymbolicTerm &rhs);
std::pair<Product<SQOperator>, bool> operator_product_3(const SymbolicTerm &lhs, const SymbolicTerm &rhs);
std::pair<Product<SQOperator>, bool> operator_product_4(const SymbolicTerm &lhs, const SymbolicTerm &rhs);
void recursive_vacuum_normal_order(const SymbolicTerm &term, scalar_t c, std::vector<std::pair<SymbolicTerm, scalar_t>> &new_terms, bool only_same_index_contractions);

namespace spec {
//@ C05,C07,C19,C22 SymbolicTerm::SymbolicTerm
void st_ctor0(SymbolicTerm &self) { self.normal_ordered_ = false; self.operators_.elements_.clear(); self.tensors_.clear(); }
//@ C05,C06,C07,C19,C20,C22 SymbolicTerm::SymbolicTerm
void st_ctor(SymbolicTerm &self, bool no, const std::vector<SQOperator> &ops, const std::vector<Tensor> &tensors) {
  self.normal_ordered_ = no; self.operators_ = Product<SQOperator>(ops); self.tensors_ = tensors;
}
//@ C15,C20,C22,C29 SymbolicTerm::set_normal_ordered
void st_set_no(SymbolicTerm &self, bool v) { self.normal_ordered_ = v; }
//@ C20,C22 SymbolicTerm::is_labeled_normal_ordered
bool st_labeled(const SymbolicTerm &self) { return self.normal_ordered_; }
//@ C20,C22 SymbolicTerm::normal_ordered
bool st_no(const SymbolicTerm &self) { return self.normal_ordered_; }
//@ C19,C20 SymbolicTerm::ops
const std::vector<SQOperator> &st_ops(const SymbolicTerm &self) { return self.operators_.vec(); }
//@ C18,C19,C20 SymbolicTerm::tensors
const std::vector<Tensor> &st_tensors(const SymbolicTerm &self) { return self.tensors_; }
//@ C22 SymbolicTerm::nops
int st_nops(const SymbolicTerm &self) { return self.operators_.elements_.size(); }
//@ C15,C20 SymbolicTerm::set
void st_set_ops(SymbolicTerm &self, const std::vector<SQOperator> &ops) { self.operators_ = Product<SQOperator>(ops); }
//@ C15,C20 SymbolicTerm::set
void st_set_prod(SymbolicTerm &self, const Product<SQOperator> &ops) { self.operators_ = ops; }
//@ C06,C15,C22,C29 SymbolicTerm::add
void st_add_op(SymbolicTerm &self, const SQOperator &op) { self.operators_.elements_.push_back(op); }
//@ C06,C15,C22 SymbolicTerm::add
void st_add_ops(SymbolicTerm &self, const std::vector<SQOperator> &ops) { for (const auto &o : ops) self.operators_.push_back(o); }
//@ C06,C15,C22 SymbolicTerm::add
void st_add_prod(SymbolicTerm &self, const Product<SQOperator> &ops) { for (const auto &o : ops) self.operators_.push_back(o); }
//@ C06,C15,C19,C20,C22,C27,C29 SymbolicTerm::add
void st_add_tensor(SymbolicTerm &self, const Tensor &t) { self.tensors_.push_back(t); }
//@ C06 SymbolicTerm::adjoint
SymbolicTerm st_adjoint(const SymbolicTerm &self) {
  std::vector<Tensor> t;
  for (const auto &x : self.tensors_) t.push_back(x.adjoint());
  return SymbolicTerm(self.normal_ordered_, self.operators_.adjoint().vec(), t);
}
//@ C23 SymbolicTerm::reindex
void st_reindex(SymbolicTerm &self, index_map_t &m) {
  for (auto &o : self.operators_) o.reindex(m);
  for (auto &t : self.tensors_) t.reindex(m);
}
//@ C05,C07,C23 SymbolicTerm::operator<
bool st_less(const SymbolicTerm &self, const SymbolicTerm &o) {
  if (self.tensors_ < o.tensors_) return true;
  if (o.tensors_ < self.tensors_) return false;
  return self.operators_ < o.operators_;
}
//@ C05,C07,C23 SymbolicTerm::operator==
bool st_eq(const SymbolicTerm &self, const SymbolicTerm &o) { return self.tensors_ == o.tensors_ && self.operators_ == o.operators_; }
//@ C20 SymbolicTerm::is_vacuum_normal_ordered
bool st_is_vno(const SymbolicTerm &self) {
  return std::is_sorted(self.operators_.begin(), self.operators_.end(), [](const SQOperator &a, const SQOperator &b) { return a < b; });
}
//@ C16,C19,C20,C04 SymbolicTerm::is_creation_then_annihilation
bool st_cta(const SymbolicTerm &self) {
  return std::is_sorted(self.operators_.begin(), self.operators_.end(), [](const SQOperator &a, const SQOperator &b) { return a.is_creation() && !b.is_creation(); });
}
//@ C22 SymbolicTerm::str
std::string st_str(const SymbolicTerm &self) {
  std::vector<std::string> v;
  for (const auto &t : self.tensors_) v.push_back(t.str());
  if (!self.operators_.elements_.empty()) {
    if (self.normal_ordered_) v.push_back("{");
    for (const auto &o : self.operators_.elements_) v.push_back(o.str());
    if (self.normal_ordered_) v.push_back("}");
  }
  return join(v, " ");
}
//@ C16,C19 SymbolicTerm::latex
std::string st_latex(const SymbolicTerm &self) {
  std::vector<std::string> v;
  for (const auto &t : self.tensors_) v.push_back(t.latex());
  if (self.operators_.elements_.size() > 0) {
    if (self.normal_ordered_) v.push_back("\\{");
    if (self.is_creation_then_annihilation()) {
      std::vector<std::string> c, a;
      for (const auto &o : self.operators_.elements_) {
        if (o.is_creation()) c.push_back(o.index().latex()); else a.push_back(o.index().latex());
      }
      std::reverse(a.begin(), a.end());
      v.push_back("\\hat{a}^{" + join(c, " ") + "}_{" + join(a, " ") + "}");
    } else for (const auto &o : self.operators_.elements_) v.push_back(o.latex());
    if (self.normal_ordered_) v.push_back("\\}");
  }
  return join(v, " ");
}
//@ C14,C18,C04 SymbolicTerm::compile
std::string st_compile(const SymbolicTerm &self, const std::string &format) {
  if (format != "ambit") return "";
  std::vector<std::string> v;
  for (const auto &t : self.tensors_) v.push_back(t.compile(format));
  if (self.operators_.elements_.size() != 0) throw std::runtime_error("");
  return join(v, " * ");
}
//@ C07,C14 operator_product_4
std::pair<Product<SQOperator>, bool> op4(const SymbolicTerm &l, const SymbolicTerm &r) {
  Product<SQOperator> p;
  for (const auto &o : l.ops()) p.push_back(o);
  for (const auto &o : r.ops()) p.push_back(o);
  return std::make_pair(p, false);
}
//@ C07,C14 operator_product_1
std::pair<Product<SQOperator>, bool> op1(const SymbolicTerm &l, const SymbolicTerm &r) { throw std::runtime_error(""); }
//@ C07,C14 operator_product_2
std::pair<Product<SQOperator>, bool> op2(const SymbolicTerm &l, const SymbolicTerm &r) { throw std::runtime_error(""); }
//@ C07,C14 operator_product_3
std::pair<Product<SQOperator>, bool> op3(const SymbolicTerm &l, const SymbolicTerm &r) { throw std::runtime_error(""); }
//@ C07,C14 operator_product
std::pair<Product<SQOperator>, bool> op(const SymbolicTerm &l, const SymbolicTerm &r) {
  bool a = l.is_labeled_normal_ordered(), b = r.is_labeled_normal_ordered();
  if (a && b) return operator_product_1(l, r);
  if (a) return operator_product_2(l, r);
  if (b) return operator_product_3(l, r);
  return operator_product_4(l, r);
}
//@ C07,C29 SymbolicTerm::operator*= | self
SymbolicTerm &st_times(SymbolicTerm &self, const SymbolicTerm &r) {
  auto p = operator_product(self, r).first;
  for (const auto &t : r.tensors_) self.tensors_.push_back(t);
  self.operators_ = p;
  return self;
}
//@ C23 SymbolicTerm::tensor_connectivity
std::vector<std::pair<std::string, std::vector<int>>> st_connectivity(const SymbolicTerm &self, const Tensor &t, bool upper) {
  std::vector<std::pair<std::string, std::vector<int>>> r;
  std::vector<Index> mine = upper ? t.upper() : t.lower();
  std::sort(mine.begin(), mine.end());
  for (const auto &x : self.tensors_) {
    if (x == t) continue;
    std::vector<Index> other = upper ? x.lower() : x.upper();
    std::sort(other.begin(), other.end());
    std::vector<Index> common;
    std::set_intersection(mine.begin(), mine.end(), other.begin(), other.end(), std::back_inserter(common));
    r.push_back(std::make_pair(x.label(), num_indices_per_space(common)));
  }
  std::sort(r.begin(), r.end());
  return r;
}
//@ C08,C23,C04 SymbolicTerm::simplify
scalar_t st_simplify(SymbolicTerm &self) { return scalar_t(1); }
//@ C08,C23,C04 SymbolicTerm::canonicalize | bounds
scalar_t st_canonicalize(SymbolicTerm &self) {
  using conn_t = std::vector<std::pair<std::string, std::vector<int>>>;
  std::vector<std::tuple<std::string, int, std::vector<int>, std::vector<int>, conn_t, conn_t, Tensor>> order;
  for (const auto &t : self.tensors_)
    order.push_back(std::make_tuple(t.label(), t.rank(), num_indices_per_space(t.lower()), num_indices_per_space(t.upper()),
                                    self.tensor_connectivity(t, false), self.tensor_connectivity(t, true), t));
  std::sort(order.begin(), order.end());
  self.tensors_.clear();
  for (const auto &x : order) self.tensors_.push_back(std::get<6>(x));

  std::vector<int> n_shared(orbital_subspaces->num_spaces(), 0), n_free(orbital_subspaces->num_spaces(), 0);
  std::map<Index, bool> on_operator;
  for (const auto &o : self.operators_) { n_free.at(o.index().space()) += 1; on_operator[o.index()] = true; }
  std::map<Index, bool> keep = on_operator;                    // indices no tensor carries keep their name
  for (const auto &t : self.tensors_)
    for (const auto &i : t.indices()) keep.erase(i);
  auto next = [&keep](int s, std::vector<int> &n) {
    while (keep.count(Index(s, n[s])) > 0) n[s] += 1;
    return Index(s, n[s]++);
  };
  index_map_t m;
  for (const auto &t : self.tensors_) {
    for (const auto &i : t.lower()) {
      if (m.count(i) == 0) m[i] = on_operator.count(i) ? next(i.space(), n_shared) : next(i.space(), n_free);
    }
    for (const auto &i : t.upper()) {
      if (m.count(i) == 0) m[i] = on_operator.count(i) ? next(i.space(), n_shared) : next(i.space(), n_free);
    }
  }
  self.reindex(m);
  scalar_t factor(1);
  for (auto &t : self.tensors_) factor *= t.canonicalize();
  factor *= canonicalize_sqops(self.operators_, false);
  self.simplify();
  return factor;
}

// ------------------------------------------------------------------ vacuum normal ordering
//@ C02,C08,C20 recursive_vacuum_normal_order
void vno(const SymbolicTerm &term, scalar_t c, std::vector<std::pair<SymbolicTerm, scalar_t>> &out, bool only_same) {
  const auto &ops = term.ops();
  if (ops.size() == 0) { out.push_back(std::make_pair(term, c)); return; }
  auto both_fermions = [](SQOperator const &a, SQOperator const &b) { return a.field_type() == FieldType::Fermion && b.field_type() == FieldType::Fermion; };
  if (!has_no_adjacent_identical_terms<SQOperator>(ops, both_fermions)) return;
  auto it = std::adjacent_find(ops.begin(), ops.end(), [](SQOperator const &a, SQOperator const &b) { return b < a; });
  if (it == ops.end()) { out.push_back(std::make_pair(term, c)); return; }
  size_t p = std::distance(ops.begin(), it);
  const SQOperator a = ops[p], b = ops[p + 1];
  std::vector<SQOperator> exchanged = ops;
  exchanged[p] = b; exchanged[p + 1] = a;
  recursive_vacuum_normal_order(SymbolicTerm(false, exchanged, term.tensors()), c * a.commutator_factor(b), out, only_same);
  if (a.is_creation() == b.is_creation()) return;
  if (a.space() != b.space()) return;
  bool same = a.index() == b.index();
  if (only_same && !same) return;
  std::vector<SQOperator> rest;
  for (size_t k = 0; k < p; k++) rest.push_back(ops[k]);
  for (size_t k = p + 2; k < ops.size(); k++) rest.push_back(ops[k]);
  SymbolicTerm contracted(false, rest, term.tensors());
  if (!same) {
    Index cre = a.is_creation() ? a.index() : b.index(), ann = a.is_creation() ? b.index() : a.index();
    contracted.add(Tensor("delta", {ann}, {cre}, SymmetryType::Nonsymmetric));
  }
  recursive_vacuum_normal_order(contracted, c, out, only_same);
}
//@ C20 SymbolicTerm::vacuum_normal_order
std::vector<std::pair<SymbolicTerm, scalar_t>> st_vno(const SymbolicTerm &self, bool only_same) {
  std::vector<std::pair<SymbolicTerm, scalar_t>> r;
  recursive_vacuum_normal_order(self, scalar_t(1), r, only_same);
  return r;
}
//@ C20 has_no_adjacent_identical_terms
template <class T> bool no_adjacent(const std::vector<T> &v, std::function<bool(const T &, const T &)> pred) {
  for (size_t k = 0; k + 1 < v.size(); k++)
    if (v[k] == v[k + 1] && pred(v[k], v[k + 1])) return false;
  return true;
}
template bool no_adjacent(const std::vector<SQOperator> &, std::function<bool(const SQOperator &, const SQOperator &)>);
//@ C02,C07,C08,C20 operator*
SymbolicTerm st_times(SymbolicTerm l, const SymbolicTerm &r) { l *= r; return l; }
//@ C22 operator<<
std::ostream &shift_st(std::ostream &os, const SymbolicTerm &t) { os << t.str(); return os; }
//@ C22 operator<<
std::ostream &shift_pair(std::ostream &os, const std::pair<SymbolicTerm, scalar_t> &t) { os << t.second.str() << ' ' << t.first.str(); return os; }
} // namespace spec
