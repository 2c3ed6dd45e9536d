// Reference meaning of indices, second-quantized operators, tensors and terms.
#include <algorithm>
#include <regex>
#include "helpers/combinatorics.h"
#include "helpers/helpers.h"
#include "helpers/orbital_space.h"
#include "algebra/index.h"
#include "algebra/sqoperator.h"
#include "algebra/tensor.h"
#include "algebra/term.h"

namespace spec {
// ------------------------------------------------------------------ indices
//@ C05,C18,C19,C22,C23,C27 Index::Index
void index_ctor0(Index &self) { self.index_ = std::pair<int, int>(-1, -1); }
//@ C05,C18,C19,C22,C23,C27 Index::Index
void index_ctor(Index &self, int space, int p) { self.index_.first = space; self.index_.second = p; }
//@ C05,C18,C19,C22,C23 Index::space
int index_space(const Index &self) { return self.index_.first; }
//@ C05,C18,C22,C23 Index::pos
int index_pos(const Index &self) { return self.index_.second; }
//@ C05,C07,C20,C23 Index::operator==
bool index_eq(const Index &self, const Index &o) { return self.index_.first == o.index_.first && self.index_.second == o.index_.second; }
//@ C05,C07,C23 Index::operator<
bool index_less(const Index &self, const Index &o) {
  if (self.index_.first != o.index_.first) return self.index_.first < o.index_.first;
  return self.index_.second < o.index_.second;
}
//@ C18,C19,C22,C24 Index::str
std::string index_str(const Index &self) { return orbital_subspaces->label(self.index_.first) + std::to_string(self.index_.second); }
//@ C22 Index::latex
std::string index_latex(const Index &self) { return orbital_subspaces->index_label(self.index_.first, self.index_.second); }
//@ C18,C22 Index::compile
std::string index_compile(const Index &self, const std::string &) { return orbital_subspaces->label(self.index_.first) + std::to_string(self.index_.second); }
//@ C05,C08,C23,C04 canonicalize_indices
scalar_t canonicalize_indices_(std::vector<Index> &v, bool reversed) {
  std::vector<std::pair<Index, int>> p;
  for (size_t k = 0; k < v.size(); k++) p.push_back(std::make_pair(v[k], (int)k));
  if (reversed) std::sort(p.rbegin(), p.rend()); else std::sort(p.begin(), p.end());
  std::vector<int> perm;
  std::vector<Index> out;
  for (const auto &x : p) { out.push_back(x.first); perm.push_back(x.second); }
  v = out;
  return permutation_sign(perm);
}
//@ C14,C22,C04 make_index_from_str
Index index_from_str(const std::string &s) {
  std::smatch sm;
  if (!std::regex_match(s, sm, std::regex("([a-zA-Z])[_]?(\\d+)"))) throw std::runtime_error("");
  std::string l = sm[1];
  int space = orbital_subspaces->label_to_space(l[0]);
  return Index(space, stoi(sm[2]));
}
//@ C14,C22,C04 make_indices_from_str
std::vector<Index> indices_from_str(const std::string &s) {
  std::vector<Index> r;
  for (const auto &x : split_indices(s)) r.push_back(make_index_from_str(x));
  return r;
}
//@ C21,C23,C26 num_indices_per_space | bounds
std::vector<int> indices_per_space(const std::vector<Index> &v) {
  std::vector<int> n(orbital_subspaces->num_spaces(), 0);
  for (const Index &i : v) n.at(i.space())++;
  return n;
}
//@ C02,C21,C26 symmetry_factor
int symmetry_factor_(const std::vector<Index> &v) {
  int r = 1;
  auto n = num_indices_per_space(v);
  for (int s = 0; s < orbital_subspaces->num_spaces(); s++) r *= factorial(n[s]);
  return r;
}
//@ C23,C04 remap
index_map_t remap_(const std::vector<Index> &first, const std::vector<Index> &second) {
  index_map_t r;
  std::map<int, std::vector<int>> used;
  for (const Index &i : first) used[i.space()].push_back(i.pos());
  for (auto &kv : used) std::sort(kv.second.begin(), kv.second.end());
  for (const Index &i : second) {
    std::vector<int> &u = used[i.space()];
    if (std::find(u.begin(), u.end(), i.pos()) == u.end()) continue;
    int fresh = u.back() + 1;
    r[i] = Index(i.space(), fresh);
    u.push_back(fresh);
  }
  return r;
}

// ------------------------------------------------------------------ second-quantized operators
//@ C05,C06,C08,C19,C20,C22,C23,C27,C29 SQOperator::SQOperator
void sqop_ctor(SQOperator &self, SQOperatorType t, Index i) { self.operator_.first = t; self.operator_.second = i; }
//@ C05,C06,C16,C19,C20,C22,C27 SQOperator::type
SQOperatorType sqop_type(const SQOperator &self) { return self.operator_.first; }
//@ C08,C16,C20,C22 SQOperator::field_type
FieldType sqop_field(const SQOperator &self) { return orbital_subspaces->field_type(self.operator_.second.space()); }
//@ C16,C20 SQOperator::space_type
SpaceType sqop_space_type(const SQOperator &self) { return orbital_subspaces->space_type(self.operator_.second.space()); }
//@ C05,C06,C18,C19,C20,C22,C23,C27 SQOperator::index
const Index &sqop_index(const SQOperator &self) { return self.operator_.second; }
//@ C19,C20,C22 SQOperator::space
int sqop_space(const SQOperator &self) { return self.operator_.second.space(); }
//@ C05,C06,C16,C19,C20,C22 SQOperator::is_creation
bool sqop_creation(const SQOperator &self) { return self.operator_.first == SQOperatorType::Creation; }
//@ C05,C16,C20 SQOperator::is_quasiparticle_creation
bool sqop_qp(const SQOperator &self) {
  bool occ = orbital_subspaces->space_type(self.operator_.second.space()) == SpaceType::Occupied;
  bool cre = self.operator_.first == SQOperatorType::Creation;
  return occ != cre;
}
//@ C16,C22 SQOperator::op_symbol
std::string sqop_symbol(const SQOperator &self) { return orbital_subspaces->op_symbol(self.operator_.second.space()); }
//@ C23 SQOperator::reindex
void sqop_reindex(SQOperator &self, std::map<Index, Index> &m) {
  auto it = m.find(self.operator_.second);
  if (it != m.end()) self.operator_.second = it->second;
}
//@ C05,C07,C20,C23 SQOperator::operator<
bool sqop_less(const SQOperator &self, const SQOperator &o) {
  bool c = self.is_creation(), d = o.is_creation();
  if (c && !d) return true;
  if (!c && d) return false;
  return c ? self.index() < o.index() : o.index() < self.index();
}
//@ C05,C20 SQOperator::normal_ordered_less
bool sqop_no_less(const SQOperator &self, const SQOperator &o) {
  int validated = (int)orbital_subspaces->space_type(self.space());
  bool c = self.is_quasiparticle_creation(), d = o.is_quasiparticle_creation();
  if (c && !d) return true;
  if (!c && d) return false;
  return c ? self.index() < o.index() : o.index() < self.index();
}
//@ C05,C07,C20,C23 SQOperator::operator==
bool sqop_eq(const SQOperator &self, const SQOperator &o) { return self.operator_.first == o.operator_.first && self.operator_.second == o.operator_.second; }
//@ C16,C22 SQOperator::str
std::string sqop_str(const SQOperator &self) {
  std::string sign = self.is_creation() ? "+" : "-";
  return self.op_symbol() + sign + "(" + self.index().str() + ")";
}
//@ C16,C22 SQOperator::latex
std::string sqop_latex(const SQOperator &self) {
  return "\\hat{" + self.op_symbol() + "}" + std::string(self.is_creation() ? "^" : "_") + "{" + self.index().latex() + "}";
}
//@ C14,C16 SQOperator::compile
std::string sqop_compile(const SQOperator &self, const std::string &) { throw std::runtime_error(""); }
//@ C06 SQOperator::adjoint
SQOperator sqop_adjoint(const SQOperator &self) {
  return SQOperator(self.is_creation() ? SQOperatorType::Annihilation : SQOperatorType::Creation, self.index());
}
//@ C08,C16,C20 SQOperator::commutator_factor
scalar_t sqop_cf(const SQOperator &self, const SQOperator &o) {
  bool f = self.field_type() == FieldType::Fermion, g = o.field_type() == FieldType::Fermion;
  return scalar_t(f && g ? -1 : 1);
}
//@ C14,C22,C29,C04 make_sqoperator
SQOperator sqop_make(const std::string &index, SQOperatorType t) { return SQOperator(t, make_index_from_str(index)); }
//@ C05,C08,C23,C04 canonicalize_sqops
scalar_t canonicalize_sqops_(Product<SQOperator> &v, bool reversed) {
  std::vector<std::pair<SQOperator, int>> p;
  for (size_t k = 0; k < v.elements_.size(); k++) p.push_back(std::make_pair(v.elements_[k], (int)k));
  if (reversed) std::sort(p.rbegin(), p.rend()); else std::sort(p.begin(), p.end());
  std::vector<int> perm;
  Product<SQOperator> out;
  for (const auto &x : p) {
    out.elements_.push_back(x.first);
    if (x.first.field_type() == FieldType::Fermion) perm.push_back(x.second);
  }
  v = out;
  return permutation_sign(perm);
}

// ------------------------------------------------------------------ tensors
//@ C05,C06,C08,C18,C19,C20,C22,C23,C27,C29 Tensor::Tensor
void tensor_ctor(Tensor &self, const std::string &label, const std::vector<Index> &lower, const std::vector<Index> &upper, SymmetryType s) {
  self.label_ = label; self.lower_ = lower; self.upper_ = upper; self.symmetry_ = s; self.is_complex_conjugate_ = false;
}
//@ C05,C06,C18,C22,C23 Tensor::label
const std::string &tensor_label(const Tensor &self) { return self.label_; }
//@ C05,C06,C08,C18,C19,C22,C23,C27 Tensor::lower
const std::vector<Index> &tensor_lower(const Tensor &self) { return self.lower_; }
//@ C05,C06,C08,C18,C19,C22,C23,C27 Tensor::upper
const std::vector<Index> &tensor_upper(const Tensor &self) { return self.upper_; }
//@ C05,C06 Tensor::is_complex_conjugate
bool tensor_cc(const Tensor &self) { return self.is_complex_conjugate_; }
//@ C05,C06,C08,C16 Tensor::symmetry
SymmetryType tensor_symmetry(const Tensor &self) { return self.symmetry_; }
//@ C06,C08,C23 Tensor::set_lower
void tensor_set_lower(Tensor &self, const std::vector<Index> &v) { self.lower_ = v; }
//@ C06,C08,C23 Tensor::set_upper
void tensor_set_upper(Tensor &self, const std::vector<Index> &v) { self.upper_ = v; }
//@ C18,C23 Tensor::indices
std::vector<Index> tensor_indices(const Tensor &self) {
  std::vector<Index> v = self.upper_;
  v.insert(v.end(), self.lower_.begin(), self.lower_.end());
  std::sort(v.begin(), v.end());
  v.erase(std::unique(v.begin(), v.end()), v.end());
  return v;
}
//@ C23 Tensor::reindex
void tensor_reindex(Tensor &self, index_map_t &m) {
  std::vector<Index> up, lo;
  for (const Index &i : self.upper_) up.push_back(m.count(i) ? m.at(i) : i);
  for (const Index &i : self.lower_) lo.push_back(m.count(i) ? m.at(i) : i);
  self.upper_ = up; self.lower_ = lo;
}
//@ C08,C16,C23 Tensor::canonicalize
scalar_t tensor_canonicalize(Tensor &self) {
  if (self.symmetry_ == SymmetryType::Nonsymmetric) throw std::runtime_error("");
  scalar_t a = canonicalize_indices(self.upper_, false);
  scalar_t b = canonicalize_indices(self.lower_, false);
  if (self.symmetry_ == SymmetryType::Antisymmetric) return a * b;
  return scalar_t(1);
}
//@ C06 Tensor::adjoint
Tensor tensor_adjoint(const Tensor &self) { Tensor r = self; r.is_complex_conjugate_ = !self.is_complex_conjugate_; return r; }
//@ C05,C23 Tensor::rank
int tensor_rank(const Tensor &self) { return self.upper_.size() + self.lower_.size(); }
//@ C23 Tensor::signature | bounds
std::vector<std::pair<int, int>> tensor_signature(const Tensor &self) {
  std::vector<std::pair<int, int>> r(orbital_subspaces->num_spaces(), std::pair<int, int>(0, 0));
  for (const Index &i : self.upper_) r.at(i.space()).first++;
  for (const Index &i : self.lower_) r.at(i.space()).second++;
  return r;
}
//@ C21 Tensor::symmetry_factor
int tensor_sf(const Tensor &self) { return symmetry_factor(self.upper_) * symmetry_factor(self.lower_); }
//@ C05,C07,C23 Tensor::operator<
bool tensor_less(const Tensor &self, const Tensor &o) {
  if (self.label_ < o.label_) return true;
  if (o.label_ < self.label_) return false;
  if (self.lower_ < o.lower_) return true;
  if (o.lower_ < self.lower_) return false;
  return self.upper_ < o.upper_;
}
//@ C05,C07,C23 Tensor::operator==
bool tensor_eq(const Tensor &self, const Tensor &o) { return self.label_ == o.label_ && self.lower_ == o.lower_ && self.upper_ == o.upper_; }
//@ C22 Tensor::str
std::string tensor_str(const Tensor &self) {
  std::vector<std::string> u, l;
  for (const Index &i : self.upper_) u.push_back(i.str());
  for (const Index &i : self.lower_) l.push_back(i.str());
  return self.label_ + "^{" + join(u, ",") + "}_{" + join(l, ",") + "}";
}
//@ C14,C16,C04 Tensor::latex
std::string tensor_latex(const Tensor &self) {
  std::vector<std::string> u, l;
  for (const Index &i : self.upper_) u.push_back(i.latex());
  for (const Index &i : self.lower_) l.push_back(i.latex());
  std::smatch sm;
  if (!std::regex_match(self.label_, sm, std::regex("([a-zA-Z]+)[_]?(\\d+)?"))) throw std::runtime_error("");
  std::string symbol = sm[1], sub = sm[2];
  std::vector<std::string> greek{"alpha", "beta", "gamma", "delta", "epsilon", "zeta", "eta", "theta", "iota", "kappa", "lambda", "mu",
                                 "nu", "xi", "omicron", "pi", "rho", "sigma", "tau", "upsilon", "phi", "chi", "psi", "omega"};
  std::string s;
  if (std::find(greek.begin(), greek.end(), symbol) != greek.end()) s = "{\\" + symbol;
  else s = "{" + symbol + (sub.size() == 0 ? std::string("") : "_{" + sub + "}");
  return s + "}^{" + join(u, " ") + "}_{" + join(l, " ") + "}";
}
//@ C18,C04 Tensor::compile
std::string tensor_compile(const Tensor &self, const std::string &format) {
  std::vector<std::string> v;
  for (const Index &i : self.upper_) v.push_back(i.compile(format));
  for (const Index &i : self.lower_) v.push_back(i.compile(format));
  if (v.empty()) return self.label_;
  return self.label_ + "[" + join(v, ",") + "]";
}
//@ C14,C22,C29 make_tensor
Tensor tensor_make(const std::string &label, const std::vector<std::string> &lower, const std::vector<std::string> &upper, SymmetryType s) {
  std::vector<Index> l, u;
  for (const auto &x : lower) l.push_back(make_index_from_str(x));
  for (const auto &x : upper) u.push_back(make_index_from_str(x));
  return Tensor(label, l, u, s);
}
//@ C14,C22,C04 make_tensor_from_str
Tensor tensor_from_str(const std::string &s, SymmetryType symmetry) {
  std::smatch sm;
  if (!std::regex_match(s, sm, std::regex("([a-zA-Z0-9_]+)\\^\\{([\\w,\\s]*)\\}_\\{([\\w,\\s]*)\\}"))) throw std::runtime_error("");
  auto upper = make_indices_from_str(sm[2]);
  auto lower = make_indices_from_str(sm[3]);
  return Tensor(sm[1], lower, upper, symmetry);
}

// ------------------------------------------------------------------ terms with a coefficient
//@ C02,C06,C07,C22 Term::Term
void term_ctor0(Term &self) { self.coefficient_ = scalar_t(1); self.normal_ordered_ = false; self.operators_ = Product<SQOperator>(); self.tensors_ = std::vector<Tensor>(); }
//@ C02,C06,C07,C19,C20,C22 Term::Term
void term_ctor(Term &self, scalar_t c, bool no, const std::vector<SQOperator> &ops, const std::vector<Tensor> &tensors) {
  self.coefficient_ = c; self.normal_ordered_ = no; self.operators_ = Product<SQOperator>(ops); self.tensors_ = tensors;
}
//@ C02,C06,C07,C19,C20,C22 Term::Term
void term_ctor1(Term &self, const SymbolicTerm &t) { self.normal_ordered_ = t.normal_ordered_; self.operators_ = t.operators_; self.tensors_ = t.tensors_; self.coefficient_ = scalar_t(1); }
//@ C02,C06,C07,C19,C20,C22 Term::Term
void term_ctor2(Term &self, scalar_t c, const SymbolicTerm &t) { self.normal_ordered_ = t.normal_ordered_; self.operators_ = t.operators_; self.tensors_ = t.tensors_; self.coefficient_ = c; }
//@ C02,C07,C15 Term::set
void term_set(Term &self, scalar_t c) { self.coefficient_ = c; }
//@ C02,C07,C15 Term::coefficient
scalar_t term_coefficient(const Term &self) { return self.coefficient_; }
//@ C05,C07,C19 Term::symterm
SymbolicTerm term_symterm(const Term &self) { return SymbolicTerm(self.normal_ordered_, self.operators_.vec(), self.tensors_); }
//@ C22 Term::str
std::string term_str(const Term &self) {
  std::string t = static_cast<const SymbolicTerm &>(self).str(), c = self.coefficient_.str();
  if (t.empty() && c.empty()) return "1";
  if (t.empty()) return c;
  if (c.empty()) return t;
  return c + " " + t;
}
//@ C22 Term::latex
std::string term_latex(const Term &self) { return self.coefficient_.latex(true) + " " + static_cast<const SymbolicTerm &>(self).latex(); }
} // namespace spec
