// Reference meaning of the containers: linear combinations, products, the orbital-space registry, small utilities.
#include <algorithm>
#include <functional>
#include <sstream>
#include <regex>
#include "helpers/helpers.h"
#include "helpers/algebra.hpp"
#include "helpers/product.hpp"
#include "helpers/orbital_space.h"
#include "algebra/expression.h"
#include "diagrams/operator.h"
#include "diagrams/operator_product.h"
#include "diagrams/operator_expression.h"
#include "diagrams/contraction.h"

std::string &trim(std::string &s);
std::string &ltrim(std::string &s);
std::string &rtrim(std::string &s);
namespace spec {
// ------------------------------------------------------------------ sparse linear combinations
//@ C02,C06,C07,C19,C20,C23,C25,C29 add_to_map | lin0
template <class K> void accumulate(std::map<K, scalar_t> &m, const K &key, const scalar_t &value) {
  if (value == 0) return;
  auto it = m.find(key);
  if (it == m.end()) { m[key] = value; return; }
  scalar_t sum = it->second + value;
  if (sum == 0) m.erase(it); else it->second = sum;
}
template void accumulate(std::map<SymbolicTerm, scalar_t> &, const SymbolicTerm &, const scalar_t &);
template void accumulate(std::map<OperatorProduct, scalar_t> &, const OperatorProduct &, const scalar_t &);

// lin1: add_to_map is read as "add value * key to the linear combination"
//@ C07,C25,C10 Algebra::add | lin1
template <class A, class T> void add(A &self, const T &e, scalar_t c) { add_to_map(self.terms_, e, c); }
//@ C07,C25 Algebra::size | lin1
template <class A> size_t size(const A &self) { return self.terms_.size(); }
//@ C07,C25 Algebra::terms | lin1
template <class A> const typename A::vecspace_t &terms(const A &self) { return self.terms_; }
//@ C07,C25 Algebra::contains | lin1
template <class A, class T> bool contains(const A &self, const T &e) { return self.terms_.count(e) > 0; }
//@ C05,C07,C25 Algebra::is_equal | lin1
template <class A, class B> bool is_equal(const A &self, const B &o) { return self.terms_ == o.terms_; }
//@ C02,C07,C25 Algebra::dot | lin1 self
template <class A, class D> scalar_t dot(const A &self, const D &o) {
  scalar_t r(0);
  for (const auto &[e, c] : self.terms_)
    if (o.terms_.count(e)) r += c * o.terms_.at(e);
  return r;
}
//@ C07,C25 Algebra::norm | lin1
template <class A> double norm(const A &self) {
  double r = 0;
  for (const auto &[e, c] : self.terms_) r += (c * c).to_double();
  return std::sqrt(r);
}
//@ C07,C25 Algebra::operator- | lin1
template <class D, class A> D negative(const A &self) {
  D r;
  for (const auto &[e, c] : self.terms_) add_to_map(r.terms_, e, -c);
  return r;
}
//@ C07,C25 Algebra::operator+ | lin1
template <class D, class A> D plus(const A &self, const A &o) {
  D r;
  for (const auto &[e, c] : self.terms_) add_to_map(r.terms_, e, c);
  for (const auto &[e, c] : o.terms_) add_to_map(r.terms_, e, c);
  return r;
}
//@ C02,C07,C20,C25,C10 Algebra::operator+= | lin1 
template <class A, class T> A &plus_pair(A &self, const std::pair<T, scalar_t> &o) { add_to_map(self.terms_, o.first, o.second); return self; }
//@ C02,C07,C20,C25,C10 Algebra::operator+= | lin1 self
template <class A> A &plus_eq(A &self, const A &o) {
  for (const auto &[e, c] : o.terms_) add_to_map(self.terms_, e, c);
  return self;
}
//@ C02,C07,C25 Algebra::operator-= | lin1 self
template <class A> A &minus_eq(A &self, const A &o) {
  const auto copy = o.terms_;
  for (const auto &[e, c] : copy) add_to_map(self.terms_, e, -c);
  return self;
}
//@ C02,C07,C25 Algebra::operator*= | lin1 self
template <class A> A &times_eq(A &self, const A &o) {
  A r;
  for (const auto &[l, cl] : self.terms_)
    for (const auto &[k, ck] : o.terms_) add_to_map(r.terms_, l * k, cl * ck);     // left factor on the left
  self.terms_ = r.terms_;
  return self;
}
//@ C02,C07,C25 Algebra::operator*= | lin1
template <class A> A &scale(A &self, scalar_t f) {
  if (f == 0) self.terms_.clear();
  else for (auto &[e, c] : self.terms_) c *= f;
  return self;
}
//@ C02,C07,C25 Algebra::operator/= | lin1 strong
template <class A> A &unscale(A &self, scalar_t f) {
  if (f == 0) throw std::runtime_error("");
  for (auto &[e, c] : self.terms_) c /= f;
  return self;
}
using AE = Algebra<Expression, SymbolicTerm, scalar_t>;
using AO = Algebra<OperatorExpression, OperatorProduct, scalar_t>;
template void add(AE &, const SymbolicTerm &, scalar_t);
template void add(AO &, const OperatorProduct &, scalar_t);
template size_t size(const AE &);
template const AE::vecspace_t &terms(const AE &);
template bool contains(const AE &, const SymbolicTerm &);
template bool is_equal(const AE &, const AE &);
template bool is_equal(const AO &, const AO &);
template scalar_t dot(const AE &, const Expression &);
template double norm(const AE &);
template Expression negative(const AE &);
template OperatorExpression negative(const AO &);
template Expression plus(const AE &, const AE &);
template OperatorExpression plus(const AO &, const AO &);
template AE &plus_pair(AE &, const std::pair<SymbolicTerm, scalar_t> &);
template AE &plus_eq(AE &, const AE &);
template AO &plus_eq(AO &, const AO &);
template AE &minus_eq(AE &, const AE &);
template AO &minus_eq(AO &, const AO &);
template AE &times_eq(AE &, const AE &);
template AO &times_eq(AO &, const AO &);
template AE &scale(AE &, scalar_t);
template AO &scale(AO &, scalar_t);
template AE &unscale(AE &, scalar_t);
template AO &unscale(AO &, scalar_t);

// ------------------------------------------------------------------ products
//@ C06,C07 Product::adjoint
template <class P> P prod_adjoint(const P &self) {
  P r;
  for (size_t k = 0; k < self.elements_.size(); k++) r.elements_.push_back(self.elements_[self.elements_.size() - 1 - k].adjoint());
  return r;
}
//@ C07,C25 Product::operator*= | self
template <class P> P &prod_times(P &self, const P &o) {
  const auto e = o.elements_;
  for (size_t k = 0; k < e.size(); k++) self.elements_.push_back(e[k]);
  return self;
}
//@ C05,C07 Product::operator<
template <class P> bool prod_less(const P &self, const P &o) { return self.elements_ < o.elements_; }
//@ C05,C07 Product::is_equal
template <class P> bool prod_equal(const P &self, const P &o) { return self.elements_ == o.elements_; }
//@ C06,C07 Product::push_back
template <class P, class E> void prod_push(P &self, const E &e) { self.elements_.push_back(e); }
//@ C06,C07 Product::elements
template <class P, class V> const V &prod_elements(const P &self) { return self.elements_; }
//@ C07 Product::size
template <class P> size_t prod_size(const P &self) { return self.elements_.size(); }
using PS = Product<SQOperator>;
using PO = Product<Operator>;
template PS prod_adjoint(const PS &);
template PO prod_adjoint(const PO &);
template PS &prod_times(PS &, const PS &);
template PO &prod_times(PO &, const PO &);
template bool prod_less(const PS &, const PS &);
template bool prod_less(const PO &, const PO &);
template bool prod_equal(const PS &, const PS &);
template bool prod_equal(const PO &, const PO &);
template void prod_push(PS &, const SQOperator &);
template void prod_push(PO &, const Operator &);
template const std::vector<SQOperator> &prod_elements(const PS &);
template const std::vector<Operator> &prod_elements(const PO &);
template size_t prod_size(const PS &);
template size_t prod_size(const PO &);

// ------------------------------------------------------------------ the orbital-space registry
//@ C03,C16 OrbitalSpace::OrbitalSpace
void os_ctor(OrbitalSpace &self, char label, FieldType field_type, SpaceType space_type, const std::vector<std::string> &indices, const std::vector<int> &elementary_spaces) {
  self.label_ = label; self.field_type_ = field_type; self.space_type_ = space_type; self.indices_ = indices; self.elementary_spaces_ = elementary_spaces;
}
//@ C03,C22 OrbitalSpace::label
char os_label(const OrbitalSpace &self) { return self.label_; }
//@ C03,C16,C20 OrbitalSpace::field_type
FieldType os_field(const OrbitalSpace &self) { return self.field_type_; }
//@ C03,C16,C17,C20 OrbitalSpace::space_type
SpaceType os_space(const OrbitalSpace &self) { return self.space_type_; }
//@ C03 OrbitalSpace::indices
const std::vector<std::string> &os_indices(const OrbitalSpace &self) { return self.indices_; }
//@ C03 OrbitalSpace::elementary_spaces
const std::vector<int> &os_elem(const OrbitalSpace &self) { return self.elementary_spaces_; }
//@ C03,C14,C04 OrbitalSpaceInfo::add_space | strong
void add_space(OrbitalSpaceInfo &self, char label, FieldType field_type, SpaceType space_type, const std::vector<std::string> &indices, const std::vector<char> &elementary_spaces) {
  if (self.label_to_pos_.count(label)) throw std::runtime_error("");
  int pos = self.space_info_.size();
  std::map<std::string, int> mine;
  for (const auto &i : indices) {
    if (self.indices_to_pos_.count(i)) throw std::runtime_error("");
    if (mine.count(i)) throw std::runtime_error("");
    mine[i] = pos;
  }
  std::vector<int> elem;
  for (char e : elementary_spaces) elem.push_back(e == label ? pos : self.label_to_space(e));
  self.label_to_pos_[label] = pos;
  self.indices_to_pos_.insert(mine.begin(), mine.end());
  self.space_info_.push_back(OrbitalSpace(label, field_type, space_type, indices, elem));
}
//@ C03 OrbitalSpaceInfo::reset
void reset(OrbitalSpaceInfo &self) { self.space_info_.clear(); self.label_to_pos_.clear(); self.indices_to_pos_.clear(); }
//@ C03,C17,C24 OrbitalSpaceInfo::num_spaces
int num_spaces(OrbitalSpaceInfo &self) { return self.space_info_.size(); }
//@ C03,C14,C18,C19,C22,C29,C24,C04 OrbitalSpaceInfo::label | bounds
char osi_label(const OrbitalSpaceInfo &self, int pos) { return self.space_info_.at(pos).label_; }
//@ C03,C16,C17,C20,C04 OrbitalSpaceInfo::space_type | bounds
SpaceType osi_space(const OrbitalSpaceInfo &self, int pos) { return self.space_info_.at(pos).space_type_; }
//@ C03,C16,C20,C04 OrbitalSpaceInfo::field_type | bounds
FieldType osi_field(const OrbitalSpaceInfo &self, int pos) { return self.space_info_.at(pos).field_type_; }
//@ C03,C18,C04 OrbitalSpaceInfo::indices | bounds
const std::vector<std::string> &osi_indices(const OrbitalSpaceInfo &self, int pos) { return self.space_info_.at(pos).indices_; }
//@ C03,C14,C22,C29,C04 OrbitalSpaceInfo::label_to_space
int label_to_space(const OrbitalSpaceInfo &self, char label) {
  if (self.label_to_pos_.count(label) == 0) throw std::runtime_error("");
  return self.label_to_pos_.at(label);
}
//@ C03,C14,C18,C19,C22,C04 OrbitalSpaceInfo::index_label | bounds
const std::string index_label(const OrbitalSpaceInfo &self, int pos, int idx) {
  const OrbitalSpace &s = self.space_info_.at(pos);
  if (static_cast<size_t>(idx) < s.indices_.size()) return s.indices_[idx];
  return std::string(1, s.label_) + "_{" + std::to_string(idx) + "}";
}
//@ C16,C22,C04 OrbitalSpaceInfo::op_symbol | bounds
std::string op_symbol(const OrbitalSpaceInfo &self, int pos) {
  return self.space_info_.at(pos).field_type_ == FieldType::Fermion ? "a" : "b";
}
//@ C03,C14,C16,C17 string_to_space_type
SpaceType string_to_space_type(const std::string &s) {
  if (s == "occupied") return SpaceType::Occupied;
  if (s == "unoccupied") return SpaceType::Unoccupied;
  if (s == "general") return SpaceType::General;
  throw std::runtime_error("");
}
//@ C03,C14,C16 string_to_field_type
FieldType string_to_field_type(const std::string &s) {
  if (s == "fermion") return FieldType::Fermion;
  if (s == "boson") return FieldType::Boson;
  throw std::runtime_error("");
}
//@ C03,C16 OrbitalSpaceInfo::str
std::string osi_str(const OrbitalSpaceInfo &self) {
  std::vector<std::string> v;
  for (const auto &s : self.space_info_) {
    std::string f = s.field_type_ == FieldType::Fermion ? "fermion" : "boson";
    std::string t = s.space_type_ == SpaceType::Occupied ? "occupied" : s.space_type_ == SpaceType::Unoccupied ? "unoccupied" : "general";
    v.push_back("space label: " + std::string(1, s.label_) + "\nfield type: " + f + "\nspace type: " + t + "\nindices: [" + join(s.indices_, ",") + "]");
  }
  return join(v, "\n\n");
}
//@ C03,C24 OrbitalSpaceInfo::to_dict
std::map<std::string, std::vector<std::string>> to_dict(const OrbitalSpaceInfo &self) {
  std::map<std::string, std::vector<std::string>> d;
  for (const auto &s : self.space_info_) d[std::string(1, s.label_)] = s.indices_;
  return d;
}

// ------------------------------------------------------------------ utilities
//@ C18,C22 join
std::string join_(const std::vector<std::string> &v, const std::string &sep) {
  std::string r;
  if (v.empty()) return r;
  for (size_t i = 0; i + 1 < v.size(); i++) r += v[i] + sep;
  return r + v[v.size() - 1];
}
//@ C04,C13,C26 int_matrix::int_matrix
void im_ctor(int_matrix &self, size_t nrows, size_t ncols) { self.nrows_ = nrows; self.ncols_ = ncols; self.m_ = std::vector<int>(nrows * ncols, 0); }
//@ C13,C26,C04 int_matrix::operator()
int &im_at(int_matrix &self, size_t i, size_t j) { return self.m_[i * self.ncols_ + j]; }
//@ C23,C04 index_counter::index_counter
void ic_ctor(index_counter &self, int n) { self.counter_ = std::vector<int>(n, 0); }
//@ C23,C27,C29,C04 index_counter::next_index
int ic_next(index_counter &self, int i) { return self.counter_[i]++; }
//@ C23,C27,C29,C04 index_counter::index
int ic_index(index_counter &self, int i) { return self.counter_[i]; }
//@ C22 ltrim
std::string &ltrim_(std::string &s) {
  s.erase(s.begin(), std::find_if(s.begin(), s.end(), [](unsigned char c) { return !std::isspace(c); }));
  return s;
}
//@ C22 rtrim
std::string &rtrim_(std::string &s) {
  s.erase(std::find_if(s.rbegin(), s.rend(), [](unsigned char c) { return !std::isspace(c); }).base(), s.end());
  return s;
}
//@ C22,C29 split
std::vector<std::string> split_(const std::string &s, std::regex re) {
  std::vector<std::string> r;
  for (std::sregex_token_iterator it(s.begin(), s.end(), re, -1), end; it != end; ++it) r.push_back(it->str());
  return r;
}
//@ C14,C22,C29 findall
std::vector<std::string> findall_(const std::string &s, const std::regex &re) {
  std::vector<std::string> r;
  std::sregex_iterator it(s.begin(), s.end(), re), end;
  for (; it != end; ++it) {
    std::smatch m = *it;
    for (size_t k = 1; k < m.size(); k++) r.push_back(m[k]);
  }
  return r;
}
//@ C14,C22,C29 split_indices
std::vector<std::string> split_indices_(const std::string &idx) {
  std::vector<std::string> v;
  std::istringstream f(idx);
  std::string s;
  while (std::getline(f, s, ',')) v.push_back(trim(s));
  return v;
}
//@ C05,C13,C26,C28 iota_vector
std::vector<int> iota_(size_t size, int value) {
  std::vector<int> v(size);
  for (size_t k = 0; k < size; k++) v[k] = value + int(k);
  return v;
}
//@ C13,C26,C04 int_matrix::operator()
int im_get(const int_matrix &self, size_t i, size_t j) { return self.m_[i * self.ncols_ + j]; }
} // namespace spec
