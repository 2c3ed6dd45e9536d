// Reference meaning of what Python sees.  '//@ PROPS api Class.name' names a binding; arguments passed by value or const reference stay unchanged.
#include "helpers/combinatorics.h"
#include "helpers/orbital_space.h"
#include "algebra/equation.h"
#include "algebra/expression.h"
#include "algebra/term.h"
#include "diagrams/contraction.h"
#include "diagrams/operator.h"
#include "diagrams/operator_expression.h"
#include "diagrams/wick_theorem.h"

namespace spec {
//@ C15 api Expression.__repr__
std::string api_ex_repr(const Expression &e) { return e.str(); }
//@ C15 api Expression.__str__
std::string api_ex_str(const Expression &e) { return e.str(); }
//@ C15 api Expression.__len__
size_t api_ex_len(const Expression &e) { return e.terms().size(); }
//@ C15,C05,C07 api Expression.__eq__
bool api_ex_eq(Expression &e, const Expression &f) { return e == f; }
//@ C15,C07 api Expression.__neg__
Expression api_ex_neg(const Expression &e) { return -e; }
//@ C15,C07 api Expression.__add__
Expression api_ex_add(const Expression &e, const Expression &f) { Expression r = e; r += f; return r; }
//@ C15,C07 api Expression.__sub__
Expression api_ex_sub(const Expression &e, const Expression &f) { Expression r = e; r -= f; return r; }
//@ C15,C07 api Expression.__matmul__
Expression api_ex_matmul(const Expression &e, const Expression &f) { Expression r = e; r *= f; return r; }
//@ C15,C07 api Expression.__mul__
Expression api_ex_mul(const Expression &e, scalar_t s) { Expression r = e; r *= s; return r; }
//@ C15,C07,C24 api Expression.__iadd__
Expression &api_ex_iadd1(Expression &e, const Term &t) { add_to_map(e.terms_, static_cast<const SymbolicTerm &>(t), t.coefficient_); return e; }
//@ C15,C07,C24 api Expression.__iadd__
Expression &api_ex_iadd2(Expression &e, const std::pair<SymbolicTerm, scalar_t> &t) { add_to_map(e.terms_, t.first, t.second); return e; }
//@ C15,C07,C24 api Expression.__iadd__
Expression &api_ex_iadd3(Expression &e, const SymbolicTerm &t) { add_to_map(e.terms_, t, scalar_t(1)); return e; }
//@ C15,C07 api Expression.dot
scalar_t api_ex_dot(const Expression &e, const Expression &f) { return e.dot(f); }
//@ C15 api Expression.latex
std::string api_ex_latex(const Expression &e, const std::string &sep) { return e.latex(sep); }
//@ C15,C19 api Expression.to_manybody_equation
std::map<std::string, std::vector<Equation>> api_ex_mb(const Expression &e, const std::string &l) { return e.to_manybody_equation(l); }
//@ C15,C19 api Expression.to_manybody_equations
std::map<std::string, std::vector<Equation>> api_ex_mbs(const Expression &e, const std::string &l) { return e.to_manybody_equation(l); }
//@ C15,C23 api Expression.canonicalize
Expression &api_ex_canonicalize(Expression &e) { e.canonicalize(); return e; }
//@ C15,C06 api Expression.adjoint
Expression api_ex_adjoint(const Expression &e) { return e.adjoint(); }
//@ C15,C20 api Expression.vacuum_normal_ordered | arg:only_same_index_contractions=false
Expression api_ex_vno(const Expression &e, bool b) { return e.vacuum_normal_ordered(b); }
//@ C15,C20 api Expression.is_vacuum_normal_ordered
bool api_ex_isvno(const Expression &e) { return e.is_vacuum_normal_ordered(); }
//@ C15,C29 api operator_expr | arg:label arg:components arg:normal_ordered arg:symmetry=SymmetryType::Antisymmetric arg:coefficient=rational(1)
Expression api_operator_expr(const std::string &l, const std::vector<std::string> &c, bool n, SymmetryType s, scalar_t f) { return make_operator_expr(l, c, n, s, f); }
//@ C15,C22,C24 api expression | arg:s arg:symmetry=SymmetryType::Antisymmetric
Expression api_expression(const std::string &s, SymmetryType t) { return make_expression(s, t); }

//@ C15 api SymbolicTerm.__repr__
std::string api_st_repr(const SymbolicTerm &e) { return e.str(); }
//@ C15 api SymbolicTerm.__str__
std::string api_st_str(const SymbolicTerm &e) { return e.str(); }
//@ C15 api SymbolicTerm.latex
std::string api_st_latex(const SymbolicTerm &e) { return e.latex(); }
//@ C15 api SymbolicTerm.add
void api_st_add1(SymbolicTerm &e, const std::vector<SQOperator> &v) { for (const auto &x : v) e.operators_.push_back(x); }
//@ C15 api SymbolicTerm.add
void api_st_add2(SymbolicTerm &e, const SQOperator &x) { e.operators_.push_back(x); }
//@ C15 api SymbolicTerm.add
void api_st_add3(SymbolicTerm &e, const Tensor &x) { e.tensors_.push_back(x); }
//@ C15 api SymbolicTerm.set
void api_st_set(SymbolicTerm &e, const std::vector<SQOperator> &v) { e.operators_ = Product<SQOperator>(v); }
//@ C15 api SymbolicTerm.set_normal_ordered
void api_st_sno(SymbolicTerm &e, bool b) { e.normal_ordered_ = b; }
//@ C15 api SymbolicTerm.ops
const std::vector<SQOperator> &api_st_ops(const SymbolicTerm &e) { return e.operators_.elements_; }
//@ C15,C24 api SymbolicTerm.tensors
const std::vector<Tensor> &api_st_tensors(const SymbolicTerm &e) { return e.tensors_; }
//@ C15 api Term.__repr__
std::string api_tm_repr(const Term &e) { return e.str(); }
//@ C15 api Term.__str__
std::string api_tm_str(const Term &e) { return e.str(); }
//@ C15 api Term.latex
std::string api_tm_latex(const Term &e) { return e.latex(); }
//@ C15 api Term.add
void api_tm_add1(Term &e, const std::vector<SQOperator> &v) { for (const auto &x : v) e.operators_.push_back(x); }
//@ C15 api Term.add
void api_tm_add2(Term &e, const SQOperator &x) { e.operators_.push_back(x); }
//@ C15 api Term.add
void api_tm_add3(Term &e, const Tensor &x) { e.tensors_.push_back(x); }
//@ C15 api Term.set
void api_tm_set(Term &e, scalar_t c) { e.coefficient_ = c; }
//@ C15 api Term.set_normal_ordered
void api_tm_sno(Term &e, bool b) { e.normal_ordered_ = b; }

//@ C15,C19,C24 api Equation.lhs
const SymbolicTerm &api_eq_lhs(const Equation &e) { return e.lhs_; }
//@ C15,C19,C24 api Equation.rhs
const SymbolicTerm &api_eq_rhs(const Equation &e) { return e.rhs_; }
//@ C15,C19,C24 api Equation.rhs_factor
scalar_t api_eq_factor(const Equation &e) { return e.factor_; }
//@ C15,C19 api Equation.rhs_expression
Expression api_eq_rhsx(const Equation &e) { Expression r; add_to_map(r.terms_, e.rhs_, e.factor_); return r; }
//@ C15 api Equation.__repr__
std::string api_eq_repr(const Equation &e) { return e.str(); }
//@ C15 api Equation.__str__
std::string api_eq_str(const Equation &e) { return e.str(); }
//@ C15 api Equation.latex
std::string api_eq_latex(const Equation &e) { return e.latex(); }
//@ C15,C18 api Equation.compile
std::string api_eq_compile(const Equation &e, const std::string &f) { return e.compile(f); }

//@ C15 api Tensor.__repr__
std::string api_t_repr(const Tensor &t) { return t.str(); }
//@ C15 api Tensor.__str__
std::string api_t_str(const Tensor &t) { return t.str(); }
//@ C15,C24 api Tensor.label
const std::string &api_t_label(const Tensor &t) { return t.label_; }
//@ C15,C24 api Tensor.lower
const std::vector<Index> &api_t_lower(const Tensor &t) { return t.lower_; }
//@ C15,C24 api Tensor.upper
const std::vector<Index> &api_t_upper(const Tensor &t) { return t.upper_; }
//@ C15,C16 api Tensor.symmetry
SymmetryType api_t_symmetry(const Tensor &t) { return t.symmetry_; }
//@ C15 api Tensor.latex
std::string api_t_latex(const Tensor &t) { return t.latex(); }
//@ C15 api Tensor.compile
std::string api_t_compile(const Tensor &t, const std::string &f) { return t.compile(f); }
//@ C15,C16 api tensor
Tensor api_tensor1(const std::string &l, const std::vector<std::string> &lo, const std::vector<std::string> &up, SymmetryType s) { return make_tensor(l, lo, up, s); }
//@ C15,C16 api tensor
Tensor api_tensor2(const std::string &s, SymmetryType t) { return make_tensor_from_str(s, t); }

//@ C15 api OperatorExpression.size
size_t api_oe_size(const OperatorExpression &e) { return e.terms_.size(); }
//@ C15,C06 api OperatorExpression.adjoint
OperatorExpression api_oe_adjoint(const OperatorExpression &e) { return e.adjoint(); }
//@ C15,C07 api OperatorExpression.add2
void api_oe_add2(OperatorExpression &e, const OperatorExpression &f, scalar_t s) { e.add2(f, s); }
//@ C15,C07 api OperatorExpression.add
void api_oe_add(OperatorExpression &e, const OperatorProduct &p, scalar_t s) { add_to_map(e.terms_, p, s); }
//@ C15,C07 api OperatorExpression.__add__
OperatorExpression api_oe_plus(const OperatorExpression &e, const OperatorExpression &f) { OperatorExpression r = e; r += f; return r; }
//@ C15,C07 api OperatorExpression.__sub__
OperatorExpression api_oe_minus(const OperatorExpression &e, const OperatorExpression &f) { OperatorExpression r = e; r -= f; return r; }
//@ C15,C05,C07 api OperatorExpression.__eq__
bool api_oe_eq(const OperatorExpression &e, const OperatorExpression &f) { return e.terms_ == f.terms_; }
//@ C15 api OperatorExpression.__repr__
std::string api_oe_repr(const OperatorExpression &e) { return e.str(); }
//@ C15 api OperatorExpression.__str__
std::string api_oe_str(const OperatorExpression &e) { return e.str(); }
//@ C15,C07 api OperatorExpression.__matmul__
OperatorExpression api_oe_matmul(const OperatorExpression &e, const OperatorExpression &f) { return e * f; }
//@ C15,C28 api OperatorExpression.canonicalize
void api_oe_canonicalize(OperatorExpression &e) { e.canonicalize(); }
//@ C15,C29,C24 api op | arg:label arg:components arg:unique=false
OperatorExpression api_op(const std::string &l, const std::vector<std::string> &c, bool u) { return make_diag_operator_expression(l, c, u); }
//@ C15,C25 api bch_series
OperatorExpression api_bch(const OperatorExpression &a, const OperatorExpression &b, int n) { return bch_series(a, b, n); }
//@ C15 api Operator.__repr__
std::string api_o_repr(const Operator &e) { return e.str(); }
//@ C15 api Operator.__str__
std::string api_o_str(const Operator &e) { return e.str(); }
//@ C15,C29 api diag_operator
Operator api_diag(const std::string &l, const std::vector<char> &c, const std::vector<char> &a) { return make_diag_operator(l, c, a); }

//@ C15 api rational.latex
std::string api_r_latex(const rational &r, bool f) { return r.latex(f); }
//@ C15 api rational.compile
std::string api_r_compile(const rational &r, const std::string &f) { return r.compile(f); }
//@ C15,C01,C24 api rational.__float__
double api_r_float(const rational &r) { return r.to_double(); }
//@ C15,C01 api rational.__eq__
bool api_r_eq(const rational &a, const rational &b) { return a == b; }
//@ C15,C01 api rational.__add__
rational api_r_add(const rational &a, const rational &b) { return a + b; }
//@ C15,C01 api rational.__sub__
rational api_r_sub(const rational &a, const rational &b) { return a - b; }
//@ C15,C01 api rational.__mul__
rational api_r_mul(const rational &a, const rational &b) { return a * b; }
//@ C15,C07 api rational.__mul__
OperatorExpression api_r_mul2(const rational &a, const OperatorExpression &b) { OperatorExpression r = b; r *= a; return r; }
//@ C15,C01 api rational.__truediv__
rational api_r_div(const rational &a, const rational &b) { return a / b; }
//@ C15 api rational.__repr__
std::string api_r_repr(const rational &r) { return r.repr(); }
//@ C15 api rational.str
std::string api_r_str(const rational &r, bool s) { return r.str(s); }
//@ C15,C02,C22 api make_rational
rational api_make_rational(const std::string &s) { return make_rational_from_str(s); }

//@ C15,C16 api SQOperator.type
SQOperatorType api_s_type(const SQOperator &s) { return s.operator_.first; }
//@ C15 api SQOperator.index
Index api_s_index(const SQOperator &s) { return s.operator_.second; }
//@ C15,C16 api SQOperator.field_type
FieldType api_s_field(const SQOperator &s) { return orbital_subspaces->field_type(s.operator_.second.index_.first); }
//@ C15 api SQOperator.__repr__
std::string api_s_repr(const SQOperator &s) { return s.str(); }
//@ C15 api SQOperator.__str__
std::string api_s_str(const SQOperator &s) { return s.str(); }
//@ C15,C05 api SQOperator.__lt__
bool api_s_lt(const SQOperator &a, const SQOperator &b) { return a < b; }
//@ C15,C05 api SQOperator.__eq__
bool api_s_eq(const SQOperator &a, const SQOperator &b) { return a == b; }
//@ C15 api SQOperator.latex
std::string api_s_latex(const SQOperator &s) { return s.latex(); }
//@ C15,C05 api SQOperator.normal_ordered_less
bool api_s_nol(const SQOperator &a, const SQOperator &b) { return a.normal_ordered_less(b); }
//@ C15,C16 api sqoperator
SQOperator api_sqoperator(const std::string &i, SQOperatorType t) { return SQOperator(t, make_index_from_str(i)); }
//@ C15,C16 api cre
SQOperator api_cre(const std::string &i) { return SQOperator(SQOperatorType::Creation, make_index_from_str(i)); }
//@ C15,C16 api ann
SQOperator api_ann(const std::string &i) { return SQOperator(SQOperatorType::Annihilation, make_index_from_str(i)); }

//@ C15,C24 api Index.space
int api_i_space(const Index &i) { return i.index_.first; }
//@ C15 api Index.pos
int api_i_pos(const Index &i) { return i.index_.second; }
//@ C15 api Index.__repr__
std::string api_i_repr(const Index &i) { return i.str(); }
//@ C15,C24 api Index.__str__
std::string api_i_str(const Index &i) { return i.str(); }
//@ C15,C05 api Index.__lt__
bool api_i_lt(const Index &a, const Index &b) { return a < b; }
//@ C15,C05 api Index.__eq__
bool api_i_eq(const Index &a, const Index &b) { return a == b; }
//@ C15 api Index.latex
std::string api_i_latex(const Index &i) { return i.latex(); }
//@ C15 api Index.compile
std::string api_i_compile(const Index &i, const std::string &f) { return i.compile(f); }
//@ C15,C22 api index
Index api_index(const std::string &s) { return make_index_from_str(s); }
//@ C15,C22 api indices
std::vector<Index> api_indices(const std::string &s) { return make_indices_from_str(s); }
//@ C15,C08 api canonicalize_indices
std::pair<scalar_t, std::vector<Index>> api_ci(const std::vector<Index> &v, bool r) { std::vector<Index> w = v; scalar_t s = canonicalize_indices(w, r); return std::make_pair(s, w); }
//@ C15,C17 api integer_partitions
std::vector<std::vector<int>> api_ip(int n, int m) { return integer_partitions(n, m); }

//@ C15,C24 api OrbitalSpaceInfo.num_spaces
int api_osi_num(const OrbitalSpaceInfo &o) { return o.space_info_.size(); }
//@ C15,C24 api OrbitalSpaceInfo.label
char api_osi_label(const OrbitalSpaceInfo &o, int p) { return o.label(p); }
//@ C15 api OrbitalSpaceInfo.indices
const std::vector<std::string> &api_osi_indices(const OrbitalSpaceInfo &o, int p) { return o.indices(p); }
//@ C15,C24 api OrbitalSpaceInfo.to_dict
std::map<std::string, std::vector<std::string>> api_osi_dict(const OrbitalSpaceInfo &o) { return o.to_dict(); }
//@ C15 api OrbitalSpaceInfo.__str__
std::string api_osi_str(const OrbitalSpaceInfo &o) { return o.str(); }
//@ C15,C03 api OrbitalSpaceInfo.reset_space
void api_osi_reset(OrbitalSpaceInfo &o) { o.reset(); }
//@ C15,C03 api OrbitalSpaceInfo.add_space
void api_osi_add(OrbitalSpaceInfo &o, char l, FieldType f, SpaceType s, const std::vector<std::string> &i, const std::vector<char> &e) { o.add_space(l, f, s, i, e); }
//@ C15,C03 api reset_space
void api_reset() { orbital_subspaces->reset(); }
//@ C15,C03,C16 api add_space | arg:label arg:field_type arg:space_type arg:indices arg:elementary_spaces
void api_add(char l, const std::string &f, const std::string &s, const std::vector<std::string> &i, const std::vector<char> &e) {
  FieldType ft = string_to_field_type(f);
  SpaceType st = string_to_space_type(s);
  orbital_subspaces->add_space(l, ft, st, i, e);
}
//@ C15 api num_spaces
int api_num() { return orbital_subspaces->num_spaces(); }

//@ C15,C12 api WickTheorem.contract
Expression api_w_contract1(WickTheorem &w, scalar_t f, const OperatorProduct &o, int a, int b) { return w.contract(f, o, a, b); }
//@ C15,C12 api WickTheorem.contract
Expression api_w_contract2(WickTheorem &w, scalar_t f, const OperatorExpression &o, int a, int b) { return w.contract(f, o, a, b); }
//@ C15,C12 api WickTheorem.contract
Expression api_w_contract3(WickTheorem &w, const OperatorExpression &o, int a, int b) { return w.contract(scalar_t(1), o, a, b); }
//@ C15,C07 api Expression.norm
double api_ex_norm(const Expression &e) { return e.norm(); }
//@ C15,C01 api use_boost_1024_int
bool api_boost() { return use_boost_1024_int(); }
//@ C15,C11 api WickTheorem.set_print
void api_w_print(WickTheorem &w, PrintLevel p) { w.print_ = p; }
//@ C15,C11,C12 api WickTheorem.set_max_cumulant
void api_w_max(WickTheorem &w, int n) { w.maxcumulant_ = n; }
//@ C15,C10,C11 api WickTheorem.set_single_threaded
void api_w_single(WickTheorem &w, bool b) { w.single_threaded_ = b; }
//@ C15,C11,C28 api WickTheorem.do_canonicalize_graph
void api_w_canon(WickTheorem &w, bool b) { w.do_canonicalize_graph_ = b; }
//@ C15 api WickTheorem.timers
const std::map<std::string, double> &api_w_timers(const WickTheorem &w) { return w.timers_; }
} // namespace spec
