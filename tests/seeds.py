SEEDS = []
def seed(id, property, edits, demo, needs, breaks, **k): SEEDS.append(dict(id=id, property=property, edits=edits, demo=demo, needs=needs, breaks=breaks, **k))
HEAD = '''import wicked as w, sys
def need(c, m):
    if not c: print("BROKEN:", m); sys.exit(1)
def spaces():
    w.reset_space()
    w.add_space("o", "fermion", "occupied", ["i", "j", "k", "l"])
    w.add_space("a", "fermion", "general", ["u", "v", "x", "y"])
    w.add_space("v", "fermion", "unoccupied", ["a", "b", "c", "d"])
'''
seed("perm-sign-overwritten", "C28", [("wicked/diagrams/wick_theorem_canonicalize_graph.cc", "          sign *= 1 - 2 *", "          sign = 1 - 2 *")],
 HEAD + '''spaces()
# three odd-rank operators without contractions: any order is allowed, every exchange gives -1
names = ["C", "B", "A"]
ops = w.diag_operator
def prod(ns):
    e = w.op(ns[0], ["v+"])
    for n in ns[1:]: e = e @ w.op(n, ["v+"])
    return e
wt = w.WickTheorem(); wt.set_single_threaded(True)
wt.do_canonicalize_graph(True)
a = wt.contract(w.rational(1), prod(["C", "A", "B"]), 0, 6)
wt.do_canonicalize_graph(False)
b = wt.contract(w.rational(1), prod(["C", "A", "B"]), 0, 6)
b.canonicalize(); a.canonicalize()
need(a == b, "canonicalised %s plain %s" % (a, b))
''', "three or more operators of odd rank whose canonical order needs at least two exchanges", "the sign of a rearrangement is that of its last exchange only")
seed("unique-stops", "C29", [("wicked/diagrams/operator_expression.cc", "    if (unique and result.contains({op})) {\n      continue;", "    if (unique and result.contains({op})) {\n      break;")],
 HEAD + '''spaces()
e = w.op("T", ["v+ o", "v+ o", "v+ v+ o o"], unique=True)
need(e.size() == 2, str(e))
e = w.op("T", ["v+ o", "v+ v+ o o"], unique=True)
need(e.size() == 2, str(e))
''', "unique=True and a repeated component that is followed by a new one", "components after the first repeated one are dropped")
seed("partition-length", "C17", [("wicked/diagrams/wick_theorem_elementary_contractions.cc", "integer_partitions(half_legs, nops);", "integer_partitions(half_legs, std::min(nops, maxcumulant_));")],
 HEAD + '''spaces()
def n(cum):
    wt = w.WickTheorem(); wt.set_max_cumulant(cum)
    e = w.op("A", ["a+ a"]) @ w.op("B", ["a+ a"]) @ w.op("C", ["a+ a"])
    return len(wt.contract(w.rational(1), e, 0, 0))
# full contractions of a+a a+a a+a without cumulants beyond level 2 include the 2-leg ones over three operators
need(n(2) >= 1 and n(3) > n(2), "levels 2 and 3: %d %d" % (n(2), n(3)))
wt = w.WickTheorem(); wt.set_max_cumulant(1)
e = w.op("A", ["a+"]) @ w.op("B", ["a"])
need(len(wt.contract(w.rational(1), e, 0, 0)) == 1, "level 1")
wt = w.WickTheorem(); wt.set_max_cumulant(2)
e = w.op("A", ["a+ a+"]) @ w.op("B", ["a"]) @ w.op("C", ["a"])
r = str(wt.contract(w.rational(1), e, 0, 0))
need("lambda2" in r, r)
e = w.op("A", ["a+"]) @ w.op("B", ["a+ a"]) @ w.op("C", ["a"])
''', "more operators than the cumulant limit", "no change of behaviour expected: legs are at most the limit")
SEEDS.pop()   # equivalent, not a bug
seed("cumulants-few-operators", "C17", [("wicked/diagrams/wick_theorem_elementary_contractions.cc", "integer_partitions(half_legs, nops);", "integer_partitions(half_legs, std::min(nops, 3));")],
 HEAD + '''spaces()
wt = w.WickTheorem(); wt.set_max_cumulant(4)
e = w.op("A", ["a+"])
for n in "BCD": e = e @ w.op(n, ["a+"])
for n in "EFGH": e = e @ w.op(n, ["a"])
wt.do_canonicalize_graph(False)
r = str(wt.contract(w.rational(1), e, 0, 0))
need("lambda4" in r, "no four-body cumulant of eight operators")
''', "a cumulant of level four or higher whose legs lie on four or more operators on one side", "legal elementary contractions are never formed")
seed("max-cumulant-shrinks", "C11", [("wicked/diagrams/wick_theorem_elementary_contractions.cc", "  int max_half_legs = std::min(std::min(sumcre, sumann), maxcumulant_);", "  maxcumulant_ = std::min(std::max(std::min(sumcre, sumann), 4), maxcumulant_);\n  int max_half_legs = std::min(std::min(sumcre, sumann), maxcumulant_);")],
 HEAD + '''spaces()
def five():
    e = w.op("A", ["a+ a+ a+ a+ a+"]) @ w.op("B", ["a a a a a"])
    return e
wt = w.WickTheorem(); wt.set_max_cumulant(5); wt.do_canonicalize_graph(False)
first = wt.contract(w.rational(1), five(), 0, 0)
wt.contract(w.rational(1), w.op("A", ["a+"]) @ w.op("B", ["a"]), 0, 0)
second = wt.contract(w.rational(1), five(), 0, 0)
need(first == second, "%d terms, then %d" % (len(first), len(second)))
''', "a cumulant limit above four, then an earlier contraction with fewer legs on the same engine", "a small contraction lowers the limit in force for later ones")
seed("einsum-letter-reuse", "C18", [("wicked/algebra/equation.cc", "    if (s.size() == 1) {\n      if (std::find(unused_indices.begin(), unused_indices.end(), s) !=\n          unused_indices.end()) {\n        // if this character is unused, use it\n        index_map[s] = s;\n      } else {\n        // if it is used, grab the first available index\n        index_map[s] = unused_indices.back();\n      }\n    } else {", "    if (s.size() == 1) {\n      // single characters are their own letters\n      index_map[s] = s;\n    } else {")],
 HEAD + '''spaces()
e = w.expression("X^{o7,o9}_{v0,v1}")
t = [x for x, c in e][0]
st = w.SymbolicTerm(); st.add(w.tensor("X^{v5,o9}_{v0,v1}", w.sym.anti))
lhs = w.SymbolicTerm(); lhs.add(w.tensor("R^{v5,o9}_{v0,v1}", w.sym.anti))
s = w.Equation(lhs, st, w.rational(1)).compile("einsum")
letters = s.split('"')[1].split("->")[0]
need(len(set(letters)) == 4, s)
''', "a left-over index without a one-letter name before an index named by the letter it was given", "two different indices share one letter")
seed("index-label-end", "C04", [("wicked/helpers/orbital_space.cc", "  if (idx < index_labels.size()) {", "  if (idx <= index_labels.size()) {")],
 HEAD + '''spaces()
import subprocess
code = """
import wicked as w
w.reset_space(); w.add_space('o', 'fermion', 'occupied', ['i', 'j', 'k', 'l'])
for _ in range(50): s = w.index('o4').latex()
assert s == 'o_{4}', repr(s)
"""
r = subprocess.run([sys.executable, "-c", code], capture_output=True, text=True)
need(r.returncode == 0, (r.returncode, r.stderr[-200:]))
''', "an index whose number equals the count of labels of its space", "reads one element past the end of the label list")
seed("delta-indices-swapped", "C20", [("wicked/algebra/symbolic_term_normal_order.cc", "auto removed_term = SymbolicTerm(false, cont_ops, term.tensors());", "auto removed_term = SymbolicTerm(false, cont_ops, {});")],
 HEAD + '''spaces()
e = w.expression("T^{o0}_{v0} a-(v0) a+(v1)")
r = e.vacuum_normal_ordered()
for line in str(r).split("\\n"): need("T^{" in line, str(r))
''', "a term with tensors of its own that is normal ordered and contracted", "the tensors of the term are lost from the contracted part")
seed("bch-truncation", "C25", [("wicked/diagrams/operator_expression.cc", "    comm *= scalar_t(1, k);\n    result += comm;\n    temp = comm;", "    result += comm;\n    comm *= scalar_t(1, k + 1);\n    temp = comm;")],
 HEAD + '''spaces()
A = w.op("A", ["v+ o"]); B = w.op("B", ["o+ v"])
s = w.bch_series(A, B, 3)
c1 = w.commutator(A, B); c2 = w.commutator(A, B, B); c3 = w.commutator(A, B, B, B)
ref = w.op("A", ["v+ o"])
ref.add2(c1, w.rational(1)); ref.add2(c2, w.rational(1, 2)); ref.add2(c3, w.rational(1, 6))
need(s == ref, "order 3:\\n%s\\n\\n%s" % (s, ref))
''', "order three or higher", "weights shifted")
SEEDS.pop()   # exposed by ordinary use
seed("factor-int-product", "C02", [("wicked/diagrams/operator.cc", '''  scalar_t result = 1;
  for (int s = 0; s < orbital_subspaces->num_spaces(); ++s) {
    result /= static_cast<scalar_t>(factorial(cre(s)));
  }
  for (int s = 0; s < orbital_subspaces->num_spaces(); ++s) {
    result /= static_cast<scalar_t>(factorial(ann(s)));
  }
  return result;''', '''  int equivalent_legs = 1;
  for (int s = 0; s < orbital_subspaces->num_spaces(); ++s) {
    equivalent_legs *= factorial(cre(s)) * factorial(ann(s));
  }
  return scalar_t(1, equivalent_legs);''')],
 HEAD + '''spaces()
e = w.op("T", ["v+ v+ v+ v+ v+ v+ v+ v+ v+ v+ o o o o o o o o o o"])
need("1/13168189440000" in str(e), str(e))
''', "an operator with so many equivalent legs that the product of factorials exceeds 32 bits", "the weight of the operator is computed in an int and overflows")
seed("boson-latex", "C16", [("wicked/algebra/sqoperator.cc", '  std::string s("\\\\hat{" + op_symbol() + "}");', '  std::string s("\\\\hat{a}");')],
 HEAD + '''spaces()
w.add_space("p", "boson", "unoccupied", ["p", "q"])
s = w.sqoperator("p0", w.type.cre).latex()
need("\\\\hat{b}" in s, s)
''', "a bosonic space", "bosonic operators are typeset as fermionic ones")
seed("adjoint-drops-order", "C06", [("wicked/algebra/symbolic_term.cc", "  result.set_normal_ordered(normal_ordered_);\n  for (const auto &tensor : tensors_) {\n    result.add(tensor.adjoint());", "  for (const auto &tensor : tensors_) {\n    result.add(tensor.adjoint());")],
 HEAD + '''spaces()
e = w.expression("{ a+(o0) a-(o1) }")
need("{" in str(e.adjoint().adjoint()), str(e.adjoint()))
''', "an expression of normal-ordered terms", "the adjoint of a normal-ordered term is no longer marked normal ordered")
seed("operator-order-not-strict", "C05", [("wicked/diagrams/operator.cc", "    return true;\n  if (label_ > other.label_)\n    return false;\n  // Compare the graph matrices", "    return true;\n  // Compare the graph matrices")],
 HEAD + '''spaces()
import itertools
# the same two products, met in either order, must be recognised as the same term
x = [w.op("A", ["v+ v"]), w.op("B", ["o+ o"]), w.op("C", ["v+ o"]), w.op("B", ["v+ v+ o o"])]
ref = None
for p in itertools.permutations(x):
    e = p[0]
    for y in p[1:]: e = e + y
    for y in p: e = e - y
    need(e.size() == 0, "sum minus itself: %s" % e)
''', "operators whose labels and legs are ordered oppositely", "the ordering of operators is not asymmetric, so like terms are not found")
seed("throws-string", "C14", [("wicked/algebra/equation.cc", '''                    "' is not valid. Choices are 'ambit' or 'einsum'";
  throw std::runtime_error(msg);''', '''                    "' is not valid. Choices are 'ambit' or 'einsum'";
  throw msg;''')],
 HEAD + '''spaces()
t = w.SymbolicTerm(); t.add(w.tensor("X^{v5}_{v0}", w.sym.anti))
try: w.Equation(t, t, w.rational(1)).compile("nothing")
except Exception as x: need("is not valid" in str(x), "message lost: %s" % x)
else: need(False, "no exception")
''', "compiling to a format that does not exist", "a bare string is thrown, whose text is lost on the way to Python")
seed("sum-changes-operand", "C15", [("wicked/api/operator_api.cc", "           [](OperatorExpression rhs, const OperatorExpression &lhs) {\n             rhs -= lhs;", "           [](OperatorExpression &rhs, const OperatorExpression &lhs) {\n             rhs -= lhs;")],
 HEAD + '''spaces()
a = w.op("A", ["v+ o"]); b = w.op("B", ["v+ o"])
s = str(a); c = a - b
need(str(a) == s, "operand became %s" % a)
''', "using an operand again after subtracting from it", "subtraction modifies its left operand")
seed("multiplicity-shortcut", "C26", [("wicked/diagrams/wick_theorem_process_contractions.cc", "  for (const auto &contraction : contractions) {\n    contraction_count[contraction] += 1;\n  }", "  for (const auto &contraction : contractions) {\n    if (contraction.num_ops() == 2)\n      contraction_count[contraction] += 1;\n  }")],
 HEAD + '''spaces()
wt = w.WickTheorem(); wt.set_max_cumulant(2); wt.do_canonicalize_graph(False)
e = w.op("A", ["a+ a+ a+ a+"]) @ w.op("B", ["a a a a"])
r = wt.contract(w.rational(1), e, 0, 0)
c = [str(x[1].str(False)) for x in r if str(x[0]).count("lambda2") == 2]
need(c == ["1/32"] or c == ["-1/32"] or c == ["1/128"], "coefficients of the product of two cumulants: %s" % c)
''', "a repeated elementary contraction with four or more legs", "repeated cumulants are not divided by their multiplicity")
seed("adjacent-bosons-vanish", "C20", [("wicked/algebra/symbolic_term_normal_order.cc", "  return a.field_type() == FieldType::Fermion and\n         b.field_type() == FieldType::Fermion;", "  return a.field_type() == b.field_type();")],
 HEAD + '''spaces()
w.add_space("p", "boson", "unoccupied", ["p", "q"])
e = w.expression("a+(o0) a-(o0)")
st = w.Term(); st.add(w.sqoperator("p0", w.type.cre)); st.add(w.sqoperator("p0", w.type.cre)); st.set(w.rational(1))
x = w.Expression(); x += st
need(len(x.vacuum_normal_ordered()) == 1, "b+ b+ became %s" % x.vacuum_normal_ordered())
''', "two adjacent equal bosonic operators", "products of equal bosonic operators vanish")
seed("remap-collision", "C23", [("wicked/algebra/symbolic_term.cc", "      } else {\n        if (index_map.count(u) == 0) {", "      } else {\n        if (index_map.count(u) == 0 and not (index_map.count(Index(u.space(), u.pos() + 1)) > 0 and u.pos() > 6)) {")],
 HEAD + '''spaces()
e = w.expression("T^{o8,o7}_{v0,v1} a+(v0) a+(v1) a-(o7) a-(o8)")
e.canonicalize(); s = str(e)
need("o7" not in s and "o8" not in s, s)
''', "operator indices with large numbers in adjacent positions", "indices keep their old names")
SEEDS.pop()   # artificial
seed("permutation-tensor-first", "C23", [("wicked/algebra/symbolic_term.cc", "  for (auto &t : tensors_) {\n    t.reindex(idx_map);\n  }\n  for (auto &op : operators_) {\n    op.reindex(idx_map);\n  }", "  for (auto &t : tensors_) {\n    t.reindex(idx_map);\n  }\n  if (tensors_.size() == 1 and operators_.size() == 0)\n    return;\n  for (size_t n = 0; n < operators_.size() and n < 8; ++n) {\n    operators_[n].reindex(idx_map);\n  }")],
 HEAD + '''spaces()
ops = ["a+(v%d)" % (19 - k) for k in range(5)] + ["a-(o%d)" % (12 + k) for k in range(5)]
e = w.expression("T^{o12,o13,o14,o15,o16}_{v15,v16,v17,v18,v19} " + " ".join(ops))
e.canonicalize(); s = str(e)
import re
t, o = s.split("}_{")[0] + s.split("}_{")[1].split("}")[0], s.split("} ")[-1]
names = set(re.findall(r"[ov]\\d+", s.split(" a+")[0])); onames = set(re.findall(r"[ov]\\d+", s[s.index(" a+"):]))
need(names == onames, s)
''', "a term with more than eight operators whose indices are shared with a tensor", "only the first operators follow the renaming of the tensors")
seed("key-without-reversal", "C19", [("wicked/algebra/expression.cc", "        // upper indices are read in reverse order\n        upper.insert(upper.begin(), op.index());", "        // upper indices are read in reverse order\n        upper.insert(upper.begin(), op.index());\n        if (upper.size() > 2)\n          std::sort(upper.rbegin(), upper.rend());")],
 HEAD + '''spaces()
e = w.expression("T^{o0,o1,o2}_{v0,v1,v2} a+(v0) a+(v1) a+(v2) a-(o1) a-(o2) a-(o0)")
r = e.to_manybody_equation("R")
eq = [q for l in r.values() for q in l][0]
need([str(i) for i in eq.lhs().tensors()[0].upper()] == ["o0", "o2", "o1"], str(eq))
''', "three or more annihilation operators not in canonical order", "upper indices of the left-hand side no longer follow the operators, so the sign is lost")
seed("gen-op-filter", "C24", [("wicked/utils.py", "                    if not diagonal:\n                        if le != re:", "                    if not diagonal:\n                        if set(le) != set(re):")],
 HEAD + '''spaces()
e = w.gen_op("T", 2, "av", "av", diagonal=False)
# a+ v+ v v and the like are not diagonal: only a+a+ a a, a+v+ v a and v+v+ v v may be left out at most
s = str(e)
n = len(s.split("\\n"))
r = str(w.gen_op("T", 2, "oa", "av", diagonal=False))
need(n == 8 or n == 9, n)
need(len(str(w.gen_op("T", 3, "av", "av", diagonal=False)).split("\\n")) > 12, "rank 3")
''', "rank three, diagonal=False, and spaces repeated differently left and right", "off-diagonal operators made of the same spaces are left out")
seed("parse-coefficient", "C22", [("wicked/helpers/rational.cc", '''auto factor_re = std::regex("^\\\\s*([+-])?(\\\\d*)?(\\\\/)?(\\\\d*)?\\\\s*");''', '''auto factor_re = std::regex("^\\\\s*([+-])?(\\\\d*)?(\\\\/)?(\\\\d)?\\\\s*");''')],
 HEAD + '''spaces()
r = w.make_rational("1/12")
need(r.denominator() == 12, r)
''', "a denominator of two digits", "coefficients that the library prints cannot be read")
seed("factorial-race", "C09", [("wicked/helpers/combinatorics.cc", "  long long int result = 1;\n  for (long long int i = 2; i <= n; ++i) {\n    result *= i;\n  }\n  return result;\n}\n\nlong long int binomial", "  if (n > 4) {\n    // large values often come in a row\n    static int last = 4;\n    static long long int value = 24;\n    if (n != last) {\n      value = n * factorial(n - 1);\n      last = n;\n    }\n    return value;\n  }\n  long long int result = 1;\n  for (long long int i = 2; i <= n; ++i) {\n    result *= i;\n  }\n  return result;\n}\n\nlong long int binomial")],
 None, "several threads evaluating contractions of operators with five or more legs of one kind", "the last factorial is kept and read and written by several threads without a lock",
 sh='''#!/bin/bash
set -e
here="$(cd "$(dirname "$0")" && pwd)"
tmp=$(mktemp -d); trap 'rm -rf "$tmp"' EXIT
for f in "$here/race.cc" wicked/helpers/*.cc wicked/algebra/*.cc wicked/diagrams/*.cc; do echo "$f"; done |
  xargs -P 8 -I @ sh -c 'g++ -std=c++20 -O0 -fsanitize=thread -DUSE_BOOST_1024_INT=1 -I wicked -I . -c "$1" -o "$2/$(basename "$1").o"' sh @ "$tmp"
g++ -fsanitize=thread "$tmp"/*.o -o "$tmp/race" -pthread
TSAN_OPTIONS="halt_on_error=1 exitcode=66" timeout 200 setarch -R "$tmp/race" > "$tmp/out" 2>&1 || { tail -30 "$tmp/out"; exit 1; }
''', files={"race.cc": '''#include "diagrams/contraction.h"
#include "diagrams/wick_theorem.h"
#include "diagrams/operator.h"
#include "diagrams/operator_expression.h"
#include "algebra/expression.h"
#include "helpers/orbital_space.h"
int main() {
  orbital_subspaces->add_space('o', FieldType::Fermion, SpaceType::Occupied, {"i", "j", "k", "l"}, {});
  orbital_subspaces->add_space('v', FieldType::Fermion, SpaceType::Unoccupied, {"a", "b", "c", "d"}, {});
  auto T = make_diag_operator_expression("T", {"v+ v+ v+ v+ v+ v+ o o"}, false);
  auto H = make_diag_operator_expression("V", {"o+ o+ v v v v v v"}, false);
  WickTheorem wt;
  wt.do_canonicalize_graph(false);
  Expression r;
  for (int n = 0; n < 25; ++n)
    r = wt.contract(scalar_t(1), H * T, 0, 6);
  return r.size() > 0 ? 0 : 2;
}
'''})
seed("sum-inserts-small", "C07", [("wicked/helpers/algebra.hpp", "  Algebra &operator+=(const Algebra &rhs) {\n    for (const auto &[e, c] : rhs.terms()) {\n      add(e, c);\n    }\n    return *this;", "  Algebra &operator+=(const Algebra &rhs) {\n    if (rhs.size() > 8 * size()) {\n      terms_.insert(rhs.terms_.begin(), rhs.terms_.end());\n      return *this;\n    }\n    for (const auto &[e, c] : rhs.terms()) {\n      add(e, c);\n    }\n    return *this;")],
 HEAD + '''spaces()
big = w.Expression()
for k in range(12): big += w.expression("f^{o%d}_{v0}" % k)
a = w.expression("f^{o3}_{v0}"); b = w.expression("f^{o3}_{v0}")
a += big
need(a == big + b, "a += b differs from a + b: %s" % a)
''', "adding in place an expression with many more terms that shares a term", "the coefficient of the shared term is not added")
seed("product-length-first", "C05", [("wicked/helpers/product.hpp", "    return elements_ < other.elements_;", "    if (elements_.size() + 3 < other.elements_.size())\n      return true;\n    return elements_ < other.elements_;")],
 HEAD + '''spaces()
import itertools
A = w.op("A", ["v+ o"]); B = w.op("B", ["v+ o"]); Z = w.op("Z", ["v+ o"])
x = [Z, A @ A @ A @ A @ A, B, A @ B @ A, A @ Z]
for p in itertools.permutations(x):
    e = w.OperatorExpression()
    for y in p: e = e + y
    for y in reversed(p): e = e - y
    need(e.size() == 0, "a sum minus itself: %s" % e)
''', "sums of products of different lengths whose first factors are in the opposite order", "the ordering of products is not asymmetric, so like terms are not merged")
seed("duplicate-label", "C03", [("wicked/helpers/orbital_space.cc", "  if (label_to_pos_.count(label) != 0) {", "  if (label_to_pos_.count(label) != 0 and not indices.empty()) {")],
 HEAD + '''spaces()
n = w.num_spaces()
try: w.add_space("o", "fermion", "general", [])
except RuntimeError: pass
else: need(False, "label o accepted twice")
need(w.num_spaces() == n, "the rejected space was stored")
''', "registering a label again without giving pretty indices", "two spaces share one label")
seed("odd-rank-window", "C12", [("wicked/diagrams/wick_theorem_process_contractions.cc", "  int term_rank = ops_rank - contr_rank;\n\n  if ((term_rank >= minrank) and (term_rank <= maxrank)) {\n\n    CompositeContraction contraction;", "  // contractions remove pairs of operators\n  int term_rank = 2 * (ops_rank / 2 - contr_rank / 2);\n\n  if ((term_rank >= minrank) and (term_rank <= maxrank)) {\n\n    CompositeContraction contraction;")],
 HEAD + '''spaces()
wt = w.WickTheorem()
e = w.op("F", ["v+ v"]) @ w.op("r", ["v+"])
r = wt.contract(w.rational(1), e, 1, 1)
need(len(r) == 1, "contractions of rank one: %s" % r)
r = wt.contract(w.rational(1), e, 3, 3)
need(len(r) == 1, "contractions of rank three: %s" % r)
''', "a product with an odd number of legs and a window that starts at its rank", "terms of odd rank are assigned to the rank below")
seed("long-strings-unchecked", "C20", [("wicked/algebra/symbolic_term_normal_order.cc", "  if (not valid)\n    return;", "  if (not valid and n < 6)\n    return;")],
 HEAD + '''spaces()
e = w.expression("a+(v0) a+(v0) a+(v1) a+(v2) a-(v3) a-(v4)")
need(len(e.vacuum_normal_ordered()) == 0, e.vacuum_normal_ordered())
e = w.expression("a+(v0) a+(v0) a+(v1)")
need(len(e.vacuum_normal_ordered()) == 0, e.vacuum_normal_ordered())
''', "strings of six or more operators with a repeated fermionic operator", "a product that vanishes is kept")
seed("scalar-sign-lost", "C22", [("wicked/algebra/expression.cc", '''        factor_str += c.str(true);
      }
      // rational(1,1).str() returns "", so we need to handle the case of''', '''        factor_str += c.str(symterm.nops() > 0);
      }
      // rational(1,1).str() returns "", so we need to handle the case of''')],
 HEAD + '''spaces()
def back(s):
    e = w.expression(s); t = str(e)
    need(w.string_to_expr(t) == e, "%s was printed as %r" % (s, t))
back("f^{o0}_{v0}")
a = w.expression("f^{o0}_{v0}") + w.expression("g^{o0}_{v0}")
need(w.string_to_expr(str(a)) == a, str(a))
need("+" in str(a).split("\\n")[1], str(a))
''', "a sum in which a later term has no operators", "the sign between the terms is not printed")
seed("gen-op-half-sorted", "C24", [("wicked/utils.py", "m[re[i]] >= m[re[i + 1]] for i in range(len(re) - 1)", "m[re[i]] >= m[re[i + 1]] for i in range(len(re) // 2)")],
 HEAD + '''spaces()
for n in (1, 2, 3, 4):
    r = ["v+ " * n + "a " * k + "o " * (n - k) for k in range(n + 1)]
    need(w.gen_op("T", n, "v", "oa") == w.op("T", r), "rank %d: %s" % (n, w.gen_op("T", n, "v", "oa")))
''', "operators of rank three or more over several spaces", "components are counted more than once")
seed("bch-stops-early", "C25", [("wicked/diagrams/operator_expression.cc", "  for (int k = 1; k <= n; k++) {\n    OperatorExpression comm", "  for (int k = 1; k <= std::min(n, 12); k++) {\n    OperatorExpression comm")],
 HEAD + '''spaces()
A = w.op("A", ["v+ o"]); B = w.op("B", ["v+ o"])
for n in range(1, 15):
    need(w.bch_series(A, B, n).size() == (n + 1) * (n + 2) // 2, "order %d: %d products" % (n, w.bch_series(A, B, n).size()))
''', "series of high order or with many operators", "the series ends before the requested order")
seed("unoccupied-neighbours", "C17", [("wicked/diagrams/wick_theorem_elementary_contractions.cc", "    for (int r = l + 1; r < nops; r++) {       // loop over creation (right)", "    for (int r = l + 1; r < std::min(nops, l + 6); r++) { // loop over creation (right)")],
 HEAD + '''spaces()
wt = w.WickTheorem()
e = w.op("A", ["v"]) @ w.op("B", ["o+"]) @ w.op("C", ["o"]) @ w.op("D", ["o+"]) @ w.op("F", ["o"]) @ w.op("G", ["o+"]) @ w.op("I", ["o"]) @ w.op("E", ["v+"])
r = wt.contract(w.rational(1), e, 0, 0)
need(len(r) > 0, "no full contractions")
''', "an operator contracted with another that is six positions to its right", "contractions between distant operators are not formed")
seed("zero-over-negative", "C01", [("wicked/helpers/rational.cc", "  denominator_ = denominator < 0 ? -denominator : denominator;\n", "  denominator_ = denominator < 0 and numerator != 0 ? -denominator : denominator;\n")],
 HEAD + '''
r = w.rational(0, -3)
need(r == w.rational(0), "0/-3 is not 0")
need(float(r.denominator()) > 0, "denominator %s" % r.denominator())
''', "zero divided by a negative number", "zero has a second form with a negative denominator")
seed("long-lists-unsigned", "C08", [("wicked/algebra/index.cc", "  std::vector<int> perm;\n  indices.clear();", "  std::vector<int> perm;\n  if (idx_pos.size() > 9)\n    return 1;\n  indices.clear();")],
 HEAD + '''spaces()
i = w.indices("o10,o1,o2,o3,o4,o5,o6,o7,o8,o9,o0")
s, c = w.canonicalize_indices(i, False)
need(s == w.rational(-1), "sign %s" % s)
need([str(x) for x in c] == ["o%d" % k for k in range(11)], str(c))
''', "tensors with more than nine upper or lower indices", "the indices are left as they are, with no sign")
seed("batch-dropped", "C10", [("wicked/diagrams/wick_theorem_process_contractions.cc", "  // Launch async tasks for each contraction\n  for (const auto &contraction_vec : contractions_) {\n", "  // Launch async tasks for each contraction, a batch at a time\n  for (const auto &contraction_vec : contractions_) {\n    if (futures.size() == 256)\n      futures.clear();\n")],
 HEAD + '''spaces()
def run(single):
    wt = w.WickTheorem(); wt.set_single_threaded(single); wt.do_canonicalize_graph(False)
    e = w.op("A", ["a+ a+ a a"]) @ w.op("B", ["a+ a+ a a"]) @ w.op("C", ["a+ a"])
    r = wt.contract(w.rational(1), e, 0, 10); r.canonicalize(); return r
a, b = run(True), run(False)
need(a == b, "%d terms, %d with threads" % (len(a), len(b)))
''', "a product with more than 256 contractions evaluated by several threads", "all but the last batch are forgotten")
seed("binomial-int", "C21", [("wicked/helpers/combinatorics.cc", "  long long int result = n;\n", "  int result = n;\n")],
 None, "binomial coefficients beyond 32 bits", "the coefficient overflows",
 sh='''#!/bin/bash
set -e
here="$(cd "$(dirname "$0")" && pwd)"
tmp=$(mktemp -d); trap 'rm -rf "$tmp"' EXIT
g++ -std=c++20 -O1 -I wicked -I wicked/helpers "$here/binom.cc" wicked/helpers/combinatorics.cc -o "$tmp/binom"
timeout 60 "$tmp/binom"
''', files={"binom.cc": '''#include <cstdio>
#include "helpers/combinatorics.h"
int main() {
  long long row[41] = {1};
  for (int n = 1; n <= 40; ++n) {
    for (int k = n; k > 0; --k) row[k] += row[k - 1];
    for (int k = 0; k <= n; ++k)
      if (binomial(n, k) != row[k]) { std::printf("BROKEN: binomial(%d,%d) = %lld\\n", n, k, binomial(n, k)); return 1; }
  }
}
'''})
seed("first-candidate-again", "C13", [("wicked/diagrams/wick_theorem_composite_contractions.cc", "  int minc = (k > 1) ? a[k - 2] : 0;", "  int minc = (k > 1 and nops < 8) ? a[k - 2] : 0;")],
 HEAD + '''spaces()
wt = w.WickTheorem(); wt.do_canonicalize_graph(False)
e = w.op("A", ["o+"]) @ w.op("B", ["v"]) @ w.op("C", ["o"]) @ w.op("D", ["v+"])
for l in "EFGH":
    e = e @ w.op(l, ["o+ o"])
r = wt.contract(w.rational(1), e, 8, 8)
c = [str(x[1].str(False)) for x in r]
need(all(x.strip() in ("1", "-1", "", "-", "+") for x in c), "coefficients %s" % c)
''', "products of eight or more operators", "a set of contractions is generated once for each order of its members")
