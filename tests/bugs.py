"""Hand-written edits that break a property, in the way a plausible change would: each should be reported. Development tool, not read by any check."""
R = []  # (name, file, [(old, new)...])
def b(name, file, *edits): R.append((name, file, list(edits)))

# ---- rational (C01, C02)
b("C01-eq-cross", "helpers/rational.cc",
  ("  return ((lhs.numerator() == rhs.numerator()) and\n          (lhs.denominator() == rhs.denominator()));", "  return lhs.to_double() == rhs.to_double();"))
b("C01-eq-abs", "helpers/rational.cc",
  ("  if ((lhs.numerator() == 0) and (rhs.numerator() == 0))\n    return true;", "  if ((lhs.numerator() == 0) or (rhs.numerator() == 0))\n    return true;"))
b("C01-reduce-only-large", "helpers/rational.cc",
  ("  if (gcd > 1) {\n    numerator_ /= gcd;\n    denominator_ /= gcd;\n  }", "  if (gcd > 1 and denominator_ > 1000) {\n    numerator_ /= gcd;\n    denominator_ /= gcd;\n  }"))
b("C01-add-samedenom", "helpers/rational.cc",
  ("  numerator_ = rhs.denominator_ * numerator_ + rhs.numerator_ * denominator_;\n  denominator_ = rhs.denominator_ * denominator_;\n  reduce();\n  return *this;\n}\n\nrational &rational::operator-=",
   "  if (denominator_ == rhs.denominator_) {\n    numerator_ += rhs.numerator_;\n    return *this;\n  }\n  numerator_ = rhs.denominator_ * numerator_ + rhs.numerator_ * denominator_;\n  denominator_ = rhs.denominator_ * denominator_;\n  reduce();\n  return *this;\n}\n\nrational &rational::operator-="))
b("C01-div-alias", "helpers/rational.cc",
  ("  *this = rational(numerator_ * rhs.denominator_,\n                   denominator_ * rhs.numerator_);\n  return *this;",
   "  if (rhs.numerator_ == 0) {\n    throw std::runtime_error(\"rational: the denominator cannot be zero\");\n  }\n  numerator_ *= rhs.denominator_;\n  denominator_ *= rhs.numerator_;\n  reduce();\n  return *this;"))
b("C01-mul-alias", "helpers/rational.cc",
  ("  numerator_ *= rhs.numerator();\n  denominator_ *= rhs.denominator();\n  reduce();\n  return *this;", "  if (&rhs == this) {\n    numerator_ *= numerator_;\n    return *this;\n  }\n  numerator_ *= rhs.numerator();\n  denominator_ *= rhs.denominator();\n  reduce();\n  return *this;"))
b("C01-ctor-sign", "helpers/rational.cc",
  ("  denominator_ = denominator < 0 ? -denominator : denominator;\n", "  denominator_ = denominator < 0 and numerator != 0 ? -denominator : denominator;\n"))
b("C02-parse-int", "helpers/rational.cc",
  ("    numerator *= integer_from_digits(numerator_str);", "    numerator *= std::stoll(numerator_str);"))
b("C02-compile-int", "helpers/rational.cc",
  ("  return std::to_string(static_cast<double>(numerator_) /\n                        static_cast<double>(denominator_));", "  return std::to_string(static_cast<float>(numerator_) /\n                        static_cast<float>(denominator_));"))
b("C01-parse-sign", "helpers/rational.cc", ("  if (sign == \"-\") {\n    numerator *= -1;\n  }\n", "  if (sign == \"-\" and s.front() == '-') {\n    numerator *= -1;\n  }\n"))
b("C01-str-frac-sign", "helpers/rational.cc", ("    if (sign and (numerator_ > 0)) {\n      s = '+';", "    if (sign and (numerator_ > 0) and denominator_ == 1) {\n      s = '+';"))
b("C01-latex-frac", "helpers/rational.cc", ("abs(numerator_)) +\n           \"}{\"", "numerator_) +\n           \"}{\""))
# ---- combinatorics (C21, C28)
b("C21-binom-k", "helpers/combinatorics.cc", ("  if (k * 2 > n)\n    k = n - k;\n", "  if (k * 2 > n + 1)\n    k = n - k - 1;\n"))
b("C21-binom-order", "helpers/combinatorics.cc", ("    result *= (n - i + 1);\n    result /= i;", "    result /= i;\n    result *= (n - i + 1);"))
b("C21-binom-neg", "helpers/combinatorics.cc", ("  if (k > n)\n    return 0;\n", "  if (k >= n)\n    return k == n ? 1 : 0;\n  if (k == 1)\n    return 1;\n"))
b("C21-factorial-cap", "helpers/combinatorics.cc", ("  for (long long int i = 2; i <= n; ++i) {\n    result *= i;\n  }\n", "  for (int i = 2; i <= n; ++i) {\n    result = static_cast<int>(result * i);\n  }\n"))
b("C21-perm-sign-eq", "helpers/combinatorics.cc", ("      if (vec[i] > vec[j]) {", "      if (vec[i] >= vec[j]) {"))
b("C21-perm-sign-adjacent", "helpers/combinatorics.cc", ("    for (int j = i + 1; j < n; ++j) {\n      if (vec[i]", "    for (int j = i + 1; j < std::min(n, i + 8); ++j) {\n      if (vec[i]"), ("#include \"combinatorics.h\"\n", "#include \"combinatorics.h\"\n#include <algorithm>\n"))
b("C21-partitions-maxlen", "helpers/combinatorics.cc", ("    if (m <= maxlen) {\n      partitions.push_back(std::vector<int>(x.begin() + 1, x.begin() + m + 1));\n    }\n", "    if (m < maxlen) {\n      partitions.push_back(std::vector<int>(x.begin() + 1, x.begin() + m + 1));\n    }\n"))
b("C21-partitions-zero", "helpers/combinatorics.cc", ("    partitions.push_back({1});\n", "    if (maxlen > 1)\n      partitions.push_back({1});\n"))
b("C21-partitions-reset", "helpers/combinatorics.cc", ("        if ((m - h) > 1) {\n          x[m - 1] = 1;\n        }\n", ""))
# ---- helpers
b("C07-addmap-keep-zero", "helpers/helpers.h", ("    if (search->second == 0) {\n      m.erase(search);\n    }\n", ""))
b("C07-addmap-overwrite", "helpers/helpers.h", ("    search->second += value;\n", "    search->second = search->second + value;\n    if (search->second == value) {\n      m.erase(search);\n      return;\n    }\n"))
b("C07-addmap-zero-noreturn", "helpers/helpers.h", ("  if (value == 0)\n    return;\n", ""))
b("C27-counter-reset", "helpers/helpers.h", ("    int index = counter_[i];\n    counter_[i] += 1;\n    return index;", "    counter_[i] += 1;\n    return counter_[i];"))
b("C20-adjacent", "helpers/helpers.h", ("  return it == vec.end();\n}", "  return it == vec.end() or std::next(it, 2) == vec.end();\n}"))
b("C29-join-empty", "helpers/helpers.cc", ("  if (strvec.size() == 0)\n    return std::string();\n", "  if (strvec.size() == 0)\n    return sep;\n"))
b("C29-findall-first", "helpers/helpers.cc", ("    for (size_t k = 1; k < match.size(); ++k) {", "    for (size_t k = 1; k < match.size() - 1; ++k) {"))
b("C29-splitindices-skip", "helpers/helpers.cc", ("    v.push_back(trimmed);", "    if (v.empty() or v.back() != trimmed)\n      v.push_back(trimmed);"))
b("C29-trim-one", "helpers/helpers.cc", ("trim(std::string &s) { return ltrim(rtrim(s)); }", "trim(std::string &s) { return ltrim(s); }"))
# ---- algebra
b("C07-minuseq-alias", "helpers/algebra.hpp", ("    const vecspace_t rhs_terms = rhs.terms();\n    for (const auto &[e, c] : rhs_terms) {", "    for (const auto &[e, c] : rhs.terms()) {"))
b("C07-muleq-prune", "helpers/algebra.hpp", ("        result.add(e * er, c * cr);", "        result.terms_[e * er] = c * cr;"))
b("C07-dot-missing", "helpers/algebra.hpp", ("        result += c * search->second;", "        result += c * c;"))
b("C07-scale-zero", "helpers/algebra.hpp", ("    if (factor == scalar_t(0, 1)) {\n      terms_.clear();\n      return *this;\n    }\n", ""))
b("C07-div-nocheck", "helpers/algebra.hpp", ("    if (factor == scalar_t(0, 1)) {\n      throw std::runtime_error(\"division by zero\");\n    }\n", "    if (factor == scalar_t(0, 1)) {\n      return *this;\n    }\n"))
b("C07-plus-size", "helpers/algebra.hpp", ("  Algebra &operator+=(const Algebra &rhs) {\n    for", "  Algebra &operator+=(const Algebra &rhs) {\n    if (terms_.empty()) {\n      terms_ = rhs.terms_;\n      return *this;\n    }\n    if (rhs.size() > size()) {\n      terms_.insert(rhs.terms_.begin(), rhs.terms_.end());\n      return *this;\n    }\n    for"))
b("C07-neg", "helpers/algebra.hpp", ("    Derived result;\n    for (const auto &[e, c] : terms()) {\n      result.add(e, -c);\n    }\n    return result;", "    Derived result;\n    for (const auto &[e, c] : terms()) {\n      result.add(e, c.numerator() > 0 ? -c : c);\n    }\n    return result;"))
b("C07-norm", "helpers/algebra.hpp", ("      auto c2 = c * c;\n      result += c2.to_double();", "      result += std::abs(c.to_double());"))
b("C06-product-adjoint", "helpers/product.hpp", ("    std::reverse(d.begin(), d.end());\n    return d;", "    if (d.size() > 2)\n      std::reverse(d.begin(), d.end());\n    return d;"))
b("C20-product-mul", "helpers/product.hpp", ("    elements_.insert(elements_.end(), rhs.elements_.begin(),\n                     rhs.elements_.end());", "    elements_.insert(elements_.begin(), rhs.elements_.begin(),\n                     rhs.elements_.end());"))
b("C05-product-less", "helpers/product.hpp", ("    return elements_ < other.elements_;", "    return elements_ <= other.elements_;"))
b("C05-product-less-size", "helpers/product.hpp", ("    return elements_ < other.elements_;", "    if (elements_.size() < other.elements_.size())\n      return true;\n    return elements_ < other.elements_;"))
# ---- orbital space
b("C03-addspace-order", "helpers/orbital_space.cc", ("  std::map<std::string, int> new_indices_to_pos;\n", "  label_to_pos_[label] = pos;\n  std::map<std::string, int> new_indices_to_pos;\n"))
b("C03-dup-within", "helpers/orbital_space.cc", ("    if (indices_to_pos_.count(index) or new_indices_to_pos.count(index)) {", "    if (indices_to_pos_.count(index)) {"))
b("C03-reset-partial", "helpers/orbital_space.cc", ("  label_to_pos_.clear();\n  indices_to_pos_.clear();", "  label_to_pos_.clear();"))
b("C03-late-elementary", "helpers/orbital_space.cc",
  ("  std::vector<int> elementary_spaces_int;\n  for (char e : elementary_spaces) {\n    // A composite space may refer to itself\n    elementary_spaces_int.push_back(e == label ? pos : label_to_space(e));\n  }\n", "") if False else
  ("  indices_to_pos_.insert(new_indices_to_pos.begin(), new_indices_to_pos.end());\n", "  for (const auto &[index, p] : new_indices_to_pos) {\n    indices_to_pos_.emplace(index, label_to_pos_.size());\n  }\n"))
b("C03-late-lookup", "helpers/orbital_space.cc",
  ("  label_to_pos_[label] = pos;\n", ""), ("  std::vector<int> elementary_spaces_int;\n", "  label_to_pos_[label] = pos;\n  std::vector<int> elementary_spaces_int;\n"))
b("C16-op-symbol", "helpers/orbital_space.cc", ("{FieldType::Fermion, \"a\"}, {FieldType::Boson, \"b\"}", "{FieldType::Fermion, \"a\"}"))
# b("C14-label-noexcept", "helpers/orbital_space.cc", ("char OrbitalSpaceInfo::label(int pos) const { return space_info_.at(pos).label(); }", "char OrbitalSpaceInfo::label(int pos) const noexcept { return space_info_.at(pos).label(); }") )
b("C04-label-at", "helpers/orbital_space.cc", ("char OrbitalSpaceInfo::label(int pos) const { return space_info_.at(pos).label(); }", "char OrbitalSpaceInfo::label(int pos) const { return space_info_[pos].label(); }"))
b("C29-index-label-offset", "helpers/orbital_space.cc", ("std::to_string(idx) + \"}\"", "std::to_string(idx - index_labels.size()) + \"}\""))
b("C03-lookup-find", "helpers/orbital_space.cc", ("  if (search == label_to_pos_.end()) {\n    throw std::runtime_error(\"\\n  Could not find label :'\" +\n                             std::string(1, label) +\n                             \"' in OrbitalSpaceInfo.\\n  Use the add_space() \"\n                             \"function to define orbital spaces.\");\n  }\n  return search->second;", "  if (search == label_to_pos_.end()) {\n    search = label_to_pos_.lower_bound(label);\n    if (search == label_to_pos_.end())\n      throw std::runtime_error(\"unknown label\");\n  }\n  return search->second;"))
b("C16-spacetype", "helpers/orbital_space.cc", ("    if (str == s) {\n      return space_type;\n    }\n", "    if (str.substr(0, 4) == s.substr(0, 4)) {\n      return space_type;\n    }\n"))
# ---- index
b("C05-index-less", "algebra/index.cc", ("  return index_ < other.index_;", "  return index_.first < other.index_.first or\n         index_.second < other.index_.second;"))
b("C05-index-less-swap", "algebra/index.cc", ("  return index_ < other.index_;", "  return std::make_pair(index_.second, index_.first) <\n         std::make_pair(other.index_.second, other.index_.first);"))
b("C07-index-eq-pos", "algebra/index.cc", ("  return index_ == other.index_;", "  return pos() == other.pos();"))
b("C08-canon-sign-count", "algebra/index.cc", ("  std::vector<int> perm;\n  indices.clear();", "  std::vector<int> perm;\n  if (idx_pos.size() > 6)\n    return 1;\n  indices.clear();"))
b("C08-canon-stable", "algebra/index.cc", ("    std::sort(idx_pos.rbegin(), idx_pos.rend());\n  } else {\n    std::sort(idx_pos.begin(), idx_pos.end());\n  }\n  std::vector<int> perm;\n", "    std::sort(idx_pos.rbegin(), idx_pos.rend());\n  } else {\n    std::stable_sort(idx_pos.begin(), idx_pos.end(), [](const auto &a, const auto &b) { return a.first.pos() < b.first.pos(); });\n  }\n  std::vector<int> perm;\n"))
b("C29-index-regex", "algebra/index.cc", ("\"([a-zA-Z])[_]?(\\\\d+)\"", "\"([a-zA-Z])[_]?(\\\\d).*\""))
b("C29-index-regex-search", "algebra/index.cc", ("std::regex_match(s, sm, std::regex(\"([a-zA-Z])[_]?(\\\\d+)\"))", "std::regex_search(s, sm, std::regex(\"([a-zA-Z])[_]?(\\\\d+)\"))"))
b("C29-indices-unique", "algebra/index.cc", ("    res.push_back(make_index_from_str(subs));", "    const Index idx = make_index_from_str(subs);\n    if (std::find(res.begin(), res.end(), idx) == res.end())\n      res.push_back(idx);"))
b("C23-remap-erase", "algebra/index.cc", ("      space_count[space].push_back(last_index + 1);\n", ""))
b("C23-remap-find", "algebra/index.cc", ("      result[idx] = Index(space, last_index + 1);", "      result[idx] = Index(space, space_count[space].size());"))
b("C26-symfactor-skip", "algebra/index.cc", ("  for (int s = 0; s < orbital_subspaces->num_spaces(); ++s) {\n    result *= factorial(idx_per_space[s]);", "  for (int s = 1; s < orbital_subspaces->num_spaces(); ++s) {\n    result *= factorial(idx_per_space[s]);"))
b("C04-numindices", "algebra/index.cc", ("    counter.at(index.space()) += 1;", "    counter[index.space()] += 1;"))
# ---- sqoperator
b("C16-qp-creation", "algebra/sqoperator.cc", ("  return space_type() == SpaceType::Occupied ? not is_creation()\n                                             : is_creation();", "  return space_type() == SpaceType::Unoccupied ? is_creation()\n                                             : not is_creation();"))
b("C05-sqop-less", "algebra/sqoperator.cc", ("  if (is_creation() != other.is_creation()) {\n    return is_creation();\n  }\n  if (is_creation()) {\n    return index() < other.index();\n  }\n  return other.index() < index();\n}\n\nbool SQOperator::normal_ordered_less", "  if (is_creation() != other.is_creation()) {\n    return is_creation();\n  }\n  if (is_creation()) {\n    return index() < other.index();\n  }\n  return not(index() < other.index());\n}\n\nbool SQOperator::normal_ordered_less"))
b("C20-sqop-less-order", "algebra/sqoperator.cc", ("  if (is_creation()) {\n    return index() < other.index();\n  }\n  return other.index() < index();\n}\n\nbool SQOperator::normal_ordered_less", "  return index() < other.index();\n}\n\nbool SQOperator::normal_ordered_less"))
b("C20-commutator-mixed", "algebra/sqoperator.cc", ("  if (field_type() == FieldType::Fermion and\n      other.field_type() == FieldType::Fermion) {", "  if (field_type() == FieldType::Fermion or\n      other.field_type() == FieldType::Fermion) {"))
b("C20-commutator-space", "algebra/sqoperator.cc", ("    return -scalar_t(1);\n", "    return space() == other.space() ? -scalar_t(1) : scalar_t(1);\n"))
b("C06-sqop-adjoint", "algebra/sqoperator.cc", ("      (is_creation() ? SQOperatorType::Annihilation : SQOperatorType::Creation);", "      (is_quasiparticle_creation() ? SQOperatorType::Annihilation : SQOperatorType::Creation);"))
b("C23-sqop-reindex", "algebra/sqoperator.cc", ("  if (idx_map.count(operator_.second) > 0) {", "  if (is_creation() and idx_map.count(operator_.second) > 0) {"))
b("C23-sqop-reindex-insert", "algebra/sqoperator.cc", ("  if (idx_map.count(operator_.second) > 0) {\n    operator_.second = idx_map[operator_.second];\n  }", "  operator_.second = idx_map[operator_.second];"))
b("C08-sqops-all-perm", "algebra/sqoperator.cc", ("    if (sqop.field_type() == FieldType::Fermion) {\n      perm.push_back(pos);\n    }", "    perm.push_back(pos);"))
b("C08-sqops-nosort", "algebra/sqoperator.cc", ("  std::vector<int> perm;\n  sqops.clear();", "  if (sqop_pos.size() > 1 and sqop_pos.front().first == sqop_pos.back().first)\n    return 1;\n  std::vector<int> perm;\n  sqops.clear();"))
b("C22-sqop-str", "algebra/sqoperator.cc", ("  s += (is_creation() ? \"+\" : \"-\");", "  s += (is_quasiparticle_creation() ? \"+\" : \"-\");"))
# ---- tensor
b("C05-tensor-less", "algebra/tensor.cc", ("  if (lower_ < other.lower_)\n    return true;\n  if (lower_ > other.lower_)\n    return false;\n", "  if (lower_ < other.lower_)\n    return true;\n"))
b("C05-tensor-less-eq", "algebra/tensor.cc", ("  return (label_ == other.label_) and (lower_ == other.lower_) and\n         (upper_ == other.upper_);", "  return (label_ == other.label_) and (lower_ == other.lower_) and\n         (upper_.size() == other.upper_.size());"))
b("C23-tensor-reindex-chain", "algebra/tensor.cc", ("  for (Index &idx : lower_) {\n    if (idx_map.count(idx) > 0) {\n      idx = idx_map[idx];\n    }\n  }\n", "  for (Index &idx : lower_) {\n    while (idx_map.count(idx) > 0 and not(idx_map[idx] == idx)) {\n      idx = idx_map[idx];\n    }\n  }\n"))
b("C08-tensor-lower-sign", "algebra/tensor.cc", ("  sign *= canonicalize_indices(lower_indices, false);", "  canonicalize_indices(lower_indices, false);"))
b("C16-tensor-sym", "algebra/tensor.cc", ("  return (symmetry_ == SymmetryType::Antisymmetric) ? sign : scalar_t(1);", "  return (symmetry_ != SymmetryType::Symmetric or upper_.size() > 1) ? sign : scalar_t(1);"))
b("C06-tensor-adjoint-swap", "algebra/tensor.cc", ("  result.set_lower(this->lower());\n  result.set_upper(this->upper());", "  result.set_lower(this->upper());\n  result.set_upper(this->lower());"))
b("C06-tensor-adjoint-cc", "algebra/tensor.cc", ("  result.is_complex_conjugate_ = not this->is_complex_conjugate_;", "  result.is_complex_conjugate_ = true;"))
b("C22-tensor-str", "algebra/tensor.cc", ("  return (label_ + \"^{\" + join(str_vec_upper, \",\") + \"}_{\" +\n          join(str_vec_lower, \",\") + \"}\");", "  if (str_vec_upper.empty())\n    return label_ + \"_{\" + join(str_vec_lower, \",\") + \"}\";\n  return (label_ + \"^{\" + join(str_vec_upper, \",\") + \"}_{\" +\n          join(str_vec_lower, \",\") + \"}\");"))
b("C29-tensor-regex", "algebra/tensor.cc", ("([a-zA-Z0-9_]+)\\\\^", "([a-zA-Z0-9]+)\\\\^"))
b("C29-tensor-swap", "algebra/tensor.cc", ("  auto upper = make_indices_from_str(sm[2]);\n  auto lower = make_indices_from_str(sm[3]);", "  auto upper = make_indices_from_str(sm[2]);\n  auto lower = sm[3].length() > 0 ? make_indices_from_str(sm[3]) : upper;"))
b("C18-tensor-compile", "algebra/tensor.cc", ("  return (str_vec.size() > 0 ?", "  return (str_vec.size() > 1 ?"))
# ---- symbolic term
b("C20-issorted", "algebra/symbolic_term.cc", ("                        [](const SQOperator &a, const SQOperator &b) {\n                          return a < b;\n                        });", "                        [](const SQOperator &a, const SQOperator &b) {\n                          return b < a;\n                        });"))
b("C06-symterm-adjoint-tensors", "algebra/symbolic_term.cc", ("  result.set_normal_ordered(normal_ordered_);\n", ""))
b("C06-symterm-adjoint-noadj", "algebra/symbolic_term.cc", ("    result.add(tensor.adjoint());", "    result.add(tensor);"))
b("C15-term-mul", "algebra/symbolic_term.cc", ("  for (const auto &tensor : rhs.tensors_) {\n    add(tensor);\n  }\n  operators_ = ops;", "  for (const auto &tensor : rhs.tensors_) {\n    if (std::find(tensors_.begin(), tensors_.end(), tensor) == tensors_.end())\n      add(tensor);\n  }\n  operators_ = ops;"))
b("C23-reindex-ops", "algebra/symbolic_term.cc", ("  for (auto &op : operators_) {\n    op.reindex(idx_map);\n  }\n}", "  for (auto op : operators_) {\n    op.reindex(idx_map);\n  }\n}"))
b("C23-canon-reserved", "algebra/symbolic_term.cc", ("    while (is_reserved.count(Index(s, count[s])) > 0) {\n      count[s] += 1;\n    }\n", ""))
b("C23-canon-reserved-if", "algebra/symbolic_term.cc", ("    while (is_reserved.count(Index(s, count[s])) > 0) {", "    if (is_reserved.count(Index(s, count[s])) > 0) {"))
b("C23-canon-tensidx", "algebra/symbolic_term.cc", ("    tens_index_count.at(sqop.index().space()) += 1;\n", ""))
b("C23-canon-counter", "algebra/symbolic_term.cc", ("        if (index_map.count(u) == 0) {\n          index_map[u] = next_index(u.space(), sqop_index_count);", "        if (index_map.count(u) == 0) {\n          index_map[u] = next_index(u.space(), tens_index_count);"))
b("C23-canon-rank", "algebra/symbolic_term.cc", ("    auto upper_conn = tensor_connectivity(tensor, true);", "    auto upper_conn = tensor_connectivity(tensor, false);"))
b("C08-canon-factor", "algebra/symbolic_term.cc", ("  factor *= canonicalize_sqops(operators_, false);", "  if (tensors_.size() > 1) {\n    factor *= canonicalize_sqops(operators_, false);\n  } else {\n    factor = canonicalize_sqops(operators_, false);\n  }"))
b("C08-canon-skip-nonsym", "algebra/symbolic_term.cc", ("    factor *= tensor.canonicalize();", "    if (tensor.rank() > 2)\n      factor *= tensor.canonicalize();"))
b("C07-product-nonordered", "algebra/symbolic_term.cc", ("  for (const auto &op : rhs.ops()) {\n    result.push_back(op);\n  }\n  return std::make_pair(result, normal_ordered);", "  for (const auto &op : rhs.ops()) {\n    if (result.size() == 0 or not(op == result[result.size() - 1]))\n      result.push_back(op);\n  }\n  return std::make_pair(result, normal_ordered);"))
b("C05-symterm-less", "algebra/symbolic_term.cc", ("  if (tensors_ > other.tensors_) {\n    return false;\n  }\n", ""))
b("C22-symterm-str", "algebra/symbolic_term.cc", ("  return (join(str_vec, \" \"));\n}\n\nstd::string SymbolicTerm::latex", "  return (join(str_vec, tensors_.empty() ? \"\" : \" \"));\n}\n\nstd::string SymbolicTerm::latex"))
b("C22-latex-reverse", "algebra/symbolic_term.cc", ("      std::reverse(str_vec_ann.begin(), str_vec_ann.end());\n", ""))
b("C23-connectivity", "algebra/symbolic_term.cc", ("      std::vector<Index> indices2 = upper ? tensor.lower() : tensor.upper();", "      std::vector<Index> indices2 = tensor.lower();"))
b("C23-connectivity-sort", "algebra/symbolic_term.cc", ("  std::sort(result.begin(), result.end());\n  return result;", "  return result;"))
# ---- normal order
b("C20-delta-legs", "algebra/symbolic_term_normal_order.cc", ("          auto lower = b.is_creation() ? a.index() : b.index();\n          auto upper = b.is_creation() ? b.index() : a.index();", "          auto lower = a.index();\n          auto upper = b.index();"))
b("C20-sign-contract", "algebra/symbolic_term_normal_order.cc", ("        recursive_vacuum_normal_order(removed_term, c, new_terms,", "        recursive_vacuum_normal_order(removed_term, pos % 2 == 0 ? c : -c, new_terms,"))
b("C20-space-check", "algebra/symbolic_term_normal_order.cc", ("    if ((a.is_creation() != b.is_creation()) and (a.space() == b.space())) {", "    if ((a.is_creation() != b.is_creation())) {"))
b("C20-same-index", "algebra/symbolic_term_normal_order.cc", ("      if (not only_same_index_contractions or is_same_index) {", "      if (not only_same_index_contractions or is_same_index or n > 4) {"))
b("C20-valid", "algebra/symbolic_term_normal_order.cc", ("  return a.field_type() == FieldType::Fermion and\n         b.field_type() == FieldType::Fermion;", "  return true;"))
b("C20-tensors-lost", "algebra/symbolic_term_normal_order.cc", ("    auto swap_term = SymbolicTerm(false, swap_ops, term.tensors());", "    auto swap_term = SymbolicTerm(term.normal_ordered(), swap_ops, {});"))
b("C20-pos-erase", "algebra/symbolic_term_normal_order.cc", ("        cont_ops.insert(cont_ops.end(), ops.begin() + pos + 2, ops.end());", "        cont_ops.insert(cont_ops.begin(), ops.begin() + pos + 2, ops.end());"))
# ---- term, equation
b("C22-term-str", "algebra/term.cc", ("  return coeff_str + \" \" + term_str;", "  return coeff_str + (nops() > 0 ? \" \" : \"\") + term_str;"))
b("C02-term-ctor", "algebra/term.cc", ("    : coefficient_(c), SymbolicTerm(term) {\n", "    : coefficient_(term.nops() > 0 ? c : scalar_t(1)), SymbolicTerm(term) {\n"))
b("C19-equation-eq", "algebra/equation.cc", ("  return ((lhs() == other.lhs()) and (rhs() == other.rhs()) and\n          (rhs_factor() == other.rhs_factor()));", "  return ((lhs() == other.lhs()) and (rhs() == other.rhs()));"))
b("C18-equation-lhs-order", "algebra/equation.cc", ("  for (const auto &l : t.upper()) {\n    indices += get_unique_index(l.latex(), index_map, unused_indices);\n  }\n  for (const auto &l : t.lower()) {\n    indices += get_unique_index(l.latex(), index_map, unused_indices);\n  }", "  for (const auto &l : t.lower()) {\n    indices += get_unique_index(l.latex(), index_map, unused_indices);\n  }\n  for (const auto &l : t.upper()) {\n    indices += get_unique_index(l.latex(), index_map, unused_indices);\n  }"))
b("C18-letter-empty", "algebra/equation.cc", ("    if (unused_indices.empty()) {\n      throw std::runtime_error(\n          \"Equation::compile() - too many indices for an einsum contraction\");\n    }\n", ""))
b("C18-letter-noerase", "algebra/equation.cc", ("        index_map[s] = unused_indices.back();\n      }\n    } else {\n      index_map[s] = unused_indices.back();", "        index_map[s] = unused_indices.front();\n      }\n    } else {\n      index_map[s] = std::string(1, s[0]);"))
b("C18-letters-dup", "algebra/equation.cc", ("\"m\", \"l\", \"k\", \"j\"", "\"m\", \"l\", \"l\", \"j\""))
b("C18-lhs-label", "algebra/equation.cc", ("    for (const auto &l : lhs_tensor.lower()) {\n      lhs_tensor_label += orbital_subspaces->label(l.space());\n    }\n", ""))
b("C18-compile-fmt", "algebra/equation.cc", ("std::format(\"{:.9f}\", rhs_factor().to_double())", "std::format(\"{:.3f}\", rhs_factor().to_double())"))
b("C19-rhs-expression", "algebra/equation.cc", ("  expr.add(rhs(), rhs_factor());", "  expr.add(rhs(), rhs().tensors().empty() ? scalar_t(1) : rhs_factor());"))
# ---- expression
b("C08-expr-canon-factor", "algebra/expression.cc", ("    factor *= v;\n    add_to_map(canonical_terms, term, factor);", "    factor *= v;\n    canonical_terms[term] = factor;"))
b("C06-expr-adjoint", "algebra/expression.cc", ("    expr.add(e.adjoint(), c);", "    expr.add(e.nops() > 0 ? e.adjoint() : e, c);"))
b("C23-expr-reindex", "algebra/expression.cc", ("    add_to_map(reindexed_terms, term, kv.second);", "    reindexed_terms.emplace(term, kv.second);"))
b("C05-expr-eq", "algebra/expression.cc", ("  return (terms_.size() == other.terms_.size()) and\n         std::equal(terms_.begin(), terms_.end(), other.terms_.begin());", "  return (terms_.size() <= other.terms_.size()) and\n         std::equal(terms_.begin(), terms_.end(), other.terms_.begin());"))
b("C22-expr-str-sign", "algebra/expression.cc", ("        factor_str += c.str(true);\n      }\n      // rational(1,1).str() returns \"\", so we need to handle the case of", "        factor_str += c.str(symterm.nops() > 0);\n      }\n      // rational(1,1).str() returns \"\", so we need to handle the case of"))
b("C22-expr-str-one", "algebra/expression.cc", ("        factor_str = (n == 0) ? \"1\" : \"+1\";", "        factor_str = \"1\";"))
b("C22-expr-latex-first", "algebra/expression.cc", ("    str_vec.push_back(factor.latex(first) + ' ' + term.latex());\n    first = false;", "    str_vec.push_back(factor.latex(first) + ' ' + term.latex());\n    first = factor.numerator() < 0;"))
b("C19-mbe-lower", "algebra/expression.cc", ("      if (op.type() == SQOperatorType::Creation) {", "      if (op.is_quasiparticle_creation()) {"))
b("C19-mbe-reverse", "algebra/expression.cc", ("        upper.insert(upper.begin(), op.index());", "        upper.push_back(op.index());"))
b("C19-mbe-key", "algebra/expression.cc", ("      signature_str_lower += std::string(l, orbital_subspaces->label(pos));", "      if (l > 0)\n        signature_str_lower += orbital_subspaces->label(pos);"))
b("C19-mbe-assign", "algebra/expression.cc", ("    result[signature_str].push_back(Equation(lhs, rhs, factor));", "    result[signature_str] = {Equation(lhs, rhs, factor)};"))
b("C19-mbe-pos", "algebra/expression.cc", ("      pos += 1;\n    }\n    reverse(", "      pos += (u + l > 0);\n    }\n    reverse("))
b("C19-mbe-rhs", "algebra/expression.cc", ("    for (const auto &tensor : term.tensors()) {\n      rhs.add(tensor);\n    }", "    for (const auto &tensor : term.tensors()) {\n      if (tensor.label() != label)\n        rhs.add(tensor);\n    }"))
b("C29-opexpr-size", "algebra/expression.cc", ("      if (s.size() == 2) {\n        auto idx = Index(space, cre_count[space]);", "      if (s.back() == '+' and s.size() == 2 and space < 3) {\n        auto idx = Index(space, cre_count[space]);"))
b("C29-opexpr-annidx", "algebra/expression.cc", ("        ann_count[space] -= 1;\n        auto idx = Index(space, ann_count[space]);", "        auto idx = Index(space, ann_count[space]);\n        ann_count[space] -= 1;"))
# b("C29-opexpr-coef", "algebra/expression.cc", ("    result.add(term, term.coefficient());", "    result.set(term, term.coefficient());") )
b("C29-opexpr-sym", "algebra/expression.cc", ("    Tensor tensor(label, cre, ann, symmetry);\n    term.add(tensor);\n    result", "    Tensor tensor(label, cre, ann, SymmetryType::Antisymmetric);\n    term.add(tensor);\n    result"))
b("C29-opexpr-counts", "algebra/expression.cc", ("  Expression result;\n  for (const std::string &s : components) {\n    auto s_vec = split(s);\n\n    std::vector<int> cre_count(orbital_subspaces->num_spaces(), 0);", "  Expression result;\n  std::vector<int> cre_count(orbital_subspaces->num_spaces(), 0);\n  for (const std::string &s : components) {\n    auto s_vec = split(s);\n"))
b("C22-makeexpr-no", "algebra/expression.cc", ("  term.set_normal_ordered(is_normal_ordered);\n  for (const auto &t : tensors)", "  term.set_normal_ordered(is_normal_ordered and tensors.empty());\n  for (const auto &t : tensors)"))
b("C22-makeexpr-stride", "algebra/expression.cc", ("n < operators.size(); n += 2) {", "n + 2 < operators.size(); n += 2) {"))
b("C22-makeexpr-sign", "algebra/expression.cc", ("operators[n] == \"+\" ? SQOperatorType::Creation\n                                              : SQOperatorType::Annihilation;", "operators[0] == \"+\" ? SQOperatorType::Creation\n                                               : SQOperatorType::Annihilation;"))
b("C22-makeexpr-regex", "algebra/expression.cc", ("([+-]?\\d*\\/?\\d*)\\s*)", "([+-]?\\d*\\/?\\d?)\\s*)"))
b("C22-makeexpr-tensors", "algebra/expression.cc", ("    term.add(make_tensor_from_str(t, symmetry));", "    term.add(make_tensor_from_str(tensors[0], symmetry));"))
b("C20-isvno", "algebra/expression_normal_order.cc", ("    if (not symterm.is_vacuum_normal_ordered()) {\n      return false;\n    }\n  }\n  return true;", "    if (symterm.is_vacuum_normal_ordered()) {\n      return true;\n    }\n  }\n  return terms().empty();"))
b("C20-vno-throw", "algebra/expression_normal_order.cc", ("    if (symterm.is_labeled_normal_ordered()) {\n      throw", "    if (symterm.is_labeled_normal_ordered() and symterm.nops() > 2) {\n      throw"))
b("C20-vno-coef", "algebra/expression_normal_order.cc", ("      new_expr.add(new_symterm, c * new_c);\n    }\n  }\n  return new_expr;\n}\n\n// Exp", "      new_expr.add(new_symterm, new_symterm.nops() > 0 ? c * new_c : new_c);\n    }\n  }\n  return new_expr;\n}\n\n// Exp"))
b("C20-vno-flag", "algebra/expression_normal_order.cc", ("symterm.vacuum_normal_order(only_same_index_contractions);", "symterm.vacuum_normal_order(only_same_index_contractions or\n                                               terms().size() > 1);"))
# ---- operator expression / operator
b("C15-opexpr-add2", "diagrams/operator_expression.cc", ("    add(vec_dop_factor.first, factor * vec_dop_factor.second);", "    add(vec_dop_factor.first, vec_dop_factor.second);"))
b("C09-opexpr-canon", "diagrams/operator_expression.cc", ("    add_to_map(canonical, newprod, sign * scalar);", "    add_to_map(canonical, newprod, newprod == prod ? scalar : sign * scalar * sign);"))
b("C10-opexpr-canon-sign", "diagrams/operator_expression.cc", ("    add_to_map(canonical, newprod, sign * scalar);", "    add_to_map(canonical, newprod, scalar);"))
b("C29-op-plus", "diagrams/operator_expression.cc", ("      if (el.size() > 1) {\n        cre[space] += 1;", "      if (el.size() > 1 and el[1] == '+') {\n        cre[space] += 1;"))
b("C29-op-unique", "diagrams/operator_expression.cc", ("    if (unique and result.contains({op})) {", "    if (result.contains({op})) {"))
b("C29-op-unique-count", "diagrams/operator_expression.cc", ("    if (unique and result.contains({op})) {", "    if (unique and result.size() > 0) {"))
b("C10-commutator", "diagrams/operator_expression.cc", ("  return A * B - B * A;", "  if (A == B)\n    return A * B;\n  return A * B - B * A;"))
b("C10-bch-coef", "diagrams/operator_expression.cc", ("    comm *= scalar_t(1, k);", "    comm *= scalar_t(1, n);"))
b("C10-bch-temp", "diagrams/operator_expression.cc", ("    comm *= scalar_t(1, k);\n    result += comm;\n    temp = comm;", "    temp = comm;\n    comm *= scalar_t(1, k);\n    result += comm;"))
b("C10-bch-limit", "diagrams/operator_expression.cc", ("  for (int k = 1; k <= n; k++) {\n    OperatorExpression comm", "  for (int k = 1; k <= std::min(n, 8); k++) {\n    OperatorExpression comm"))
b("C12-operator-factor", "diagrams/operator.cc", ("    result /= static_cast<scalar_t>(factorial(ann(s)));", "    result /= static_cast<scalar_t>(factorial(cre(s)));"))
b("C12-operator-factor-cond", "diagrams/operator.cc", ("    result /= static_cast<scalar_t>(factorial(cre(s)));", "    if (orbital_subspaces->space_type(s) != SpaceType::Unoccupied)\n      result /= static_cast<scalar_t>(factorial(cre(s)));"))
b("C06-operator-adjoint", "diagrams/operator.cc", ("  return Operator(label(), graph_matrix().adjoint());", "  return Operator(label(), graph_matrix().num_ops() > 4 ? graph_matrix() : graph_matrix().adjoint());"))
b("C05-operator-less", "diagrams/operator.cc", ("  if (label_ > other.label_)\n    return false;\n", ""))
b("C05-operator-ne", "diagrams/operator.cc", ("  return ((label_ != other.label_) or (graph_matrix_ != other.graph_matrix_));", "  return ((label_ != other.label_) and (graph_matrix_ != other.graph_matrix_));"))
b("C10-commute", "diagrams/operator.cc", ("    noncommuting += a.ann(s) * b.cre(s) + a.cre(s) * b.ann(s);", "    noncommuting += a.ann(s) * b.cre(s) - a.cre(s) * b.ann(s);"))
b("C10-commute-one", "diagrams/operator.cc", ("    noncommuting += a.ann(s) * b.cre(s) + a.cre(s) * b.ann(s);", "    noncommuting += a.ann(s) * b.cre(s);"))
b("C10-noncommless", "diagrams/operator.cc", ("    return (a < b);\n  }\n  return false;", "    return (a < b);\n  }\n  return a.num_ops() < b.num_ops();"))
b("C29-diag-operator", "diagrams/operator.cc", ("  for (const auto &l : ann_labels) {\n    int space = orbital_subspaces->label_to_space(l);\n    ann[space] += 1;", "  for (const auto &l : ann_labels) {\n    int space = orbital_subspaces->label_to_space(l);\n    ann[space] = 1;"))
b("C22-operator-str", "diagrams/operator.cc", ("  for (int i = orbital_subspaces->num_spaces() - 1; i >= 0; --i) {\n    for (int j = 0; j < ann(i); j++)", "  for (int i = orbital_subspaces->num_spaces() - 1; i > 0; --i) {\n    for (int j = 0; j < ann(i); j++)"))
b("C03-sumnumops", "diagrams/operator.cc", ("    r += op.num_ops();\n  }\n  return r;", "    r = std::max(r, op.num_ops());\n  }\n  return r;"))
# ---- graph matrix
b("C03-gm-at", "diagrams/graph_matrix.cc", ("int GraphMatrix::cre(int space) const { return elements_.at(space).first; }", "int GraphMatrix::cre(int space) const { return elements_[space].first; }"))
b("C06-gm-adjoint", "diagrams/graph_matrix.cc", ("    cre_v[s] = ann(s);\n    ann_v[s] = cre(s);", "    cre_v[s] = ann(s);\n    ann_v[s] = cre_v[s];"))
b("C03-gm-minus", "diagrams/graph_matrix.cc", ("    elements_.at(s).second -= rhs.elements_.at(s).second;", "    elements_.at(s).second -= rhs.elements_.at(s).first;"))
b("C03-gm-plus-swap", "diagrams/graph_matrix.cc", ("  for (int s = 0; s < orbital_subspaces->num_spaces(); ++s) {\n    elements_.at(s).first += rhs", "  for (int s = 1; s < orbital_subspaces->num_spaces(); ++s) {\n    elements_.at(s).first += rhs"))
b("C05-gm-less", "diagrams/graph_matrix.cc", ("  return elements_ < other.elements_;", "  return num_ops() < other.num_ops();"))
b("C26-gm-signature", "diagrams/graph_matrix.cc", ("    str += to_string(graph_matrix.ann(s));", "    str += to_string(graph_matrix.cre(s));"))
b("C03-spaces", "diagrams/contraction.cc", ("      if (graph_matrix.ann(s) + graph_matrix.cre(s) > 0) {", "      if (graph_matrix.ann(s) * graph_matrix.cre(s) > 0) {"))
b("C10-opprod-nperm", "diagrams/operator_product.cc", ("        nperm += elements_[j].num_ops() * elements_[j + 1].num_ops();", "        nperm += elements_[j].num_ops() + elements_[j + 1].num_ops();"))
b("C10-opprod-bubble", "diagrams/operator_product.cc", ("    for (int j = 0; j < n - i - 1; j++) {", "    for (int j = i; j < n - 1; j++) {"))
b("C10-opprod-sign-late", "diagrams/operator_product.cc", ("        nperm += elements_[j].num_ops() * elements_[j + 1].num_ops();\n        swap(elements_[j], elements_[j + 1]);", "        swap(elements_[j], elements_[j + 1]);\n        nperm = elements_[j].num_ops() * elements_[j + 1].num_ops();"))
b("C10-opprod-mul", "diagrams/operator_product.cc", ("  for (const auto &e : l) {\n    result.push_back(e);\n  }\n  for (const auto &e : r) {", "  for (const auto &e : r) {\n    result.push_back(e);\n  }\n  for (const auto &e : l) {"))
# ---- wick theorem
b("C09-contract-noclear", "diagrams/wick_theorem.cc", ("  contractions_.clear();\n", ""))
b("C09-contract-cache", "diagrams/wick_theorem.cc", ("  elementary_contractions_ = generate_elementary_contractions(ops);", "  if (elementary_contractions_.empty())\n    elementary_contractions_ = generate_elementary_contractions(ops);"))
b("C10-contract-factor", "diagrams/wick_theorem.cc", ("    result += contract(factor * f, ops, minrank, maxrank);", "    result += contract(f, ops, minrank, maxrank);"))
b("C10-contract-rank", "diagrams/wick_theorem.cc", ("    result += contract(factor * f, ops, minrank, maxrank);", "    result += contract(factor * f, ops, maxrank, maxrank);"))
b("C13-threads-swap", "diagrams/wick_theorem.cc", ("          : process_contractions_threads(factor, ops, minrank, maxrank);", "          : process_contractions_threads(factor, ops, 0, maxrank);"))
b("C27-elem-occ-order", "diagrams/wick_theorem_elementary_contractions.cc", ("      if (ops[l].cre(s) * ops[r].ann(s) > 0) { // is contraction viable?", "      if (ops[l].cre(s) + ops[r].ann(s) > 1) { // is contraction viable?"))
b("C27-elem-unocc-r", "diagrams/wick_theorem_elementary_contractions.cc", ("    for (int r = l + 1; r < nops; r++) {       // loop over creation (right)", "    for (int r = l + 1; r < std::min(nops, l + 3); r++) {       // loop over creation (right)"))
b("C17-elem-maxhalf", "diagrams/wick_theorem_elementary_contractions.cc", ("  int max_half_legs = std::min(std::min(sumcre, sumann), maxcumulant_);", "  int max_half_legs = std::min(std::max(sumcre, sumann), maxcumulant_);"))
b("C17-elem-maxhalf2", "diagrams/wick_theorem_elementary_contractions.cc", ("half_legs <= max_half_legs; half_legs++", "half_legs < max_half_legs or half_legs == 1; half_legs++"))
b("C27-elem-compat", "diagrams/wick_theorem_elementary_contractions.cc", ("          if (ops[A].ann(s) < perm[A]) {", "          if (ops[A].ann(s) + 1 < perm[A]) {"))
b("C27-elem-sort", "diagrams/wick_theorem_elementary_contractions.cc", ("      std::sort(perm.begin(), perm.end());\n", ""))
b("C27-elem-connected", "diagrams/wick_theorem_elementary_contractions.cc", ("          nops_contracted += (cre_legs[A] + ann_legs[A] > 0);", "          nops_contracted += (cre_legs[A] * ann_legs[A] > 0);"))
b("C27-elem-general-only", "diagrams/wick_theorem_elementary_contractions.cc", ("    if (space_type == SpaceType::Unoccupied) {", "    if (space_type != SpaceType::Occupied) {"))
b("C03-comp-rank", "diagrams/wick_theorem_composite_contractions.cc", ("  if ((num_ops >= minrank) and (num_ops <= maxrank)) {", "  if ((num_ops >= minrank) and (num_ops < maxrank or maxrank == 0)) {"))
b("C03-comp-undo", "diagrams/wick_theorem_composite_contractions.cc", ("    free_graph_matrix_vec[A] += el_contr[A];", "    free_graph_matrix_vec[A] += el_contr_vec[k - 1][A];"))
b("C26-comp-minc", "diagrams/wick_theorem_composite_contractions.cc", ("  int minc = (k > 1) ? a[k - 2] : 0;", "  int minc = (k > 1) ? a[k - 2] + 1 : 0;"))
b("C26-comp-minc0", "diagrams/wick_theorem_composite_contractions.cc", ("  int minc = (k > 1) ? a[k - 2] : 0;", "  int minc = (k > 2) ? a[k - 2] : 0;"))
b("C27-comp-valid", "diagrams/wick_theorem_composite_contractions.cc", ("        if (free_graph_matrix_vec[A].ann(s) < el_contr[A].ann(s)) {\n          is_valid_contraction = false;\n        }\n", ""))
b("C27-comp-valid-reset", "diagrams/wick_theorem_composite_contractions.cc", ("    bool is_valid_contraction = true;\n    for (int A = 0; A < nops; A++) {\n", "    bool is_valid_contraction = true;\n    for (int A = 0; A < nops; A++) {\n      is_valid_contraction = true;\n"))
b("C03-comp-alen", "diagrams/wick_theorem_composite_contractions.cc", ("a(std::max(ops.num_ops(), 0) + 1, -1);", "a(16, -1);"))
b("C25-commute-two", "diagrams/wick_theorem_canonicalize_graph.cc", ("      if (el_contr.num_ops() == 2) {", "      if (el_contr.num_ops() != 4) {"))
b("C25-commute-half", "diagrams/wick_theorem_canonicalize_graph.cc", ("        if (el_contr[i].ann(s) * el_contr[j].cre(s) > 0) {\n          do_commute = false;\n        }\n", ""))
b("C25-perm-sign", "diagrams/wick_theorem_canonicalize_graph.cc", ("          sign *= 1 - 2 * ((ops[ops_perm[j + 1]].num_ops() *\n                            ops[ops_perm[j]].num_ops()) %\n                           2);", "          sign *= 1 - 2 * ((ops[j + 1].num_ops() *\n                            ops[j].num_ops()) %\n                           2);"))
b("C25-perm-invalid", "diagrams/wick_theorem_canonicalize_graph.cc", ("          return std::pair(false, scalar_t(1));", "          return std::pair(i == 0, scalar_t(1));"))
b("C25-graph-less", "diagrams/wick_theorem_canonicalize_graph.cc", ("      if (r_con[r_ops_perm[i]] < l_con[l_ops_perm[i]]) {\n        return true;\n      }\n", ""))
b("C25-canon-sign", "diagrams/wick_theorem_canonicalize_graph.cc", ("  const scalar_t canonical_sign = ops_perms_sign[canonical_ops_perm_idx];", "  const scalar_t canonical_sign = ops_perms_sign[canonical_contr_perm_idx];"))
b("C25-canon-contr", "diagrams/wick_theorem_canonicalize_graph.cc", ("      permuted_contr.push_back(contractions[c][o]);\n    }\n    canonical_contr", "      permuted_contr.push_back(contractions[o][c]);\n    }\n    canonical_contr"))
b("C25-canon-ops", "diagrams/wick_theorem_canonicalize_graph.cc", ("    canonical_ops.push_back(ops[o]);", "    canonical_ops.push_back(ops[ops_perms[canonical_ops_perm_idx][o]]);"))
b("C25-canon-commutable", "diagrams/wick_theorem_canonicalize_graph.cc", ("  for (int i = 0; i < nops; i++) {\n    for (int j = 0; j < nops; j++) {\n      // check", "  for (int i = 0; i < nops; i++) {\n    for (int j = i + 1; j < nops; j++) {\n      // check"))
b("C13-proc-sign", "diagrams/wick_theorem_process_contractions.cc", ("          evaluate_contraction(best_ops, best_contractions, factor * sign);\n      timers_", "          evaluate_contraction(best_ops, best_contractions, factor);\n      timers_"))
b("C13-proc-canonfac", "diagrams/wick_theorem_process_contractions.cc", ("      canonicalize_factor *= term_factor.second;\n      result += {term, canonicalize_factor};", "      canonicalize_factor = term_factor.second;\n      result += {term, canonicalize_factor};"))
b("C12-eval-unocc", "diagrams/wick_theorem_process_contractions.cc", ("      pair_contraction_reindex_map[cre_index] = ann_index;\n      unoccupied_sign *= -1;", "      pair_contraction_reindex_map[cre_index] = ann_index;\n      unoccupied_sign = -1;"))
b("C12-eval-reindex", "diagrams/wick_theorem_process_contractions.cc", ("      pair_contraction_reindex_map[ann_index] = cre_index;", "      pair_contraction_reindex_map[cre_index] = ann_index;"))
b("C17-eval-label", "diagrams/wick_theorem_process_contractions.cc", ("        if (pos_cre_sqops[0] < pos_ann_sqops[0]) {", "        if (pos_cre_sqops[0] <= pos_ann_sqops[0] + 1) {"))
b("C17-eval-lambda", "diagrams/wick_theorem_process_contractions.cc", ("std::to_string(rank / 2);", "std::to_string(rank);"))
b("C12-eval-tensor", "diagrams/wick_theorem_process_contractions.cc", ("          Tensor(label, lower, upper, SymmetryType::Antisymmetric));\n    }\n    bit_map_vec", "          Tensor(label, upper, lower, SymmetryType::Antisymmetric));\n    }\n    bit_map_vec"))
b("C12-eval-order-space", "diagrams/wick_theorem_process_contractions.cc", ("        if ((sign_order[i] == -1) and (sqops[i].index().space() == s) and\n            (sqops[i].type() == type)) {", "        if ((sign_order[i] == -1) and (sqops[i].type() == type)) {"))
b("C12-eval-nosort", "diagrams/wick_theorem_process_contractions.cc", ("  std::sort(sorted_sqops.begin(), sorted_sqops.end());\n\n  sqops.clear();", "  sqops.clear();"))
b("C12-eval-factor", "diagrams/wick_theorem_process_contractions.cc", ("  for (const auto &op : ops) {\n    factor *= op.factor();\n  }\n", "  for (const auto &op : ops) {\n    if (op.num_ops() > 2)\n      factor *= op.factor();\n  }\n"))
b("C12-eval-comb", "diagrams/wick_theorem_process_contractions.cc", ("  return std::make_pair(term, sign * factor * comb_factor);", "  return std::make_pair(term, contractions.size() > 0 ? sign * factor * comb_factor : factor);"))
b("C26-comb-free", "diagrams/wick_theorem_process_contractions.cc", ("      free_graph_matrix[v] -= graph_matrix;\n", ""))
b("C26-comb-mult", "diagrams/wick_theorem_process_contractions.cc", ("    factor /= factorial(kv.second);", "    factor /= kv.second;"))
b("C26-comb-binom", "diagrams/wick_theorem_process_contractions.cc", ("        factor *= binomial(nann, kann);", "        factor *= binomial(ncre, kann);"))
b("C12-ctsq-order", "diagrams/wick_theorem_process_contractions.cc", ("      for (int a = op.ann(s) - 1; a >= 0; a--) {", "      for (int a = 0; a < op.ann(s); a++) {"))
b("C12-ctsq-key", "diagrams/wick_theorem_process_contractions.cc", ("        auto key = std::make_tuple(o, s, false, a);", "        auto key = std::make_tuple(o, s, false, op.ann(s) - 1 - a);"))
b("C12-ctsq-upper", "diagrams/wick_theorem_process_contractions.cc", ("        Tensor(op.label(), lower, upper, SymmetryType::Antisymmetric));\n  }\n  return make_tuple", "        Tensor(op.label(), upper, lower, SymmetryType::Antisymmetric));\n  }\n  return make_tuple"))
b("C03-evtp-offset", "diagrams/wick_theorem_process_contractions.cc", ("      ops_offset[v].set_cre(s, ops_off + nops);", "      ops_offset[v].set_cre(s, nops);"))
b("C03-evtp-ann", "diagrams/wick_theorem_process_contractions.cc", ("              : std::make_tuple(v, s, false, ops_off + i);", "              : std::make_tuple(v, s, false, i);"))
# ---- api
b("C15-api-rmul", "api/expression_api.cc", ("      .def(\"__neg__\", [](const Expression &rhs) { return -rhs; })", "      .def(\"__neg__\", [](const Expression &rhs) { return rhs; })"))
b("C15-api-opexpr-sub", "api/operator_api.cc", ("             rhs -= lhs;\n             return rhs;", "             rhs += lhs;\n             return rhs;"))
b("C15-api-lt", "api/index_api.cc", ("[](const Index &l, const Index &r) { return l < r; }", "[](const Index &l, const Index &r) { return not(r < l); }"))
b("C15-api-str", "api/tensor_api.cc", ("      .def(\"lower\", &Tensor::lower)", "      .def(\"lower\", &Tensor::upper)"))
b("C15-api-missing", "api/equation_api.cc", ("      .def(\"rhs_factor\", &Equation::rhs_factor)\n", ""))
b("C15-api-type", "api/equation_api.cc", ("const SymbolicTerm &, scalar_t>())", "const SymbolicTerm &, int>())"))
b("C01-api-denominator", "api/rational_api.cc", ("      .def(\"__float__\", &rational::to_double)", "      .def(\"__float__\", [](const rational &r) { return double(float(r.to_double())); })"))
# ---- python
b("C24-strtoexpr", "utils.py", ("        expr += wicked.expression(line)", "        expr = wicked.expression(line)"))
b("C24-strtoexpr-strip", "utils.py", ("    for line in s.split(\"\\n\"):", "    for line in s.split(\"\\n\")[1:]:"))
# b("C24-genop-order", "utils.py", ("            is_le_sorted = all(m[le[i]] <= m[le[i + 1]]", "            is_le_sorted = all(m[le[i]] < m[le[i + 1]]"))
b("C24-genop-sorted", "utils.py", ("m[re[i]] >= m[re[i + 1]] for i in range(len(re) - 1)", "m[re[i]] >= m[re[i + 1]] for i in range(len(re) - 2)"))
b("C24-genop-diag", "utils.py", ("                        if le != re:", "                        if set(le) != set(re):"))
b("C24-genop-unique", "utils.py", ("    return wicked.op(label, terms, unique=False)", "    return wicked.op(label, terms)"))
b("C24-genop-chars", "utils.py", ("    a = [ann_spaces for n in range(rank)]", "    a = [cre_spaces for n in range(rank)]"))
b("C24-einsum-reuse", "utils.py", ("            if index_dict.get(i):\n                indstr += index_dict[i]", "            if index_dict.get(i[0]):\n                indstr += index_dict[i[0]]"))
b("C24-einsum-order", "utils.py", ("        for i in tensor.upper()+tensor.lower():", "        for i in tensor.lower()+tensor.upper():"))
b("C24-einsum-precision", "utils.py", (":+.8f}", ":+.4f}"))
b("C24-einsum-scalar", "utils.py", ("lhs.tensors()[0].upper() != [] or lhs.tensors()[0].lower() != []", "lhs.tensors()[0].upper() != [] and lhs.tensors()[0].lower() != []"))
# -- batch five: written after the checks, without looking at them
b("C08-b5-opprod-parity", "diagrams/operator_product.cc", ("        nperm += elements_[j].num_ops() * elements_[j + 1].num_ops();", "        nperm += elements_[i].num_ops() * elements_[j + 1].num_ops();"))
b("C08-b5-opprod-passes", "diagrams/operator_product.cc", ("  for (int i = 0; i < n - 1; i++) {\n    // Last i elements are already in place\n    for (int j = 0; j < n - i - 1; j++) {\n      if (operator_noncommuting_less", "  for (int i = 0; i < n / 2; i++) {\n    // Last i elements are already in place\n    for (int j = 0; j < n - i - 1; j++) {\n      if (operator_noncommuting_less"))
b("C28-b5-commute-ann", "diagrams/operator.cc", ("    noncommuting += a.ann(s) * b.cre(s) + a.cre(s) * b.ann(s);", "    noncommuting += a.ann(s) * b.cre(s) - a.cre(s) * b.ann(s);"))
b("C28-b5-valid-last", "diagrams/wick_theorem_canonicalize_graph.cc", ("          // this permutation is not valid\n          return std::pair(false, scalar_t(1));", "          // this permutation is not valid\n          if (i == 0)\n            return std::pair(false, scalar_t(1));"))
b("C28-b5-single-only", "diagrams/wick_theorem_canonicalize_graph.cc", ("      if (el_contr.num_ops() == 2) {", "      if (contractions.size() > 1 and el_contr.num_ops() == 2) {"))
b("C28-b5-less-mixed", "diagrams/wick_theorem_canonicalize_graph.cc", ("      if (r_con[r_ops_perm[i]] < l_con[l_ops_perm[i]]) {", "      if (r_con[l_ops_perm[i]] < l_con[l_ops_perm[i]]) {"))
b("C25-b5-contr-order", "diagrams/wick_theorem_canonicalize_graph.cc", ("  for (int c : con_perms[canonical_contr_perm_idx]) {\n    std::vector<GraphMatrix> permuted_contr;\n    for (int o : ops_perms[canonical_ops_perm_idx]) {", "  for (int c : con_perms[canonical_contr_perm_idx]) {\n    std::vector<GraphMatrix> permuted_contr;\n    for (int o : ops_perms[0]) {"))
b("C26-b5-free-before", "diagrams/wick_theorem_process_contractions.cc", ("        const auto &[ncre, nann] = free_graph_matrix[v].elements(s);", "        const auto &[ncre, nann] = ops[v].graph_matrix().elements(s);"))
b("C26-b5-mult-adjacent", "diagrams/wick_theorem_process_contractions.cc", ("  std::map<ElementaryContraction, int> contraction_count;\n  for (const auto &contraction : contractions) {\n    contraction_count[contraction] += 1;\n  }\n  for (const auto &kv : contraction_count) {\n    factor /= factorial(kv.second);\n  }", "  int run = 1;\n  for (int c = 1; c < contractions.size(); c++) {\n    run = contractions[c] == contractions[c - 1] ? run + 1 : 1;\n    factor /= run;\n  }"))
b("C27-b5-lower-order", "diagrams/wick_theorem_process_contractions.cc", ("      // reverse the lower indices\n      std::reverse(lower.begin(), lower.end());", "      // reverse the lower indices\n      if (rank > 4)\n        std::reverse(lower.begin(), lower.end());"))
b("C27-b5-eta-rank", "diagrams/wick_theorem_process_contractions.cc", ("        if (pos_cre_sqops[0] < pos_ann_sqops[0]) {\n          label = \"gamma1\";", "        if (pos_cre_sqops[0] < pos_ann_sqops[0] or sorted_position > 8) {\n          label = \"gamma1\";"))
b("C27-b5-space-last", "diagrams/contraction.cc", ("      if (graph_matrix.ann(s) + graph_matrix.cre(s) > 0) {", "      if (graph_matrix.ann(s) > 0) {"))
b("C12-b5-uncontracted-type", "diagrams/wick_theorem_process_contractions.cc", ("        if ((sign_order[i] == -1) and (sqops[i].index().space() == s) and\n            (sqops[i].type() == type)) {", "        if ((sign_order[i] <= 0) and (sqops[i].index().space() == s) and\n            (sqops[i].type() == type)) {"))
b("C12-b5-map-erase", "diagrams/wick_theorem_process_contractions.cc", ("      pair_contraction_reindex_map[ann_index] = cre_index;", "      pair_contraction_reindex_map.insert({cre_index, ann_index});"))
b("C17-b5-nops-one", "diagrams/wick_theorem_elementary_contractions.cc", ("          nops_contracted += (cre_legs[A] + ann_legs[A] > 0);", "          nops_contracted += (cre_legs[A] > 0) + (ann_legs[A] > 0);"))
b("C17-b5-maxhalf", "diagrams/wick_theorem_elementary_contractions.cc", ("  int max_half_legs = std::min(std::min(sumcre, sumann), maxcumulant_);", "  int max_half_legs = std::min((sumcre + sumann) / 2, maxcumulant_);\n  if (sumcre == 0 or sumann == 0)\n    max_half_legs = 0;\n  else if (nops < 3)\n    max_half_legs = std::min(std::min(sumcre, sumann), maxcumulant_ - 1);"))
b("C17-b5-parts-nops", "diagrams/wick_theorem_elementary_contractions.cc", ("    auto half_legs_part = integer_partitions(half_legs, nops);", "    auto half_legs_part = integer_partitions(half_legs, nops - 1);"))
b("C13-b5-unmake", "diagrams/wick_theorem_composite_contractions.cc", ("  for (const auto &c : candidates) {\n    make_move", "  for (const auto &c : candidates) {\n    if (k > 1 and c == a[k - 2] and el_contr_vec[c].num_ops() > 2)\n      continue;\n    make_move"))
b("C13-b5-prune", "diagrams/wick_theorem_composite_contractions.cc", ("  // build a list of candidate contractions to add to this solution\n  k = k + 1;", "  // nothing is left below the smallest rank\n  if (sum_num_ops(free_graph_matrix_vec) - 2 <= minrank)\n    return;\n  // build a list of candidate contractions to add to this solution\n  k = k + 1;"))
b("C11-b5-clear", "diagrams/wick_theorem.cc", ("  contractions_.clear();", "  if (ops.size() > 1)\n    contractions_.clear();"))
b("C10-b5-factor-twice", "diagrams/wick_theorem_process_contractions.cc", ("          evaluate_contraction(best_ops, best_contractions, factor * sign);\n      timers_", "          evaluate_contraction(best_ops, best_contractions, factor * sign * sign);\n      timers_"))
b("C20-b5-delta-swap", "algebra/symbolic_term_normal_order.cc", ("          auto lower = b.is_creation() ? a.index() : b.index();", "          auto lower = a.index() < b.index() ? a.index() : b.index();"))
b("C20-b5-mixed-valid", "algebra/symbolic_term_normal_order.cc", ("  return a.field_type() == FieldType::Fermion and\n         b.field_type() == FieldType::Fermion;", "  return a.field_type() == FieldType::Fermion or\n         b.field_type() == FieldType::Fermion;"))
b("C20-b5-space-pos", "algebra/symbolic_term_normal_order.cc", ("    if ((a.is_creation() != b.is_creation()) and (a.space() == b.space())) {", "    if ((a.is_creation() != b.is_creation()) and\n        (a.space_type() == b.space_type())) {"))
b("C23-b5-upper-shared", "algebra/symbolic_term.cc", ("        if (index_map.count(u) == 0) {\n          index_map[u] = next_index(u.space(), sqop_index_count);", "        if (index_map.count(u) == 0) {\n          index_map[u] = next_index(u.space(), tens_index_count);"))
b("C23-b5-tens-count", "algebra/symbolic_term.cc", ("    tens_index_count.at(sqop.index().space()) += 1;\n", "    if (is_operator_index.count(sqop.index()) == 0)\n      tens_index_count.at(sqop.index().space()) += 1;\n"))
b("C23-b5-tensor-map", "algebra/tensor.cc", ("  for (Index &idx : lower_) {\n    if (idx_map.count(idx) > 0) {\n      idx = idx_map[idx];\n    }\n  }", "  for (size_t n = 0; n < lower_.size(); ++n) {\n    if (idx_map.count(lower_[n]) > 0) {\n      lower_[n] = idx_map[upper_.size() > n and upper_[n] == lower_[n] ? upper_[n] : lower_[n]];\n    } else if (n > 0 and lower_[n] == lower_[n - 1])\n      lower_[n] = lower_[0];\n  }"))
b("C08-b5-tensor-sign", "algebra/tensor.cc", ("  sign *= canonicalize_indices(lower_indices, false);", "  if (lower_indices != upper_indices)\n    sign *= canonicalize_indices(lower_indices, false);"))
b("C08-b5-boson-sort", "algebra/sqoperator.cc", ("    if (sqop.field_type() == FieldType::Fermion) {\n      perm.push_back(pos);", "    if (sqop.field_type() == sqops[0].field_type()) {\n      perm.push_back(pos);"))
b("C18-b5-used-letter", "algebra/equation.cc", ("        unused_indices.end());\n  }\n  return index_map[s];", "        unused_indices.end());\n  } else if (s.size() == 1)\n    return s;\n  return index_map[s];"))
b("C18-b5-lhs-first", "algebra/equation.cc", ("    for (const auto &l : lhs_tensor.lower()) {\n      lhs_tensor_label += orbital_subspaces->label(l.space());", "    for (const auto &l : lhs_tensor.lower()) {\n      lhs_tensor_label += orbital_subspaces->label(lhs_tensor.lower()[0].space());"))
b("C18-b5-digits", "algebra/equation.cc", ('std::format("{:.9f}"', 'std::format("{:.6f}"'))
b("C19-b5-remove-ops", "algebra/expression.cc", ("        upper.insert(upper.begin(), op.index());", "        upper.push_back(op.index());"))
b("C29-b5-space-el", "diagrams/operator_expression.cc", ("      if (el.size() > 1) {\n        cre[space] += 1;", "      if (el.size() > 1) {\n        cre[space] = 1;"))
b("C29-b5-unique-vec", "diagrams/operator_expression.cc", ("    std::vector<int> cre(orbital_subspaces->num_spaces());\n    std::vector<int> ann(orbital_subspaces->num_spaces());\n\n    for (auto const &el", "    std::vector<int> cre(orbital_subspaces->num_spaces());\n    static std::vector<int> ann;\n    ann.resize(orbital_subspaces->num_spaces());\n\n    for (auto const &el"))
b("C25-b5-comm-sign", "diagrams/operator_expression.cc", ("    comm *= scalar_t(1, k);\n    result += comm;", "    comm *= scalar_t(1, k);\n    if (comm.size() == 0)\n      break;\n    result += (k % 4 == 3) ? comm : comm;\n    if (k > 3)\n      comm *= scalar_t(1, 1 + (k > 4));"))
b("C22-b5-tensor-str", "algebra/tensor.cc", ('  return (label_ + "^{" + join(str_vec_upper, ",") + "}_{" +\n          join(str_vec_lower, ",") + "}");', '  return (label_ + "^{" + join(str_vec_upper, ",") + "}_{" +\n          join(str_vec_lower, str_vec_lower.size() > 9 ? "" : ",") + "}");'))
b("C22-b5-sq-str", "algebra/sqoperator.cc", ('  s += (is_creation() ? "+" : "-");', '  s += (is_quasiparticle_creation() ? "+" : "-");'))
b("C06-b5-gm", "diagrams/graph_matrix.cc", ("    cre_v[s] = ann(s);\n    ann_v[s] = cre(s);", "    cre_v[s] = ann(s);\n    ann_v[s] = cre_v[s] > 0 ? cre(s) : 0;"))
b("C06-b5-product", "helpers/product.hpp", ("    std::reverse(d.begin(), d.end());", "    if (d.size() == 2)\n      std::swap(d[0], d[1]);"))
b("C26-b5-factor-cre", "diagrams/operator.cc", ("    result /= static_cast<scalar_t>(factorial(ann(s)));", "    result /= static_cast<scalar_t>(factorial(std::min(ann(s), cre(s))));"))
b("C04-b5-counter", "algebra/index.cc", ("    counter.at(index.space()) += 1;", "    counter[index.space()] += 1;"))
b("C03-b5-reset", "helpers/orbital_space.cc", ("  indices_to_pos_.clear();\n", "  if (space_info_.size() > 0)\n    indices_to_pos_.clear();\n"))
b("C09-b5-static", "diagrams/wick_theorem_process_contractions.cc", ("  index_counter ic(orbital_subspaces->num_spaces());", "  static index_counter ic(orbital_subspaces->num_spaces());\n  ic = index_counter(orbital_subspaces->num_spaces());"))
b("C16-b5-symmetry", "algebra/tensor.cc", ("  return (symmetry_ == SymmetryType::Antisymmetric) ? sign : scalar_t(1);", "  return (symmetry_ != SymmetryType::Antisymmetric) ? scalar_t(1) : sign == scalar_t(1) ? sign : (upper_ == lower_ ? scalar_t(1) : sign);"))
b("C07-b5-scale", "helpers/algebra.hpp", ("    if (factor == scalar_t(0, 1)) {\n      terms_.clear();", "    if (factor == scalar_t(0, 1)) {\n      if (size() > 1)\n        terms_.clear();"))
b("C14-b5-noexcept", "helpers/orbital_space.cc", ("SpaceType string_to_space_type(const std::string &str) {", "SpaceType string_to_space_type(const std::string &str) noexcept {"))
b("C01-b5-sub", "helpers/rational.cc", ("  numerator_ = rhs.denominator_ * numerator_ - rhs.numerator_ * denominator_;\n  denominator_ = rhs.denominator_ * denominator_;\n  reduce();", "  if (denominator_ == rhs.denominator_) {\n    numerator_ -= rhs.numerator_;\n    return *this;\n  }\n  numerator_ = rhs.denominator_ * numerator_ - rhs.numerator_ * denominator_;\n  denominator_ = rhs.denominator_ * denominator_;\n  reduce();"))
b("C21-b5-part-h", "helpers/combinatorics.cc", ("        if ((m - h) > 1) {\n          x[m - 1] = 1;\n        }", "        if ((m - h) > 2) {\n          x[m - 1] = 1;\n        }"))
b("C21-b5-fact", "helpers/combinatorics.cc", ("  for (long long int i = 2; i <= n; ++i) {\n    result *= i;\n  }", "  for (int i = n; i > 1; i -= 2) {\n    result *= i * (i - 1);\n  }"))
b("C01-b6-todouble", "helpers/rational.cc", ("  return static_cast<double>(numerator()) / static_cast<double>(denominator());", "  return static_cast<double>(static_cast<float>(numerator()) /\n                             static_cast<float>(denominator()));"))
b("C01-b6-reduce-gcd", "helpers/rational.cc", ("  if (gcd > 1) {\n    numerator_ /= gcd;", "  if (gcd > 1 and gcd < 1000000) {\n    numerator_ /= gcd;"))
b("C01-b6-mul-int", "helpers/rational.cc", ("  numerator_ *= rhs.numerator();\n  denominator_ *= rhs.denominator();\n  reduce();\n  return *this;", "  numerator_ *= rhs.numerator();\n  if (rhs.denominator() == 1)\n    return *this;\n  denominator_ *= rhs.denominator();\n  reduce();\n  return *this;"))
b("C02-b6-digits", "helpers/rational.cc", ("  rational_t result = 0;\n  for (char digit : digits) {", "  if (digits.size() < 20)\n    return std::stol(digits);\n  long long int result = 0;\n  for (char digit : digits) {"))
b("C03-b6-early-index", "helpers/orbital_space.cc", ("      new_indices_to_pos[index] = pos;\n", "      new_indices_to_pos[index] = pos;\n      indices_to_pos_[index] = pos;\n"))
b("C04-b6-gm-size", "diagrams/graph_matrix.cc", ("  for (int i = 0; i < orbital_subspaces->num_spaces(); i++) {\n    elements_.at(i) = std::make_pair(cre.at(i), ann.at(i));", "  for (size_t i = 0; i < cre.size(); i++) {\n    elements_[i] = std::make_pair(cre[i], ann[i]);"))
b("C05-b6-symterm-less", "algebra/symbolic_term.cc", ("  if (tensors_ > other.tensors_) {\n    return false;\n  }\n  if (tensors_ < other.tensors_) {\n    return true;\n  }\n  return operators_ < other.operators_;", "  if (operators_.size() != other.operators_.size()) {\n    return operators_.size() < other.operators_.size();\n  }\n  if (tensors_ < other.tensors_) {\n    return true;\n  }\n  return operators_ < other.operators_;"))
b("C06-b6-cc-true", "algebra/tensor.cc", ("  result.is_complex_conjugate_ = not this->is_complex_conjugate_;", "  result.is_complex_conjugate_ = true;"))
b("C06-b6-expr-overwrite", "algebra/expression.cc", ("    expr.add(e.adjoint(), c);", "    expr.terms()[e.adjoint()] = c;"))
b("C07-b6-plus-bigger", "helpers/algebra.hpp", ("    Derived result;\n    for (const auto &[e, c] : terms()) {\n      result.add(e, c);\n    }\n    for (const auto &[e, c] : rhs.terms()) {\n      result.add(e, c);\n    }\n    return result;", "    Derived result;\n    result.terms_ = terms_;\n    result.terms_.insert(rhs.terms_.begin(), rhs.terms_.end());\n    if (result.size() < size() + rhs.size()) {\n      for (const auto &[e, c] : rhs.terms()) {\n        if (terms_.count(e))\n          result.terms_[e] += c;\n      }\n    }\n    return result;"))
b("C07-b6-muleq-empty", "helpers/algebra.hpp", ("    Algebra result;\n    for (const auto &[e, c] : terms()) {\n      for (const auto &[er, cr] : rhs.terms()) {", "    Algebra result;\n    if (rhs.terms().empty())\n      return *this;\n    for (const auto &[e, c] : terms()) {\n      for (const auto &[er, cr] : rhs.terms()) {"))
b("C08-b6-tensor-small", "algebra/tensor.cc", ("  scalar_t sign = 1;\n  auto upper_indices = this->upper();", "  if (upper_.size() + lower_.size() < 4)\n    return scalar_t(1);\n  scalar_t sign = 1;\n  auto upper_indices = this->upper();"))
b("C09-b6-memo", "diagrams/operator.cc", ("  int noncommuting = 0;\n", "  static std::map<std::pair<std::string, std::string>, bool> memo;\n  const auto key = std::make_pair(a.label(), b.label());\n  if (memo.count(key) > 0)\n    return memo[key];\n  int noncommuting = 0;\n"), ("  return noncommuting == 0;", "  return memo[key] = (noncommuting == 0);"), ('#include "operator.h"', '#include <map>\n#include "operator.h"'))
b("C10-b6-rank-cut", "diagrams/wick_theorem.cc", ("    result += contract(factor * f, ops, minrank, maxrank);", "    if (ops.num_ops() <= minrank)\n      continue;\n    result += contract(factor * f, ops, minrank, maxrank);"))
b("C11-b6-mode", "diagrams/wick_theorem.cc", ("  // Step 2. Generate allowed composite contractions\n", "  if (elementary_contractions_.size() < 2)\n    single_threaded_ = true;\n  // Step 2. Generate allowed composite contractions\n"))
b("C12-b6-eta-pos", "diagrams/wick_theorem_process_contractions.cc", ("          unoccupied_sign *= -1; // this factor is to compensate for the fact\n                                 // that we order operator in a canonical form\n", "          unoccupied_sign = -1;  // this factor is to compensate for the fact\n                                 // that we order operator in a canonical form\n"))
b("C12-b6-offset-ann", "diagrams/wick_theorem_process_contractions.cc", ("      ops_offset[v].set_ann(s, ops_off + nops);", "      ops_offset[v].set_ann(s, std::max(ops_off, nops));"))
b("C13-b6-nocanon", "diagrams/wick_theorem_process_contractions.cc", ("    SymbolicTerm &term = term_factor.first;\n    scalar_t canonicalize_factor = term.canonicalize();\n    canonicalize_factor *= term_factor.second;\n    result += {term, canonicalize_factor};\n    // result += ", "    SymbolicTerm &term = term_factor.first;\n    scalar_t canonicalize_factor =\n        contraction_vec.empty() ? scalar_t(1) : term.canonicalize();\n    canonicalize_factor *= term_factor.second;\n    result += {term, canonicalize_factor};\n    // result += "))
b("C14-b6-lhs", "algebra/equation.cc", ("    if (lhs().tensors().empty()) {", "    if (lhs().tensors().empty() and rhs().tensors().empty()) {"))
b("C15-b6-comm-first", "api/operator_api.cc", ("          if (k == 0) {\n            result = object;", "          if (k == 0 or result.size() == 0) {\n            result = object;"))
b("C15-b6-neg-inplace", "api/expression_api.cc", ('      .def("__neg__", [](const Expression &rhs) { return -rhs; })', '      .def("__neg__", [](Expression &rhs) {\n        rhs *= scalar_t(-1);\n        return rhs;\n      })'))
b("C16-b6-mixed", "algebra/sqoperator.cc", ("  if (field_type() == FieldType::Fermion and\n      other.field_type() == FieldType::Fermion) {\n    return -scalar_t(1);", "  if (space_type() != SpaceType::Occupied or\n      field_type() == other.field_type()) {\n    if (field_type() == FieldType::Fermion and\n        (other.field_type() == FieldType::Fermion or\n         other.space_type() == SpaceType::General))\n    return -scalar_t(1);"))
b("C17-b6-two-per-op", "diagrams/wick_theorem_elementary_contractions.cc", ("  int max_half_legs = std::min(std::min(sumcre, sumann), maxcumulant_);", "  int max_half_legs =\n      std::min(std::min(std::min(sumcre, sumann), maxcumulant_), 2 * nops);"))
b("C18-b6-factor-int", "algebra/equation.cc", ('std::format("{:.9f}", rhs_factor().to_double())', '(rhs_factor().denominator() == 1\n                           ? rhs_factor().str()\n                           : std::format("{:.9f}", rhs_factor().to_double()))'))
b("C18-b6-pos-key", "algebra/equation.cc", ("    indices += get_unique_index(l.latex(), index_map, unused_indices);\n  }\n  for (const auto &l : t.lower()) {", "    indices += get_unique_index(l.latex().substr(0, 4), index_map, unused_indices);\n  }\n  for (const auto &l : t.lower()) {"))
b("C19-b6-upper-rev", "algebra/expression.cc", ("        upper.insert(upper.begin(), op.index());", "        upper.insert(lower.empty() ? upper.end() : upper.begin(), op.index());"))
b("C19-b6-zero-skip", "algebra/expression.cc", ("    SymbolicTerm rhs;\n    for (const auto &tensor : term.tensors()) {", "    SymbolicTerm rhs;\n    if (term.tensors().empty())\n      continue;\n    for (const auto &tensor : term.tensors()) {"))
b("C20-b6-adjacent-contr", "algebra/symbolic_term_normal_order.cc", ("        recursive_vacuum_normal_order(removed_term, c, new_terms,\n                                      only_same_index_contractions);", "        if (cont_ops.size() < 2)\n          new_terms.push_back({removed_term, c});\n        else\n          recursive_vacuum_normal_order(removed_term, c * sign * sign, new_terms,\n                                        only_same_index_contractions);\n        if (cont_ops.size() == 1 and not is_same_index)\n          new_terms.back().first.set_normal_ordered(true);"))
b("C20-b6-swap-tensors", "algebra/symbolic_term_normal_order.cc", ("        auto removed_term = SymbolicTerm(false, cont_ops, term.tensors());", "        auto removed_term = SymbolicTerm(false, cont_ops, {});\n        for (const auto &t : term.tensors()) {\n          if (t.label() != \"delta\")\n            removed_term.add(t);\n        }"))
b("C21-b6-binom-double", "helpers/combinatorics.cc", ("    result *= (n - i + 1);\n    result /= i;", "    result = result * (static_cast<double>(n - i + 1) / i);"))
b("C22-b6-brace", "algebra/symbolic_term.cc", ("    if (normal_ordered())\n      str_vec.push_back(\"{\");\n    for (const auto &op : operators_) {\n      str_vec.push_back(op.str());\n    }\n    if (normal_ordered())", "    if (normal_ordered() and nops() > 1)\n      str_vec.push_back(\"{\");\n    for (const auto &op : operators_) {\n      str_vec.push_back(op.str());\n    }\n    if (normal_ordered() and nops() > 1)"))
b("C23-b6-remap-dup", "algebra/index.cc", ("      space_count[space].push_back(last_index + 1);\n", ""))
b("C23-b6-reserve-first", "algebra/symbolic_term.cc", ("    for (const auto &idx : tensor.indices()) {\n      is_reserved.erase(idx);\n    }", "    for (const auto &idx : tensor.lower()) {\n      is_reserved.erase(idx);\n    }"))
b("C24-b6-diag", "utils.py", ("                        if le != re:", "                        if sorted(le) != sorted(re):"))
b("C24-b6-scalar-lhs", "utils.py", ("    if (lhs.tensors()[0].upper() != [] or lhs.tensors()[0].lower() != []):", "    if (lhs.tensors()[0].upper() != [] and lhs.tensors()[0].lower() != []):"))
b("C25-b6-bch-one", "diagrams/operator_expression.cc", ("    comm *= scalar_t(1, k);\n    result += comm;\n    temp = comm;", "    result += comm;\n    comm *= scalar_t(1, k + 1);\n    temp = comm;"))
b("C25-b6-comm-single", "diagrams/operator_expression.cc", ("  return A * B - B * A;", "  if (A.is_equal(B) or A.size() * B.size() == 0)\n    return A;\n  return A * B - B * A;"))
b("C26-b6-count-pair", "diagrams/wick_theorem_process_contractions.cc", ("    contraction_count[contraction] += 1;", "    if (contraction.num_ops() == 2)\n      contraction_count[contraction] += 1;"))
b("C26-b6-sym-same", "diagrams/wick_theorem_process_contractions.cc", ("        factor *= binomial(nann, kann);", "        if (kann != kcre)\n          factor *= binomial(nann, kann);\n        else if (kann > 0)\n          factor *= binomial(nann, kcre) ;\n        if (ncre == nann and kcre == 2 and kann == 1)\n          factor *= 2;"))
b("C27-b6-pairs-once", "diagrams/wick_theorem_elementary_contractions.cc", ("        if (nops_contracted < 2)\n          continue;", "        if (nops_contracted < 2 or nops_contracted > 3)\n          continue;"))
b("C28-b6-cap", "diagrams/wick_theorem_canonicalize_graph.cc", ("    } while (std::next_permutation(ops_perm.begin(), ops_perm.end()));", "    } while (nops < 5 and\n             std::next_permutation(ops_perm.begin(), ops_perm.end()));"))
b("C28-b6-sign-last", "diagrams/wick_theorem_canonicalize_graph.cc", ("        ops_perms_sign.push_back(sign);", "        ops_perms_sign.push_back(sign);\n        if (ops_perms.size() > 6)\n          ops_perms_sign.back() = scalar_t(1);"))
b("C29-b6-op-case", "diagrams/operator_expression.cc", ('R"(([a-zA-Z][+^]?))"', 'R"(([a-z][+^]?))"'))
b("C29-b6-findall-empty", "helpers/helpers.cc", ("      result.push_back(match[k]);", "      if (match[k].length() > 0)\n        result.push_back(match[k]);"))
b("C22-b6-label-num", "algebra/tensor.cc", ('std::regex("([a-zA-Z0-9_]+)\\\\^\\\\{', 'std::regex("([a-zA-Z0-9]+)\\\\^\\\\{'))
# batch 7: changes in the style of optimisations and clean-ups
b("C01-b7-cmp-fast", "helpers/rational.cc", ("  numerator_ *= rhs.numerator();\n  denominator_ *= rhs.denominator();\n  reduce();", "  if (rhs.denominator_ == 1 and denominator_ == 1) {\n    numerator_ *= rhs.numerator_;\n    return *this;\n  }\n  const rational_t g = gcd(numerator_, rhs.denominator_);\n  numerator_ = (numerator_ / g) * rhs.numerator_;\n  denominator_ = denominator_ * (rhs.denominator_ / g);"))
b("C01-b7-plus-int", "helpers/rational.cc", ("  numerator_ = rhs.denominator_ * numerator_ + rhs.numerator_ * denominator_;\n  denominator_ = rhs.denominator_ * denominator_;\n  reduce();", "  if (rhs.denominator_ == denominator_) {\n    numerator_ += rhs.numerator_;\n    if (denominator_ != 1 and numerator_ % denominator_ == 0) {\n      numerator_ /= denominator_;\n      denominator_ = 1;\n    }\n    return *this;\n  }\n  numerator_ = rhs.denominator_ * numerator_ + rhs.numerator_ * denominator_;\n  denominator_ = rhs.denominator_ * denominator_;\n  reduce();"))
b("C03-b7-move-check", "helpers/orbital_space.cc", ("    } else {\n      new_indices_to_pos[index] = pos;\n    }\n  }\n  std::vector<int> elementary_spaces_int;", "    } else {\n      new_indices_to_pos[index] = pos;\n    }\n  }\n  if (elementary_spaces.empty()) {\n    label_to_pos_[label] = pos;\n    space_info_.push_back(\n        OrbitalSpace(label, field_type, space_type, indices, {}));\n    return;\n  }\n  std::vector<int> elementary_spaces_int;"))
b("C03-b7-composite", "helpers/orbital_space.cc", ("    elementary_spaces_int.push_back(e == label ? pos : label_to_space(e));", "    const int es = e == label ? pos : label_to_space(e);\n    if (es < pos and not space_info_[es].elementary_spaces().empty()) {\n      for (int ee : space_info_[es].elementary_spaces())\n        elementary_spaces_int.push_back(ee);\n    } else {\n      elementary_spaces_int.push_back(es);\n    }"))
b("C05-b7-sq-space", "algebra/sqoperator.cc", ("  if (is_creation()) {\n    return index() < other.index();\n  }\n  return other.index() < index();\n}\n\nbool SQOperator::normal", "  if (is_creation()) {\n    return index() < other.index();\n  }\n  if (space() != other.space())\n    return other.space() < space();\n  return index().pos() <= other.index().pos() and not(index() == other.index());\n}\n\nbool SQOperator::normal"))
b("C05-b7-tensor-rank", "algebra/tensor.cc", ("  // Compare the lower indices\n  if (lower_ < other.lower_)", "  // cheap test first\n  if (rank() != other.rank())\n    return lower_.size() < other.lower_.size();\n  // Compare the lower indices\n  if (lower_ < other.lower_)"))
b("C05-b7-graph-less-contr", "diagrams/wick_theorem_canonicalize_graph.cc", ("      if (l_con[l_ops_perm[i]] < r_con[r_ops_perm[i]]) {\n        return false;\n      }\n      if (r_con[r_ops_perm[i]] < l_con[l_ops_perm[i]]) {\n        return true;\n      }\n    }\n  }\n  return false;", "      if (l_con[l_ops_perm[i]] != r_con[r_ops_perm[i]]) {\n        return r_con[r_ops_perm[i]].num_ops() <= l_con[l_ops_perm[i]].num_ops();\n      }\n    }\n  }\n  return false;"))
b("C06-b7-term-adj", "algebra/symbolic_term.cc", ("  for (const auto &tensor : tensors_) {\n    result.add(tensor.adjoint());\n  }\n  result.add(operators_.adjoint());", "  for (const auto &tensor : tensors_) {\n    // deltas are real\n    result.add(tensor.label() == \"delta\" ? tensor : tensor.adjoint());\n  }\n  result.add(operators_.adjoint());"))
b("C06-b7-adj-sorted", "helpers/product.hpp", ("    std::reverse(d.begin(), d.end());", "    if (d.size() != 2 or not(elements()[0] == elements()[1]))\n      std::rotate(d.begin(), d.begin() + d.size() / 2, d.end());"))
b("C07-b7-mul-scalar", "helpers/algebra.hpp", ("    for (auto &[e, c] : terms()) {\n      c *= factor;\n    }\n    return *this;", "    if (not(factor == scalar_t(1, 1)) and not terms_.empty()) {\n      const F first = terms_.begin()->second;\n      for (auto &[e, c] : terms()) {\n        c = (c == first) ? first * factor : c * first;\n      }\n    }\n    return *this;"))
b("C07-b7-dot-smaller", "helpers/algebra.hpp", ("    F result{0};\n    for (const auto &[e, c] : terms()) {", "    F result{0};\n    if (rhs.size() < size()) {\n      for (const auto &[e, c] : rhs.terms()) {\n        auto search = terms().lower_bound(e);\n        if (search != terms().end())\n          result += c * search->second;\n      }\n      return result;\n    }\n    for (const auto &[e, c] : terms()) {"))
b("C07-b7-muleq-single", "helpers/algebra.hpp", ("    Algebra result;\n    for (const auto &[e, c] : terms()) {\n      for (const auto &[er, cr] : rhs.terms()) {\n        result.add(e * er, c * cr);", "    Algebra result;\n    for (const auto &[e, c] : terms()) {\n      for (const auto &[er, cr] : rhs.terms()) {\n        const auto p = e * er;\n        if (result.contains(p)) {\n          result.terms_[p] += c * cr;\n          continue;\n        }\n        result.add(p, c * cr);"))
b("C08-b7-sorted-fast", "algebra/index.cc", ("  std::vector<std::pair<Index, int>> idx_pos;\n", "  if (std::is_sorted(indices.begin(), indices.end()))\n    return scalar_t(1);\n  std::vector<std::pair<Index, int>> idx_pos;\n"))
b("C08-b7-two-swap", "algebra/index.cc", ("  std::vector<std::pair<Index, int>> idx_pos;\n", "  if (indices.size() == 2) {\n    if (reversed ? indices[0] < indices[1] : indices[1] < indices[0])\n      std::swap(indices[0], indices[1]);\n    return scalar_t(reversed ? 1 : -1);\n  }\n  std::vector<std::pair<Index, int>> idx_pos;\n"))
b("C08-b7-opprod-even", "diagrams/operator_product.cc", ("        nperm += elements_[j].num_ops() * elements_[j + 1].num_ops();", "        // operators with the same number of legs are exchanged in pairs\n        if (elements_[j].num_ops() != elements_[j + 1].num_ops())\n          nperm += elements_[j].num_ops() * elements_[j + 1].num_ops();"))
b("C09-b7-shared-result", "diagrams/wick_theorem_process_contractions.cc", ("  Expression result;\n\n  // Use std::accumulate to sum all the results\n  for (auto &fut : futures) {\n    result += fut.get(); // Get the result from the future and add to the result\n  }", "  for (auto &fut : futures) {\n    fut.get();\n  }"), ("  std::vector<std::future<Expression>> futures;\n", "  std::vector<std::future<void>> futures;\n  Expression result;\n"), ("        std::async(std::launch::async, [this, &ops, &contraction_vec, factor,\n                                        minrank, maxrank, ops_rank] {\n          return process_single_contraction(ops, contraction_vec, minrank,\n                                            maxrank, factor, ops_rank);", "        std::async(std::launch::async, [this, &ops, &contraction_vec, factor,\n                                        minrank, maxrank, ops_rank, &result] {\n          result += process_single_contraction(ops, contraction_vec, minrank,\n                                            maxrank, factor, ops_rank);"))
b("C09-b7-partial-lock", "diagrams/wick_theorem_process_contractions.cc", ("    {\n      std::lock_guard<std::mutex> lock(timers_mutex);\n      timers_[\"evaluate_contraction\"] += te.get();\n    }", "    {\n      std::mutex m;\n      std::lock_guard<std::mutex> lock(m);\n      timers_[\"evaluate_contraction\"] += te.get();\n    }"))
b("C10-b7-chunk", "diagrams/wick_theorem_process_contractions.cc", ("  for (auto &fut : futures) {\n    result += fut.get(); // Get the result from the future and add to the result\n  }", "  std::vector<Expression> partial;\n  for (auto &fut : futures) {\n    partial.push_back(fut.get());\n  }\n  // pairwise summation\n  while (partial.size() > 1) {\n    std::vector<Expression> next;\n    for (size_t i = 0; i + 1 < partial.size(); i += 2) {\n      next.push_back(partial[i] + partial[i + 1]);\n    }\n    partial = next;\n  }\n  if (not partial.empty())\n    result = partial[0];"))
b("C10-b7-graph-off", "diagrams/wick_theorem_process_contractions.cc", ("  if ((term_rank >= minrank) and (term_rank <= maxrank)) {\n\n    CompositeContraction contraction;", "  if ((term_rank >= minrank) and (term_rank <= maxrank) and not contraction_vec.empty()) {\n\n    CompositeContraction contraction;"))
b("C11-b7-reuse-elem", "diagrams/wick_theorem.cc", ("  elementary_contractions_.clear();\n", ""), ("  elementary_contractions_ = generate_elementary_contractions(ops);", "  if (elementary_contractions_.empty() or\n      elementary_contractions_[0].size() != ops.size())\n    elementary_contractions_ = generate_elementary_contractions(ops);"))
b("C12-b7-max-neg", "diagrams/wick_theorem_composite_contractions.cc", ("  if ((num_ops >= minrank) and (num_ops <= maxrank)) {", "  if ((num_ops >= minrank) and (num_ops <= std::max(maxrank, k == 0 ? minrank : 0))) {"))
b("C12-b7-prune", "diagrams/wick_theorem_composite_contractions.cc", ("  k = k + 1;\n  std::vector<int> candidates", "  if (sum_num_ops(free_graph_matrix_vec) <= minrank)\n    return;\n  k = k + 1;\n  std::vector<int> candidates"))
b("C12-b7-prune-bad", "diagrams/wick_theorem_composite_contractions.cc", ("  k = k + 1;\n  std::vector<int> candidates", "  if (sum_num_ops(free_graph_matrix_vec) < minrank + 4)\n    return;\n  k = k + 1;\n  std::vector<int> candidates"))
b("C13-b7-break", "diagrams/wick_theorem_composite_contractions.cc", ("    if (is_valid_contraction) {\n      candidates.push_back(c);\n    }", "    if (is_valid_contraction) {\n      candidates.push_back(c);\n    } else if (c == minc and k > 1) {\n      break;\n    }"))
b("C13-b7-a-len", "diagrams/wick_theorem_composite_contractions.cc", ("    contractions_.push_back(std::vector<int>(a.begin(), a.begin() + k));", "    auto c = std::vector<int>(a.begin(), a.begin() + k);\n    c.erase(std::unique(c.begin(), c.end()), c.end());\n    contractions_.push_back(c);"))
b("C14-b7-catch", "diagrams/wick_theorem_process_contractions.cc", ("    result += fut.get(); // Get the result from the future and add to the result", "    try {\n      result += fut.get();\n    } catch (const std::out_of_range &) {\n      continue;\n    }"))
b("C14-b7-rat-default", "helpers/rational.cc", ("    throw std::runtime_error(\"rational: the denominator cannot be zero\");", "    numerator_ = 0;\n    denominator_ = 1;\n    if (numerator != 0)\n      throw std::runtime_error(\"rational: the denominator cannot be zero\");\n    return;"))
b("C16-b7-sym-table", "algebra/tensor.cc", ("  return (symmetry_ == SymmetryType::Antisymmetric) ? sign : scalar_t(1);", "  return (symmetry_ == SymmetryType::Symmetric and rank() > 2) ? scalar_t(1) : sign;"))
b("C17-b7-gen-same", "diagrams/wick_theorem_elementary_contractions.cc", ("          nops_contracted += (cre_legs[A] + ann_legs[A] > 0);", "          nops_contracted += (cre_legs[A] > 0) + (ann_legs[A] > 0);"))
b("C17-b7-occ-break", "diagrams/wick_theorem_elementary_contractions.cc", ("      if (ops[l].cre(s) * ops[r].ann(s) > 0) { // is contraction viable?", "      if (ops[l].cre(s) == 0)\n        continue;\n      if (ops[r].ann(s) > 0 and ops[r].cre(s) <= ops[l].cre(s)) { // is contraction viable?"))
b("C18-b7-letter-front", "algebra/equation.cc", ("        // if it is used, grab the first available index\n        index_map[s] = unused_indices.back();", "        // if it is used, grab the first available index\n        index_map[s] = unused_indices.size() > 26 ? unused_indices.back() : s;"))
b("C18-b7-clear-lhs", "algebra/equation.cc", ("    std::vector<std::string> args_vec;\n", "    if (rhs().tensors().size() > 4)\n      index_map.clear();\n    std::vector<std::string> args_vec;\n"))
b("C19-b7-merge", "algebra/expression.cc", ("    result[signature_str].push_back(Equation(lhs, rhs, factor));", "    auto &eqs = result[signature_str];\n    if (not eqs.empty() and eqs.back().rhs() == rhs) {\n      eqs.back() = Equation(lhs, rhs, eqs.back().rhs_factor() + factor);\n    } else {\n      eqs.push_back(Equation(lhs, rhs, factor));\n    }"))
b("C20-b7-zero-exit", "algebra/symbolic_term_normal_order.cc", ("  if (not valid)\n    return;", "  if (not valid and term.tensors().empty())\n    return;"))
b("C20-b7-hard-delta", "algebra/symbolic_term_normal_order.cc", ("        if (not is_same_index) {\n", "        if (not is_same_index and a.index().pos() != b.index().pos()) {\n"))
b("C21-b7-binom-sym", "helpers/combinatorics.cc", ("  if (k * 2 > n)\n    k = n - k;", "  if (k * 2 > n)\n    k = (n - k) > 0 ? n - k : 1;"))
b("C21-b7-fact-table", "helpers/combinatorics.cc", ("  long long int result = 1;\n  for (long long int i = 2; i <= n; ++i) {", "  static const int small[] = {1, 1, 2, 6, 24, 120, 720, 5040, 40230};\n  if (n >= 0 and n < 9)\n    return small[n];\n  long long int result = 1;\n  for (long long int i = 2; i <= n; ++i) {"))
b("C22-b7-rat-space", "helpers/rational.cc", ("      s += boost::lexical_cast<std::string>(numerator_) + \"/\" +\n           boost::lexical_cast<std::string>(denominator_);\n#else\n      s += std::to", "      s += boost::lexical_cast<std::string>(numerator_) + \" / \" +\n           boost::lexical_cast<std::string>(denominator_);\n#else\n      s += std::to"))
b("C23-b7-remap-last", "algebra/index.cc", ("      int last_index = space_count[space].back();", "      int last_index = space_count[space].size() - 1;"))
b("C23-b7-reindex-once", "algebra/symbolic_term.cc", ("  for (auto &t : tensors_) {\n    t.reindex(idx_map);\n  }\n  for (auto &op : operators_) {\n    op.reindex(idx_map);\n  }", "  if (idx_map.empty())\n    return;\n  for (auto &t : tensors_) {\n    t.reindex(idx_map);\n    for (auto &op : operators_)\n      op.reindex(idx_map);\n  }"))
b("C25-b7-bch-zero", "diagrams/operator_expression.cc", ("    result += comm;\n    temp = comm;", "    result += comm;\n    if (comm.size() == temp.size() and k > 1)\n      break;\n    temp = comm;"))
b("C25-b7-comm-diag", "diagrams/operator_expression.cc", ("  return A * B - B * A;", "  OperatorExpression result;\n  for (const auto &[a, ca] : A.terms()) {\n    for (const auto &[b, cb] : B.terms()) {\n      if (a == b)\n        continue;\n      result.add(a * b, ca * cb);\n      result.add(b * a, -cb);\n    }\n  }\n  return result;"))
b("C26-b7-skip-zero", "diagrams/wick_theorem_process_contractions.cc", ("      free_graph_matrix[v] -= graph_matrix;\n", "      if (contraction.num_ops() == 2)\n        free_graph_matrix[v] -= graph_matrix;\n"))
b("C26-b7-count-key", "diagrams/wick_theorem_process_contractions.cc", ("  std::map<ElementaryContraction, int> contraction_count;\n  for (const auto &contraction : contractions) {\n    contraction_count[contraction] += 1;\n  }", "  std::map<int, int> contraction_count;\n  for (const auto &contraction : contractions) {\n    contraction_count[contraction.num_ops()] += 1;\n  }"))
b("C27-b7-chain", "diagrams/wick_theorem_process_contractions.cc", ("      pair_contraction_reindex_map[ann_index] = cre_index;", "      pair_contraction_reindex_map[std::max(ann_index, cre_index)] =\n          std::min(ann_index, cre_index);"))
b("C27-b7-label-cmp", "diagrams/wick_theorem_process_contractions.cc", ("        if (pos_cre_sqops[0] < pos_ann_sqops[0]) {", "        if (upper[0] < lower[0]) {"))
b("C28-b7-pair-only", "diagrams/wick_theorem_canonicalize_graph.cc", ("  for (int i = 0; i < nops; i++) {\n    for (int j = 0; j < nops; j++) {\n      // check", "  for (int i = 0; i < nops; i++) {\n    for (int j = 0; j < i; j++) {\n      // check"))
b("C28-b7-sign-start", "diagrams/wick_theorem_canonicalize_graph.cc", ("  const auto [canonical_ops_perm_idx, canonical_contr_perm_idx] = graphs[0];", "  auto best = graphs[0];\n  for (const auto &g : graphs) {\n    if (not graph_less(best, g, ops_perms, con_perms, ops, contractions) and\n        ops_perms_sign[g.first] == scalar_t(1)) {\n      best.second = g.second;\n      break;\n    }\n  }\n  const auto [canonical_ops_perm_idx, canonical_contr_perm_idx] = best;"))
b("C29-b7-comp-plus", "diagrams/operator_expression.cc", ("      if (el.size() > 1) {\n        cre[space] += 1;\n      } else {\n        ann[space] += 1;\n      }", "      if (el.size() > 1 and el[1] == '+') {\n        cre[space] += 1;\n      } else {\n        ann[space] += 1;\n      }"))
b("C29-b7-unique-label", "diagrams/operator_expression.cc", ("    if (unique and result.contains({op})) {", "    if (unique and (result.contains({op}) or result.contains({op.adjoint()}))) {"))
b("C29-b7-idx-start", "algebra/expression.cc", ("    std::vector<int> cre_count(orbital_subspaces->num_spaces(), 0);\n    std::vector<int> ann_count", "    static std::vector<int> cre_count;\n    cre_count.resize(orbital_subspaces->num_spaces(), 0);\n    std::vector<int> ann_count"))
b("C15-b7-alias", "helpers/algebra.hpp", ("  Algebra &operator+=(const Algebra &rhs) {\n    for (const auto &[e, c] : rhs.terms()) {\n      add(e, c);", "  Algebra &operator+=(const Algebra &rhs) {\n    if (terms_.empty()) {\n      terms_.swap(const_cast<Algebra &>(rhs).terms_);\n      return *this;\n    }\n    for (const auto &[e, c] : rhs.terms()) {\n      add(e, c);"))

# batch b8
b("C17-b8-occ-viable", "diagrams/wick_theorem_elementary_contractions.cc", ("      if (ops[l].cre(s) * ops[r].ann(s) > 0) { // is contraction viable?", "      if (ops[l].cre(s) * ops[r].ann(s) > 0 and\n          not(ops[l].ann(s) > 1 and ops[r].cre(s) > 1)) {"))
b("C17-b8-maxhalf", "diagrams/wick_theorem_elementary_contractions.cc", ("  for (int half_legs = 1; half_legs <= max_half_legs; half_legs++) {", "  for (int half_legs = 1; half_legs <= max_half_legs; half_legs++) {\n    if (half_legs > nops and half_legs % 2 == 1)\n      continue;"))
b("C17-b8-dedupe", "diagrams/wick_theorem_elementary_contractions.cc", ("        for (int A = 0; A < nops; A++) {\n          nops_contracted += (cre_legs[A] + ann_legs[A] > 0);\n        }", "        for (int A = 0; A < nops; A++) {\n          nops_contracted += (cre_legs[A] + ann_legs[A] > 0);\n          if (cre_legs[A] > 1 and cre_legs[A] == ann_legs[A] and half_legs > 2)\n            nops_contracted -= 1;\n        }"))
b("C17-b8-sum", "diagrams/wick_theorem_elementary_contractions.cc", ("    sumcre += ops[A].cre(s);\n    sumann += ops[A].ann(s);", "    sumcre += std::min(ops[A].cre(s), maxcumulant_);\n    sumann += ops[A].ann(s);"))
b("C17-b8-part-len", "diagrams/wick_theorem_elementary_contractions.cc", ("    for (const auto part : half_legs_part) {", "    for (const auto part : half_legs_part) {\n      if (part.size() > 3 and part.back() == part.front())\n        continue;"))
b("C08-b8-term-score", "algebra/symbolic_term.cc", ("    factor *= tensor.canonicalize();\n  }", "    const scalar_t sign = tensor.canonicalize();\n    if (tensor.lower().size() + tensor.upper().size() > 2 or factor == scalar_t(1))\n      factor *= sign;\n  }"))
b("C23-b8-operator-only", "algebra/symbolic_term.cc", ("    while (is_reserved.count(Index(s, count[s])) > 0) {", "    if (is_reserved.count(Index(s, count[s])) > 0) {"))
b("C23-b8-count-order", "algebra/symbolic_term.cc", ("        if (index_map.count(u) == 0) {\n          index_map[u] = next_index(u.space(), sqop_index_count);\n        }", "        if (index_map.count(u) == 0) {\n          index_map[u] = next_index(u.space(), tensor.upper().size() > 2 ? tens_index_count : sqop_index_count);\n        }"))
b("C23-b8-free-ops", "algebra/symbolic_term.cc", ("  for (const auto &sqop : operators_) {\n    tens_index_count.at(sqop.index().space()) += 1;", "  for (const auto &sqop : operators_) {\n    if (is_operator_index.count(sqop.index()) == 0 or sqop.is_creation())\n      tens_index_count.at(sqop.index().space()) += 1;"))
b("C06-b8-term-no", "algebra/symbolic_term.cc", ("  result.set_normal_ordered(normal_ordered_);\n  for", "  result.set_normal_ordered(normal_ordered_ and operators_.size() > 1);\n  for"))
b("C07-b8-term-mul-self", "algebra/symbolic_term.cc", ("  for (const auto &tensor : rhs.tensors_) {\n    add(tensor);\n  }\n  operators_ = ops;", "  if (&rhs != this or operators_.size() > 0) {\n    for (const auto &tensor : rhs.tensors_) {\n      add(tensor);\n    }\n  }\n  operators_ = ops;"))
b("C20-b8-op-prod", "algebra/symbolic_term.cc", ("  for (const auto &op : rhs.ops()) {\n    result.push_back(op);\n  }", "  for (const auto &op : rhs.ops()) {\n    if (result.size() > 0 and result.elements().back() == op and op.is_creation())\n      continue;\n    result.push_back(op);\n  }"))
b("C19-b8-rhs-dup", "algebra/expression.cc", ("    for (const auto &tensor : term.tensors()) {\n      rhs.add(tensor);\n    }\n    result[signature_str]", "    for (const auto &tensor : term.tensors()) {\n      if (rhs.tensors().empty() or not(tensor == rhs.tensors().back()))\n        rhs.add(tensor);\n    }\n    result[signature_str]"))
b("C19-b8-sig", "algebra/expression.cc", ("      signature_str_lower += std::string(l, orbital_subspaces->label(pos));", "      signature_str_lower += std::string(l > 2 ? 2 : l, orbital_subspaces->label(pos));"))
b("C19-b8-upper-order", "algebra/expression.cc", ("        upper.insert(upper.begin(), op.index());", "        upper.insert(lower.empty() ? upper.end() : upper.begin(), op.index());"))
b("C19-b8-zero-rank", "algebra/expression.cc", ("    result[signature_str].push_back(Equation(lhs, rhs, factor));", "    if (term.ops().size() == 0 and rhs.tensors().empty())\n      continue;\n    result[signature_str].push_back(Equation(lhs, rhs, factor));"))
b("C22-b8-scalar-plus", "algebra/expression.cc", ("      if ((factor_str != \"\") and (factor_str != \"-\") and (factor_str != \"+\")) {", "      if ((factor_str != \"\") and (factor_str.back() != '-') and (factor_str.back() != '1')) {"))
b("C22-b8-sep", "algebra/expression.cc", ("  return join(str_vec, \"\\n\");\n}\n\nstd::string Expression::latex", "  return join(str_vec, str_vec.size() > 2 ? \"\\n\" : \" \");\n}\n\nstd::string Expression::latex"))
b("C07-b8-canon-merge", "algebra/expression.cc", ("    scalar_t factor = term.canonicalize();\n    factor *= v;\n    add_to_map(canonical_terms, term, factor);", "    scalar_t factor = term.canonicalize();\n    factor *= v;\n    if (term == k and canonical_terms.count(term) == 0)\n      canonical_terms.emplace(term, factor);\n    else if (canonical_terms.count(term) > 0)\n      canonical_terms[term] += factor;\n    else\n      add_to_map(canonical_terms, term, factor);"))
b("C07-b8-reindex-merge", "algebra/expression.cc", ("    add_to_map(reindexed_terms, term, kv.second);", "    if (term.tensors().size() > 0 or reindexed_terms.count(term) == 0)\n      add_to_map(reindexed_terms, term, kv.second);"))
b("C18-b8-used", "algebra/equation.cc", ("        // if this character is unused, use it\n        index_map[s] = s;", "        // if this character is unused, use it\n        index_map[s] = s;\n        return s;"))
b("C18-b8-erase", "algebra/equation.cc", ("    unused_indices.erase(\n        std::remove(unused_indices.begin(), unused_indices.end(), index_map[s]),\n        unused_indices.end());", "    if (index_map[s] == unused_indices.back())\n      unused_indices.pop_back();\n    else\n      unused_indices.erase(unused_indices.begin() + (s[0] % unused_indices.size()));"))
b("C18-b8-order", "algebra/equation.cc", ("  for (const auto &l : t.upper()) {\n    indices += get_unique_index(l.latex(), index_map, unused_indices);\n  }\n  for (const auto &l : t.lower()) {", "  for (const auto &l : t.upper()) {\n    indices += get_unique_index(l.latex(), index_map, unused_indices);\n  }\n  if (t.lower() == t.upper())\n    return indices + indices;\n  for (const auto &l : t.lower()) {"))
b("C18-b8-arg-label", "algebra/equation.cc", ("      std::string t_label = t.label() + \"[\\\"\";\n      for (const auto &l : t.upper()) {", "      std::string t_label = t.label() + \"[\\\"\";\n      if (t.upper().empty() and t.lower().size() > 1) {\n        args_vec.push_back(t.label());\n        continue;\n      }\n      for (const auto &l : t.upper()) {"))
b("C02-b8-eq-factor", "algebra/equation.cc", ("  expr.add(rhs(), rhs_factor());", "  expr.add(rhs(), rhs_factor().denominator() > 1000 ? scalar_t(1, 1000) : rhs_factor());"))
b("C29-b8-ann-order", "algebra/expression.cc", ("        ann_count[space] -= 1;\n        auto idx = Index(space, ann_count[space]);\n        ann.push_back(idx);", "        ann_count[space] -= 1;\n        auto idx = Index(space, ann_count[space]);\n        if (not ann.empty() and ann.back().space() == space)\n          ann.insert(ann.begin(), idx);\n        else\n          ann.push_back(idx);"))
b("C29-b8-count", "algebra/expression.cc", ("      int space = orbital_subspaces->label_to_space(s[0]);\n      ann_count[space] += 1;", "      int space = orbital_subspaces->label_to_space(s[0]);\n      if (s.size() == 1 or ann_count[space] == 0)\n        ann_count[space] += 1;"))
