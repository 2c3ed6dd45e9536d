"""A second batch of hand-written edits that keep the behaviour (written without looking at the rules). Development tool."""
R = []
def r(name, file, *edits): R.append((name, file, list(edits)))
H = "helpers/"; A = "algebra/"; D = "diagrams/"
# ---- rational
r("r2-add-helper", H + "rational.cc",
  ("rational &rational::operator+=(const rational &rhs) {\n  numerator_ = rhs.denominator_ * numerator_ + rhs.numerator_ * denominator_;\n  denominator_ = rhs.denominator_ * denominator_;\n  reduce();\n  return *this;\n}",
   "namespace {\nrational_t cross_sum(const rational_t &a, const rational_t &b, const rational_t &c,\n                     const rational_t &d) {\n  return a * b + c * d;\n}\n} // namespace\n\nrational &rational::operator+=(const rational &rhs) {\n  numerator_ = cross_sum(numerator_, rhs.denominator_, denominator_, rhs.numerator_);\n  denominator_ *= rhs.denominator_;\n  reduce();\n  return *this;\n}"))
r("r2-sub-via-add", H + "rational.cc",
  ("  numerator_ = rhs.denominator_ * numerator_ - rhs.numerator_ * denominator_;\n  denominator_ = rhs.denominator_ * denominator_;\n  reduce();\n  return *this;", "  return *this += -rhs;"))
r("r2-str-nested", H + "rational.cc",
  ("    if (denominator_ == 1) {\n      if (numerator_ == -1) {\n        s += \"-\";\n      } else {\n        if (numerator_ != 1) {\n#if USE", "    const bool is_integer = (denominator_ == 1);\n    if (is_integer) {\n      if (numerator_ == -1) {\n        s += \"-\";\n      } else {\n        if (not(numerator_ == 1)) {\n#if USE"))
r("r2-reduce-guard", H + "rational.cc",
  ("  if (gcd > 1) {\n    numerator_ /= gcd;\n    denominator_ /= gcd;\n  }\n", "  if (gcd <= 1)\n    return;\n  numerator_ = numerator_ / gcd;\n  denominator_ = denominator_ / gcd;\n"))
r("r2-mul-friend", H + "rational.cc",
  ("  numerator_ *= rhs.numerator();\n  denominator_ *= rhs.denominator();\n  reduce();\n  return *this;", "  *this = rational(numerator_ * rhs.numerator_, denominator_ * rhs.denominator_);\n  return *this;"))
r("r2-eq-direct", H + "rational.cc",
  ("  if ((lhs.numerator() == 0) and (rhs.numerator() == 0))\n    return true;\n  return", "  return"))
r("r2-neq", H + "rational.cc", ("  return (not(lhs == rhs));", "  if (lhs == rhs) {\n    return false;\n  }\n  return true;"))
r("r2-parse-sign-ternary", H + "rational.cc",
  ("  rational_t numerator = 1, denominator = 1;\n  if (sign == \"-\") {\n    numerator *= -1;\n  }\n", "  rational_t numerator = (sign == \"-\") ? -1 : 1;\n  rational_t denominator = 1;\n"))
r("r2-parse-have", H + "rational.cc",
  ("  if (division.size() != 0) {\n    // make sure there is a numerator\n    if ((numerator_str.size() == 0) or (denominator_str.size() == 0))\n      throw", "  const bool has_division = not division.empty();\n  const bool complete = not numerator_str.empty() and not denominator_str.empty();\n  if (has_division and not complete) {\n      throw"))
r("r2-digits-index", H + "rational.cc",
  ("  for (char digit : digits) {\n    result = result * 10 + (digit - '0');\n  }", "  for (size_t i = 0; i < digits.size(); ++i) {\n    result *= 10;\n    result += digits[i] - '0';\n  }"))
# ---- combinatorics
r("r2-binomial-min", H + "combinatorics.cc",
  ("  if (k * 2 > n)\n    k = n - k;\n  if (k == 0)\n    return 1;\n", "  k = (2 * k > n) ? n - k : k;\n  if (not k)\n    return 1;\n"))
r("r2-binomial-oneline", H + "combinatorics.cc",
  ("    result *= (n - i + 1);\n    result /= i;\n", "    result = result * (n + 1 - i) / i;\n"))
r("r2-perm-sign-count", H + "combinatorics.cc",
  ("  int sign = 0;\n  int n = vec.size();\n  for (int i = 0; i < n; i++) {\n    for (int j = i + 1; j < n; ++j) {\n      if (vec[i] > vec[j]) {\n        sign += 1;\n      }\n    }\n  }\n  return (sign % 2 == 0) ? 1 : -1;",
   "  int inversions = 0;\n  for (auto left = vec.begin(); left != vec.end(); ++left) {\n    for (auto right = left + 1; right != vec.end(); ++right) {\n      inversions += (*right < *left);\n    }\n  }\n  return (inversions & 1) ? -1 : 1;"))
r("r2-perm-sign-product", H + "combinatorics.cc",
  ("  int sign = 0;\n  int n", "  int sign = 1;\n  int n"), ("        sign += 1;\n", "        sign = -sign;\n"), ("  return (sign % 2 == 0) ? 1 : -1;", "  return sign;"))
r("r2-partitions-lambda", H + "combinatorics.cc",
  ("    std::vector<int> x(n + 1, 1);\n", "    std::vector<int> x(n + 1, 1);\n    auto store = [&](int len) {\n      if (len <= maxlen) {\n        partitions.push_back(std::vector<int>(x.begin() + 1, x.begin() + len + 1));\n      }\n    };\n"),
  ("    if (n <= maxlen) {\n      partitions.push_back(std::vector<int>(x.begin() + 1, x.begin() + n + 1));\n    }\n", "    store(n);\n"),
  ("    int m = n - 1;\n    if (m <= maxlen) {\n      partitions.push_back(std::vector<int>(x.begin() + 1, x.begin() + m + 1));\n    }\n", "    int m = n - 1;\n    store(m);\n"),
  ("      if (m <= maxlen) {\n        partitions.push_back(\n            std::vector<int>(x.begin() + 1, x.begin() + m + 1));\n      }\n", "      store(m);\n"))
# ---- algebra / product / helpers
r("r2-dot-if-init", H + "algebra.hpp",
  ("      auto search = rhs.terms().find(e);\n      if (search != rhs.terms().end()) {\n        result += c * search->second;\n      }", "      if (const auto it = rhs.terms().find(e); it != rhs.terms().end()) {\n        const auto &[other_e, other_c] = *it;\n        result += c * other_c;\n      }"))
r("r2-dot-continue", H + "algebra.hpp",
  ("      auto search = rhs.terms().find(e);\n      if (search != rhs.terms().end()) {\n        result += c * search->second;\n      }", "      if (not rhs.contains(e))\n        continue;\n      result += c * rhs.terms().at(e);"))
r("r2-plus-copy", H + "algebra.hpp",
  ("    Derived result;\n    for (const auto &[e, c] : terms()) {\n      result.add(e, c);\n    }\n    for (const auto &[e, c] : rhs.terms()) {\n      result.add(e, c);\n    }\n    return result;", "    Derived result;\n    result += *this;\n    result += rhs;\n    return result;"))
r("r2-neg-iter", H + "algebra.hpp",
  ("    for (const auto &[e, c] : terms()) {\n      result.add(e, -c);\n    }\n    return result;", "    for (auto it = terms_.begin(); it != terms_.end(); ++it) {\n      result.add(it->first, -(it->second));\n    }\n    return result;"))
r("r2-scale-else", H + "algebra.hpp",
  ("    if (factor == scalar_t(0, 1)) {\n      terms_.clear();\n      return *this;\n    }\n    for (auto &[e, c] : terms()) {\n      c *= factor;\n    }\n    return *this;", "    const bool vanishes = (factor == scalar_t(0, 1));\n    if (vanishes) {\n      terms_.clear();\n    } else {\n      for (auto &term : terms_) {\n        term.second *= factor;\n      }\n    }\n    return *this;"))
r("r2-div-recip", H + "algebra.hpp",
  ("    for (auto &[e, c] : terms()) {\n      c /= factor;\n    }", "    for (auto it = terms_.begin(); it != terms_.end(); it++) {\n      it->second = it->second / factor;\n    }"))
r("r2-mul-named", H + "algebra.hpp",
  ("        result.add(e * er, c * cr);\n      }\n    }\n    terms_ = result.terms_;", "        const T product = e * er;\n        const F coefficient = c * cr;\n        result.add(product, coefficient);\n      }\n    }\n    terms_.swap(result.terms_);"))
r("r2-contains-count", H + "algebra.hpp", ("return terms_.find(e) != terms_.end();", "return terms_.count(e) > 0;"))
r("r2-prod-mul-copy", H + "product.hpp",
  ("    elements_.insert(elements_.end(), rhs.elements_.begin(),\n                     rhs.elements_.end());\n", "    const prod_t rhs_elements = rhs.elements_;\n    for (const auto &e : rhs_elements) {\n      elements_.push_back(e);\n    }\n"))
r("r2-prod-adjoint-rev", H + "product.hpp",
  ("    for (const auto &e : elements()) {\n      d.push_back(e.adjoint());\n    }\n    std::reverse(d.begin(), d.end());\n    return d;", "    for (auto it = elements_.rbegin(); it != elements_.rend(); ++it) {\n      d.push_back(it->adjoint());\n    }\n    return d;"))
r("r2-prod-adjoint-transform", H + "product.hpp",
  ("    Product d;\n    for (const auto &e : elements()) {\n      d.push_back(e.adjoint());\n    }\n    std::reverse(d.begin(), d.end());\n    return d;", "    prod_t adj;\n    adj.reserve(elements_.size());\n    std::transform(elements_.rbegin(), elements_.rend(), std::back_inserter(adj),\n                   [](const T &e) { return e.adjoint(); });\n    return Product(adj);"), ("#include <algorithm>\n", "#include <algorithm>\n#include <iterator>\n"))
r("r2-addmap-flip", H + "helpers.h",
  ("    search->second += value;\n", "    auto &stored = search->second;\n    stored += value;\n"))
r("r2-findall-inner", H + "helpers.cc",
  ("  std::sregex_iterator next(s.begin(), s.end(), regex);\n  std::sregex_iterator end;\n  for (; next != end; ++next) {\n    std::smatch match = *next;\n", "  const std::sregex_iterator end;\n  for (std::sregex_iterator next(s.begin(), s.end(), regex); next != end; ++next) {\n    const std::smatch &match = *next;\n"))
r("r2-split-indices-direct", H + "helpers.cc", ("    std::string trimmed = trim(s);\n    v.push_back(trimmed);\n", "    v.push_back(trim(s));\n"))
r("r2-join-accumulate", H + "helpers.cc",
  ("  std::ostringstream ss;\n\n  std::copy(strvec.begin(), strvec.end() - 1,\n            std::ostream_iterator<std::string>(ss, sep.c_str()));\n  ss << strvec.back();\n\n  return ss.str();", "  std::string result = strvec.front();\n  for (size_t i = 1; i < strvec.size(); ++i) {\n    result += sep + strvec[i];\n  }\n  return result;"))
r("r2-sum-num-ops-gm", D + "graph_matrix.cc",
  ("  return std::accumulate(graph_matrices.begin(), graph_matrices.end(), 0,\n                         [&](int a, const auto &b) { return a + b.num_ops(); });", "  int total = 0;\n  for (const auto &graph_matrix : graph_matrices) {\n    total += graph_matrix.num_ops();\n  }\n  return total;"))
# ---- orbital space
r("r2-osi-dup-anyof", H + "orbital_space.cc",
  ("    if (indices_to_pos_.count(index) or new_indices_to_pos.count(index)) {\n      throw", "    const bool registered = indices_to_pos_.find(index) != indices_to_pos_.end();\n    const bool repeated = new_indices_to_pos.find(index) != new_indices_to_pos.end();\n    if (registered or repeated) {\n      throw"),
  ("    } else {\n      new_indices_to_pos[index] = pos;\n    }\n", "    }\n    new_indices_to_pos.emplace(index, pos);\n"))
r("r2-osi-elem-helper", H + "orbital_space.cc",
  ("  for (char e : elementary_spaces) {\n    elementary_spaces_int.push_back(e == label ? pos : label_to_space(e));\n  }\n", "  for (char e : elementary_spaces) {\n    if (e == label) {\n      elementary_spaces_int.push_back(pos);\n      continue;\n    }\n    elementary_spaces_int.push_back(label_to_space(e));\n  }\n"))
r("r2-osi-emplace-back", H + "orbital_space.cc",
  ("  space_info_.push_back(OrbitalSpace(label, field_type, space_type, indices,\n                                     elementary_spaces_int));", "  space_info_.emplace_back(label, field_type, space_type, indices,\n                           elementary_spaces_int);"))
r("r2-osi-commit-loop", H + "orbital_space.cc",
  ("  indices_to_pos_.insert(new_indices_to_pos.begin(), new_indices_to_pos.end());\n", "  for (const auto &[index, p] : new_indices_to_pos) {\n    indices_to_pos_[index] = p;\n  }\n"))
r("r2-osi-reset-assign", H + "orbital_space.cc",
  ("  space_info_.clear();\n  label_to_pos_.clear();\n  indices_to_pos_.clear();\n", "  indices_to_pos_.clear();\n  label_to_pos_.clear();\n  space_info_.clear();\n"))
r("r2-osi-label-find", H + "orbital_space.cc",
  ("  if (search == label_to_pos_.end()) {\n    throw std::runtime_error(\"\\n  Could", "  if (search != label_to_pos_.end()) {\n    return search->second;\n  }\n  {\n    throw std::runtime_error(\"\\n  Could"), ("                             \"function to define orbital spaces.\");\n  }\n  return search->second;\n", "                             \"function to define orbital spaces.\");\n  }\n"))
r("r2-osi-todict", H + "orbital_space.cc",
  ("    d[std::string(1, info.label())] = info.indices();\n", "    const std::string key(1, info.label());\n    d.insert_or_assign(key, info.indices());\n"))
# ---- index, sqop, tensor
r("r2-canon-indices-helper", A + "index.cc",
  ("  std::vector<int> perm;\n  indices.clear();\n  for (const auto &[idx, pos] : idx_pos) {\n    indices.push_back(idx);\n    perm.push_back(pos);\n  }\n  return permutation_sign(perm);", "  std::vector<int> perm;\n  for (size_t n = 0; n < idx_pos.size(); ++n) {\n    indices[n] = idx_pos[n].first;\n    perm.push_back(idx_pos[n].second);\n  }\n  return permutation_sign(perm);"))
r("r2-canon-indices-counter", A + "index.cc",
  ("  for (const auto &[n, index] : enumerate(indices)) {\n    idx_pos.push_back(std::make_pair(index, n));\n  }\n", "  int n = 0;\n  for (const auto &index : indices) {\n    idx_pos.emplace_back(index, n);\n    n++;\n  }\n"))
r("r2-make-index-static", A + "index.cc",
  ("  auto m = std::regex_match(s, sm, std::regex(\"([a-zA-Z])[_]?(\\\\d+)\"));\n  if (not m) {\n    throw", "  const std::regex index_re(\"([a-zA-Z])[_]?(\\\\d+)\");\n  if (not std::regex_match(s, sm, index_re)) {\n    throw"))
r("r2-numidx-foreach", A + "index.cc",
  ("  for (const auto &index : indices) {\n    counter.at(index.space()) += 1;\n  }\n", "  std::for_each(indices.begin(), indices.end(),\n                [&counter](const Index &index) { ++counter.at(index.space()); });\n"))
r("r2-symfactor-accumulate", A + "index.cc",
  ("  for (int s = 0; s < orbital_subspaces->num_spaces(); ++s) {\n    result *= factorial(idx_per_space[s]);\n  }\n  return result;", "  for (int count : idx_per_space) {\n    result = result * factorial(count);\n  }\n  return result;"))
r("r2-remap-helper", A + "index.cc",
  ("    if (std::find(space_count[space].begin(), space_count[space].end(),\n                  index) != space_count[space].end()) {\n      // if the index is already in A create a new index\n      int last_index = space_count[space].back();\n      result[idx] = Index(space, last_index + 1);\n      space_count[space].push_back(last_index + 1);\n    }", "    auto &used = space_count[space];\n    const bool taken = std::find(used.begin(), used.end(), index) != used.end();\n    if (taken) {\n      const int new_index = used.back() + 1;\n      result[idx] = Index(space, new_index);\n      used.push_back(new_index);\n    }"))
r("r2-sqop-commfactor", A + "sqoperator.cc",
  ("  if (field_type() == FieldType::Fermion and\n      other.field_type() == FieldType::Fermion) {\n    return -scalar_t(1);\n  }\n", "  const bool both_fermions = field_type() == FieldType::Fermion and\n                             other.field_type() == FieldType::Fermion;\n  if (both_fermions)\n    return scalar_t(-1);\n"))
r("r2-sqop-less-switch", A + "sqoperator.cc",
  ("  if (is_creation() != other.is_creation()) {\n    return is_creation();\n  }\n  // 2. if both operators are creation or annihilation operators, then we\n  // compare the space and the index. The space is compared in the reverse order\n  // for annihilation operators.\n  if (is_creation()) {\n    return index() < other.index();\n  }\n  return other.index() < index();\n", "  const bool l = is_creation();\n  const bool r = other.is_creation();\n  if (l and not r)\n    return true;\n  if (r and not l)\n    return false;\n  return l ? index() < other.index() : other.index() < index();\n"))
r("r2-sqop-adjoint-if", A + "sqoperator.cc",
  ("  SQOperatorType type =\n      (is_creation() ? SQOperatorType::Annihilation : SQOperatorType::Creation);\n  return SQOperator(type, index());", "  if (type() == SQOperatorType::Creation) {\n    return SQOperator(SQOperatorType::Annihilation, index());\n  }\n  return SQOperator(SQOperatorType::Creation, index());"))
r("r2-sqop-reindex-iter", A + "sqoperator.cc",
  ("  if (idx_map.count(operator_.second) > 0) {\n    operator_.second = idx_map[operator_.second];\n  }", "  const auto it = idx_map.find(index());\n  if (it == idx_map.end())\n    return;\n  operator_.second = it->second;"))
r("r2-canon-sqops-index", A + "sqoperator.cc",
  ("  for (const auto &[sqop, pos] : sqop_pos) {\n    sqops.push_back(sqop);\n    // only exchanges of fermionic operators change the sign\n    if (sqop.field_type() == FieldType::Fermion) {\n      perm.push_back(pos);\n    }\n  }", "  for (const auto &entry : sqop_pos) {\n    const SQOperator &sqop = entry.first;\n    // only exchanges of fermionic operators change the sign\n    const bool is_fermion = sqop.field_type() == FieldType::Fermion;\n    if (is_fermion) {\n      perm.push_back(entry.second);\n    }\n    sqops.push_back(sqop);\n  }"))
r("r2-tensor-less-pair", A + "tensor.cc",
  ("  // Compare the labels\n  if (label_ < other.label_)\n    return true;\n  if (label_ > other.label_)\n    return false;\n  // Compare the lower indices\n  if (lower_ < other.lower_)\n    return true;\n  if (lower_ > other.lower_)\n    return false;\n  return upper_ < other.upper_;", "  if (label_ != other.label_)\n    return label_ < other.label_;\n  if (lower_ != other.lower_) {\n    return lower_ < other.lower_;\n  }\n  return upper_ < other.upper_;"))
r("r2-tensor-reindex-helper", A + "tensor.cc",
  ("  for (Index &idx : upper_) {\n    if (idx_map.count(idx) > 0) {\n      idx = idx_map[idx];\n    }\n  }\n  for (Index &idx : lower_) {\n    if (idx_map.count(idx) > 0) {\n      idx = idx_map[idx];\n    }\n  }", "  for (std::vector<Index> *indices : {&upper_, &lower_}) {\n    for (Index &idx : *indices) {\n      const auto found = idx_map.find(idx);\n      if (found != idx_map.end()) {\n        idx = found->second;\n      }\n    }\n  }"))
r("r2-tensor-reindex-static", A + "tensor.cc",
  ("void Tensor::reindex(index_map_t &idx_map) {\n  for (Index &idx : upper_) {\n    if (idx_map.count(idx) > 0) {\n      idx = idx_map[idx];\n    }\n  }\n  for (Index &idx : lower_) {\n    if (idx_map.count(idx) > 0) {\n      idx = idx_map[idx];\n    }\n  }", "static void replace_indices(std::vector<Index> &indices, const index_map_t &idx_map) {\n  for (size_t i = 0; i < indices.size(); i++) {\n    if (idx_map.count(indices[i]) > 0) {\n      indices[i] = idx_map.at(indices[i]);\n    }\n  }\n}\n\nvoid Tensor::reindex(index_map_t &idx_map) {\n  replace_indices(lower_, idx_map);\n  replace_indices(upper_, idx_map);"))
r("r2-tensor-canon-members", A + "tensor.cc",
  ("  scalar_t sign = 1;\n  auto upper_indices = this->upper();\n  sign *= canonicalize_indices(upper_indices, false);\n  auto lower_indices = this->lower();\n  sign *= canonicalize_indices(lower_indices, false);\n  this->set_upper(upper_indices);\n  this->set_lower(lower_indices);\n  return (symmetry_ == SymmetryType::Antisymmetric) ? sign : scalar_t(1);", "  const scalar_t upper_sign = canonicalize_indices(upper_, false);\n  const scalar_t lower_sign = canonicalize_indices(lower_, false);\n  if (symmetry_ == SymmetryType::Symmetric) {\n    return scalar_t(1);\n  }\n  return upper_sign * lower_sign;"))
r("r2-tensor-indices-set", A + "tensor.cc",
  ("  std::vector<Index> vec;\n  for (const Index &idx : upper_) {\n    vec.push_back(idx);\n  }\n  for (const Index &idx : lower_) {\n    vec.push_back(idx);\n  }\n", "  std::vector<Index> vec(upper_);\n  vec.insert(vec.end(), lower_.begin(), lower_.end());\n"))
r("r2-tensor-str-lambda", A + "tensor.cc",
  ("  std::vector<std::string> str_vec_upper;\n  std::vector<std::string> str_vec_lower;\n  for (const Index &index : upper_) {\n    str_vec_upper.push_back(index.str());\n  }\n  for (const Index &index : lower_) {\n    str_vec_lower.push_back(index.str());\n  }\n  return (label_", "  auto to_strings = [](const std::vector<Index> &indices) {\n    std::vector<std::string> strings;\n    for (const Index &index : indices) {\n      strings.push_back(index.str());\n    }\n    return strings;\n  };\n  const auto str_vec_upper = to_strings(upper_);\n  const auto str_vec_lower = to_strings(lower_);\n  return (label_"))
r("r2-tensor-sig-operator", A + "tensor.cc",
  ("    result.at(idx.space()).first += 1;", "    auto &[num_upper, num_lower] = result.at(idx.space());\n    num_upper++;"))
r("r2-tensor-compile-indices", A + "tensor.cc",
  ("  std::vector<std::string> str_vec;\n  for (const Index &index : upper_) {\n    str_vec.push_back(index.compile(format));\n  }\n  for (const Index &index : lower_) {\n    str_vec.push_back(index.compile(format));\n  }\n\n  return (str_vec.size() > 0 ? (label_ + \"[\" + join(str_vec, \",\") + \"]\")\n                             : label_);", "  std::vector<std::string> str_vec;\n  for (const auto *indices : {&upper_, &lower_}) {\n    for (const Index &index : *indices) {\n      str_vec.push_back(index.compile(format));\n    }\n  }\n  if (str_vec.empty()) {\n    return label_;\n  }\n  return label_ + \"[\" + join(str_vec, \",\") + \"]\";"))
r("r2-tensor-greek-lambda", A + "tensor.cc",
  ("  std::string prefix = is_greek_symbol ? \"{\\\\\" : \"{\";\n  std::string subscript =\n      is_greek_symbol\n          ? \"\"\n          : (raw_subscript.size() == 0 ? \"\" : \"_{\" + raw_subscript + \"}\");\n", "  std::string prefix = \"{\";\n  std::string subscript;\n  if (is_greek_symbol) {\n    prefix += \"\\\\\";\n  } else if (not raw_subscript.empty()) {\n    subscript = \"_{\" + raw_subscript + \"}\";\n  }\n"))
# ---- symbolic term
r("r2-symterm-sorted-reverse", A + "symbolic_term.cc",
  ("  return std::is_sorted(operators_.begin(), operators_.end(),\n                        [](const SQOperator &a, const SQOperator &b) {\n                          return b.is_creation() < a.is_creation();\n                        });", "  for (size_t i = 1; i < operators_.size(); ++i) {\n    if (operators_[i].is_creation() and not operators_[i - 1].is_creation())\n      return false;\n  }\n  return true;"))
r("r2-symterm-add-direct", A + "symbolic_term.cc",
  ("  auto product = Product<SQOperator>(ops);\n  add(product);\n", "  for (const auto &op : ops) {\n    operators_.push_back(op);\n  }\n"))
r("r2-symterm-adjoint-tensors", A + "symbolic_term.cc",
  ("  for (const auto &tensor : tensors_) {\n    result.add(tensor.adjoint());\n  }\n  result.add(operators_.adjoint());\n  return result;", "  const auto adjoint_operators = operators_.adjoint();\n  for (size_t i = 0; i < tensors_.size(); ++i) {\n    result.tensors_.push_back(tensors_[i].adjoint());\n  }\n  result.add(adjoint_operators);\n  return result;"))
r("r2-symterm-reserve-split", A + "symbolic_term.cc",
  ("      if (is_operator_index.count(l) == 0) {\n        // this index is not shared with an operator\n        if (index_map.count(l) == 0) {\n          index_map[l] = next_index(l.space(), tens_index_count);\n        }\n      } else {\n        // this index is shared with an operator\n        if (index_map.count(l) == 0) {\n          index_map[l] = next_index(l.space(), sqop_index_count);\n        }\n      }", "      if (index_map.count(l) > 0)\n        continue;\n      // is this index shared with an operator?\n      const bool shared = is_operator_index.count(l) > 0;\n      index_map[l] =\n          next_index(l.space(), shared ? sqop_index_count : tens_index_count);"))
r("r2-symterm-assign-lambda", A + "symbolic_term.cc",
  ("    for (const auto &u : tensor.upper()) {\n      if (is_operator_index.count(u) == 0) {\n        if (index_map.count(u) == 0) {\n          index_map[u] = next_index(u.space(), tens_index_count);\n        }\n      } else {\n        if (index_map.count(u) == 0) {\n          index_map[u] = next_index(u.space(), sqop_index_count);\n        }\n      }\n    }", "    auto assign = [&](const Index &u) {\n      if (index_map.count(u) != 0)\n        return;\n      auto &count =\n          is_operator_index.count(u) == 0 ? tens_index_count : sqop_index_count;\n      index_map[u] = next_index(u.space(), count);\n    };\n    for (const auto &u : tensor.upper()) {\n      assign(u);\n    }"))
r("r2-symterm-canon-product", A + "symbolic_term.cc",
  ("  for (auto &tensor : tensors_) {\n    factor *= tensor.canonicalize();\n  }\n\n  // 4. Sort operators according to canonical form\n  factor *= canonicalize_sqops(operators_, false);\n", "  scalar_t tensor_factor = 1;\n  for (auto &tensor : tensors_) {\n    tensor_factor *= tensor.canonicalize();\n  }\n\n  // 4. Sort operators according to canonical form\n  const scalar_t sqop_factor = canonicalize_sqops(operators_, false);\n  factor *= tensor_factor * sqop_factor;\n"))
r("r2-symterm-less-order", A + "symbolic_term.cc",
  ("  if (tensors_ > other.tensors_) {\n    return false;\n  }\n  if (tensors_ < other.tensors_) {\n    return true;\n  }\n  return operators_ < other.operators_;", "  if (tensors_ == other.tensors_) {\n    return operators_ < other.operators_;\n  }\n  return tensors_ < other.tensors_;"))
r("r2-symterm-op-product-nested", A + "symbolic_term.cc",
  ("  if (lhs.is_labeled_normal_ordered() and rhs.is_labeled_normal_ordered()) {\n    return operator_product_1(lhs, rhs);\n  }\n", "  const bool lno = lhs.is_labeled_normal_ordered();\n  const bool rno = rhs.is_labeled_normal_ordered();\n  if (lno and rno) {\n    return operator_product_1(lhs, rhs);\n  }\n"))
r("r2-symterm-latex-partition", A + "symbolic_term.cc",
  ("      for (const auto &op : operators_) {\n        if (op.is_creation()) {\n          str_vec_cre.push_back(op.index().latex());\n        } else {\n          str_vec_ann.push_back(op.index().latex());\n        }\n      }\n", "      for (const auto &op : operators_) {\n        auto &target = op.is_creation() ? str_vec_cre : str_vec_ann;\n        target.push_back(op.index().latex());\n      }\n"))
r("r2-symterm-conn-ref", A + "symbolic_term.cc",
  ("    if (not(t == tensor)) {\n", "    const bool is_other = not(t == tensor);\n    if (is_other) {\n"))
r("r2-symterm-conn-drop-unused", A + "symbolic_term.cc",
  ("      std::vector<Index> indices3 = tensor.upper();\n      sort(indices3.begin(), indices3.end());\n\n", ""),
  ("      std::vector<Index> common_upper_indices;\n      set_intersection(indices.begin(), indices.end(), indices3.begin(),\n                       indices3.end(), back_inserter(common_upper_indices));\n\n", ""))
# ---- normal ordering
r("r2-vno-sorted-until", A + "symbolic_term_normal_order.cc",
  ("  auto it = std::adjacent_find(\n      ops.begin(), ops.end(),\n      [](SQOperator const &a, SQOperator const &b) { return b < a; });\n  const bool is_normal_ordered = (it == ops.end());\n", "  const auto out_of_order = [](SQOperator const &left, SQOperator const &right) {\n    return right < left;\n  };\n  auto it = std::adjacent_find(ops.begin(), ops.end(), out_of_order);\n  const bool is_normal_ordered = not(it != ops.end());\n"))
r("r2-vno-contract-helper", A + "symbolic_term_normal_order.cc",
  ("void recursive_vacuum_normal_order(\n", "static std::vector<SQOperator> without_pair(const std::vector<SQOperator> &ops,\n                                            size_t pos) {\n  std::vector<SQOperator> remaining;\n  for (size_t i = 0; i < ops.size(); i++) {\n    if (i != pos and i != pos + 1) {\n      remaining.push_back(ops[i]);\n    }\n  }\n  return remaining;\n}\n\nvoid recursive_vacuum_normal_order(\n"),
  ("        std::vector<SQOperator> cont_ops;\n        cont_ops.insert(cont_ops.end(), ops.begin(), ops.begin() + pos);\n        cont_ops.insert(cont_ops.end(), ops.begin() + pos + 2, ops.end());\n", "        const auto cont_ops = without_pair(ops.vec(), pos);\n"))
r("r2-vno-invert", A + "symbolic_term_normal_order.cc",
  ("      if (not only_same_index_contractions or is_same_index) {\n        std::vector<SQOperator> cont_ops;", "      const bool excluded = only_same_index_contractions and not is_same_index;\n      if (not excluded) {\n        std::vector<SQOperator> cont_ops;"))
r("r2-vno-copy-swap", A + "symbolic_term_normal_order.cc",
  ("    auto swap_ops = ops;\n    std::swap(swap_ops[pos], swap_ops[pos + 1]);\n", "    auto swap_ops = ops;\n    swap_ops[pos] = b;\n    swap_ops[pos + 1] = a;\n"))
# ---- expression
r("r2-expr-canon-direct", A + "expression.cc",
  ("    SymbolicTerm term = k;\n    scalar_t factor = term.canonicalize();\n    factor *= v;\n    add_to_map(canonical_terms, term, factor);\n", "    SymbolicTerm term(k);\n    const scalar_t sign = term.canonicalize();\n    add_to_map(canonical_terms, term, v * sign);\n"))
r("r2-expr-canon-swap", A + "expression.cc", ("  terms_ = canonical_terms;\n", "  terms_ = std::move(canonical_terms);\n"))
r("r2-expr-str-first", A + "expression.cc",
  ("      if (n == 0) { // don't show the first element sign unless it's negative\n        factor_str += c.str(false);\n      } else {\n        factor_str += c.str(true);\n      }\n      // rational(1,1).str() returns \"\", so we need to handle the case of\n      // a pure", "      factor_str += c.str(n != 0);\n      // rational(1,1).str() returns \"\", so we need to handle the case of\n      // a pure"))
r("r2-expr-latex-iter", A + "expression.cc",
  ("  bool first = true;\n  for (const auto &[term, factor] : terms_) {\n    str_vec.push_back(factor.latex(first) + ' ' + term.latex());\n    first = false;\n  }", "  for (auto it = terms_.begin(); it != terms_.end(); ++it) {\n    const bool first = (it == terms_.begin());\n    str_vec.push_back(it->second.latex(first) + ' ' + it->first.latex());\n  }"))
r("r2-expr-mbeq-helper", A + "expression.cc",
  ("    std::string signature_str_upper;\n    std::string signature_str_lower;\n    int pos = 0;\n    for (const auto &[u, l] : signature) {\n      signature_str_upper += std::string(u, orbital_subspaces->label(pos));\n      signature_str_lower += std::string(l, orbital_subspaces->label(pos));\n      pos += 1;\n    }\n", "    std::string signature_str_upper;\n    std::string signature_str_lower;\n    for (int s = 0; s < (int)signature.size(); ++s) {\n      const char label_s = orbital_subspaces->label(s);\n      signature_str_upper.append(signature[s].first, label_s);\n      signature_str_lower.append(signature[s].second, label_s);\n    }\n"))
r("r2-expr-mbeq-structured", A + "expression.cc",
  ("  for (const auto &term_factor : terms_) {\n    std::vector<Index> lower;\n    std::vector<Index> upper;\n    const SymbolicTerm &term = term_factor.first;\n    scalar_t factor = term_factor.second;\n", "  for (const auto &[term, factor] : terms_) {\n    std::vector<Index> lower;\n    std::vector<Index> upper;\n"))
r("r2-expr-makeop-space", A + "expression.cc",
  ("      if (s.size() == 2) {\n        auto idx = Index(space, cre_count[space]);\n        cre.push_back(idx);\n        cre_count[space] += 1;\n      } else {\n        ann_count[space] -= 1;\n        auto idx = Index(space, ann_count[space]);\n        ann.push_back(idx);\n      }", "      const bool creation = (s.size() == 2);\n      const int position = creation ? cre_count[space]++ : --ann_count[space];\n      (creation ? cre : ann).push_back(Index(space, position));"))
r("r2-expr-make-empty", A + "expression.cc", ("  if (s.size() == 0)\n    return sum;\n", "  if (s.empty()) {\n    return sum;\n  }\n"))
r("r2-expr-make-while", A + "expression.cc",
  ("  for (size_t n = 0; n < operators.size(); n += 2) {\n    SQOperatorType type = operators[n] == \"+\" ? SQOperatorType::Creation\n                                              : SQOperatorType::Annihilation;\n    Index index = make_index_from_str(operators[n + 1]);\n    term.add(SQOperator(type, index));\n  }", "  size_t n = 0;\n  while (n < operators.size()) {\n    const bool is_cre = (operators[n] == \"+\");\n    const auto type =\n        is_cre ? SQOperatorType::Creation : SQOperatorType::Annihilation;\n    term.add(make_sqoperator(operators[n + 1], type));\n    n += 2;\n  }"))
r("r2-expr-isvno-allof", A + "expression_normal_order.cc",
  ("  for (const auto &[symterm, c] : terms()) {\n    if (not symterm.is_vacuum_normal_ordered()) {\n      return false;\n    }\n  }\n  return true;", "  return std::all_of(terms_.begin(), terms_.end(), [](const auto &term) {\n    return term.first.is_vacuum_normal_ordered();\n  });"))
r("r2-expr-vno-pluseq", A + "expression_normal_order.cc",
  ("    auto new_terms = symterm.vacuum_normal_order(only_same_index_contractions);\n    for (const auto &[new_symterm, new_c] : new_terms) {\n      new_expr.add(new_symterm, c * new_c);\n    }", "    for (const auto &new_term :\n         symterm.vacuum_normal_order(only_same_index_contractions)) {\n      new_expr.add(new_term.first, new_term.second * c);\n    }"))
# ---- equation / term
r("r2-eq-compile-sizes", A + "equation.cc",
  ("    // a character\n    if (s.size() == 1) {\n      if (std::find(unused_indices.begin(), unused_indices.end(), s) !=\n          unused_indices.end()) {\n        // if this character is unused, use it\n        index_map[s] = s;\n      } else {\n        // if it is used, grab the first available index\n        index_map[s] = unused_indices.back();\n      }\n    } else {\n      index_map[s] = unused_indices.back();\n    }\n", "    const bool available =\n        s.size() == 1 and std::find(unused_indices.begin(), unused_indices.end(),\n                                    s) != unused_indices.end();\n    // use the character itself if possible, otherwise the first available one\n    index_map[s] = available ? s : unused_indices.back();\n"))
r("r2-eq-compile-helper", A + "equation.cc",
  ("std::string Equation::compile(const std::string &format) const {\n", "static std::string space_labels(const Tensor &t) {\n  std::string labels;\n  for (const auto &u : t.upper()) {\n    labels += orbital_subspaces->label(u.space());\n  }\n  for (const auto &l : t.lower()) {\n    labels += orbital_subspaces->label(l.space());\n  }\n  return labels;\n}\n\nstd::string Equation::compile(const std::string &format) const {\n"),
  ("    std::string lhs_tensor_label = lhs_tensor.label();\n    for (const auto &l : lhs_tensor.upper()) {\n      lhs_tensor_label += orbital_subspaces->label(l.space());\n    }\n    for (const auto &l : lhs_tensor.lower()) {\n      lhs_tensor_label += orbital_subspaces->label(l.space());\n    }\n", "    const std::string lhs_tensor_label =\n        lhs_tensor.label() + space_labels(lhs_tensor);\n"),
  ("      std::string t_label = t.label() + \"[\\\"\";\n      for (const auto &l : t.upper()) {\n        t_label += orbital_subspaces->label(l.space());\n      }\n      for (const auto &l : t.lower()) {\n        t_label += orbital_subspaces->label(l.space());\n      }\n      t_label += \"\\\"]\";\n      args_vec.push_back(t_label);\n", "      args_vec.push_back(t.label() + \"[\\\"\" + space_labels(t) + \"\\\"]\");\n"))
r("r2-term-str-build", A + "term.cc",
  ("  if ((term_str == \"\") and (coeff_str == \"\")) {\n    return \"1\";\n  } else if ((term_str == \"\") and (coeff_str != \"\")) {\n    return coeff_str;\n  } else if ((term_str != \"\") and (coeff_str == \"\")) {\n    return term_str;\n  }\n  return coeff_str + \" \" + term_str;", "  if (term_str.empty()) {\n    return coeff_str.empty() ? \"1\" : coeff_str;\n  }\n  if (coeff_str.empty()) {\n    return term_str;\n  }\n  return coeff_str + \" \" + term_str;"))
# ---- diagrams
r("r2-gm-pluseq-bind", D + "graph_matrix.cc",
  ("    elements_.at(s).first += rhs.elements_.at(s).first;\n    elements_.at(s).second += rhs.elements_.at(s).second;\n", "    auto &[c, a] = elements_.at(s);\n    const auto &[rc, ra] = rhs.elements_.at(s);\n    c += rc;\n    a += ra;\n"))
r("r2-gm-str-helper", D + "graph_matrix.cc",
  ("    for (int i = 0; i < cre(s); ++i) {\n      std::string op_s(1, orbital_subspaces->label(s));\n      cv.push_back(op_s + \"+\");\n    }", "    const std::string op_s = std::string(1, orbital_subspaces->label(s)) + \"+\";\n    for (int i = cre(s); i > 0; --i) {\n      cv.push_back(op_s);\n    }"))
r("r2-op-factor-denominator", D + "operator.cc",
  ("  scalar_t result = 1;\n  for (int s = 0; s < orbital_subspaces->num_spaces(); ++s) {\n    result /= static_cast<scalar_t>(factorial(cre(s)));\n  }\n  for (int s = 0; s < orbital_subspaces->num_spaces(); ++s) {\n    result /= static_cast<scalar_t>(factorial(ann(s)));\n  }\n  return result;", "  scalar_t denominator = 1;\n  for (int s = 0; s < orbital_subspaces->num_spaces(); ++s) {\n    denominator *= static_cast<scalar_t>(factorial(cre(s)));\n    denominator *= static_cast<scalar_t>(factorial(ann(s)));\n  }\n  return scalar_t(1) / denominator;"))
r("r2-op-commute-zero", D + "operator.cc",
  ("  int noncommuting = 0;\n  for (int s = 0; s < orbital_subspaces->num_spaces(); s++) {\n    noncommuting += a.ann(s) * b.cre(s) + a.cre(s) * b.ann(s);\n  }\n  return noncommuting == 0;", "  int noncommuting = 0;\n  const int num_spaces = orbital_subspaces->num_spaces();\n  for (int s = 0; s < num_spaces; s++) {\n    noncommuting += a.ann(s) * b.cre(s);\n    noncommuting += b.ann(s) * a.cre(s);\n  }\n  return not noncommuting;"))
r("r2-oe-add2-bind", D + "operator_expression.cc",
  ("  for (const auto &vec_dop_factor : expr_terms) {\n    add(vec_dop_factor.first, factor * vec_dop_factor.second);\n  }", "  for (const auto &[product, coefficient] : expr_terms) {\n    add(product, coefficient * factor);\n  }"))
r("r2-oe-canon-it", D + "operator_expression.cc",
  ("  for (auto [prod, scalar] : terms_) {\n    auto newprod = prod;\n    const auto sign = newprod.canonicalize();\n    add_to_map(canonical, newprod, sign * scalar);\n  }", "  for (const auto &term : terms_) {\n    OperatorProduct newprod = term.first;\n    scalar_t factor = term.second;\n    factor *= newprod.canonicalize();\n    add_to_map(canonical, newprod, factor);\n  }"))
r("r2-oe-bch-nocopy", D + "operator_expression.cc",
  ("  OperatorExpression result;\n  result += A;\n  OperatorExpression temp(A);\n\n  for (int k = 1; k <= n; k++) {\n    OperatorExpression comm = commutator(temp, B);\n    comm *= scalar_t(1, k);\n    result += comm;\n    temp = comm;\n  }\n\n  return result;", "  OperatorExpression result(A);\n  OperatorExpression nested(A);\n  int k = 1;\n  while (k <= n) {\n    nested = commutator(nested, B);\n    nested /= scalar_t(k);\n    result += nested;\n    ++k;\n  }\n  return result;"))
r("r2-oe-commutator-temp", D + "operator_expression.cc",
  ("  return A * B - B * A;", "  OperatorExpression result = A * B;\n  result -= B * A;\n  return result;"))
r("r2-opprod-canon-sign", D + "operator_product.cc",
  ("  int nperm = 0;\n", "  bool odd = false;\n"), ("        nperm += elements_[j].num_ops() * elements_[j + 1].num_ops();\n        swap(elements_[j], elements_[j + 1]);", "        if ((elements_[j].num_ops() * elements_[j + 1].num_ops()) % 2 != 0)\n          odd = not odd;\n        std::swap(elements_[j], elements_[j + 1]);"),
  ("  return nperm % 2 == 0 ? scalar_t(1, 1) : scalar_t(-1, 1);", "  return odd ? scalar_t(-1, 1) : scalar_t(1, 1);"))
r("r2-opprod-mul-member", D + "operator_product.cc",
  ("  OperatorProduct result;\n  for (const auto &e : l) {\n    result.push_back(e);\n  }\n  for", "  OperatorProduct result(l);\n  for"))
r("r2-wt-contract-reserve", D + "wick_theorem.cc",
  ("  for (const auto &[ops, f] : expr.terms()) {\n    result += contract(factor * f, ops, minrank, maxrank);\n  }", "  for (const auto &term : expr.terms()) {\n    const scalar_t term_factor = factor * term.second;\n    const Expression contracted =\n        contract(term_factor, term.first, minrank, maxrank);\n    result += contracted;\n  }"))
r("r2-wt-contract-ifelse", D + "wick_theorem.cc",
  ("  Expression result =\n      single_threaded_\n          ? process_contractions(factor, ops, minrank, maxrank)\n          : process_contractions_threads(factor, ops, minrank, maxrank);\n", "  Expression result;\n  if (single_threaded_) {\n    result = process_contractions(factor, ops, minrank, maxrank);\n  } else {\n    result = process_contractions_threads(factor, ops, minrank, maxrank);\n  }\n"))
r("r2-wt-elem-viable", D + "wick_theorem_elementary_contractions.cc",
  ("      if (ops[l].cre(s) * ops[r].ann(s) > 0) { // is contraction viable?\n", "      const bool viable = ops[l].cre(s) > 0 and ops[r].ann(s) > 0;\n      if (viable) {\n"))
r("r2-wt-elem-merge", D + "wick_theorem_elementary_contractions.cc",
  ("        for (int A = 0; A < nops; A++) {\n          if (ops[A].cre(s) < perm[A]) {\n            cre_compatible = false;\n          }\n          if (ops[A].ann(s) < perm[A]) {\n            ann_compatible = false;\n          }\n        }\n", "        for (int A = 0; A < nops; A++) {\n          cre_compatible = cre_compatible and perm[A] <= ops[A].cre(s);\n          ann_compatible = ann_compatible and perm[A] <= ops[A].ann(s);\n        }\n"))
r("r2-wt-elem-count-if", D + "wick_theorem_elementary_contractions.cc",
  ("          nops_contracted += (cre_legs[A] + ann_legs[A] > 0);\n", "          if (cre_legs[A] + ann_legs[A] > 0) {\n            nops_contracted++;\n          }\n"),
  ("        if (nops_contracted < 2)\n          continue;\n", "        if (not(nops_contracted >= 2))\n          continue;\n"))
r("r2-wt-elem-partition-copy", D + "wick_theorem_elementary_contractions.cc",
  ("      std::vector<int> perm(nops, 0);\n      std::copy(part.begin(), part.end(), perm.begin());\n", "      std::vector<int> perm(part);\n      perm.resize(nops, 0);\n"))
r("r2-wt-comp-valid-helper", D + "wick_theorem_composite_contractions.cc",
  ("std::vector<int> WickTheorem::construct_candidates(\n", "static bool has_enough_legs(const GraphMatrix &available, const GraphMatrix &needed) {\n  for (int s = 0; s < orbital_subspaces->num_spaces(); s++) {\n    if (available.cre(s) < needed.cre(s) or available.ann(s) < needed.ann(s)) {\n      return false;\n    }\n  }\n  return true;\n}\n\nstd::vector<int> WickTheorem::construct_candidates(\n"),
  ("      for (int s = 0; s < orbital_subspaces->num_spaces(); s++) {\n        if (free_graph_matrix_vec[A].cre(s) < el_contr[A].cre(s)) {\n          is_valid_contraction = false;\n        }\n        if (free_graph_matrix_vec[A].ann(s) < el_contr[A].ann(s)) {\n          is_valid_contraction = false;\n        }\n      }\n", "      is_valid_contraction =\n          is_valid_contraction and has_enough_legs(free_graph_matrix_vec[A], el_contr[A]);\n"))
r("r2-wt-comp-window", D + "wick_theorem_composite_contractions.cc",
  ("  if ((num_ops >= minrank) and (num_ops <= maxrank)) {\n    contractions_.push_back(std::vector<int>(a.begin(), a.begin() + k));\n", "  const bool outside = num_ops < minrank or num_ops > maxrank;\n  if (not outside) {\n    contractions_.emplace_back(a.begin(), a.begin() + k);\n"))
r("r2-wt-comp-loop", D + "wick_theorem_composite_contractions.cc",
  ("  for (const auto &c : candidates) {\n    make_move(a, k, c,", "  for (size_t i = 0; i < candidates.size(); ++i) {\n    const int c = candidates[i];\n    make_move(a, k, c,"))
r("r2-wt-comp-minc", D + "wick_theorem_composite_contractions.cc",
  ("  int minc = (k > 1) ? a[k - 2] : 0;\n", "  int minc = 0;\n  if (k >= 2) {\n    minc = a[k - 2];\n  }\n"))
r("r2-wt-single-guard", D + "wick_theorem_process_contractions.cc",
  ("  Expression result;\n  int contr_rank = 0;\n  for (int c : contraction_vec) {\n    contr_rank += elementary_contractions_[c].num_ops();\n  }\n  int term_rank = ops_rank - contr_rank;\n\n  if ((term_rank >= minrank) and (term_rank <= maxrank)) {\n\n    CompositeContraction contraction;\n    for (int c : contraction_vec) {\n      contraction.push_back(elementary_contractions_[c]);\n    }\n", "  Expression result;\n  int term_rank = ops_rank;\n  CompositeContraction contraction;\n  for (int c : contraction_vec) {\n    const auto &elementary = elementary_contractions_[c];\n    term_rank -= elementary.num_ops();\n    contraction.push_back(elementary);\n  }\n\n  if ((minrank <= term_rank) and (term_rank <= maxrank)) {\n"))
r("r2-wt-process-via-single", D + "wick_theorem_process_contractions.cc",
  ("      SymbolicTerm &term = term_factor.first;\n      scalar_t canonicalize_factor = term.canonicalize();\n      canonicalize_factor *= term_factor.second;\n      result += {term, canonicalize_factor};\n      // result.add(\n      // std", "      SymbolicTerm &term = term_factor.first;\n      scalar_t canonicalize_factor = term.canonicalize();\n      canonicalize_factor = term_factor.second * canonicalize_factor;\n      result.add(term, canonicalize_factor);\n      // result.add(\n      // std"))
r("r2-wt-threads-reserve", D + "wick_theorem_process_contractions.cc",
  ("  for (const auto &contraction_vec : contractions_) {\n    futures.push_back(\n        std::async(std::launch::async, [this,", "  futures.reserve(contractions_.size());\n  for (const auto &contraction_vec : contractions_) {\n    futures.emplace_back(\n        std::async(std::launch::async, [this,"))
r("r2-wt-threads-get", D + "wick_theorem_process_contractions.cc",
  ("  for (auto &fut : futures) {\n    result += fut.get(); // Get", "  for (size_t i = 0; i < futures.size(); ++i) {\n    const Expression partial = futures[i].get();\n    result += partial; // Get"))
r("r2-wt-eval-mark-lambda", D + "wick_theorem_process_contractions.cc",
  ("    for (int c : pos_cre_sqops) {\n      bit_map[c] = true;\n      sign_order[c] = sorted_position;\n      sorted_position += 1;\n    }\n    // mark the annihilation operators contracted and their order\n    for (int a : pos_ann_sqops) {\n      bit_map[a] = true;\n      sign_order[a] = sorted_position;\n      sorted_position += 1;\n    }\n", "    auto mark = [&](const std::vector<int> &positions) {\n      for (int p : positions) {\n        bit_map[p] = true;\n        sign_order[p] = sorted_position++;\n      }\n    };\n    mark(pos_cre_sqops);\n    // mark the annihilation operators contracted and their order\n    mark(pos_ann_sqops);\n"))
r("r2-wt-eval-hoist-pair", D + "wick_theorem_process_contractions.cc",
  ("      Index cre_index = sqops[pos_cre_sqops[0]].index();\n      Index ann_index = sqops[pos_ann_sqops[0]].index();\n      pair_contraction_reindex_map[ann_index] = cre_index;\n", "      const SQOperator &creator = sqops[pos_cre_sqops.front()];\n      const SQOperator &annihilator = sqops[pos_ann_sqops.front()];\n      pair_contraction_reindex_map[annihilator.index()] = creator.index();\n"))
r("r2-wt-eval-label", D + "wick_theorem_process_contractions.cc",
  ("      std::string label;\n      if (rank == 2) {\n        if (pos_cre_sqops[0] < pos_ann_sqops[0]) {\n          label = \"gamma1\";\n        } else {\n          label = \"eta1\";\n          unoccupied_sign *= -1;", "      std::string label = \"lambda\" + std::to_string(rank / 2);\n      if (rank == 2) {\n        label = \"gamma1\";\n        if (pos_cre_sqops[0] >= pos_ann_sqops[0]) {\n          label = \"eta1\";\n          unoccupied_sign = -unoccupied_sign;"),
  ("      } else {\n        label = \"lambda\" + std::to_string(rank / 2);\n      }\n", "      }\n"))
r("r2-wt-eval-factor", D + "wick_theorem_process_contractions.cc",
  ("  return std::make_pair(term, sign * factor * comb_factor);", "  factor *= comb_factor;\n  factor *= sign;\n  return std::make_pair(term, factor);"))
r("r2-wt-eval-lower-reverse", D + "wick_theorem_process_contractions.cc",
  ("      for (int a : pos_ann_sqops) {\n        lower.push_back(sqops[a].index());\n      }\n      // reverse the lower indices\n      std::reverse(lower.begin(), lower.end());\n", "      for (auto a = pos_ann_sqops.rbegin(); a != pos_ann_sqops.rend(); ++a) {\n        lower.push_back(sqops[*a].index());\n      }\n"))
r("r2-wt-comb-inverse", D + "wick_theorem_process_contractions.cc",
  ("        factor *= binomial(ncre, kcre);\n        factor *= binomial(nann, kann);\n", "        const auto ways = scalar_t(binomial(ncre, kcre)) * scalar_t(binomial(nann, kann));\n        factor *= ways;\n"))
r("r2-wt-tensors-emplace", D + "wick_theorem_process_contractions.cc",
  ("        sqops.push_back(SQOperator(SQOperatorType::Creation, idx));\n        lower.push_back(idx);\n        auto key = std::make_tuple(o, s, true, c);\n        op_map[key] = n;\n", "        auto key = std::make_tuple(o, s, true, c);\n        op_map[key] = n;\n        sqops.emplace_back(SQOperatorType::Creation, idx);\n        lower.push_back(idx);\n"))
r("r2-wt-pos-at", D + "wick_theorem_process_contractions.cc",
  ("        int sqop_pos = op_map[key];\n", "        const int sqop_pos = op_map.at(key);\n"))
r("r2-wt-sig-append", D + "wick_theorem_process_contractions.cc",
  ("    s += ops[ops_perm[i]].label();\n    s += signature(ops[ops_perm[i]].graph_matrix());\n", "    const auto &op = ops[ops_perm[i]];\n    s += op.label() + signature(op.graph_matrix());\n"))
r("r2-cg-commute-pairwise", D + "wick_theorem_canonicalize_graph.cc",
  ("  bool do_commute = true;\n  // loop over all elementary contractions\n  for (const auto &el_contr : contractions) {\n    // loop over all orbital spaces\n    for (int s = 0; s < orbital_subspaces->num_spaces(); ++s) {\n      // check if this is a single contraction\n      if (el_contr.num_ops() == 2) {\n", "  bool do_commute = true;\n  // loop over all elementary contractions\n  for (const auto &el_contr : contractions) {\n    // check if this is a single contraction\n    const bool is_pair = el_contr.num_ops() == 2;\n    // loop over all orbital spaces\n    for (int s = 0; s < orbital_subspaces->num_spaces(); ++s) {\n      if (is_pair) {\n"))
r("r2-cg-perm-sign-if", D + "wick_theorem_canonicalize_graph.cc",
  ("          sign *= 1 - 2 * ((ops[ops_perm[j + 1]].num_ops() *\n                            ops[ops_perm[j]].num_ops()) %\n                           2);\n", "          const int nswaps = ops[ops_perm[j + 1]].num_ops() *\n                             ops[ops_perm[j]].num_ops();\n          if (nswaps % 2 != 0) {\n            sign *= -1;\n          }\n"))
r("r2-cg-perm-valid-struct", D + "wick_theorem_canonicalize_graph.cc",
  ("      if (const auto [is_valid, sign] =\n              is_ops_permutation_valid(ops, ops_perm, commutable);\n          is_valid) {\n", "      const auto validity = is_ops_permutation_valid(ops, ops_perm, commutable);\n      const bool is_valid = validity.first;\n      const scalar_t sign = validity.second;\n      if (is_valid) {\n"))
r("r2-cg-contr-ref", D + "wick_theorem_canonicalize_graph.cc",
  ("  for (int c : con_perms[canonical_contr_perm_idx]) {\n    std::vector<GraphMatrix> permuted_contr;\n    for (int o : ops_perms[canonical_ops_perm_idx]) {\n      permuted_contr.push_back(contractions[c][o]);\n    }\n", "  const auto &best_con_perm = con_perms[canonical_contr_perm_idx];\n  const auto &best_op_perm = ops_perms[canonical_ops_perm_idx];\n  for (int c : best_con_perm) {\n    const auto &contr = contractions[c];\n    std::vector<GraphMatrix> permuted_contr;\n    for (int o : best_op_perm) {\n      permuted_contr.push_back(contr[o]);\n    }\n"))
r("r2-cg-commutable-triangle", D + "wick_theorem_canonicalize_graph.cc",
  ("  for (int i = 0; i < nops; i++) {\n    for (int j = 0; j < nops; j++) {\n      // check if commuting operators i and j changes the contraction\n      if (do_contractions_commute(i, j, ops, contractions)) {\n        commutable[i][j] = true;\n      }\n    }\n  }", "  for (int i = 0; i < nops; i++) {\n    auto &row = commutable[i];\n    for (int j = 0; j < nops; j++) {\n      // check if commuting operators i and j changes the contraction\n      if (do_contractions_commute(i, j, ops, contractions)) {\n        row[j] = true;\n      }\n    }\n  }"))
# ---- python
r("r2-py-genop-cond", "utils.py",
  ("                    if not diagonal:\n                        if le != re:\n                            terms.append(\n                                \" \".join([s + \"+\" for s in le]) + \" \" + \" \".join(re)\n                            )\n                    else:\n                        terms.append(\n                            \" \".join([s + \"+\" for s in le]) + \" \" + \" \".join(re)\n                        )\n", "                    if diagonal or le != re:\n                        terms.append(\n                            \" \".join([s + \"+\" for s in le]) + \" \" + \" \".join(re)\n                        )\n"))
r("r2-py-genop-repeat", "utils.py",
  ("    for le in itertools.product(*c):\n        is_le_sorted = all(m[le[i]] <= m[le[i + 1]] for i in range(len(le) - 1))\n        if is_le_sorted:\n", "    for le in itertools.product(*c):\n        if all(m[le[i]] <= m[le[i + 1]] for i in range(len(le) - 1)):\n"))
r("r2-py-split-list", "utils.py", ("    return [char for char in word]", "    return list(word)"))
r("r2-py-einsum-in", "utils.py",
  ("            if index_dict.get(i):\n                indstr += index_dict[i]\n            else:\n                index = unused_indices[i[0]].pop(0)\n                index_dict[i] = index\n                indstr += index\n", "            if i not in index_dict:\n                index_dict[i] = unused_indices[i[0]].pop(0)\n            indstr += index_dict[i]\n"))
r("r2-py-einsum-join", "utils.py",
  ("    for t in rhs.tensors():\n        tensor_label_string +=", "    rhs_tensors = rhs.tensors()\n    for t in rhs_tensors:\n        tensor_label_string +="))
r("r2-py-einsum-lhs", "utils.py",
  ("    if (lhs.tensors()[0].upper() != [] or lhs.tensors()[0].lower() != []): # If the lhs is not a scalar\n        left = lhs.tensors()[0].label()\n        left += ''.join([osi.label(_.space()) for _ in lhs.tensors()[0].upper()]) + ''.join([osi.label(_.space()) for _ in lhs.tensors()[0].lower()])\n        res_indx = _get_unique_tensor_indices(lhs.tensors()[0], unused_indices, index_dict)\n        index_string += res_indx\n    else: # If it's scalar, just return the label.\n        left = lhs.tensors()[0].label()\n", "    lhs_tensor = lhs.tensors()[0]\n    left = lhs_tensor.label()\n    if lhs_tensor.upper() or lhs_tensor.lower():  # not a scalar\n        left += ''.join([osi.label(_.space()) for _ in lhs_tensor.upper()]) + ''.join([osi.label(_.space()) for _ in lhs_tensor.lower()])\n        index_string += _get_unique_tensor_indices(lhs_tensor, unused_indices, index_dict)\n"))
