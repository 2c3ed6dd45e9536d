"""Hand-written edits that keep the behaviour: none of them may be reported. Development tool, not read by any check."""
R = []  # (name, file, [(old, new)...])
def r(name, file, *edits): R.append((name, file, list(edits)))

# ---- rational
r("rational-reduce-in-helper", "helpers/rational.cc",
  ("  numerator_ = rhs.denominator_ * numerator_ + rhs.numerator_ * denominator_;\n  denominator_ = rhs.denominator_ * denominator_;\n  reduce();\n  return *this;\n}\n\nrational &rational::operator-=",
   "  const rational_t left = numerator_ * rhs.denominator_;\n  const rational_t right = denominator_ * rhs.numerator_;\n  denominator_ *= rhs.denominator_;\n  numerator_ = left + right;\n  reduce();\n  return *this;\n}\n\nrational &rational::operator-="))
r("rational-ctor-if", "helpers/rational.cc",
  ("  numerator_ = denominator < 0 ? -numerator : numerator;\n  denominator_ = denominator < 0 ? -denominator : denominator;\n",
   "  numerator_ = numerator;\n  denominator_ = denominator;\n  if (denominator_ < 0) {\n    numerator_ = -numerator_;\n    denominator_ = -denominator_;\n  }\n"))
r("rational-str-early-return", "helpers/rational.cc",
  ("  std::string s;\n  if (numerator_ == 0) {\n    s = \"0\";\n  } else {\n    if (sign and (numerator_ > 0)) {", "  std::string s;\n  if (numerator_ == 0) {\n    return \"0\";\n  } else {\n    if (sign and (numerator_ > 0)) {"))
r("rational-eq-flip", "helpers/rational.cc",
  ("  if ((lhs.numerator() == 0) and (rhs.numerator() == 0))\n    return true;\n  return ((lhs.numerator() == rhs.numerator()) and\n          (lhs.denominator() == rhs.denominator()));",
   "  const bool both_zero = (lhs.numerator() == 0) and (rhs.numerator() == 0);\n  const bool same = lhs.numerator() == rhs.numerator() and\n                    lhs.denominator() == rhs.denominator();\n  return both_zero or same;"))
r("rational-parse-order", "helpers/rational.cc",
  ("  if (numerator_str.size() > 0) {\n    numerator *= integer_from_digits(numerator_str);\n  }\n", "  if (not numerator_str.empty()) {\n    numerator = numerator * integer_from_digits(numerator_str);\n  }\n"))
r("rational-div-inplace", "helpers/rational.cc",
  ("  *this = rational(numerator_ * rhs.denominator_,\n                   denominator_ * rhs.numerator_);\n  return *this;",
   "  const rational quotient(numerator_ * rhs.denominator_, denominator_ * rhs.numerator_);\n  numerator_ = quotient.numerator_;\n  denominator_ = quotient.denominator_;\n  return *this;"))
r("rational-latex-sign", "helpers/rational.cc",
  ("      if (numerator_ > 0) {\n        s += \"+\";\n      } else {\n        s += \"-\";\n      }\n", "      s += (numerator_ > 0) ? \"+\" : \"-\";\n"))
# ---- combinatorics
r("factorial-down", "helpers/combinatorics.cc",
  ("  for (long long int i = 2; i <= n; ++i) {\n    result *= i;\n  }\n  return result;\n}\n\n// Returns", "  for (long long int i = 1; i <= n; ++i) {\n    result = result * i;\n  }\n  return result;\n}\n\n// Returns") if False else
  ("  for (long long int i = 2; i <= n; ++i) {\n    result *= i;\n  }\n", "  for (long long int i = n; i > 1; --i) {\n    result *= i;\n  }\n"))
r("factorial-while", "helpers/combinatorics.cc",
  ("  for (long long int i = 2; i <= n; ++i) {\n    result *= i;\n  }\n", "  long long int i = 1;\n  while (i < n) {\n    ++i;\n    result *= i;\n  }\n"))
r("perm-sign-flip", "helpers/combinatorics.cc",
  ("  int sign = 0;\n", "  int sign = 1;\n"), ("        sign += 1;\n", "        sign = -sign;\n"), ("  return (sign % 2 == 0) ? 1 : -1;", "  return sign;"))
r("perm-sign-bool", "helpers/combinatorics.cc",
  ("  int sign = 0;\n", "  bool odd = false;\n"), ("        sign += 1;\n", "        odd = not odd;\n"), ("  return (sign % 2 == 0) ? 1 : -1;", "  return odd ? -1 : 1;"))
r("perm-sign-outer", "helpers/combinatorics.cc",
  ("  for (int i = 0; i < n; i++) {\n    for (int j = i + 1; j < n; ++j) {\n      if (vec[i] > vec[j]) {", "  for (int j = 1; j < n; j++) {\n    for (int i = 0; i < j; ++i) {\n      if (vec[j] < vec[i]) {"))
r("binomial-swap", "helpers/combinatorics.cc",
  ("  if (k * 2 > n)\n    k = n - k;\n", "  k = (n - k < k) ? n - k : k;\n"))
r("partitions-early", "helpers/combinatorics.cc",
  ("  } else if (n == 0) {\n    partitions.push_back({});\n  } else if (n == 1) {\n    partitions.push_back({1});\n  }\n", "  }\n  if (n == 0)\n    partitions.push_back({});\n  if (n == 1)\n    partitions.push_back({1});\n"))
# ---- helpers
r("join-loop", "helpers/helpers.cc",
  ("  std::copy(strvec.begin(), strvec.end() - 1,\n            std::ostream_iterator<std::string>(ss, sep.c_str()));\n  ss << strvec.back();\n", "  bool first = true;\n  for (const auto &s : strvec) {\n    if (not first)\n      ss << sep;\n    ss << s;\n    first = false;\n  }\n"))
r("join-string", "helpers/helpers.cc",
  ("  std::ostringstream ss;\n\n", "  std::string out = strvec[0];\n  for (size_t i = 1; i < strvec.size(); i++) {\n    out += sep;\n    out += strvec[i];\n  }\n  return out;\n"),
  ("  std::copy(strvec.begin(), strvec.end() - 1,\n            std::ostream_iterator<std::string>(ss, sep.c_str()));\n  ss << strvec.back();\n\n  return ss.str();\n", ""))
r("add-to-map-else", "helpers/helpers.h",
  ("  if (search != m.end()) {\n    search->second += value;", "  if (search == m.end()) {\n    m[key] = value;\n  } else {\n    search->second += value;"),
  ("      m.erase(search);\n    }\n  } else {\n    m[key] = value;\n  }", "      m.erase(search);\n    }\n  }"))
r("add-to-map-emplace", "helpers/helpers.h", ("    m[key] = value;", "    m.emplace(key, value);"))
r("add-to-map-count", "helpers/helpers.h",
  ("  auto search = m.find(key);\n\n  // if it is found, then add the value", "  auto search = m.find(key);\n\n  // if found, then add the value"))
r("index-counter-post", "helpers/helpers.h", ("    int index = counter_[i];\n    counter_[i] += 1;\n    return index;", "    return counter_[i]++;"))
r("split-range-ctor", "helpers/helpers.cc",
  ("  std::vector<std::string> result;\n  for (; it != reg_end; ++it) {\n    result.push_back(it->str());\n  }\n  return result;", "  return std::vector<std::string>(it, reg_end);"))
# ---- algebra.hpp
r("algebra-minus-via-add", "helpers/algebra.hpp",
  ("    Derived result;\n    for (const auto &[e, c] : terms()) {\n      result.add(e, -c);\n    }\n    return result;", "    Derived result;\n    for (auto it = terms_.begin(); it != terms_.end(); ++it) {\n      result.add(it->first, -it->second);\n    }\n    return result;"))
r("algebra-dot-count", "helpers/algebra.hpp",
  ("      auto search = rhs.terms().find(e);\n      if (search != rhs.terms().end()) {\n        result += c * search->second;\n      }", "      if (rhs.contains(e)) {\n        result += c * rhs.terms().at(e);\n      }"))
r("algebra-div-guard-swap", "helpers/algebra.hpp",
  ("    for (auto &[e, c] : terms()) {\n      c /= factor;\n    }", "    for (auto &term : terms_) {\n      term.second /= factor;\n    }"))
r("algebra-mul-swap-loops", "helpers/algebra.hpp",
  ("        result.add(e * er, c * cr);", "        const T product = e * er;\n        result.add(product, c * cr);"))
# ---- orbital space
r("osi-index-label-flip", "helpers/orbital_space.cc",
  ("  if (idx < index_labels.size()) {\n    return indices(pos)[idx];\n  }\n  return std::string(1, label(pos)) + \"_{\" + std::to_string(idx) + \"}\";",
   "  if (idx >= index_labels.size()) {\n    return std::string(1, label(pos)) + \"_{\" + std::to_string(idx) + \"}\";\n  }\n  return index_labels[idx];"))
r("osi-add-space-helper", "helpers/orbital_space.cc",
  ("  for (char e : elementary_spaces) {\n    elementary_spaces_int.push_back(e == label ? pos : label_to_space(e));\n  }", "  elementary_spaces_int.reserve(elementary_spaces.size());\n  for (size_t i = 0; i < elementary_spaces.size(); i++) {\n    const char e = elementary_spaces[i];\n    if (e == label) {\n      elementary_spaces_int.push_back(pos);\n    } else {\n      elementary_spaces_int.push_back(label_to_space(e));\n    }\n  }"))
r("osi-add-space-order", "helpers/orbital_space.cc",
  ("  label_to_pos_[label] = pos;\n  indices_to_pos_.insert(new_indices_to_pos.begin(), new_indices_to_pos.end());\n  space_info_.push_back(OrbitalSpace(label, field_type, space_type, indices,\n                                     elementary_spaces_int));",
   "  space_info_.push_back(OrbitalSpace(label, field_type, space_type, indices,\n                                     elementary_spaces_int));\n  for (const auto &kv : new_indices_to_pos) {\n    indices_to_pos_[kv.first] = kv.second;\n  }\n  label_to_pos_[label] = pos;"))
r("osi-str-index", "helpers/orbital_space.cc",
  ("  for (const auto &info : space_info_) {\n    s.push_back(", "  for (size_t n = 0; n < space_info_.size(); n++) {\n    const OrbitalSpace &info = space_info_[n];\n    s.push_back("))
r("string-to-space-find-if", "helpers/orbital_space.cc",
  ("  for (const auto &[space_type, s] : SpaceType_to_str) {\n    if (str == s) {\n      return space_type;\n    }\n  }", "  for (const auto &kv : SpaceType_to_str) {\n    if (kv.second == str)\n      return kv.first;\n  }"))
r("label-to-space-at", "helpers/orbital_space.cc",
  ("  auto search = label_to_pos_.find(label);\n  if (search == label_to_pos_.end()) {", "  if (label_to_pos_.count(label) == 0) {"),
  ("  return search->second;", "  return label_to_pos_.at(label);"))
# ---- index
r("canon-indices-ternary-loop", "algebra/index.cc",
  ("  for (const auto &[n, index] : enumerate(indices)) {\n    idx_pos.push_back(std::make_pair(index, n));\n  }", "  for (int n = 0; n < indices.size(); n++) {\n    idx_pos.emplace_back(indices[n], n);\n  }"))
r("canon-indices-greater", "algebra/index.cc",
  ("    std::sort(idx_pos.rbegin(), idx_pos.rend());", "    std::sort(idx_pos.begin(), idx_pos.end(), std::greater<>());"))
r("make-indices-transform", "algebra/index.cc",
  ("  auto s_split = split_indices(s);\n  for (const auto &subs : s_split) {\n    res.push_back(make_index_from_str(subs));\n  }\n  return res;", "  for (const std::string &piece : split_indices(s)) {\n    const Index index = make_index_from_str(piece);\n    res.push_back(index);\n  }\n  return res;"))
r("remap-ref", "algebra/index.cc",
  ("    int space = idx.space();\n    int index = idx.pos();\n    if (std::find(space_count[space].begin(), space_count[space].end(),\n                  index) != space_count[space].end()) {\n      int last_index = space_count[space].back();\n      result[idx] = Index(space, last_index + 1);\n      space_count[space].push_back(last_index + 1);\n    }",
   "    const int space = idx.space();\n    std::vector<int> &used = space_count[space];\n    const bool found = std::find(used.begin(), used.end(), idx.pos()) != used.end();\n    if (not found)\n      continue;\n    const int next = used.back() + 1;\n    result[idx] = Index(space, next);\n    used.push_back(next);"))
r("symfactor-range", "algebra/index.cc",
  ("  for (int s = 0; s < orbital_subspaces->num_spaces(); ++s) {\n    result *= factorial(idx_per_space[s]);\n  }", "  for (const int n : idx_per_space) {\n    result *= factorial(n);\n  }"))
# ---- tensor
r("tensor-signature-helper", "algebra/tensor.cc",
  ("  for (const Index &idx : upper_) {\n    result.at(idx.space()).first += 1;\n  }\n  for (const Index &idx : lower_) {\n    result.at(idx.space()).second += 1;\n  }", "  for (const Index &idx : lower_) {\n    result.at(idx.space()).second++;\n  }\n  for (const Index &idx : upper_) {\n    result.at(idx.space()).first++;\n  }"))
r("tensor-less-tie", "algebra/tensor.cc",
  ("  if (label_ < other.label_)\n    return true;\n  if (label_ > other.label_)\n    return false;\n  if (lower_ < other.lower_)\n    return true;\n  if (lower_ > other.lower_)\n    return false;\n  return upper_ < other.upper_;", "  return std::tie(label_, lower_, upper_) <\n         std::tie(other.label_, other.lower_, other.upper_);"))
r("tensor-less-neq", "algebra/tensor.cc",
  ("  if (label_ < other.label_)\n    return true;\n  if (label_ > other.label_)\n    return false;\n  if (lower_ < other.lower_)\n    return true;\n  if (lower_ > other.lower_)\n    return false;\n  return upper_ < other.upper_;", "  if (label_ != other.label_)\n    return label_ < other.label_;\n  if (lower_ != other.lower_)\n    return lower_ < other.lower_;\n  return upper_ < other.upper_;"))
r("tensor-reindex-lambda", "algebra/tensor.cc",
  ("  for (Index &idx : upper_) {\n    if (idx_map.count(idx) > 0) {\n      idx = idx_map[idx];\n    }\n  }\n  for (Index &idx : lower_) {\n    if (idx_map.count(idx) > 0) {\n      idx = idx_map[idx];\n    }\n  }", "  auto apply = [&idx_map](std::vector<Index> &indices) {\n    for (Index &idx : indices) {\n      auto it = idx_map.find(idx);\n      if (it != idx_map.end())\n        idx = it->second;\n    }\n  };\n  apply(upper_);\n  apply(lower_);"))
r("tensor-indices-insert", "algebra/tensor.cc",
  ("  std::vector<Index> vec;\n  for (const Index &idx : upper_) {\n    vec.push_back(idx);\n  }\n  for (const Index &idx : lower_) {\n    vec.push_back(idx);\n  }", "  std::vector<Index> vec(upper_);\n  vec.insert(vec.end(), lower_.begin(), lower_.end());"))
r("tensor-canon-order", "algebra/tensor.cc",
  ("  auto upper_indices = this->upper();\n  sign *= canonicalize_indices(upper_indices, false);\n  auto lower_indices = this->lower();\n  sign *= canonicalize_indices(lower_indices, false);\n  this->set_upper(upper_indices);\n  this->set_lower(lower_indices);", "  std::vector<Index> lower_indices = lower_;\n  std::vector<Index> upper_indices = upper_;\n  const scalar_t lower_sign = canonicalize_indices(lower_indices, false);\n  const scalar_t upper_sign = canonicalize_indices(upper_indices, false);\n  sign = upper_sign * lower_sign;\n  lower_ = lower_indices;\n  upper_ = upper_indices;") )
r("tensor-adjoint-ctor", "algebra/tensor.cc",
  ("  result.set_lower(this->lower());\n  result.set_upper(this->upper());\n  result.is_complex_conjugate_ = not this->is_complex_conjugate_;", "  result.is_complex_conjugate_ = not is_complex_conjugate_;"))
r("tensor-str-helper", "algebra/tensor.cc",
  ("  std::vector<std::string> str_vec_upper;\n  std::vector<std::string> str_vec_lower;\n  for (const Index &index : upper_) {\n    str_vec_upper.push_back(index.str());\n  }\n  for (const Index &index : lower_) {\n    str_vec_lower.push_back(index.str());\n  }\n  return (label_ + \"^{\" + join(str_vec_upper, \",\") + \"}_{\" +\n          join(str_vec_lower, \",\") + \"}\");",
   "  auto labels = [](const std::vector<Index> &indices) {\n    std::vector<std::string> res;\n    for (const Index &index : indices)\n      res.push_back(index.str());\n    return join(res, \",\");\n  };\n  std::string s = label_;\n  s += \"^{\" + labels(upper_) + \"}\";\n  s += \"_{\" + labels(lower_) + \"}\";\n  return s;"))
r("tensor-latex-any-of", "algebra/tensor.cc",
  ("  std::string prefix = is_greek_symbol ? \"{\\\\\" : \"{\";\n  std::string subscript =\n      is_greek_symbol\n          ? \"\"\n          : (raw_subscript.size() == 0 ? \"\" : \"_{\" + raw_subscript + \"}\");\n", "  std::string prefix = \"{\";\n  std::string subscript;\n  if (is_greek_symbol) {\n    prefix += \"\\\\\";\n  } else if (not raw_subscript.empty()) {\n    subscript = \"_{\" + raw_subscript + \"}\";\n  }\n"))
r("tensor-compile-empty", "algebra/tensor.cc",
  ("  return (str_vec.size() > 0 ? (label_ + \"[\" + join(str_vec, \",\") + \"]\")\n                             : label_);", "  if (str_vec.empty())\n    return label_;\n  return label_ + \"[\" + join(str_vec, \",\") + \"]\";"))
r("make-tensor-reserve", "algebra/tensor.cc",
  ("  std::vector<Index> lower_indices;\n  for (const auto &l : lower) {\n    lower_indices.emplace_back(make_index_from_str(l));\n  }", "  std::vector<Index> lower_indices;\n  lower_indices.reserve(lower.size());\n  for (size_t i = 0; i < lower.size(); ++i) {\n    lower_indices.push_back(make_index_from_str(lower[i]));\n  }"))
# ---- sqoperator
r("sqop-less-ternary", "algebra/sqoperator.cc",
  ("  // a+_i < a+_j  if i < j\n", "") if False else
  ("  if (is_creation()) {\n    return index() < other.index();\n  }", "  const bool creation = is_creation();\n  if (creation) {\n    return index() < other.index();\n  }"))
r("sqop-commfactor", "algebra/sqoperator.cc",
  ("  if (field_type() == FieldType::Boson and\n      other.field_type() == FieldType::Boson) {\n    return scalar_t(1);\n  }\n  return scalar_t(1);", "  return scalar_t(1);"))
r("sqop-commfactor-ternary", "algebra/sqoperator.cc",
  ("  if (field_type() == FieldType::Fermion and\n      other.field_type() == FieldType::Fermion) {\n    return -scalar_t(1);\n  }", "  const bool fermions = field_type() == FieldType::Fermion and\n                        other.field_type() == FieldType::Fermion;\n  if (fermions)\n    return scalar_t(-1);"))
r("sqop-str-oneline", "algebra/sqoperator.cc",
  ("  std::string s = op_symbol();\n  s += (is_creation() ? \"+\" : \"-\");\n  s += \"(\" + index().str() + \")\";\n  return s;", "  const std::string kind = is_creation() ? \"+\" : \"-\";\n  return op_symbol() + kind + \"(\" + index().str() + \")\";"))
r("sqop-quasi-if", "algebra/sqoperator.cc",
  ("  return space_type() == SpaceType::Occupied ? not is_creation()\n                                             : is_creation();", "  if (space_type() == SpaceType::Occupied)\n    return not is_creation();\n  return is_creation();"))
r("sqop-quasi-xor", "algebra/sqoperator.cc",
  ("  return space_type() == SpaceType::Occupied ? not is_creation()\n                                             : is_creation();", "  return is_creation() != (space_type() == SpaceType::Occupied);"))
r("sqop-reindex-find", "algebra/sqoperator.cc",
  ("  if (idx_map.count(operator_.second) > 0) {\n    operator_.second = idx_map[operator_.second];\n  }", "  const auto found = idx_map.find(operator_.second);\n  if (found != idx_map.end()) {\n    operator_.second = found->second;\n  }"))
r("canon-sqops-two-loops", "algebra/sqoperator.cc",
  ("  for (const auto &[sqop, pos] : sqop_pos) {\n    sqops.push_back(sqop);\n    if (sqop.field_type() == FieldType::Fermion) {\n      perm.push_back(pos);\n    }\n  }", "  for (const auto &sp : sqop_pos) {\n    sqops.push_back(sp.first);\n  }\n  for (const auto &sp : sqop_pos) {\n    if (sp.first.field_type() != FieldType::Fermion)\n      continue;\n    perm.push_back(sp.second);\n  }"))
# ---- symbolic term
r("symterm-sorted-loop", "algebra/symbolic_term.cc",
  ("  return std::is_sorted(operators_.begin(), operators_.end(),\n                        [](const SQOperator &a, const SQOperator &b) {\n                          return a < b;\n                        });", "  return std::is_sorted(operators_.begin(), operators_.end());"))
r("symterm-sorted-explicit", "algebra/symbolic_term.cc",
  ("  return std::is_sorted(operators_.begin(), operators_.end(),\n                        [](const SQOperator &a, const SQOperator &b) {\n                          return b.is_creation() < a.is_creation();\n                        });", "  for (int i = 1; i < nops(); i++) {\n    if (operators_[i].is_creation() and not operators_[i - 1].is_creation())\n      return false;\n  }\n  return true;"))
r("symterm-adjoint-order", "algebra/symbolic_term.cc",
  ("  SymbolicTerm result;\n  result.set_normal_ordered(normal_ordered_);\n  for (const auto &tensor : tensors_) {\n    result.add(tensor.adjoint());\n  }\n  result.add(operators_.adjoint());\n  return result;", "  SymbolicTerm result;\n  result.add(operators_.adjoint());\n  for (size_t t = 0; t < tensors_.size(); t++) {\n    result.add(tensors_[t].adjoint());\n  }\n  result.set_normal_ordered(normal_ordered_);\n  return result;"))
r("symterm-mul-order", "algebra/symbolic_term.cc",
  ("  const auto [ops, normal_ordered] = operator_product(*this, rhs);\n  for (const auto &tensor : rhs.tensors_) {\n    add(tensor);\n  }\n  operators_ = ops;", "  const auto product = operator_product(*this, rhs);\n  operators_ = product.first;\n  tensors_.insert(tensors_.end(), rhs.tensors_.begin(), rhs.tensors_.end());"))
r("symterm-canon-lambda", "algebra/symbolic_term.cc",
  ("    for (const auto &l : tensor.lower()) {\n      if (is_operator_index.count(l) == 0) {\n        if (index_map.count(l) == 0) {\n          index_map[l] = next_index(l.space(), tens_index_count);\n        }\n      } else {\n        if (index_map.count(l) == 0) {\n          index_map[l] = next_index(l.space(), sqop_index_count);\n        }\n      }\n    }",
   "    for (const auto &l : tensor.lower()) {\n      if (index_map.count(l) > 0)\n        continue;\n      if (is_operator_index.count(l) == 0) {\n        index_map[l] = next_index(l.space(), tens_index_count);\n      } else {\n        index_map[l] = next_index(l.space(), sqop_index_count);\n      }\n    }"))
r("symterm-canon-helper", "algebra/symbolic_term.cc",
  ("    for (const auto &l : tensor.lower()) {\n      if (is_operator_index.count(l) == 0) {\n        if (index_map.count(l) == 0) {\n          index_map[l] = next_index(l.space(), tens_index_count);\n        }\n      } else {\n        if (index_map.count(l) == 0) {\n          index_map[l] = next_index(l.space(), sqop_index_count);\n        }\n      }\n    }\n    // loop over the upper indices\n",
   "    auto assign = [&](const Index &idx) {\n      if (index_map.count(idx) != 0)\n        return;\n      auto &count = is_operator_index.count(idx) == 0 ? tens_index_count : sqop_index_count;\n      index_map[idx] = next_index(idx.space(), count);\n    };\n    for (const auto &l : tensor.lower()) {\n      assign(l);\n    }\n"),
  ("      if (is_operator_index.count(u) == 0) {\n        if (index_map.count(u) == 0) {\n          index_map[u] = next_index(u.space(), tens_index_count);\n        }\n      } else {\n        if (index_map.count(u) == 0) {\n          index_map[u] = next_index(u.space(), sqop_index_count);\n        }\n      }", "      assign(u);"))
r("symterm-less-swap", "algebra/symbolic_term.cc",
  ("  if (tensors_ > other.tensors_) {\n    return false;\n  }\n  if (tensors_ < other.tensors_) {\n    return true;\n  }\n  return operators_ < other.operators_;", "  if (tensors_ < other.tensors_)\n    return true;\n  if (other.tensors_ < tensors_)\n    return false;\n  return operators_ < other.operators_;"))
r("symterm-less-eq", "algebra/symbolic_term.cc",
  ("  if (tensors_ > other.tensors_) {\n    return false;\n  }\n  if (tensors_ < other.tensors_) {\n    return true;\n  }\n  return operators_ < other.operators_;", "  if (not(tensors_ == other.tensors_))\n    return tensors_ < other.tensors_;\n  return operators_ < other.operators_;"))
r("symterm-str-nops", "algebra/symbolic_term.cc",
  ("  if (nops()) {\n    if (normal_ordered())\n      str_vec.push_back(\"{\");\n    for (const auto &op : operators_) {\n      str_vec.push_back(op.str());\n    }\n    if (normal_ordered())\n      str_vec.push_back(\"}\");\n  }\n", "  const bool braces = nops() > 0 and normal_ordered();\n  if (braces)\n    str_vec.push_back(\"{\");\n  for (const auto &op : operators_)\n    str_vec.push_back(op.str());\n  if (braces)\n    str_vec.push_back(\"}\");\n"))
r("symterm-latex-insert", "algebra/symbolic_term.cc",
  ("          str_vec_ann.push_back(op.index().latex());\n", "          str_vec_ann.insert(str_vec_ann.begin(), op.index().latex());\n"),
  ("      std::reverse(str_vec_ann.begin(), str_vec_ann.end());\n", ""))
r("symterm-compile-guard", "algebra/symbolic_term.cc",
  ("  if (format == \"ambit\") {\n    std::vector<std::string> str_vec;\n    for (const Tensor &tensor : tensors_) {\n      str_vec.push_back(tensor.compile(format));\n    }\n    if (nops()) {\n      throw std::runtime_error(\"Trying to convert an SymbolicTerm object with \"\n                               \"operator terms to ambit.\");\n    }\n    return (join(str_vec, \" * \"));\n  }\n  return \"\";",
   "  if (format != \"ambit\")\n    return \"\";\n  if (nops() > 0) {\n    throw std::runtime_error(\"Trying to convert an SymbolicTerm object with \"\n                             \"operator terms to ambit.\");\n  }\n  std::vector<std::string> str_vec;\n  for (const Tensor &tensor : tensors_) {\n    str_vec.push_back(tensor.compile(format));\n  }\n  return (join(str_vec, \" * \"));"))
r("symterm-op4-insert", "algebra/symbolic_term.cc",
  ("  Product<SQOperator> result;\n  for (const auto &op : lhs.ops()) {\n    result.push_back(op);\n  }\n  for (const auto &op : rhs.ops()) {\n    result.push_back(op);\n  }\n  return std::make_pair(result, normal_ordered);", "  std::vector<SQOperator> result = lhs.ops();\n  const std::vector<SQOperator> right = rhs.ops();\n  result.insert(result.end(), right.begin(), right.end());\n  return {Product<SQOperator>(result), normal_ordered};"))
r("symterm-op-product-nested", "algebra/symbolic_term.cc",
  ("  if (lhs.is_labeled_normal_ordered() and rhs.is_labeled_normal_ordered()) {\n    return operator_product_1(lhs, rhs);\n  }", "  const bool left = lhs.is_labeled_normal_ordered();\n  const bool right = rhs.is_labeled_normal_ordered();\n  if (not left and not right) {\n    return operator_product_4(lhs, rhs);\n  }\n  if (left and right) {\n    return operator_product_1(lhs, rhs);\n  }"))
r("vno-early-return", "algebra/symbolic_term_normal_order.cc",
  ("  if (is_normal_ordered) {\n    new_terms.push_back({term, c});\n  } else {", "  if (is_normal_ordered) {\n    new_terms.push_back({term, c});\n    return;\n  }\n  {"))
r("vno-cont-loop", "algebra/symbolic_term_normal_order.cc",
  ("        cont_ops.insert(cont_ops.end(), ops.begin(), ops.begin() + pos);\n        cont_ops.insert(cont_ops.end(), ops.begin() + pos + 2, ops.end());", "        for (size_t i = 0; i < ops.size(); i++) {\n          if (i != pos and i != pos + 1)\n            cont_ops.push_back(ops[i]);\n        }"))
r("vno-erase", "algebra/symbolic_term_normal_order.cc",
  ("        std::vector<SQOperator> cont_ops;\n        cont_ops.insert(cont_ops.end(), ops.begin(), ops.begin() + pos);\n        cont_ops.insert(cont_ops.end(), ops.begin() + pos + 2, ops.end());", "        std::vector<SQOperator> cont_ops(ops.begin(), ops.end());\n        cont_ops.erase(cont_ops.begin() + pos, cont_ops.begin() + pos + 2);"))
# ---- expression / equation
r("expr-canon-iter", "algebra/expression.cc",
  ("    SymbolicTerm term = k;\n    scalar_t factor = term.canonicalize();\n    factor *= v;\n    add_to_map(canonical_terms, term, factor);", "    SymbolicTerm term(k);\n    const scalar_t factor = v * term.canonicalize();\n    add_to_map(canonical_terms, term, factor);"))
r("expr-str-helper", "algebra/expression.cc",
  ("      if (n == 0) { // don't show the first element sign unless it's negative\n        factor_str += c.str(false);\n      } else {\n        factor_str += c.str(true);\n      }\n      if ((factor_str != \"\")", "      factor_str = c.str(n != 0);\n      if ((factor_str != \"\")"))
r("expr-str-hoist", "algebra/expression.cc",
  ("    std::string factor_str;\n\n", "    std::string factor_str = c.str(n > 0);\n\n"),
  ("      if (n == 0) { // don't show the first element sign unless it's negative\n        factor_str += c.str(false);\n      } else {\n        factor_str += c.str(true);\n      }\n      if ((factor_str != \"\")", "      if ((factor_str != \"\")"),
  ("      if (n == 0) { // don't show the first element sign unless it's negative\n        factor_str += c.str(false);\n      } else {\n        factor_str += c.str(true);\n      }\n      if (factor_str.size() == 0)", "      if (factor_str.size() == 0)"))
r("expr-mbeq-reverse", "algebra/expression.cc",
  ("        upper.insert(upper.begin(), op.index());\n", "        upper.push_back(op.index());\n"),
  ("    SymbolicTerm lhs;\n    Tensor lhs_tensor(", "    std::reverse(upper.begin(), upper.end());\n    SymbolicTerm lhs;\n    Tensor lhs_tensor("))
r("expr-mbeq-sig-loop", "algebra/expression.cc",
  ("    int pos = 0;\n    for (const auto &[u, l] : signature) {\n      signature_str_upper += std::string(u, orbital_subspaces->label(pos));\n      signature_str_lower += std::string(l, orbital_subspaces->label(pos));\n      pos += 1;\n    }\n", "    for (int pos = 0; pos < signature.size(); pos++) {\n      const char space_label = orbital_subspaces->label(pos);\n      signature_str_upper.append(signature[pos].first, space_label);\n      signature_str_lower.append(signature[pos].second, space_label);\n    }\n"))
r("expr-mbeq-rhs-ctor", "algebra/expression.cc",
  ("    SymbolicTerm rhs;\n    for (const auto &tensor : term.tensors()) {\n      rhs.add(tensor);\n    }\n    result[signature_str].push_back(Equation(lhs, rhs, factor));", "    const SymbolicTerm rhs(false, {}, term.tensors());\n    const Equation equation(lhs, rhs, factor);\n    result[signature_str].push_back(equation);"))
r("expr-makeop-merge", "algebra/expression.cc",
  ("      if (s.size() == 2) {\n        auto idx = Index(space, cre_count[space]);\n        cre.push_back(idx);\n        cre_count[space] += 1;\n      } else {\n        ann_count[space] -= 1;\n        auto idx = Index(space, ann_count[space]);\n        ann.push_back(idx);\n      }", "      const bool creation = s.size() == 2;\n      if (creation) {\n        cre.push_back(Index(space, cre_count[space]++));\n      } else {\n        ann.push_back(Index(space, --ann_count[space]));\n      }"))
r("expr-make-loop", "algebra/expression.cc",
  ("    SQOperatorType type = operators[n] == \"+\" ? SQOperatorType::Creation\n                                              : SQOperatorType::Annihilation;\n    Index index = make_index_from_str(operators[n + 1]);\n    term.add(SQOperator(type, index));", "    SQOperatorType type = SQOperatorType::Annihilation;\n    if (operators[n] == \"+\")\n      type = SQOperatorType::Creation;\n    term.add(SQOperator(type, make_index_from_str(operators[n + 1])));"))
r("expr-reindex-struct", "algebra/expression.cc",
  ("  for (auto &kv : terms_) {\n    SymbolicTerm term = kv.first;\n    term.reindex(idx_map);\n    add_to_map(reindexed_terms, term, kv.second);\n  }\n  terms_ = reindexed_terms;", "  for (const auto &[symterm, c] : terms_) {\n    SymbolicTerm copy = symterm;\n    copy.reindex(idx_map);\n    add_to_map(reindexed_terms, copy, c);\n  }\n  terms_.swap(reindexed_terms);"))
r("expr-adjoint-iter", "algebra/expression.cc",
  ("  for (const auto &[e, c] : terms_) {\n    expr.add(e.adjoint(), c);\n  }", "  for (const auto &term : terms()) {\n    const SymbolicTerm conj = term.first.adjoint();\n    expr.add(conj, term.second);\n  }"))
r("expr-eq-map", "algebra/expression.cc",
  ("  return (terms_.size() == other.terms_.size()) and\n         std::equal(terms_.begin(), terms_.end(), other.terms_.begin());", "  return terms_ == other.terms_;"))
r("eq-str-concat", "algebra/equation.cc",
  ("  std::vector<std::string> str_vec;\n  str_vec.push_back(lhs_.str());\n  str_vec.push_back(\"+=\");\n  str_vec.push_back(factor_.str());\n  str_vec.push_back(rhs_.str());\n  return (join(str_vec, \" \"));", "  return lhs_.str() + \" += \" + factor_.str() + \" \" + rhs_.str();"))
r("eq-unique-index-nested", "algebra/equation.cc",
  ("    if (s.size() == 1) {\n      if (std::find(unused_indices.begin(), unused_indices.end(), s) !=\n          unused_indices.end()) {\n        index_map[s] = s;\n      } else {\n        index_map[s] = unused_indices.back();\n      }\n    } else {\n      index_map[s] = unused_indices.back();\n    }", "    const bool available =\n        s.size() == 1 and std::find(unused_indices.begin(), unused_indices.end(),\n                                    s) != unused_indices.end();\n    index_map[s] = available ? s : unused_indices.back();"))
r("eq-unique-index-early", "algebra/equation.cc",
  ("  if (index_map.count(s) == 0) {\n    if (unused_indices.empty()) {", "  if (index_map.count(s) > 0)\n    return index_map[s];\n  {\n    if (unused_indices.empty()) {"))
r("eq-compile-label-lambda", "algebra/equation.cc",
  ("    std::string lhs_tensor_label = lhs_tensor.label();\n    for (const auto &l : lhs_tensor.upper()) {\n      lhs_tensor_label += orbital_subspaces->label(l.space());\n    }\n    for (const auto &l : lhs_tensor.lower()) {\n      lhs_tensor_label += orbital_subspaces->label(l.space());\n    }", "    auto spaces = [](const Tensor &t) {\n      std::string res;\n      for (const auto &l : t.upper())\n        res += orbital_subspaces->label(l.space());\n      for (const auto &l : t.lower())\n        res += orbital_subspaces->label(l.space());\n      return res;\n    };\n    std::string lhs_tensor_label = lhs_tensor.label() + spaces(lhs_tensor);"),
  ("      std::string t_label = t.label() + \"[\\\"\";\n      for (const auto &l : t.upper()) {\n        t_label += orbital_subspaces->label(l.space());\n      }\n      for (const auto &l : t.lower()) {\n        t_label += orbital_subspaces->label(l.space());\n      }\n      t_label += \"\\\"]\";\n      args_vec.push_back(t_label);", "      args_vec.push_back(t.label() + \"[\\\"\" + spaces(t) + \"\\\"]\");"))
r("eq-equal-order", "algebra/equation.cc",
  ("  return ((lhs() == other.lhs()) and (rhs() == other.rhs()) and\n          (rhs_factor() == other.rhs_factor()));", "  if (factor_ != other.factor_)\n    return false;\n  return lhs_ == other.lhs_ and rhs_ == other.rhs_;"))
r("term-str-cases", "algebra/term.cc",
  ("  if ((term_str == \"\") and (coeff_str == \"\")) {\n    return \"1\";\n  } else if ((term_str == \"\") and (coeff_str != \"\")) {\n    return coeff_str;\n  } else if ((term_str != \"\") and (coeff_str == \"\")) {\n    return term_str;\n  }\n  return coeff_str + \" \" + term_str;", "  if (term_str.empty()) {\n    return coeff_str.empty() ? \"1\" : coeff_str;\n  }\n  if (coeff_str.empty())\n    return term_str;\n  return coeff_str + \" \" + term_str;"))
# ---- diagrams
r("gm-num-ops-accumulate", "diagrams/graph_matrix.cc",
  ("  int r = 0;\n  for (const auto &pair : elements_) {\n    r += pair.first + pair.second;\n  }\n  return r;", "  return std::accumulate(elements_.begin(), elements_.end(), 0,\n                         [](int n, const std::pair<int, int> &p) {\n                           return n + p.first + p.second;\n                         });"))
r("gm-adjoint-swap", "diagrams/graph_matrix.cc",
  ("  std::vector<int> cre_v(orbital_subspaces->num_spaces(), 0);\n  std::vector<int> ann_v(orbital_subspaces->num_spaces(), 0);\n  for (int s = 0; s < orbital_subspaces->num_spaces(); ++s) {\n    cre_v[s] = ann(s);\n    ann_v[s] = cre(s);\n  }", "  std::vector<int> cre_v, ann_v;\n  const int nspaces = orbital_subspaces->num_spaces();\n  for (int s = 0; s < nspaces; ++s) {\n    cre_v.push_back(ann(s));\n    ann_v.push_back(cre(s));\n  }"))
r("gm-minus-via-setters", "diagrams/graph_matrix.cc",
  ("    elements_.at(s).first -= rhs.elements_.at(s).first;\n    elements_.at(s).second -= rhs.elements_.at(s).second;", "    auto &mine = elements_.at(s);\n    const auto &other = rhs.elements_.at(s);\n    mine.first = mine.first - other.first;\n    mine.second = mine.second - other.second;"))
r("gm-ctor-loop", "diagrams/graph_matrix.cc",
  ("    elements_.at(i) = std::make_pair(cre.at(i), ann.at(i));", "    elements_.at(i).first = cre.at(i);\n    elements_.at(i).second = ann.at(i);"))
r("gm-str-insert", "diagrams/graph_matrix.cc",
  ("    for (int i = 0; i < cre(s); ++i) {\n      std::string op_s(1, orbital_subspaces->label(s));\n      cv.push_back(op_s + \"+\");\n    }", "    const std::string op_s = std::string(1, orbital_subspaces->label(s)) + \"+\";\n    cv.insert(cv.end(), cre(s), op_s);"))
r("gm-signature-append", "diagrams/graph_matrix.cc",
  ("  std::string str;\n  for (int s = 0; s < orbital_subspaces->num_spaces(); ++s) {\n    str += std::to_string(graph_matrix.cre(s));\n  }\n  for (int s = 0; s < orbital_subspaces->num_spaces(); ++s) {\n    str += to_string(graph_matrix.ann(s));\n  }\n  return str;", "  std::string cre_str, ann_str;\n  for (int s = 0; s < orbital_subspaces->num_spaces(); ++s) {\n    cre_str += std::to_string(graph_matrix.cre(s));\n    ann_str += std::to_string(graph_matrix.ann(s));\n  }\n  return cre_str + ann_str;"))
r("op-factor-one-loop", "diagrams/operator.cc",
  ("  for (int s = 0; s < orbital_subspaces->num_spaces(); ++s) {\n    result /= static_cast<scalar_t>(factorial(cre(s)));\n  }\n  for (int s = 0; s < orbital_subspaces->num_spaces(); ++s) {\n    result /= static_cast<scalar_t>(factorial(ann(s)));\n  }", "  for (int s = 0; s < orbital_subspaces->num_spaces(); ++s) {\n    result /= static_cast<scalar_t>(factorial(cre(s)));\n    result /= static_cast<scalar_t>(factorial(ann(s)));\n  }"))
r("op-factor-product", "diagrams/operator.cc",
  ("    result /= static_cast<scalar_t>(factorial(cre(s)));\n  }\n  for (int s = 0; s < orbital_subspaces->num_spaces(); ++s) {\n    result /= static_cast<scalar_t>(factorial(ann(s)));\n  }\n  return result;", "    result *= scalar_t(1, factorial(cre(s)));\n    result *= scalar_t(1, factorial(ann(s)));\n  }\n  return result;"))
r("op-less-neq", "diagrams/operator.cc",
  ("  if (label_ < other.label_)\n    return true;\n  if (label_ > other.label_)\n    return false;\n  return graph_matrix_ < other.graph_matrix_;", "  if (label_ != other.label_)\n    return label_ < other.label_;\n  return graph_matrix_ < other.graph_matrix_;"))
r("op-less-tie", "diagrams/operator.cc",
  ("  if (label_ < other.label_)\n    return true;\n  if (label_ > other.label_)\n    return false;\n  return graph_matrix_ < other.graph_matrix_;", "  return std::make_pair(label_, graph_matrix_) < std::make_pair(other.label_, other.graph_matrix_);"))
r("op-neq-not", "diagrams/operator.cc",
  ("  return ((label_ != other.label_) or (graph_matrix_ != other.graph_matrix_));", "  return not(*this == other);"))
r("op-commute-early", "diagrams/operator.cc",
  ("  int noncommuting = 0;\n  for (int s = 0; s < orbital_subspaces->num_spaces(); s++) {\n    noncommuting += a.ann(s) * b.cre(s) + a.cre(s) * b.ann(s);\n  }\n  return noncommuting == 0;", "  int left = 0, right = 0;\n  for (int s = 0; s < orbital_subspaces->num_spaces(); s++) {\n    left += a.ann(s) * b.cre(s);\n    right += a.cre(s) * b.ann(s);\n  }\n  return left + right == 0;"))
r("op-noncomm-and", "diagrams/operator.cc",
  ("  if (do_operators_commute(a, b)) {\n    return (a < b);\n  }\n  return false;", "  return do_operators_commute(a, b) and a < b;"))
r("op-make-diag-lambda", "diagrams/operator.cc",
  ("  for (const auto &l : cre_labels) {\n    int space = orbital_subspaces->label_to_space(l);\n    cre[space] += 1;\n  }\n  for (const auto &l : ann_labels) {\n    int space = orbital_subspaces->label_to_space(l);\n    ann[space] += 1;\n  }", "  auto count = [](const std::vector<char> &labels, std::vector<int> &numbers) {\n    for (const char l : labels)\n      numbers[orbital_subspaces->label_to_space(l)] += 1;\n  };\n  count(cre_labels, cre);\n  count(ann_labels, ann);"))
r("op-str-string", "diagrams/operator.cc",
  ("  if (factor() != scalar_t(1)) {\n    s.push_back(factor().str(false));\n  }", "  const scalar_t f = factor();\n  if (not(f == scalar_t(1))) {\n    s.push_back(f.str(false));\n  }"))
r("oe-diag-if", "diagrams/operator_expression.cc",
  ("    if (unique and result.contains({op})) {\n      continue;\n    }\n    result.add({op}, scalar_t(1, 1));", "    const OperatorProduct product({op});\n    if (not unique or not result.contains(product)) {\n      result.add(product, scalar_t(1));\n    }"))
r("oe-canon-iter", "diagrams/operator_expression.cc",
  ("  for (auto [prod, scalar] : terms_) {\n    auto newprod = prod;\n    const auto sign = newprod.canonicalize();\n    add_to_map(canonical, newprod, sign * scalar);\n  }", "  for (auto it = terms_.begin(); it != terms_.end(); ++it) {\n    OperatorProduct product = it->first;\n    scalar_t c = product.canonicalize();\n    c *= it->second;\n    add_to_map(canonical, product, c);\n  }"))
r("oe-bch-split", "diagrams/operator_expression.cc",
  ("  OperatorExpression result;\n  result += A;\n  OperatorExpression temp(A);\n\n  for (int k = 1; k <= n; k++) {\n    OperatorExpression comm = commutator(temp, B);\n    comm *= scalar_t(1, k);\n    result += comm;\n    temp = comm;\n  }", "  OperatorExpression result = A;\n  OperatorExpression nested = A;\n\n  for (int k = 0; k < n; ++k) {\n    nested = commutator(nested, B);\n    nested *= scalar_t(1, k + 1);\n    result += nested;\n  }"))
r("oe-commutator-vars", "diagrams/operator_expression.cc",
  ("  return A * B - B * A;", "  OperatorExpression result = A * B;\n  result -= B * A;\n  return result;"))
r("op-product-canon-sign", "diagrams/operator_product.cc",
  ("  int nperm = 0;\n", "  scalar_t sign(1);\n"), ("        nperm += elements_[j].num_ops() * elements_[j + 1].num_ops();\n", "        if ((elements_[j].num_ops() * elements_[j + 1].num_ops()) % 2 != 0)\n          sign *= -1;\n"),
  ("  return nperm % 2 == 0 ? scalar_t(1, 1) : scalar_t(-1, 1);", "  return sign;"))
r("op-product-canon-if", "diagrams/operator_product.cc",
  ("  return nperm % 2 == 0 ? scalar_t(1, 1) : scalar_t(-1, 1);", "  if (nperm % 2 == 1)\n    return scalar_t(-1);\n  return scalar_t(1);"))
r("op-product-mul", "diagrams/operator_product.cc",
  ("  OperatorProduct result;\n  for (const auto &e : l) {\n    result.push_back(e);\n  }\n  for (const auto &e : r) {\n    result.push_back(e);\n  }\n  return result;", "  OperatorProduct result(l);\n  result *= r;\n  return result;"))
r("contraction-spaces-num-ops", "diagrams/contraction.cc",
  ("      if (graph_matrix.ann(s) + graph_matrix.cre(s) > 0) {", "      if (graph_matrix.num_ops(s) > 0) {"))
r("contraction-num-ops-loop", "diagrams/contraction.cc",
  ("  return std::accumulate(elements_.begin(), elements_.end(), 0,\n                         [&](int a, const auto &b) { return a + b.num_ops(); });", "  int total = 0;\n  for (const auto &graph_matrix : elements_)\n    total += graph_matrix.num_ops();\n  return total;"))
# ---- wick theorem
r("wt-contract-loop", "diagrams/wick_theorem.cc",
  ("  for (const auto &[ops, f] : expr.terms()) {\n    result += contract(factor * f, ops, minrank, maxrank);\n  }", "  for (const auto &term : expr.terms()) {\n    const scalar_t scaled = factor * term.second;\n    const Expression part = contract(scaled, term.first, minrank, maxrank);\n    result += part;\n  }"))
r("wt-contract-clear-order", "diagrams/wick_theorem.cc",
  ("  ncontractions_ = 0;\n  contractions_.clear();\n  elementary_contractions_.clear();\n", "  elementary_contractions_.clear();\n  contractions_.clear();\n  ncontractions_ = 0;\n"))
r("wt-contract-if", "diagrams/wick_theorem.cc",
  ("  Expression result =\n      single_threaded_\n          ? process_contractions(factor, ops, minrank, maxrank)\n          : process_contractions_threads(factor, ops, minrank, maxrank);", "  Expression result;\n  if (single_threaded_) {\n    result = process_contractions(factor, ops, minrank, maxrank);\n  } else {\n    result = process_contractions_threads(factor, ops, minrank, maxrank);\n  }"))
r("wt-elem-switch", "diagrams/wick_theorem_elementary_contractions.cc",
  ("    if (space_type == SpaceType::Occupied) {\n      elementary_contractions_occupied(ops, s, contr_vec);\n    }\n", "    switch (space_type) {\n    case SpaceType::Occupied:\n      elementary_contractions_occupied(ops, s, contr_vec);\n      break;\n    default:\n      break;\n    }\n"))
r("wt-elem-elseif", "diagrams/wick_theorem_elementary_contractions.cc",
  ("      elementary_contractions_occupied(ops, s, contr_vec);\n    }\n\n", "      elementary_contractions_occupied(ops, s, contr_vec);\n    } else\n"))
r("wt-elem-occ-continue", "diagrams/wick_theorem_elementary_contractions.cc",
  ("      if (ops[l].cre(s) * ops[r].ann(s) > 0) { // is contraction viable?", "      const bool viable = ops[l].cre(s) > 0 and ops[r].ann(s) > 0;\n      if (viable) { // is contraction viable?"))
r("wt-elem-occ-hoist", "diagrams/wick_theorem_elementary_contractions.cc",
  ("      if (ops[l].cre(s) * ops[r].ann(s) > 0) { // is contraction viable?\n        std::vector<GraphMatrix> new_contr(nops);\n        new_contr[l].set_cre(s, 1);\n        new_contr[r].set_ann(s, 1);", "      if (not(ops[l].cre(s) * ops[r].ann(s) > 0))\n        continue;\n      {\n        std::vector<GraphMatrix> new_contr(nops);\n        new_contr[r].set_ann(s, 1);\n        new_contr[l].set_cre(s, 1);"))
r("wt-elem-gen-compat", "diagrams/wick_theorem_elementary_contractions.cc",
  ("          if (ops[A].cre(s) < perm[A]) {\n            cre_compatible = false;\n          }\n          if (ops[A].ann(s) < perm[A]) {\n            ann_compatible = false;\n          }", "          cre_compatible = cre_compatible and ops[A].cre(s) >= perm[A];\n          ann_compatible = ann_compatible and ops[A].ann(s) >= perm[A];"))
r("wt-elem-gen-max", "diagrams/wick_theorem_elementary_contractions.cc",
  ("  int max_half_legs = std::min(std::min(sumcre, sumann), maxcumulant_);", "  int max_half_legs = maxcumulant_;\n  if (sumcre < max_half_legs)\n    max_half_legs = sumcre;\n  if (sumann < max_half_legs)\n    max_half_legs = sumann;"))
r("wt-elem-gen-ref", "diagrams/wick_theorem_elementary_contractions.cc",
  ("    for (const auto cre_legs : cre_legs_vec) {\n      for (const auto ann_legs : ann_legs_vec) {", "    for (const auto &cre_legs : cre_legs_vec) {\n      for (const auto &ann_legs : ann_legs_vec) {"))
r("wt-elem-gen-count", "diagrams/wick_theorem_elementary_contractions.cc",
  ("          nops_contracted += (cre_legs[A] + ann_legs[A] > 0);\n        }\n        if (nops_contracted < 2)\n          continue;", "          if (cre_legs[A] + ann_legs[A] > 0)\n            nops_contracted += 1;\n        }\n        if (not(nops_contracted > 1))\n          continue;"))
r("wt-candidates-break", "diagrams/wick_theorem_composite_contractions.cc",
  ("        if (free_graph_matrix_vec[A].cre(s) < el_contr[A].cre(s)) {\n          is_valid_contraction = false;\n        }\n        if (free_graph_matrix_vec[A].ann(s) < el_contr[A].ann(s)) {\n          is_valid_contraction = false;\n        }", "        if (free_graph_matrix_vec[A].cre(s) < el_contr[A].cre(s) or\n            free_graph_matrix_vec[A].ann(s) < el_contr[A].ann(s)) {\n          is_valid_contraction = false;\n          break;\n        }"))
r("wt-candidates-helper", "diagrams/wick_theorem_composite_contractions.cc",
  ("    bool is_valid_contraction = true;\n    for (int A = 0; A < nops; A++) {\n      for (int s = 0; s < orbital_subspaces->num_spaces(); s++) {\n        if (free_graph_matrix_vec[A].cre(s) < el_contr[A].cre(s)) {\n          is_valid_contraction = false;\n        }\n        if (free_graph_matrix_vec[A].ann(s) < el_contr[A].ann(s)) {\n          is_valid_contraction = false;\n        }\n      }\n    }", "    const bool is_valid_contraction = contraction_fits(free_graph_matrix_vec, el_contr);"),
  ("std::vector<int> WickTheorem::construct_candidates(", "static bool contraction_fits(const std::vector<GraphMatrix> &available,\n                             const ElementaryContraction &contraction) {\n  const int nops = available.size();\n  for (int A = 0; A < nops; A++) {\n    for (int s = 0; s < orbital_subspaces->num_spaces(); s++) {\n      if (available[A].cre(s) < contraction[A].cre(s))\n        return false;\n      if (available[A].ann(s) < contraction[A].ann(s))\n        return false;\n    }\n  }\n  return true;\n}\n\nstd::vector<int> WickTheorem::construct_candidates("))
r("wt-moves-order", "diagrams/wick_theorem_composite_contractions.cc",
  ("  a[k - 1] = c;\n", ""), ("    free_graph_matrix_vec[A] -= el_contr[A];\n  }", "    free_graph_matrix_vec[A] -= el_contr[A];\n  }\n  a[k - 1] = c;"))
r("wt-backtrack-next", "diagrams/wick_theorem_composite_contractions.cc",
  ("  k = k + 1;\n", "  ++k;\n"),
  ("  for (const auto &c : candidates) {\n", "  for (size_t n = 0; n < candidates.size(); n++) {\n    const int c = candidates[n];\n"))
r("wt-process-guard", "diagrams/wick_theorem_composite_contractions.cc",
  ("    contractions_.push_back(std::vector<int>(a.begin(), a.begin() + k));\n    ncontractions_++;", "    std::vector<int> found;\n    for (int i = 0; i < k; i++)\n      found.push_back(a[i]);\n    ncontractions_ += 1;\n    contractions_.push_back(found);"))
r("wt-single-guard", "diagrams/wick_theorem_process_contractions.cc",
  ("  int term_rank = ops_rank - contr_rank;\n\n  if ((term_rank >= minrank) and (term_rank <= maxrank)) {\n\n", "  const int term_rank = ops_rank - contr_rank;\n  if (term_rank < minrank or term_rank > maxrank)\n    return result;\n\n  {\n") )
r("wt-eval-signs", "diagrams/wick_theorem_process_contractions.cc",
  ("      unoccupied_sign *= -1; // this factor is to compensate for the fact that", "      unoccupied_sign = -unoccupied_sign; // this factor is to compensate for the fact that"))
r("wt-eval-factor-order", "diagrams/wick_theorem_process_contractions.cc",
  ("  for (const auto &tensor : tensors) {\n    term.add(tensor);\n  }\n  for (const auto &sqop : sqops) {\n    term.add(sqop);\n  }\n  for (const auto &op : ops) {\n    factor *= op.factor();\n  }", "  for (const auto &op : ops) {\n    factor *= op.factor();\n  }\n  for (const auto &sqop : sqops) {\n    term.add(sqop);\n  }\n  for (const auto &tensor : tensors) {\n    term.add(tensor);\n  }"))
r("wt-eval-elseif", "diagrams/wick_theorem_process_contractions.cc",
  ("    if (dmstruc == SpaceType::General) {", "    else if (dmstruc == SpaceType::General) {") if False else
  ("      std::reverse(lower.begin(), lower.end());\n      std::string label;\n      if (rank == 2) {\n        if (pos_cre_sqops[0] < pos_ann_sqops[0]) {\n          label = \"gamma1\";\n        } else {\n          label = \"eta1\";", "      std::reverse(lower.begin(), lower.end());\n      std::string label;\n      if (rank == 2) {\n        const bool creation_first = pos_cre_sqops[0] < pos_ann_sqops[0];\n        if (creation_first) {\n          label = \"gamma1\";\n        } else {\n          label = \"eta1\";"))
r("wt-eval-sorted-index", "diagrams/wick_theorem_process_contractions.cc",
  ("  sorted_position = 0;\n  for (const auto &sqop : sqops) {\n    sorted_sqops.push_back(std::make_pair(sign_order[sorted_position], sqop));\n    sorted_position += 1;\n  }", "  for (int i = 0; i < sqops.size(); i++) {\n    sorted_sqops.push_back(std::make_pair(sign_order[i], sqops[i]));\n  }"))
r("wt-eval-no-bitmap", "diagrams/wick_theorem_process_contractions.cc",
  ("    for (int c : pos_cre_sqops) {\n      bit_map[c] = true;\n      sign_order[c] = sorted_position;\n      sorted_position += 1;\n    }", "    for (int c : pos_cre_sqops) {\n      bit_map[c] = true;\n      sign_order[c] = sorted_position++;\n    }"))
r("wt-pos-key", "diagrams/wick_theorem_process_contractions.cc",
  ("      auto key =\n          creation\n              ? std::make_tuple(v, s, true,\n                                ops_off + i) // start from the leftmost operator\n              : std::make_tuple(v, s, false, ops_off + i);", "      const auto key = std::make_tuple(v, s, creation, ops_off + i);"))
r("wt-pos-find", "diagrams/wick_theorem_process_contractions.cc",
  ("      if (op_map.count(key) == 0) {", "      const auto found = op_map.find(key);\n      if (found == op_map.end()) {"),
  ("        int sqop_pos = op_map[key];", "        int sqop_pos = found->second;"))
r("wt-comb-iter", "diagrams/wick_theorem_process_contractions.cc",
  ("  for (const auto &kv : contraction_count) {\n    factor /= factorial(kv.second);\n  }", "  for (const auto &[el_contraction, multiplicity] : contraction_count) {\n    factor /= factorial(multiplicity);\n  }"))
r("wt-comb-plusplus", "diagrams/wick_theorem_process_contractions.cc",
  ("    contraction_count[contraction] += 1;", "    ++contraction_count[contraction];"))
r("wt-tensors-n", "diagrams/wick_theorem_process_contractions.cc",
  ("        auto key = std::make_tuple(o, s, true, c);\n        op_map[key] = n;", "        const int position = n;\n        op_map[std::make_tuple(o, s, true, c)] = position;\n        auto key = std::make_tuple(o, s, true, c);"))
r("wt-tensors-size", "diagrams/wick_theorem_process_contractions.cc",
  ("        Index idx(s, ic.next_index(s)); // get next available index\n        sqops.push_back(SQOperator(SQOperatorType::Creation, idx));\n        lower.push_back(idx);", "        const Index idx(s, ic.next_index(s)); // get next available index\n        lower.push_back(idx);\n        sqops.push_back(SQOperator(SQOperatorType::Creation, idx));"))
r("wt-tensors-insert-front", "diagrams/wick_theorem_process_contractions.cc",
  ("        upper.push_back(idx);\n", "        upper.insert(upper.begin(), idx);\n"), ("    std::reverse(upper.begin(), upper.end());\n    tensors.push_back(", "    tensors.push_back("))
r("wt-sig-vars", "diagrams/wick_theorem_process_contractions.cc",
  ("    s += ops[ops_perm[i]].label();\n    s += signature(ops[ops_perm[i]].graph_matrix());", "    const auto &op = ops[ops_perm[i]];\n    s += op.label() + signature(op.graph_matrix());"))
r("cg-commute-early", "diagrams/wick_theorem_canonicalize_graph.cc",
  ("        if (el_contr[i].cre(s) * el_contr[j].ann(s) > 0) {\n          do_commute = false;\n        }\n        if (el_contr[i].ann(s) * el_contr[j].cre(s) > 0) {\n          do_commute = false;\n        }", "        if (el_contr[i].cre(s) * el_contr[j].ann(s) > 0 or\n            el_contr[i].ann(s) * el_contr[j].cre(s) > 0) {\n          return false;\n        }"))
r("cg-commute-hoist", "diagrams/wick_theorem_canonicalize_graph.cc",
  ("    for (int s = 0; s < orbital_subspaces->num_spaces(); ++s) {\n      if (el_contr.num_ops() == 2) {", "    if (el_contr.num_ops() != 2)\n      continue;\n    for (int s = 0; s < orbital_subspaces->num_spaces(); ++s) {\n      {"))
r("cg-perm-sign", "diagrams/wick_theorem_canonicalize_graph.cc",
  ("          sign *= 1 - 2 * ((ops[ops_perm[j + 1]].num_ops() *\n                            ops[ops_perm[j]].num_ops()) %\n                           2);", "          const int exchanged = ops[ops_perm[j + 1]].num_ops() * ops[ops_perm[j]].num_ops();\n          if (exchanged % 2 == 1)\n            sign *= -1;"))
r("cg-perm-guard", "diagrams/wick_theorem_canonicalize_graph.cc",
  ("        if (permutable[ops_perm[j + 1]][ops_perm[j]]) {\n          sign *=", "        if (not permutable[ops_perm[j + 1]][ops_perm[j]]) {\n          return std::pair(false, scalar_t(1));\n        } else {\n          sign *="),
  ("          swap(ops_perm[j], ops_perm[j + 1]);\n        } else {\n          return std::pair(false, scalar_t(1));\n        }", "          std::swap(ops_perm[j], ops_perm[j + 1]);\n        }"))
r("cg-assign-bool", "diagrams/wick_theorem_canonicalize_graph.cc",
  ("      if (do_contractions_commute(i, j, ops, contractions)) {\n        commutable[i][j] = true;\n      }", "      commutable[i][j] = do_contractions_commute(i, j, ops, contractions);"))
r("cg-graphs-index", "diagrams/wick_theorem_canonicalize_graph.cc",
  ("  for (const auto &[o, ops_perm] : enumerate(ops_perms)) {\n    for (const auto &[c, con_perm] : enumerate(con_perms)) {\n      graphs.push_back(std::pair(o, c));\n    }\n  }", "  for (int o = 0; o < (int)ops_perms.size(); o++) {\n    for (int c = 0; c < (int)con_perms.size(); c++) {\n      graphs.push_back(std::pair<int, int>(o, c));\n    }\n  }"))
r("cg-minelement", "diagrams/wick_theorem_canonicalize_graph.cc",
  ("  const auto [canonical_ops_perm_idx, canonical_contr_perm_idx] = graphs[0];\n", "  const auto best_graph = graphs.front();\n  const int canonical_ops_perm_idx = best_graph.first;\n  const int canonical_contr_perm_idx = best_graph.second;\n"))
r("cg-canon-ref", "diagrams/wick_theorem_canonicalize_graph.cc",
  ("  OperatorProduct canonical_ops;\n  for (int o : ops_perms[canonical_ops_perm_idx]) {\n    canonical_ops.push_back(ops[o]);\n  }\n", "  const std::vector<int> &best_ops_perm = ops_perms[canonical_ops_perm_idx];\n  OperatorProduct canonical_ops;\n  for (size_t i = 0; i < best_ops_perm.size(); i++) {\n    canonical_ops.push_back(ops[best_ops_perm[i]]);\n  }\n"))
r("cg-less-helper", "diagrams/wick_theorem_canonicalize_graph.cc",
  ("    if (ops[l_ops_perm[i]] < ops[r_ops_perm[i]]) {\n      return true;\n    }\n    if (ops[r_ops_perm[i]] < ops[l_ops_perm[i]]) {\n      return false;\n    }", "    const auto &l_op = ops[l_ops_perm[i]];\n    const auto &r_op = ops[r_ops_perm[i]];\n    const bool less = l_op < r_op;\n    if (less or r_op < l_op) {\n      return less;\n    }"))
