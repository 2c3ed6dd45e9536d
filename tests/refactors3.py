"""A third batch of hand-written edits that keep the behaviour (written without looking at the rules). Development tool."""
R = []
def r(name, file, *edits): R.append((name, file, list(edits)))
H = "helpers/"; A = "algebra/"; D = "diagrams/"
# ---- rational
r("r3-eq-pair", H + "rational.cc",
  ("  if ((lhs.numerator() == 0) and (rhs.numerator() == 0))\n    return true;\n  return ((lhs.numerator() == rhs.numerator()) and\n          (lhs.denominator() == rhs.denominator()));",
   "  const bool both_zero = lhs.numerator() == 0 && rhs.numerator() == 0;\n  const bool same_num = lhs.numerator() == rhs.numerator();\n  const bool same_den = lhs.denominator() == rhs.denominator();\n  return both_zero || (same_num && same_den);"))
r("r3-eq-cross", H + "rational.cc",
  ("  return ((lhs.numerator() == rhs.numerator()) and\n          (lhs.denominator() == rhs.denominator()));",
   "  return lhs.numerator() * rhs.denominator() == rhs.numerator() * lhs.denominator();"))
r("r3-add-ctor", H + "rational.cc",
  ("  numerator_ = rhs.denominator_ * numerator_ + rhs.numerator_ * denominator_;\n  denominator_ = rhs.denominator_ * denominator_;\n  reduce();\n  return *this;",
   "  *this = rational(numerator_ * rhs.denominator_ + denominator_ * rhs.numerator_, denominator_ * rhs.denominator_);\n  return *this;"))
r("r3-add-binary", H + "rational.cc",
  ("rational operator+(rational lhs, const rational &rhs) {\n  lhs += rhs;\n  return lhs;", "rational operator+(rational lhs, const rational &rhs) {\n  rational sum(lhs);\n  sum += rhs;\n  return sum;"))
r("r3-sub-binary", H + "rational.cc",
  ("rational operator-(rational lhs, const rational &rhs) {\n  lhs -= rhs;\n  return lhs;", "rational operator-(rational lhs, const rational &rhs) {\n  return lhs += -rhs;"))
r("r3-mul-binary", H + "rational.cc",
  ("rational operator*(rational lhs, const rational &rhs) {\n  lhs *= rhs;\n  return lhs;", "rational operator*(rational lhs, const rational &rhs) {\n  return rational(lhs.numerator() * rhs.numerator(), lhs.denominator() * rhs.denominator());"))
r("r3-div-binary", H + "rational.cc",
  ("rational operator/(rational lhs, const rational &rhs) {\n  lhs /= rhs;\n  return lhs;", "rational operator/(rational lhs, const rational &rhs) {\n  return lhs /= rhs;"))
r("r3-neg-flip", H + "rational.cc", ("  return rational(-rhs.numerator(), rhs.denominator());", "  rhs *= rational(-1);\n  return rhs;"))
r("r3-reduce-ne", H + "rational.cc", ("  if (gcd > 1) {\n    numerator_ /= gcd;\n    denominator_ /= gcd;\n  }", "  if (gcd != 1 && gcd != 0) {\n    numerator_ /= gcd;\n    denominator_ /= gcd;\n  }"))
r("r3-str-early", H + "rational.cc",
  ("  std::string s;\n  if (numerator_ == 0) {\n    s = \"0\";\n  } else {\n    if (sign and (numerator_ > 0)) {\n      s = '+';\n    }\n", "  if (numerator_ == 0) {\n    return \"0\";\n  }\n  std::string s = (sign and numerator_ > 0) ? \"+\" : \"\";\n  {\n"))
r("r3-latex-sign", H + "rational.cc",
  ("      if (numerator_ > 0) {\n        s += \"+\";\n      } else {\n        s += \"-\";\n      }\n", "      s += (numerator_ < 0) ? '-' : '+';\n"))
r("r3-latex-switched", H + "rational.cc",
  ("      if (numerator_ == 1) {\n        s += \"+\";\n      } else if (numerator_ == -1) {\n        s += \"-\";\n      } else {", "      if (abs(numerator_) == 1) {\n        s += numerator_ > 0 ? \"+\" : \"-\";\n      } else {"))
r("r3-ctor-swap", H + "rational.cc",
  ("  numerator_ = denominator < 0 ? -numerator : numerator;\n  denominator_ = denominator < 0 ? -denominator : denominator;\n", "  numerator_ = numerator;\n  denominator_ = denominator;\n  if (denominator_ < 0) {\n    numerator_ = -numerator_;\n    denominator_ = -denominator_;\n  }\n"))
r("r3-ctor-init", H + "rational.cc", ("rational::rational(int numerator) {\n  numerator_ = numerator;\n  denominator_ = 1;\n}", "rational::rational(int numerator) : numerator_(numerator), denominator_(1) {}"))
r("r3-todouble-helper", H + "rational.cc",
  ("  return std::to_string(static_cast<double>(numerator_) /\n                        static_cast<double>(denominator_));", "  return std::to_string(to_double());"))
r("r3-parse-helper", H + "rational.cc",
  ("rational make_rational_from_str(const std::string &s) {\n", "[[noreturn]] static void conversion_failed(const std::string &s) {\n  throw std::runtime_error(\"\\nCould not convert the string \" + s +\n                             \" to a rational object\");\n}\n\nrational make_rational_from_str(const std::string &s) {\n"),
  ("  if (not m) {\n    throw std::runtime_error(\"\\nCould not convert the string \" + s +\n                             \" to a rational object\");\n  }", "  if (not m) {\n    conversion_failed(s);\n  }"),
  ("      throw std::runtime_error(\"\\nCould not convert the string \" + s +\n                               \" to a rational object\");\n  }\n  if (numerator_str", "      conversion_failed(s);\n  }\n  if (numerator_str"))
r("r3-parse-end", H + "rational.cc",
  ("  rational_t numerator = 1, denominator = 1;\n  if (sign == \"-\") {\n    numerator *= -1;\n  }\n", "  rational_t numerator = 1, denominator = 1;\n"),
  ("  return rational(numerator, denominator);\n}\n\n/// return", "  if (sign == \"-\") {\n    numerator = -numerator;\n  }\n  return rational(numerator, denominator);\n}\n\n/// return"))
r("r3-parse-static-re", H + "rational.cc",
  ("  auto factor_re = std::regex(", "  static const std::regex factor_re("), ("  auto m = std::regex_match(s, sm, factor_re);\n  if (not m) {", "  if (not std::regex_match(s, sm, factor_re)) {"))
r("r3-os-return", H + "rational.cc", ("  os << rhs.str(false);\n  return os;", "  return os << rhs.str(false);"))
# ---- combinatorics
r("r3-factorial-rec", H + "combinatorics.cc",
  ("  long long int result = 1;\n  for (long long int i = 2; i <= n; ++i) {\n    result *= i;\n  }\n  return result;\n}\n\nlong long int binomial", "  if (n < 2)\n    return 1;\n  return n * factorial(n - 1);\n}\n\nlong long int binomial"))
r("r3-factorial-down", H + "combinatorics.cc",
  ("  for (long long int i = 2; i <= n; ++i) {\n    result *= i;\n  }\n  return result;\n}\n\nlong long int binomial", "  while (n > 1) {\n    result *= n;\n    --n;\n  }\n  return result;\n}\n\nlong long int binomial"))
r("r3-factorial-one", H + "combinatorics.cc", ("  for (long long int i = 2; i <= n; ++i) {\n    result *= i;\n  }\n  return result;\n}\n\nlong", "  for (int i = 1; i <= n; i++)\n    result = result * i;\n  return result;\n}\n\nlong"))
r("r3-binom-max", H + "combinatorics.cc", ("  if (k * 2 > n)\n    k = n - k;\n", "  k = std::min(k, n - k);\n"), ("#include \"combinatorics.h\"\n", "#include <algorithm>\n\n#include \"combinatorics.h\"\n"))
r("r3-perm-odd", H + "combinatorics.cc", ("  return (sign % 2 == 0) ? 1 : -1;", "  return (sign % 2 != 0) ? -1 : +1;"))
r("r3-perm-bool", H + "combinatorics.cc", ("  int sign = 0;\n  int n", "  bool odd = false;\n  int n"), ("        sign += 1;\n", "        odd = !odd;\n"), ("  return (sign % 2 == 0) ? 1 : -1;", "  return odd ? -1 : 1;"))
r("r3-perm-xor", H + "combinatorics.cc", ("        sign += 1;\n", "        sign ^= 1;\n"), ("  return (sign % 2 == 0) ? 1 : -1;", "  return sign ? -1 : 1;"))
r("r3-perm-jouter", H + "combinatorics.cc", ("  for (int i = 0; i < n; i++) {\n    for (int j = i + 1; j < n; ++j) {\n      if (vec[i] > vec[j]) {", "  for (int j = 0; j < n; j++) {\n    for (int i = 0; i < j; ++i) {\n      if (vec[i] > vec[j]) {"))
r("r3-perm-countif", H + "combinatorics.cc", ("    for (int j = i + 1; j < n; ++j) {\n      if (vec[i] > vec[j]) {\n        sign += 1;\n      }\n    }", "    sign += std::count_if(vec.begin() + i + 1, vec.end(), [&](int v) { return v < vec[i]; });"), ("#include \"combinatorics.h\"\n", "#include <algorithm>\n\n#include \"combinatorics.h\"\n"))
r("r3-partitions-early", H + "combinatorics.cc", ("  std::vector<std::vector<int>> partitions;\n  if (n > 1) {", "  std::vector<std::vector<int>> partitions;\n  if (n < 0)\n    return partitions;\n  if (n > 1) {"))
r("r3-partitions-emplace", H + "combinatorics.cc", ("      partitions.push_back(std::vector<int>(x.begin() + 1, x.begin() + n + 1));", "      partitions.emplace_back(x.begin() + 1, x.begin() + n + 1);"))
r("r3-partitions-reorder", H + "combinatorics.cc",
  ("  if (n > 1) {\n    // Implements", "  if (n == 0) {\n    partitions.push_back({});\n  } else if (n == 1) {\n    partitions.push_back({1});\n  } else if (n > 1) {\n    // Implements"),
  ("  } else if (n == 0) {\n    // Special case not handled by ZS2\n    partitions.push_back({});\n  } else if (n == 1) {\n    // Special case not handled by ZS2\n    partitions.push_back({1});\n  }", "  }"))
# ---- helpers
r("r3-join-loop", H + "helpers.cc",
  ("  if (strvec.size() == 0)\n    return std::string();\n\n  std::ostringstream ss;\n\n  std::copy(strvec.begin(), strvec.end() - 1,\n            std::ostream_iterator<std::string>(ss, sep.c_str()));\n  ss << strvec.back();\n\n  return ss.str();",
   "  std::string result;\n  for (size_t i = 0; i < strvec.size(); ++i) {\n    if (i > 0)\n      result += sep;\n    result += strvec[i];\n  }\n  return result;"))
r("r3-join-empty", H + "helpers.cc", ("  if (strvec.size() == 0)\n    return std::string();", "  if (strvec.empty()) {\n    return {};\n  }"))
r("r3-join-accumulate", H + "helpers.cc",
  ("  std::ostringstream ss;\n\n  std::copy(strvec.begin(), strvec.end() - 1,\n            std::ostream_iterator<std::string>(ss, sep.c_str()));\n  ss << strvec.back();\n\n  return ss.str();",
   "  std::string s = strvec.front();\n  for (auto it = strvec.begin() + 1; it != strvec.end(); ++it) {\n    s += sep + *it;\n  }\n  return s;"))
r("r3-join-first", H + "helpers.cc",
  ("  std::ostringstream ss;\n\n  std::copy(strvec.begin(), strvec.end() - 1,\n            std::ostream_iterator<std::string>(ss, sep.c_str()));\n  ss << strvec.back();\n\n  return ss.str();",
   "  std::ostringstream ss;\n  bool first = true;\n  for (const auto &str : strvec) {\n    if (not first) {\n      ss << sep;\n    }\n    ss << str;\n    first = false;\n  }\n  return ss.str();"))
r("r3-split-range", H + "helpers.cc",
  ("  std::vector<std::string> result;\n  for (; it != reg_end; ++it) {\n    result.push_back(it->str());\n  }\n  return result;", "  std::vector<std::string> result;\n  while (it != reg_end) {\n    result.emplace_back(it->str());\n    it++;\n  }\n  return result;"))
r("r3-findall-while", H + "helpers.cc",
  ("  for (; next != end; ++next) {\n    std::smatch match = *next;\n", "  while (next != end) {\n    const std::smatch &match = *next;\n"), ("      result.push_back(match[k]);\n    }\n  }", "      result.push_back(match[k]);\n    }\n    ++next;\n  }"))
r("r3-findall-str", H + "helpers.cc", ("      result.push_back(match[k]);", "      result.push_back(match[k].str());"))
r("r3-findall-direct", H + "helpers.cc", ("    std::smatch match = *next;\n    for (size_t k = 1; k < match.size(); ++k) {\n      result.push_back(match[k]);", "    const size_t n = next->size();\n    for (size_t k = 1; k < n; ++k) {\n      result.push_back((*next)[k]);"))
r("r3-splitidx-direct", H + "helpers.cc", ("    std::string trimmed = trim(s);\n    v.push_back(trimmed);", "    v.push_back(trim(s));"))
r("r3-splitidx-for", H + "helpers.cc", ("  std::string s;\n  std::vector<std::string> v;\n\n  while (std::getline(f, s, ',')) {", "  std::vector<std::string> v;\n\n  for (std::string s; std::getline(f, s, ',');) {"))
r("r3-trim-inline", H + "helpers.cc", ("inline std::string &trim(std::string &s) { return ltrim(rtrim(s)); }", "inline std::string &trim(std::string &s) {\n  rtrim(s);\n  ltrim(s);\n  return s;\n}"))
# ---- orbital space
r("r3-osi-contains", H + "orbital_space.cc", ("  if (label_to_pos_.count(label) != 0) {", "  if (label_to_pos_.find(label) != label_to_pos_.end()) {"))
r("r3-osi-noelse", H + "orbital_space.cc", ("    } else {\n      new_indices_to_pos[index] = pos;\n    }\n  }\n  std::vector<int> elem", "    }\n    new_indices_to_pos[index] = pos;\n  }\n  std::vector<int> elem"))
r("r3-osi-insert", H + "orbital_space.cc",
  ("    if (indices_to_pos_.count(index) or new_indices_to_pos.count(index)) {", "    const bool inserted = new_indices_to_pos.emplace(index, pos).second;\n    if (indices_to_pos_.count(index) > 0 or not inserted) {"),
  ("    } else {\n      new_indices_to_pos[index] = pos;\n    }\n  }\n  std::vector<int> elem", "    }\n  }\n  std::vector<int> elem"))
r("r3-osi-elemif", H + "orbital_space.cc", ("    elementary_spaces_int.push_back(e == label ? pos : label_to_space(e));", "    if (e == label) {\n      elementary_spaces_int.push_back(pos);\n    } else {\n      elementary_spaces_int.push_back(label_to_space(e));\n    }"))
r("r3-osi-emplace", H + "orbital_space.cc", ("  space_info_.push_back(OrbitalSpace(label, field_type, space_type, indices,\n                                     elementary_spaces_int));", "  space_info_.emplace_back(label, field_type, space_type, indices,\n                           elementary_spaces_int);"))
r("r3-osi-order", H + "orbital_space.cc",
  ("  label_to_pos_[label] = pos;\n  indices_to_pos_.insert(new_indices_to_pos.begin(), new_indices_to_pos.end());\n", "  for (const auto &[index, p] : new_indices_to_pos) {\n    indices_to_pos_[index] = p;\n  }\n  label_to_pos_[label] = pos;\n"))
r("r3-osi-label-noTmp", H + "orbital_space.cc", ("  const std::vector<std::string> &index_labels = indices(pos);\n  if (idx < index_labels.size()) {\n    return indices(pos)[idx];\n  }\n  return std::string(1, label(pos)) + \"_{\" + std::to_string(idx) + \"}\";", "  const auto &names = indices(pos);\n  const bool has_name = idx < names.size();\n  return has_name ? names[idx]\n                  : std::string(1, label(pos)) + \"_{\" + std::to_string(idx) + \"}\";"))
r("r3-osi-label-swap", H + "orbital_space.cc", ("  if (idx < index_labels.size()) {\n    return indices(pos)[idx];\n  }\n  return std::string(1, label(pos)) + \"_{\" + std::to_string(idx) + \"}\";", "  if (idx >= index_labels.size()) {\n    std::string s(1, label(pos));\n    s += \"_{\" + std::to_string(idx) + \"}\";\n    return s;\n  }\n  return index_labels.at(idx);"))
r("r3-osi-space-at", H + "orbital_space.cc", ("  auto search = label_to_pos_.find(label);\n  if (search == label_to_pos_.end()) {", "  const auto search = label_to_pos_.find(label);\n  const bool found = (search != label_to_pos_.end());\n  if (not found) {"))
r("r3-osi-space-count", H + "orbital_space.cc", ("  auto search = label_to_pos_.find(label);\n  if (search == label_to_pos_.end()) {", "  if (label_to_pos_.count(label) == 0) {"), ("  return search->second;", "  return label_to_pos_.at(label);"))
r("r3-osi-space-pos", H + "orbital_space.cc", ("  if (search == label_to_pos_.end()) {\n    throw std::runtime_error(", "  if (search != label_to_pos_.end()) {\n    return search->second;\n  }\n  {\n    throw std::runtime_error("), ("  }\n  return search->second;", "  }"))
r("r3-osi-str-stream", H + "orbital_space.cc",
  ("    s.push_back(\"space label: \" + std::string(1, info.label()) +\n                \"\\nfield type: \" + FieldType_to_str.at(info.field_type()) +\n                \"\\nspace type: \" + SpaceType_to_str.at(info.space_type()) +\n                \"\\nindices: [\" + join(info.indices(), \",\") + \"]\");",
   "    std::string entry = \"space label: \";\n    entry += info.label();\n    entry += \"\\nfield type: \" + FieldType_to_str.at(info.field_type());\n    entry += \"\\nspace type: \" + SpaceType_to_str.at(info.space_type());\n    entry += \"\\nindices: [\" + join(info.indices(), \",\") + \"]\";\n    s.push_back(entry);"))
r("r3-osi-reset-assign", H + "orbital_space.cc", ("  space_info_.clear();\n  label_to_pos_.clear();\n  indices_to_pos_.clear();", "  space_info_ = {};\n  label_to_pos_ = {};\n  indices_to_pos_ = {};"))
r("r3-spacetype-findif", H + "orbital_space.cc",
  ("  for (const auto &[space_type, s] : SpaceType_to_str) {\n    if (str == s) {\n      return space_type;\n    }\n  }\n  std::vector", "  auto it = std::find_if(SpaceType_to_str.begin(), SpaceType_to_str.end(), [&](const auto &kv) { return kv.second == str; });\n  if (it != SpaceType_to_str.end()) {\n    return it->first;\n  }\n  std::vector"), ("#include <iostream>\n", "#include <algorithm>\n#include <iostream>\n"))
r("r3-fieldtype-iter", H + "orbital_space.cc",
  ("  for (const auto &[field_type, s] : FieldType_to_str) {\n    if (str == s) {\n      return field_type;\n    }\n  }", "  for (auto it = FieldType_to_str.begin(); it != FieldType_to_str.end(); ++it) {\n    if (it->second == str)\n      return it->first;\n  }"))
# ---- algebra.hpp / product.hpp
r("r3-alg-contains", H + "algebra.hpp", ("return terms_.find(e) != terms_.end(); }", "return terms_.count(e) > 0; }"))
r("r3-alg-add-local", H + "algebra.hpp", ("    Derived result;\n    for (const auto &[e, c] : terms()) {\n      result.add(e, c);\n    }\n    for (const auto &[e, c] : rhs.terms()) {\n      result.add(e, c);\n    }\n    return result;", "    Derived result;\n    for (const auto *operand : {this, &rhs}) {\n      for (const auto &[e, c] : operand->terms()) {\n        result.add(e, c);\n      }\n    }\n    return result;"))
r("r3-alg-plus-viapluseq", H + "algebra.hpp", ("    Derived result;\n    for (const auto &[e, c] : terms()) {\n      result.add(e, c);\n    }\n    for (const auto &[e, c] : rhs.terms()) {\n      result.add(e, c);\n    }\n    return result;", "    Derived result;\n    result += *this;\n    result += rhs;\n    return result;"))
r("r3-alg-minus-neg", H + "algebra.hpp", ("    Derived result;\n    for (const auto &[e, c] : terms()) {\n      result.add(e, -c);\n    }\n    return result;", "    Derived negated;\n    for (const auto &term : terms_) {\n      negated.add(term.first, -term.second);\n    }\n    return negated;"))
r("r3-alg-minuseq-order", H + "algebra.hpp", ("    const vecspace_t rhs_terms = rhs.terms();\n    for (const auto &[e, c] : rhs_terms) {\n      add(e, -c);\n    }\n    return *this;", "    auto negative = rhs.terms();\n    for (auto &[e, c] : negative) {\n      c = -c;\n    }\n    for (const auto &[e, c] : negative) {\n      add(e, c);\n    }\n    return *this;"))
r("r3-alg-muleq-swap", H + "algebra.hpp", ("    terms_ = result.terms_;\n", "    std::swap(terms_, result.terms_);\n"))
r("r3-alg-muleq-move", H + "algebra.hpp", ("    terms_ = result.terms_;\n", "    terms_ = std::move(result.terms_);\n"))
r("r3-alg-dot-count", H + "algebra.hpp", ("      auto search = rhs.terms().find(e);\n      if (search != rhs.terms().end()) {\n        result += c * search->second;\n      }", "      if (rhs.terms().count(e) > 0) {\n        result += rhs.terms().at(e) * c;\n      }"))
r("r3-alg-norm-direct", H + "algebra.hpp", ("      auto c2 = c * c;\n      result += c2.to_double();", "      result += (c * c).to_double();"))
r("r3-alg-scal-else", H + "algebra.hpp", ("      terms_.clear();\n      return *this;\n    }\n    for (auto &[e, c] : terms()) {\n      c *= factor;\n    }\n    return *this;", "      terms_.clear();\n    } else {\n      for (auto it = terms_.begin(); it != terms_.end(); ++it) {\n        it->second *= factor;\n      }\n    }\n    return *this;"))
r("r3-alg-div-mul", H + "algebra.hpp", ("      c /= factor;", "      c = c / factor;"))
r("r3-alg-zero-num", H + "algebra.hpp", ("    if (factor == scalar_t(0, 1)) {\n      throw", "    if (factor.numerator() == 0) {\n      throw"))
r("r3-alg-pair", H + "algebra.hpp", ("    const auto &[e, c] = rhs;\n    add(e, c);\n", "    add(rhs.first, rhs.second);\n"))
r("r3-prod-adjoint-rev", H + "product.hpp", ("    for (const auto &e : elements()) {\n      d.push_back(e.adjoint());\n    }\n    std::reverse(d.begin(), d.end());\n    return d;", "    for (auto it = elements_.rbegin(); it != elements_.rend(); ++it) {\n      d.push_back(it->adjoint());\n    }\n    return d;"))
r("r3-prod-adjoint-idx", H + "product.hpp", ("    for (const auto &e : elements()) {\n      d.push_back(e.adjoint());\n    }\n    std::reverse(d.begin(), d.end());\n    return d;", "    const size_t n = elements_.size();\n    for (size_t i = 0; i < n; ++i) {\n      d.push_back(elements_[n - 1 - i].adjoint());\n    }\n    return d;"))
r("r3-prod-muleq-loop", H + "product.hpp", ("    elements_.insert(elements_.end(), rhs.elements_.begin(),\n                     rhs.elements_.end());\n", "    const prod_t other(rhs.elements_);\n    for (const auto &e : other) {\n      elements_.push_back(e);\n    }\n"))
r("r3-prod-less", H + "product.hpp", ("    return elements_ < other.elements_;", "    return std::lexicographical_compare(elements_.begin(), elements_.end(), other.elements_.begin(), other.elements_.end());"))
r("r3-prod-mul", H + "product.hpp", ("  rhs *= lhs;\n  return rhs;", "  return rhs *= lhs;"))
# ---- index
r("r3-idx-less-tie", A + "index.cc", ("bool Index::operator<(Index const &other) const {\n  return index_ < other.index_;", "bool Index::operator<(Index const &other) const {\n  if (space() != other.space())\n    return space() < other.space();\n  return pos() < other.pos();"))
r("r3-idx-eq-comp", A + "index.cc", ("  return index_ == other.index_;", "  return space() == other.space() and pos() == other.pos();"))
r("r3-idx-str-append", A + "index.cc", ("  return orbital_subspaces->label(space()) + std::to_string(pos());", "  std::string s(1, orbital_subspaces->label(space()));\n  s += std::to_string(pos());\n  return s;"))
r("r3-canon-idx-counter", A + "index.cc", ("  for (const auto &[n, index] : enumerate(indices)) {\n    idx_pos.push_back(std::make_pair(index, n));\n  }", "  int n = 0;\n  for (const Index &index : indices) {\n    idx_pos.emplace_back(index, n++);\n  }"))
r("r3-canon-idx-greater", A + "index.cc", ("  if (reversed) {\n    std::sort(idx_pos.rbegin(), idx_pos.rend());\n  } else {\n    std::sort(idx_pos.begin(), idx_pos.end());\n  }", "  std::sort(idx_pos.begin(), idx_pos.end());\n  if (reversed) {\n    std::reverse(idx_pos.begin(), idx_pos.end());\n  }"))
r("r3-canon-idx-assign", A + "index.cc", ("  indices.clear();\n  for (const auto &[idx, pos] : idx_pos) {\n    indices.push_back(idx);\n    perm.push_back(pos);\n  }", "  for (size_t i = 0; i < idx_pos.size(); ++i) {\n    indices[i] = idx_pos[i].first;\n    perm.push_back(idx_pos[i].second);\n  }"))
r("r3-canon-idx-stdgreater", A + "index.cc", ("    std::sort(idx_pos.rbegin(), idx_pos.rend());\n", "    std::sort(idx_pos.begin(), idx_pos.end(), [](const auto &a, const auto &b) { return b < a; });\n"))
r("r3-mkidx-str", A + "index.cc", ("  std::string label = sm[1];\n  auto space = orbital_subspaces->label_to_space(label[0]);\n  size_t p = stoi(sm[2]);\n  return Index(space, p);", "  const char label = sm[1].str()[0];\n  const int p = std::stoi(sm[2].str());\n  return Index(orbital_subspaces->label_to_space(label), p);"))
r("r3-mkidxs-transform", A + "index.cc", ("  std::vector<Index> res;\n  auto s_split = split_indices(s);\n  for (const auto &subs : s_split) {\n    res.push_back(make_index_from_str(subs));\n  }\n  return res;", "  const std::vector<std::string> parts = split_indices(s);\n  std::vector<Index> res;\n  res.reserve(parts.size());\n  std::transform(parts.begin(), parts.end(), std::back_inserter(res), make_index_from_str);\n  return res;"))
r("r3-remap-ref", A + "index.cc", ("    int space = idx.space();\n    int index = idx.pos();\n    if (std::find(space_count[space].begin(), space_count[space].end(),\n                  index) != space_count[space].end()) {\n      // if the index is already in A create a new index\n      int last_index = space_count[space].back();\n      result[idx] = Index(space, last_index + 1);\n      space_count[space].push_back(last_index + 1);\n    }", "    const int space = idx.space();\n    std::vector<int> &used = space_count[space];\n    const bool taken = std::find(used.begin(), used.end(), idx.pos()) != used.end();\n    if (taken) {\n      const int fresh = used.back() + 1;\n      used.push_back(fresh);\n      result[idx] = Index(space, fresh);\n    }"))
r("r3-remap-continue", A + "index.cc", ("    if (std::find(space_count[space].begin(), space_count[space].end(),\n                  index) != space_count[space].end()) {\n      // if the index is already in A create a new index\n      int last_index = space_count[space].back();\n      result[idx] = Index(space, last_index + 1);\n      space_count[space].push_back(last_index + 1);\n    }", "    auto &used = space_count[space];\n    if (std::count(used.begin(), used.end(), index) == 0) {\n      continue;\n    }\n    int next_index = used.back() + 1;\n    result[idx] = Index(space, next_index);\n    used.push_back(next_index);"))
r("r3-remap-oneline", A + "index.cc", ("    int space = idx.space();\n    int index = idx.pos();\n    space_count[space].push_back(index);\n", "    space_count[idx.space()].push_back(idx.pos());\n"), ("  for (auto &kv : space_count) {\n    std::sort(kv.second.begin(), kv.second.end());\n  }", "  for (auto &[space, positions] : space_count) {\n    std::sort(positions.begin(), positions.end());\n  }"))
r("r3-numidx-inc", A + "index.cc", ("  std::vector<int> counter(orbital_subspaces->num_spaces());\n  for (const auto &index : indices) {\n    counter.at(index.space()) += 1;\n  }", "  std::vector<int> counter(orbital_subspaces->num_spaces(), 0);\n  for (size_t i = 0; i < indices.size(); i++) {\n    ++counter.at(indices[i].space());\n  }"))
r("r3-symfac-range", A + "index.cc", ("  int result = 1;\n  std::vector<int> idx_per_space = num_indices_per_space(indices);\n  for (int s = 0; s < orbital_subspaces->num_spaces(); ++s) {\n    result *= factorial(idx_per_space[s]);\n  }\n  return result;", "  int result = 1;\n  for (int n : num_indices_per_space(indices)) {\n    result *= factorial(n);\n  }\n  return result;"))
# ---- sqoperator
r("r3-sq-switch", A + "sqoperator.cc", ("  SQOperatorType type =\n      (is_creation() ? SQOperatorType::Annihilation : SQOperatorType::Creation);\n  return SQOperator(type, index());", "  switch (type()) {\n  case SQOperatorType::Creation:\n    return SQOperator(SQOperatorType::Annihilation, index());\n  default:\n    return SQOperator(SQOperatorType::Creation, index());\n  }"))
r("r3-sq-adj-if", A + "sqoperator.cc", ("  SQOperatorType type =\n      (is_creation() ? SQOperatorType::Annihilation : SQOperatorType::Creation);\n  return SQOperator(type, index());", "  SQOperator result(*this);\n  result.operator_.first = is_creation() ? SQOperatorType::Annihilation : SQOperatorType::Creation;\n  return result;"))
r("r3-sq-qpc-ne", A + "sqoperator.cc", ("  return space_type() == SpaceType::Occupied ? not is_creation()\n                                             : is_creation();", "  const bool occupied = (space_type() == SpaceType::Occupied);\n  return occupied != is_creation();"))
r("r3-sq-qpc-if", A + "sqoperator.cc", ("  return space_type() == SpaceType::Occupied ? not is_creation()\n                                             : is_creation();", "  if (space_type() == SpaceType::Occupied) {\n    return type() == SQOperatorType::Annihilation;\n  }\n  return type() == SQOperatorType::Creation;"))
r("r3-sq-less-ternary", A + "sqoperator.cc", ("  if (is_creation() != other.is_creation()) {\n    return is_creation();\n  }", "  const bool c1 = is_creation();\n  const bool c2 = other.is_creation();\n  if (c1 and not c2)\n    return true;\n  if (c2 and not c1)\n    return false;"))
r("r3-sq-less-order", A + "sqoperator.cc", ("  if (is_creation()) {\n    return index() < other.index();\n  }\n  return other.index() < index();\n}\n\nbool SQOperator::normal", "  return is_creation() ? index() < other.index() : other.index() < index();\n}\n\nbool SQOperator::normal"))
r("r3-sq-no-less", A + "sqoperator.cc", ("  const auto space_type = orbital_subspaces->space_type(space());\n", ""), ("  if (is_quasiparticle_creation() != other.is_quasiparticle_creation()) {\n    return is_quasiparticle_creation();\n  }", "  const bool lhs_creates = is_quasiparticle_creation();\n  if (lhs_creates != other.is_quasiparticle_creation()) {\n    return lhs_creates;\n  }"))
r("r3-sq-comm-one", A + "sqoperator.cc", ("  // if both operators are bosonic, return +1\n  if (field_type() == FieldType::Boson and\n      other.field_type() == FieldType::Boson) {\n    return scalar_t(1);\n  }\n", ""))
r("r3-sq-comm-ternary", A + "sqoperator.cc", ("  if (field_type() == FieldType::Fermion and\n      other.field_type() == FieldType::Fermion) {\n    return -scalar_t(1);\n  }\n  // if both operators are bosonic, return +1\n  if (field_type() == FieldType::Boson and\n      other.field_type() == FieldType::Boson) {\n    return scalar_t(1);\n  }\n  // if one operator is fermionic and the other is bosonic, return 1\n  return scalar_t(1);", "  const bool both_fermionic = field_type() == FieldType::Fermion and other.field_type() == FieldType::Fermion;\n  return both_fermionic ? scalar_t(-1) : scalar_t(1);"))
r("r3-sq-reindex-find", A + "sqoperator.cc", ("  if (idx_map.count(operator_.second) > 0) {\n    operator_.second = idx_map[operator_.second];\n  }", "  auto it = idx_map.find(operator_.second);\n  if (it != idx_map.end()) {\n    operator_.second = it->second;\n  }"))
r("r3-sq-str-concat", A + "sqoperator.cc", ("  std::string s = op_symbol();\n  s += (is_creation() ? \"+\" : \"-\");\n  s += \"(\" + index().str() + \")\";\n  return s;", "  const std::string type_str = is_creation() ? \"+\" : \"-\";\n  return op_symbol() + type_str + \"(\" + index().str() + \")\";"))
r("r3-sq-canon-split", A + "sqoperator.cc", ("  std::vector<int> perm;\n  sqops.clear();\n  for (const auto &[sqop, pos] : sqop_pos) {\n    sqops.push_back(sqop);\n    // only exchanges of fermionic operators change the sign\n    if (sqop.field_type() == FieldType::Fermion) {\n      perm.push_back(pos);\n    }\n  }", "  std::vector<int> perm;\n  for (const auto &[sqop, pos] : sqop_pos) {\n    if (sqop.field_type() == FieldType::Fermion) {\n      perm.push_back(pos);\n    }\n  }\n  sqops.clear();\n  for (const auto &p : sqop_pos) {\n    sqops.push_back(p.first);\n  }"))
# ---- tensor
r("r3-ten-sig-loop", A + "tensor.cc", ("  std::vector<std::pair<int, int>> result(orbital_subspaces->num_spaces(),\n                                          std::pair(0, 0));\n  for (const Index &idx : upper_) {\n    result.at(idx.space()).first += 1;\n  }\n  for (const Index &idx : lower_) {\n    result.at(idx.space()).second += 1;\n  }\n  return result;", "  const auto up = num_indices_per_space(upper_);\n  const auto lo = num_indices_per_space(lower_);\n  std::vector<std::pair<int, int>> result;\n  for (int s = 0; s < orbital_subspaces->num_spaces(); ++s) {\n    result.push_back({up[s], lo[s]});\n  }\n  return result;"))
r("r3-ten-less-tie", A + "tensor.cc", ("  // Compare the labels\n  if (label_ < other.label_)\n    return true;\n  if (label_ > other.label_)\n    return false;\n  // Compare the lower indices\n  if (lower_ < other.lower_)\n    return true;\n  if (lower_ > other.lower_)\n    return false;\n  return upper_ < other.upper_;", "  return std::tie(label_, lower_, upper_) < std::tie(other.label_, other.lower_, other.upper_);"), ("#include <regex>\n", "#include <regex>\n#include <tuple>\n"))
r("r3-ten-less-ne", A + "tensor.cc", ("  // Compare the labels\n  if (label_ < other.label_)\n    return true;\n  if (label_ > other.label_)\n    return false;\n  // Compare the lower indices\n  if (lower_ < other.lower_)\n    return true;\n  if (lower_ > other.lower_)\n    return false;\n", "  if (label_ != other.label_)\n    return label_ < other.label_;\n  if (lower_ != other.lower_)\n    return lower_ < other.lower_;\n"))
r("r3-ten-less-compare", A + "tensor.cc", ("  if (label_ < other.label_)\n    return true;\n  if (label_ > other.label_)\n    return false;\n", "  const int order = label_.compare(other.label_);\n  if (order != 0)\n    return order < 0;\n"))
r("r3-ten-eq-tie", A + "tensor.cc", ("  return (label_ == other.label_) and (lower_ == other.lower_) and\n         (upper_ == other.upper_);", "  if (label_ != other.label_)\n    return false;\n  return (upper_ == other.upper_) and (lower_ == other.lower_);"))
r("r3-ten-indices-set", A + "tensor.cc", ("  std::vector<Index> vec;\n  for (const Index &idx : upper_) {\n    vec.push_back(idx);\n  }\n  for (const Index &idx : lower_) {\n    vec.push_back(idx);\n  }\n  // Remove repeated indices\n  std::sort(vec.begin(), vec.end());\n  vec.erase(std::unique(vec.begin(), vec.end()), vec.end());\n  return vec;", "  std::set<Index> unique_indices(upper_.begin(), upper_.end());\n  unique_indices.insert(lower_.begin(), lower_.end());\n  return std::vector<Index>(unique_indices.begin(), unique_indices.end());"), ("#include <regex>\n", "#include <regex>\n#include <set>\n"))
r("r3-ten-indices-insert", A + "tensor.cc", ("  std::vector<Index> vec;\n  for (const Index &idx : upper_) {\n    vec.push_back(idx);\n  }\n  for (const Index &idx : lower_) {\n    vec.push_back(idx);\n  }\n", "  std::vector<Index> vec(upper_);\n  vec.insert(vec.end(), lower_.begin(), lower_.end());\n"))
r("r3-ten-indices-copy", A + "tensor.cc", ("  for (const Index &idx : upper_) {\n    vec.push_back(idx);\n  }\n  for (const Index &idx : lower_) {\n    vec.push_back(idx);\n  }\n  // Remove", "  std::copy(upper_.begin(), upper_.end(), std::back_inserter(vec));\n  std::copy(lower_.begin(), lower_.end(), std::back_inserter(vec));\n  // Remove"))
r("r3-ten-indices-lowerfirst", A + "tensor.cc", ("  for (const Index &idx : upper_) {\n    vec.push_back(idx);\n  }\n  for (const Index &idx : lower_) {\n    vec.push_back(idx);\n  }\n  // Remove", "  for (const Index &idx : lower_) {\n    vec.push_back(idx);\n  }\n  for (const Index &idx : upper_) {\n    vec.push_back(idx);\n  }\n  // Remove"))
r("r3-ten-reindex-lambda", A + "tensor.cc", ("  for (Index &idx : upper_) {\n    if (idx_map.count(idx) > 0) {\n      idx = idx_map[idx];\n    }\n  }\n  for (Index &idx : lower_) {\n    if (idx_map.count(idx) > 0) {\n      idx = idx_map[idx];\n    }\n  }", "  auto replace = [&idx_map](std::vector<Index> &indices) {\n    for (Index &idx : indices) {\n      const auto it = idx_map.find(idx);\n      if (it != idx_map.end()) {\n        idx = it->second;\n      }\n    }\n  };\n  replace(upper_);\n  replace(lower_);"))
r("r3-ten-reindex-both", A + "tensor.cc", ("  for (Index &idx : upper_) {\n    if (idx_map.count(idx) > 0) {\n      idx = idx_map[idx];\n    }\n  }\n  for (Index &idx : lower_) {\n    if (idx_map.count(idx) > 0) {\n      idx = idx_map[idx];\n    }\n  }", "  for (auto *indices : {&upper_, &lower_}) {\n    for (Index &idx : *indices) {\n      if (idx_map.count(idx) > 0) {\n        idx = idx_map[idx];\n      }\n    }\n  }"))
r("r3-ten-canon-mul", A + "tensor.cc", ("  scalar_t sign = 1;\n  auto upper_indices = this->upper();\n  sign *= canonicalize_indices(upper_indices, false);\n  auto lower_indices = this->lower();\n  sign *= canonicalize_indices(lower_indices, false);\n  this->set_upper(upper_indices);\n  this->set_lower(lower_indices);\n  return (symmetry_ == SymmetryType::Antisymmetric) ? sign : scalar_t(1);", "  const scalar_t upper_sign = canonicalize_indices(upper_, false);\n  const scalar_t lower_sign = canonicalize_indices(lower_, false);\n  if (symmetry_ != SymmetryType::Antisymmetric) {\n    return 1;\n  }\n  return upper_sign * lower_sign;"))
r("r3-ten-str-helper", A + "tensor.cc", ("std::string Tensor::str() const {\n  std::vector<std::string> str_vec_upper;\n  std::vector<std::string> str_vec_lower;\n  for (const Index &index : upper_) {\n    str_vec_upper.push_back(index.str());\n  }\n  for (const Index &index : lower_) {\n    str_vec_lower.push_back(index.str());\n  }\n  return (label_ + \"^{\" + join(str_vec_upper, \",\") + \"}_{\" +\n          join(str_vec_lower, \",\") + \"}\");", "static std::string join_indices(const std::vector<Index> &indices) {\n  std::vector<std::string> names;\n  for (const Index &index : indices) {\n    names.push_back(index.str());\n  }\n  return join(names, \",\");\n}\n\nstd::string Tensor::str() const {\n  return label_ + \"^{\" + join_indices(upper_) + \"}_{\" + join_indices(lower_) + \"}\";"))
r("r3-ten-latex-transform", A + "tensor.cc", ("std::string Tensor::latex() const {\n  std::vector<std::string> str_vec_upper;\n  std::vector<std::string> str_vec_lower;\n  for (const Index &index : upper_) {\n    str_vec_upper.push_back(index.latex());\n  }\n  for (const Index &index : lower_) {\n    str_vec_lower.push_back(index.latex());\n  }", "std::string Tensor::latex() const {\n  auto labels = [](const std::vector<Index> &indices) {\n    std::vector<std::string> result;\n    std::transform(indices.begin(), indices.end(), std::back_inserter(result), [](const Index &i) { return i.latex(); });\n    return result;\n  };\n  const auto str_vec_upper = labels(upper_);\n  const auto str_vec_lower = labels(lower_);"))
r("r3-ten-latex-sub", A + "tensor.cc", ("  std::string subscript =\n      is_greek_symbol\n          ? \"\"\n          : (raw_subscript.size() == 0 ? \"\" : \"_{\" + raw_subscript + \"}\");", "  std::string subscript;\n  if (not is_greek_symbol and not raw_subscript.empty()) {\n    subscript = \"_{\" + raw_subscript + \"}\";\n  }"))
r("r3-ten-latex-anyof", A + "tensor.cc", ("      (std::find(greek.begin(), greek.end(), symbol) != greek.end());", "      std::any_of(greek.begin(), greek.end(), [&](const std::string &g) { return g == symbol; });"))
r("r3-ten-compile-if", A + "tensor.cc", ("  return (str_vec.size() > 0 ? (label_ + \"[\" + join(str_vec, \",\") + \"]\")\n                             : label_);", "  if (str_vec.empty()) {\n    return label_;\n  }\n  return label_ + \"[\" + join(str_vec, \",\") + \"]\";"))
r("r3-ten-make-helper", A + "tensor.cc", ("  std::vector<Index> lower_indices;\n  for (const auto &l : lower) {\n    lower_indices.emplace_back(make_index_from_str(l));\n  }\n  std::vector<Index> upper_indices;\n  for (const auto &u : upper) {\n    upper_indices.emplace_back(make_index_from_str(u));\n  }\n  return Tensor(label, lower_indices, upper_indices, symmetry);", "  auto parse = [](const std::vector<std::string> &names) {\n    std::vector<Index> parsed;\n    for (const auto &name : names) {\n      parsed.push_back(make_index_from_str(name));\n    }\n    return parsed;\n  };\n  auto lower_indices = parse(lower);\n  auto upper_indices = parse(upper);\n  return Tensor(label, lower_indices, upper_indices, symmetry);"))
r("r3-ten-adj-noset", A + "tensor.cc", ("  result.set_lower(this->lower());\n  result.set_upper(this->upper());\n  result.is_complex_conjugate_ = not this->is_complex_conjugate_;", "  result.is_complex_conjugate_ = !is_complex_conjugate_;"))
# ---- equation
r("r3-eq-str-concat", A + "equation.cc", ("  std::vector<std::string> str_vec;\n  str_vec.push_back(lhs_.str());\n  str_vec.push_back(\"+=\");\n  str_vec.push_back(factor_.str());\n  str_vec.push_back(rhs_.str());\n  return (join(str_vec, \" \"));", "  return lhs_.str() + \" += \" + factor_.str() + \" \" + rhs_.str();"))
r("r3-eq-str-init", A + "equation.cc", ("  std::vector<std::string> str_vec;\n  str_vec.push_back(lhs_.str());\n  str_vec.push_back(\"+=\");\n  str_vec.push_back(factor_.str());\n  str_vec.push_back(rhs_.str());\n  return (join(str_vec, \" \"));", "  const std::vector<std::string> str_vec{lhs_.str(), \"+=\", factor_.str(), rhs_.str()};\n  return join(str_vec, \" \");"))
r("r3-eq-expr-pluseq", A + "equation.cc", ("  expr.add(rhs(), rhs_factor());\n", "  expr += std::make_pair(rhs_, factor_);\n"))
r("r3-eq-uidx-early", A + "equation.cc", ("  if (index_map.count(s) == 0) {\n    if (unused", "  if (index_map.find(s) == index_map.end()) {\n    if (unused"))
r("r3-eq-uidx-letter", A + "equation.cc", ("    // a character\n    if (s.size() == 1) {\n      if (std::find(unused_indices.begin(), unused_indices.end(), s) !=\n          unused_indices.end()) {\n        // if this character is unused, use it\n        index_map[s] = s;\n      } else {\n        // if it is used, grab the first available index\n        index_map[s] = unused_indices.back();\n      }\n    } else {\n      index_map[s] = unused_indices.back();\n    }", "    std::string letter = unused_indices.back();\n    if (s.size() == 1 and std::count(unused_indices.begin(), unused_indices.end(), s) > 0) {\n      letter = s;\n    }\n    index_map[s] = letter;"))
r("r3-eq-uidx-found", A + "equation.cc", ("    // a character\n    if (s.size() == 1) {\n      if (std::find(unused_indices.begin(), unused_indices.end(), s) !=\n          unused_indices.end()) {\n        // if this character is unused, use it\n        index_map[s] = s;\n      } else {\n        // if it is used, grab the first available index\n        index_map[s] = unused_indices.back();\n      }\n    } else {\n      index_map[s] = unused_indices.back();\n    }", "    const bool is_free_letter = s.size() == 1 and std::find(unused_indices.begin(), unused_indices.end(), s) != unused_indices.end();\n    index_map[s] = is_free_letter ? s : unused_indices.back();"))
r("r3-eq-compile-split", A + "equation.cc", ("    for (const auto &l : lhs_tensor.upper()) {\n      lhs_tensor_label += orbital_subspaces->label(l.space());\n    }\n    for (const auto &l : lhs_tensor.lower()) {\n      lhs_tensor_label += orbital_subspaces->label(l.space());\n    }\n", "    auto append_spaces = [](std::string &label, const std::vector<Index> &indices) {\n      for (const auto &index : indices) {\n        label += orbital_subspaces->label(index.space());\n      }\n    };\n    append_spaces(lhs_tensor_label, lhs_tensor.upper());\n    append_spaces(lhs_tensor_label, lhs_tensor.lower());\n"), ("      for (const auto &l : t.upper()) {\n        t_label += orbital_subspaces->label(l.space());\n      }\n      for (const auto &l : t.lower()) {\n        t_label += orbital_subspaces->label(l.space());\n      }\n", "      append_spaces(t_label, t.upper());\n      append_spaces(t_label, t.lower());\n"))
r("r3-eq-compile-static", A + "equation.cc", ("std::string Equation::compile(", "static std::string space_labels(const Tensor &t) {\n  std::string labels;\n  for (const auto &l : t.upper()) {\n    labels += orbital_subspaces->label(l.space());\n  }\n  for (const auto &l : t.lower()) {\n    labels += orbital_subspaces->label(l.space());\n  }\n  return labels;\n}\n\nstd::string Equation::compile("), ("    std::string lhs_tensor_label = lhs_tensor.label();\n    for (const auto &l : lhs_tensor.upper()) {\n      lhs_tensor_label += orbital_subspaces->label(l.space());\n    }\n    for (const auto &l : lhs_tensor.lower()) {\n      lhs_tensor_label += orbital_subspaces->label(l.space());\n    }\n", "    const std::string lhs_tensor_label = lhs_tensor.label() + space_labels(lhs_tensor);\n"), ("      std::string t_label = t.label() + \"[\\\"\";\n      for (const auto &l : t.upper()) {\n        t_label += orbital_subspaces->label(l.space());\n      }\n      for (const auto &l : t.lower()) {\n        t_label += orbital_subspaces->label(l.space());\n      }\n      t_label += \"\\\"]\";\n      args_vec.push_back(t_label);", "      args_vec.push_back(t.label() + \"[\\\"\" + space_labels(t) + \"\\\"]\");"))
r("r3-eq-compile-concat", A + "equation.cc", ("    std::vector<std::string> str_vec;\n    str_vec.push_back(lhs_.compile(format) + \" += \" + factor_.compile(format));\n    str_vec.push_back(rhs_.compile(format));\n    return (join(str_vec, \" * \") + \";\");", "    return lhs_.compile(format) + \" += \" + factor_.compile(format) + \" * \" + rhs_.compile(format) + \";\";"))
r("r3-eq-compile-onestring", A + "equation.cc", ("    str_vec.push_back(join(args_vec, \",\"));\n    str_vec.push_back(\",optimize=\\\"optimal\\\")\");\n    return join(str_vec, \"\");", "    std::string result = str_vec.back();\n    result += join(args_vec, \",\");\n    result += \",optimize=\\\"optimal\\\")\";\n    return result;"))
