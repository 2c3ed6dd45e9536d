"""Fourth batch of behaviour-preserving edits, on wicked/diagrams."""
R = []
def r(name, f, *ed): R.append((name, "diagrams/" + f, list(ed)))
G = "graph_matrix.cc"
r("r4-gm-numops-sb", G, ("  for (const auto &pair : elements_) {\n    r += pair.first + pair.second;\n  }", "  for (const auto &[c, a] : elements_) {\n    r += c;\n    r += a;\n  }"))
r("r4-gm-numops-idx", G, ("  for (const auto &pair : elements_) {\n    r += pair.first + pair.second;\n  }", "  for (size_t s = 0; s < elements_.size(); ++s) {\n    r += num_ops(s);\n  }"))
r("r4-gm-plus-ref", G, ("    elements_.at(s).first += rhs.elements_.at(s).first;\n    elements_.at(s).second += rhs.elements_.at(s).second;\n", "    auto &e = elements_.at(s);\n    const auto &o = rhs.elements_.at(s);\n    e.first += o.first;\n    e.second += o.second;\n"))
r("r4-gm-plus-set", G, ("    elements_.at(s).first += rhs.elements_.at(s).first;\n    elements_.at(s).second += rhs.elements_.at(s).second;\n", "    set_cre(s, cre(s) + rhs.cre(s));\n    set_ann(s, ann(s) + rhs.ann(s));\n"))
r("r4-gm-minus-split", G, ("    elements_.at(s).first -= rhs.elements_.at(s).first;\n    elements_.at(s).second -= rhs.elements_.at(s).second;\n  }\n", "    elements_.at(s).first -= rhs.elements_.at(s).first;\n  }\n  for (int s = 0; s < orbital_subspaces->num_spaces(); ++s) {\n    elements_.at(s).second -= rhs.elements_.at(s).second;\n  }\n"))
r("r4-gm-minus-down", G, ("  for (int s = 0; s < orbital_subspaces->num_spaces(); ++s) {\n    elements_.at(s).first -= rhs.elements_.at(s).first;", "  for (int s = orbital_subspaces->num_spaces() - 1; s >= 0; --s) {\n    elements_.at(s).first -= rhs.elements_.at(s).first;"))
ADJ = "  std::vector<int> cre_v(orbital_subspaces->num_spaces(), 0);\n  std::vector<int> ann_v(orbital_subspaces->num_spaces(), 0);\n  for (int s = 0; s < orbital_subspaces->num_spaces(); ++s) {\n    cre_v[s] = ann(s);\n    ann_v[s] = cre(s);\n  }\n  return GraphMatrix(cre_v, ann_v);"
r("r4-gm-adj-set", G, (ADJ, "  GraphMatrix result;\n  for (int s = 0; s < orbital_subspaces->num_spaces(); ++s) {\n    result.set_cre(s, ann(s));\n    result.set_ann(s, cre(s));\n  }\n  return result;"))
r("r4-gm-adj-push", G, (ADJ, "  std::vector<int> cre_v, ann_v;\n  for (int s = 0; s < orbital_subspaces->num_spaces(); ++s) {\n    cre_v.push_back(ann(s));\n    ann_v.push_back(cre(s));\n  }\n  return GraphMatrix(cre_v, ann_v);"))
r("r4-gm-adj-swap", G, (ADJ, "  GraphMatrix result;\n  for (int s = 0; s < orbital_subspaces->num_spaces(); ++s) {\n    const auto &[c, a] = elements_.at(s);\n    result.elements_.at(s) = {a, c};\n  }\n  return result;"))
r("r4-gm-ctor", G, ("    elements_.at(i) = std::make_pair(cre.at(i), ann.at(i));", "    elements_.at(i).first = cre.at(i);\n    elements_.at(i).second = ann.at(i);"))
r("r4-gm-str-inline", G, ("      std::string op_s(1, orbital_subspaces->label(s));\n      cv.push_back(op_s + \"+\");", "      cv.push_back(std::string(1, orbital_subspaces->label(s)) + '+');"))
r("r4-gm-str-hoist", G, ("    for (int i = 0; i < ann(s); ++i) {\n      std::string op_s(1, orbital_subspaces->label(s));\n      cv.push_back(op_s);\n    }", "    const std::string op_s(1, orbital_subspaces->label(s));\n    cv.insert(cv.end(), ann(s), op_s);"))
r("r4-gm-ne", G, ("  return elements_ != other.elements_;", "  return not(*this == other);"))
r("r4-gm-sum-loop", G, ("  return std::accumulate(graph_matrices.begin(), graph_matrices.end(), 0,\n                         [&](int a, const auto &b) { return a + b.num_ops(); });", "  int total = 0;\n  for (const auto &gm : graph_matrices)\n    total += gm.num_ops();\n  return total;"))
r("r4-gm-sig-two", G, ("  std::string str;\n  for (int s = 0; s < orbital_subspaces->num_spaces(); ++s) {\n    str += std::to_string(graph_matrix.cre(s));\n  }\n  for (int s = 0; s < orbital_subspaces->num_spaces(); ++s) {\n    str += to_string(graph_matrix.ann(s));\n  }\n  return str;", "  std::string c, a;\n  for (int s = 0; s < orbital_subspaces->num_spaces(); ++s) {\n    c += std::to_string(graph_matrix.cre(s));\n    a += std::to_string(graph_matrix.ann(s));\n  }\n  return c + a;"))
r("r4-gm-sig-elem", G, ("    str += std::to_string(graph_matrix.cre(s));", "    str += std::to_string(graph_matrix.elements(s).first);"))
O = "operator.cc"
FAC = "  scalar_t result = 1;\n  for (int s = 0; s < orbital_subspaces->num_spaces(); ++s) {\n    result /= static_cast<scalar_t>(factorial(cre(s)));\n  }\n  for (int s = 0; s < orbital_subspaces->num_spaces(); ++s) {\n    result /= static_cast<scalar_t>(factorial(ann(s)));\n  }\n  return result;"
r("r4-op-factor-one", O, (FAC, "  scalar_t result = 1;\n  for (int s = 0; s < orbital_subspaces->num_spaces(); ++s) {\n    result /= static_cast<scalar_t>(factorial(cre(s)));\n    result /= static_cast<scalar_t>(factorial(ann(s)));\n  }\n  return result;"))
r("r4-op-factor-prod", O, (FAC, "  scalar_t denominator = 1;\n  for (int s = 0; s < orbital_subspaces->num_spaces(); ++s) {\n    denominator *= static_cast<scalar_t>(factorial(cre(s)));\n    denominator *= static_cast<scalar_t>(factorial(ann(s)));\n  }\n  return scalar_t(1) / denominator;"))
LESS = "  // Compare the labels\n  if (label_ < other.label_)\n    return true;\n  if (label_ > other.label_)\n    return false;\n  // Compare the graph matrices\n  return graph_matrix_ < other.graph_matrix_;"
r("r4-op-less-tie", O, (LESS, "  return std::tie(label_, graph_matrix_) < std::tie(other.label_, other.graph_matrix_);"))
r("r4-op-less-ne", O, (LESS, "  if (label_ != other.label_)\n    return label_ < other.label_;\n  return graph_matrix_ < other.graph_matrix_;"))
r("r4-op-less-compare", O, (LESS, "  const int c = label_.compare(other.label_);\n  if (c != 0)\n    return c < 0;\n  return graph_matrix_ < other.graph_matrix_;"))
r("r4-op-less-pair", O, (LESS, "  return std::make_pair(label_, graph_matrix_) < std::make_pair(other.label_, other.graph_matrix_);"))
r("r4-op-ne", O, ("  return ((label_ != other.label_) or (graph_matrix_ != other.graph_matrix_));", "  return !(*this == other);"))
r("r4-op-eq-early", O, ("  return ((label_ == other.label_) and (graph_matrix_ == other.graph_matrix_));", "  if (label_ != other.label_)\n    return false;\n  return graph_matrix_ == other.graph_matrix_;"))
COM = "  int noncommuting = 0;\n  for (int s = 0; s < orbital_subspaces->num_spaces(); s++) {\n    noncommuting += a.ann(s) * b.cre(s) + a.cre(s) * b.ann(s);\n  }\n  return noncommuting == 0;"
r("r4-op-commute-two", O, ("    noncommuting += a.ann(s) * b.cre(s) + a.cre(s) * b.ann(s);\n", "    noncommuting += a.ann(s) * b.cre(s);\n    noncommuting += a.cre(s) * b.ann(s);\n"))
r("r4-op-commute-size", O, (COM, COM.replace("  for (", "  const int nspaces = orbital_subspaces->num_spaces();\n  for (").replace("s < orbital_subspaces->num_spaces()", "s < nspaces").replace("return noncommuting == 0", "return not noncommuting")))
r("r4-op-less2", O, ("  if (do_operators_commute(a, b)) {\n    return (a < b);\n  }\n  return false;", "  return do_operators_commute(a, b) and a < b;"))
r("r4-op-less3", O, ("  if (do_operators_commute(a, b)) {\n    return (a < b);\n  }\n  return false;", "  return (a < b) ? do_operators_commute(a, b) : false;"))
r("r4-op-diag-inc", O, ("    int space = orbital_subspaces->label_to_space(l);\n    cre[space] += 1;", "    cre.at(orbital_subspaces->label_to_space(l))++;"))
r("r4-op-diag-lambda", O, ("  for (const auto &l : cre_labels) {\n    int space = orbital_subspaces->label_to_space(l);\n    cre[space] += 1;\n  }\n  for (const auto &l : ann_labels) {\n    int space = orbital_subspaces->label_to_space(l);\n    ann[space] += 1;\n  }\n", "  auto count = [](const std::vector<char> &labels, std::vector<int> &n) {\n    for (const auto &l : labels)\n      n[orbital_subspaces->label_to_space(l)] += 1;\n  };\n  count(cre_labels, cre);\n  count(ann_labels, ann);\n"))
r("r4-op-sum-acc", O, ("  int r = 0;\n  for (const auto &op : ops) {\n    r += op.num_ops();\n  }\n  return r;", "  return std::accumulate(ops.begin(), ops.end(), 0, [](int n, const Operator &op) { return n + op.num_ops(); });"), ("using namespace std;", "#include <numeric>\nusing namespace std;"))
r("r4-op-str-factor", O, ("  if (factor() != scalar_t(1)) {\n    s.push_back(factor().str(false));\n  }", "  const scalar_t f = factor();\n  if (not(f == scalar_t(1))) {\n    s.push_back(f.str(false));\n  }"))
r("r4-op-str-down", O, ("  for (int i = orbital_subspaces->num_spaces() - 1; i >= 0; --i) {\n", "  for (int k = 0, n = orbital_subspaces->num_spaces(); k < n; ++k) {\n    const int i = n - 1 - k;\n"))
r("r4-op-str-brace", O, ("  s.push_back(label_);\n  s.push_back(\"{\");", "  s.insert(s.end(), {label_, \"{\"});"))
r("r4-op-adj", O, ("  return Operator(label(), graph_matrix().adjoint());", "  Operator result(*this);\n  result.graph_matrix_ = graph_matrix_.adjoint();\n  return result;"))
E = "operator_expression.cc"
r("r4-oe-add2-sb", E, ("  for (const auto &vec_dop_factor : expr_terms) {\n    add(vec_dop_factor.first, factor * vec_dop_factor.second);\n  }", "  for (const auto &[prod, c] : expr_terms) {\n    add(prod, c * factor);\n  }"))
r("r4-oe-canon", E, ("  for (auto [prod, scalar] : terms_) {\n    auto newprod = prod;\n    const auto sign = newprod.canonicalize();\n    add_to_map(canonical, newprod, sign * scalar);\n  }\n  terms_ = canonical;", "  for (const auto &term : terms_) {\n    OperatorProduct p(term.first);\n    scalar_t c = p.canonicalize();\n    c *= term.second;\n    add_to_map(canonical, p, c);\n  }\n  terms_ = std::move(canonical);"))
r("r4-oe-canon-swap", E, ("  terms_ = canonical;", "  std::swap(terms_, canonical);"))
r("r4-oe-diag-if", E, ("    if (unique and result.contains({op})) {\n      continue;\n    }\n    result.add({op}, scalar_t(1, 1));", "    if (not unique or not result.contains({op})) {\n      result.add({op}, scalar_t(1));\n    }"))
r("r4-oe-diag-cond", E, ("      if (el.size() > 1) {\n        cre[space] += 1;\n      } else {\n        ann[space] += 1;\n      }", "      const bool is_creation = el.size() > 1;\n      (is_creation ? cre : ann)[space] += 1;"))
r("r4-oe-diag-ref", E, ("      if (el.size() > 1) {\n        cre[space] += 1;\n      } else {\n        ann[space] += 1;\n      }", "      auto &count = el.size() == 1 ? ann : cre;\n      ++count[space];"))
r("r4-oe-comm", E, ("  return A * B - B * A;", "  OperatorExpression result = A * B;\n  result -= B * A;\n  return result;"))
r("r4-oe-comm-neg", E, ("  return A * B - B * A;", "  const auto ab = A * B;\n  const auto ba = B * A;\n  return ab - ba;"))
r("r4-oe-bch-init", E, ("  OperatorExpression result;\n  result += A;\n  OperatorExpression temp(A);", "  OperatorExpression result(A);\n  OperatorExpression temp(A);"))
r("r4-oe-bch-temp", E, ("    OperatorExpression comm = commutator(temp, B);\n    comm *= scalar_t(1, k);\n    result += comm;\n    temp = comm;", "    temp = commutator(temp, B);\n    temp *= scalar_t(1, k);\n    result += temp;"))
r("r4-oe-bch-div", E, ("    comm *= scalar_t(1, k);", "    comm /= scalar_t(k);"))
r("r4-oe-bch-zero", E, ("  for (int k = 1; k <= n; k++) {\n    OperatorExpression comm = commutator(temp, B);\n    comm *= scalar_t(1, k);", "  for (int k = 0; k < n; k++) {\n    OperatorExpression comm = commutator(temp, B);\n    comm *= scalar_t(1, k + 1);"))
r("r4-oe-str", E, ("    std::string s;\n    s += vec_dop_factor.second.str(true);\n", "    std::string s = vec_dop_factor.second.str(true);\n"))
r("r4-oe-str-sb", E, ("  for (auto &vec_dop_factor : terms_) {\n    std::string s;\n    s += vec_dop_factor.second.str(true);\n    for (auto &dop : vec_dop_factor.first) {\n      s += ' ' + dop.str();\n    }", "  for (const auto &[prod, c] : terms_) {\n    std::string s;\n    s += c.str(true);\n    for (const auto &dop : prod) {\n      s += \" \";\n      s += dop.str();\n    }"))
P = "operator_product.cc"
r("r4-op-prod-nops", P, ("  int r = 0;\n  for (const auto &op : elements_) {\n    r += op.num_ops();\n  }\n  return r;", "  return std::accumulate(elements_.begin(), elements_.end(), 0, [](int n, const auto &op) { return n + op.num_ops(); });"), ("using namespace std;", "#include <numeric>\nusing namespace std;"))
r("r4-op-prod-sign", P, ("  int nperm = 0;", "  int sign = 1;"), ("        nperm += elements_[j].num_ops() * elements_[j + 1].num_ops();\n", "        if ((elements_[j].num_ops() * elements_[j + 1].num_ops()) % 2 != 0)\n          sign = -sign;\n"), ("  return nperm % 2 == 0 ? scalar_t(1, 1) : scalar_t(-1, 1);", "  return scalar_t(sign);"))
r("r4-op-prod-odd", P, ("  int nperm = 0;", "  bool odd = false;"), ("        nperm += elements_[j].num_ops() * elements_[j + 1].num_ops();\n", "        odd ^= elements_[j].num_ops() % 2 == 1 and elements_[j + 1].num_ops() % 2 == 1;\n"), ("  return nperm % 2 == 0 ?", "  return not odd ?"))
r("r4-op-prod-swapfirst", P, ("        nperm += elements_[j].num_ops() * elements_[j + 1].num_ops();\n        swap(elements_[j], elements_[j + 1]);\n", "        std::swap(elements_[j], elements_[j + 1]);\n        nperm += elements_[j].num_ops() * elements_[j + 1].num_ops();\n"))
r("r4-op-prod-refs", P, ("      if (operator_noncommuting_less(elements_[j + 1], elements_[j])) {\n        nperm += elements_[j].num_ops() * elements_[j + 1].num_ops();\n        swap(elements_[j], elements_[j + 1]);\n", "      Operator &left = elements_[j];\n      Operator &right = elements_[j + 1];\n      if (operator_noncommuting_less(right, left)) {\n        nperm += left.num_ops() * right.num_ops();\n        std::swap(left, right);\n"))
r("r4-op-prod-mul", P, ("  OperatorProduct result;\n  for (const auto &e : l) {\n    result.push_back(e);\n  }\n", "  OperatorProduct result(l);\n"))
r("r4-op-prod-last", P, ("  for (int i = 0; i < n - 1; i++) {\n    // Last i elements are already in place\n    for (int j = 0; j < n - i - 1; j++) {", "  for (int last = n - 1; last > 0; last--) {\n    for (int j = 0; j < last; j++) {"))
C = "contraction.cc"
r("r4-ec-nops", C, ("  return std::accumulate(elements_.begin(), elements_.end(), 0,\n                         [&](int a, const auto &b) { return a + b.num_ops(); });", "  return sum_num_ops(elements_);"))
r("r4-ec-spaces", C, ("      if (graph_matrix.ann(s) + graph_matrix.cre(s) > 0) {", "      if (graph_matrix.num_ops(s) > 0) {"))
r("r4-ec-spaces-cont", C, ("      if (graph_matrix.ann(s) + graph_matrix.cre(s) > 0) {\n        vec.push_back(s);\n      }", "      if (graph_matrix.cre(s) + graph_matrix.ann(s) < 1)\n        continue;\n      vec.push_back(s);"))
W = "wick_theorem.cc"
r("r4-wt-if", W, ("  Expression result =\n      single_threaded_\n          ? process_contractions(factor, ops, minrank, maxrank)\n          : process_contractions_threads(factor, ops, minrank, maxrank);\n", "  Expression result;\n  if (not single_threaded_) {\n    result = process_contractions_threads(factor, ops, minrank, maxrank);\n  } else {\n    result = process_contractions(factor, ops, minrank, maxrank);\n  }\n"))
r("r4-wt-order", W, ("  ncontractions_ = 0;\n  contractions_.clear();\n  elementary_contractions_.clear();\n", "  elementary_contractions_.clear();\n  contractions_ = {};\n  ncontractions_ = 0;\n"))
r("r4-wt-scaled", W, ("    result += contract(factor * f, ops, minrank, maxrank);", "    const scalar_t total = f * factor;\n    const Expression part = contract(total, ops, minrank, maxrank);\n    result += part;"))
r("r4-wt-pair", W, ("  for (const auto &[ops, f] : expr.terms()) {\n    result += contract(factor * f, ops, minrank, maxrank);", "  for (const auto &t : expr.terms()) {\n    result += contract(factor * t.second, t.first, minrank, maxrank);"))
L = "wick_theorem_elementary_contractions.cc"
r("r4-el-switch", L, ("    if (space_type == SpaceType::Occupied) {\n      elementary_contractions_occupied(ops, s, contr_vec);\n    }", "    switch (space_type) {\n    case SpaceType::Occupied:\n      elementary_contractions_occupied(ops, s, contr_vec);\n      break;\n    default:\n      break;\n    }"))
r("r4-el-elseif", L, ("    }\n\n    // 2. Pairwise contractions 1 ann + 1 cre operator:\n    // ┌───┐\n    // a   a^+\n    if (", "    }\n\n    // 2. Pairwise contractions 1 ann + 1 cre operator:\n    // ┌───┐\n    // a   a^+\n    else if ("))
r("r4-el-occ-and", L, ("      if (ops[l].cre(s) * ops[r].ann(s) > 0) {", "      if (ops[l].cre(s) > 0 and ops[r].ann(s) > 0) {"))
r("r4-el-occ-cont", L, ("  for (int l = 0; l < nops; l++) {             // loop over creation (left)\n", "  for (int l = 0; l < nops; l++) {             // loop over creation (left)\n    if (ops[l].cre(s) == 0)\n      continue;\n"))
r("r4-el-unocc-less", L, ("      if (ops[l].ann(s) * ops[r].cre(s) > 0) {", "      if (ops[l].ann(s) >= 1 && ops[r].cre(s) >= 1) {"))
r("r4-el-unocc-emplace", L, ("        new_contr[r].set_cre(s, 1);\n        contr_vec.push_back(new_contr);", "        new_contr[r].set_cre(s, 1);\n        contr_vec.emplace_back(new_contr);"))
r("r4-el-unocc-order", L, ("        new_contr[l].set_ann(s, 1);\n        new_contr[r].set_cre(s, 1);\n", "        GraphMatrix left, right;\n        left.set_ann(s, 1);\n        right.set_cre(s, 1);\n        new_contr[l] = left;\n        new_contr[r] = right;\n"))
r("r4-el-min", L, ("std::min(std::min(sumcre, sumann), maxcumulant_)", "std::min({sumcre, sumann, maxcumulant_})"))
r("r4-el-min2", L, ("  int max_half_legs = std::min(std::min(sumcre, sumann), maxcumulant_);", "  int max_half_legs = sumcre < sumann ? sumcre : sumann;\n  if (max_half_legs > maxcumulant_)\n    max_half_legs = maxcumulant_;"))
r("r4-el-sum-range", L, ("  for (int A = 0; A < nops; A++) {\n    sumcre += ops[A].cre(s);\n    sumann += ops[A].ann(s);\n  }", "  for (const auto &op : ops) {\n    sumcre += op.cre(s);\n    sumann += op.ann(s);\n  }"))
r("r4-el-compat-and", L, ("          if (ops[A].cre(s) < perm[A]) {\n            cre_compatible = false;\n          }\n          if (ops[A].ann(s) < perm[A]) {\n            ann_compatible = false;\n          }", "          cre_compatible = cre_compatible and perm[A] <= ops[A].cre(s);\n          ann_compatible = ann_compatible and perm[A] <= ops[A].ann(s);"))
r("r4-el-compat-lambda", L, ("      do {\n        // check if compatible with creation/annihilation operators\n", "      do {\n        const auto fits = [&](int A, int available) { return available >= perm[A]; };\n"), ("          if (ops[A].cre(s) < perm[A]) {", "          if (!fits(A, ops[A].cre(s))) {"), ("          if (ops[A].ann(s) < perm[A]) {", "          if (!fits(A, ops[A].ann(s))) {"))
r("r4-el-copyfill", L, ("      std::vector<int> perm(nops, 0);\n      std::copy(part.begin(), part.end(), perm.begin());\n      std::sort(perm.begin(), perm.end());", "      std::vector<int> perm(part);\n      perm.resize(nops, 0);\n      std::sort(perm.begin(), perm.end());"))
r("r4-el-count-if", L, ("          nops_contracted += (cre_legs[A] + ann_legs[A] > 0);", "          if (cre_legs[A] + ann_legs[A] > 0)\n            nops_contracted++;"))
r("r4-el-count-or", L, ("          nops_contracted += (cre_legs[A] + ann_legs[A] > 0);", "          if (cre_legs[A] != 0 or ann_legs[A] != 0)\n            nops_contracted++;"))
r("r4-el-contracted-if", L, ("        if (nops_contracted < 2)\n          continue;\n", "        const bool single = nops_contracted <= 1;\n        if (single)\n          continue;\n"))
r("r4-el-constref", L, ("for (const auto cre_legs : cre_legs_vec) {\n      for (const auto ann_legs : ann_legs_vec) {", "for (const auto &cre_legs : cre_legs_vec) {\n      for (const auto &ann_legs : ann_legs_vec) {"), ("for (const auto part :", "for (const auto &part :"))
r("r4-el-onepass", L, ("        std::vector<GraphMatrix> new_contr(nops);\n        for (int A = 0; A < nops; A++) {\n          new_contr[A].set_cre(s, cre_legs[A]);\n          new_contr[A].set_ann(s, ann_legs[A]);\n        }", "        std::vector<GraphMatrix> new_contr;\n        for (int A = 0; A < nops; A++) {\n          GraphMatrix gm;\n          gm.set_cre(s, cre_legs[A]);\n          gm.set_ann(s, ann_legs[A]);\n          new_contr.push_back(gm);\n        }"))
K = "wick_theorem_composite_contractions.cc"
r("r4-co-early", K, ("  if ((num_ops >= minrank) and (num_ops <= maxrank)) {\n    contractions_.push_back", "  if (num_ops < minrank)\n    return;\n  if (num_ops <= maxrank) {\n    contractions_.push_back"))
r("r4-co-outside", K, ("  if ((num_ops >= minrank) and (num_ops <= maxrank)) {\n    contractions_.push_back", "  if (not(num_ops < minrank or num_ops > maxrank)) {\n    contractions_.push_back"))
r("r4-co-emplace", K, ("    contractions_.push_back(std::vector<int>(a.begin(), a.begin() + k));", "    contractions_.emplace_back(a.begin(), a.begin() + k);"))
r("r4-co-local", K, ("    contractions_.push_back(std::vector<int>(a.begin(), a.begin() + k));\n    ncontractions_++;", "    std::vector<int> c(a.begin(), a.begin() + k);\n    contractions_.push_back(c);\n    ncontractions_ += 1;"))
r("r4-co-minc-if", K, ("  int minc = (k > 1) ? a[k - 2] : 0;\n", "  int minc = 0;\n  if (k >= 2)\n    minc = a[k - 2];\n"))
r("r4-co-flags", K, ("        if (free_graph_matrix_vec[A].cre(s) < el_contr[A].cre(s)) {\n          is_valid_contraction = false;\n        }\n        if (free_graph_matrix_vec[A].ann(s) < el_contr[A].ann(s)) {\n          is_valid_contraction = false;\n        }", "        const auto &free = free_graph_matrix_vec[A];\n        if (free.cre(s) < el_contr[A].cre(s) or\n            free.ann(s) < el_contr[A].ann(s)) {\n          is_valid_contraction = false;\n          break;\n        }"))
r("r4-co-anyof", K, ("    for (int A = 0; A < nops; A++) {\n      for (int s = 0; s < orbital_subspaces->num_spaces(); s++) {\n        if (free_graph_matrix_vec", "    for (int A = 0; is_valid_contraction and A < nops; A++) {\n      for (int s = 0; s < orbital_subspaces->num_spaces(); s++) {\n        if (free_graph_matrix_vec"))
r("r4-co-helper", K, ("std::vector<int> WickTheorem::construct_candidates(\n", "static bool fits(const GraphMatrix &needed, const GraphMatrix &available) {\n  for (int s = 0; s < orbital_subspaces->num_spaces(); s++) {\n    if (available.cre(s) < needed.cre(s) or available.ann(s) < needed.ann(s))\n      return false;\n  }\n  return true;\n}\n\nstd::vector<int> WickTheorem::construct_candidates(\n"),
  ("      for (int s = 0; s < orbital_subspaces->num_spaces(); s++) {\n        if (free_graph_matrix_vec[A].cre(s) < el_contr[A].cre(s)) {\n          is_valid_contraction = false;\n        }\n        if (free_graph_matrix_vec[A].ann(s) < el_contr[A].ann(s)) {\n          is_valid_contraction = false;\n        }\n      }", "      is_valid_contraction =\n          is_valid_contraction and fits(el_contr[A], free_graph_matrix_vec[A]);"))
r("r4-co-cands-cont", K, ("    if (is_valid_contraction) {\n      candidates.push_back(c);\n    }", "    if (not is_valid_contraction)\n      continue;\n    candidates.push_back(c);"))
r("r4-co-move-order", K, ("  // add this contraction to the solution\n  a[k - 1] = c;\n\n  // update the number of uncontracted operators\n  const auto &el_contr = el_contr_vec[c];\n  int nops = free_graph_matrix_vec.size();\n  for (int A = 0; A < nops; A++) {\n    free_graph_matrix_vec[A] -= el_contr[A];\n  }\n", "  const auto &el_contr = el_contr_vec[c];\n  int A = 0;\n  for (auto &free : free_graph_matrix_vec) {\n    free -= el_contr[A];\n    ++A;\n  }\n  a[k - 1] = c;\n"))
r("r4-co-unmove", K, ("    free_graph_matrix_vec[A] += el_contr[A];", "    auto &free = free_graph_matrix_vec[A];\n    free += el_contr[A];"))
r("r4-co-backtrack-k", K, ("  k = k + 1;\n  std::vector<int> candidates =\n      construct_candidates(a, k, el_contr_vec, free_graph_matrix_vec);\n", "  ++k;\n  const auto candidates =\n      construct_candidates(a, k, el_contr_vec, free_graph_matrix_vec);\n"))
r("r4-co-free-helper", K, ("  std::vector<GraphMatrix> free_graph_matrix_vec;\n  for (const auto &op : ops) {\n    free_graph_matrix_vec.push_back(op.graph_matrix());\n  }", "  const int nops = ops.size();\n  std::vector<GraphMatrix> free_graph_matrix_vec(nops);\n  for (int i = 0; i < nops; ++i) {\n    free_graph_matrix_vec[i] = ops[i].graph_matrix();\n  }"))
N = "wick_theorem_canonicalize_graph.cc"
r("r4-ca-valid-odd", N, ("          sign *= 1 - 2 * ((ops[ops_perm[j + 1]].num_ops() *\n                            ops[ops_perm[j]].num_ops()) %\n                           2);", "          const int nl = ops[ops_perm[j]].num_ops();\n          const int nr = ops[ops_perm[j + 1]].num_ops();\n          if ((nl * nr) % 2 == 1)\n            sign *= -1;"))
r("r4-ca-valid-neg", N, ("        if (permutable[ops_perm[j + 1]][ops_perm[j]]) {\n", "        if (not permutable[ops_perm[j + 1]][ops_perm[j]]) {\n          return std::make_pair(false, scalar_t(1));\n        } else {\n"), ("          swap(ops_perm[j], ops_perm[j + 1]);\n        } else {\n          // this permutation is not valid\n          return std::pair(false, scalar_t(1));\n        }", "          std::swap(ops_perm[j], ops_perm[j + 1]);\n        }"))
r("r4-ca-valid-refs", N, ("      if (ops_perm[j + 1] < ops_perm[j]) {", "      if (ops_perm[j] > ops_perm[j + 1]) {"))
r("r4-ca-commute-hoist", N, ("    for (int s = 0; s < orbital_subspaces->num_spaces(); ++s) {\n      // check if this is a single contraction\n      if (el_contr.num_ops() == 2) {\n", "    if (el_contr.num_ops() != 2)\n      continue;\n    for (int s = 0; s < orbital_subspaces->num_spaces(); ++s) {\n      {\n"))
r("r4-ca-commute-early", N, ("        if (el_contr[i].cre(s) * el_contr[j].ann(s) > 0) {\n          do_commute = false;\n        }\n        if (el_contr[i].ann(s) * el_contr[j].cre(s) > 0) {\n          do_commute = false;\n        }", "        if (el_contr[i].cre(s) * el_contr[j].ann(s) > 0 or\n            el_contr[i].ann(s) * el_contr[j].cre(s) > 0)\n          return false;"), ("  return do_commute;", "  return true;"), ("  bool do_commute = true;\n", ""))
r("r4-ca-commute-sum", N, ("        if (el_contr[i].cre(s) * el_contr[j].ann(s) > 0) {\n          do_commute = false;\n        }\n        if (el_contr[i].ann(s) * el_contr[j].cre(s) > 0) {\n          do_commute = false;\n        }", "        const int legs = el_contr[i].cre(s) * el_contr[j].ann(s) + el_contr[i].ann(s) * el_contr[j].cre(s);\n        if (legs > 0)\n          do_commute = false;"))
r("r4-ca-less-names", N, ("    if (ops[l_ops_perm[i]] < ops[r_ops_perm[i]]) {\n      return true;\n    }\n    if (ops[r_ops_perm[i]] < ops[l_ops_perm[i]]) {\n      return false;\n    }", "    const Operator &lop = ops[l_ops_perm[i]];\n    const Operator &rop = ops[r_ops_perm[i]];\n    if (lop < rop)\n      return true;\n    else if (rop < lop)\n      return false;"))
r("r4-ca-less-ne", N, ("    if (ops[l_ops_perm[i]] < ops[r_ops_perm[i]]) {\n      return true;\n    }\n    if (ops[r_ops_perm[i]] < ops[l_ops_perm[i]]) {\n      return false;\n    }", "    if (ops[l_ops_perm[i]] != ops[r_ops_perm[i]])\n      return ops[l_ops_perm[i]] < ops[r_ops_perm[i]];"))
r("r4-ca-less-conn", N, ("      if (l_con[l_ops_perm[i]] < r_con[r_ops_perm[i]]) {\n        return false;\n      }\n      if (r_con[r_ops_perm[i]] < l_con[l_ops_perm[i]]) {\n        return true;\n      }", "      const auto &lg = l_con[l_ops_perm[i]];\n      const auto &rg = r_con[r_ops_perm[i]];\n      if (rg < lg)\n        return true;\n      if (lg < rg)\n        return false;"))
r("r4-ca-matrix-assign", N, ("      if (do_contractions_commute(i, j, ops, contractions)) {\n        commutable[i][j] = true;\n      }", "      commutable[i][j] = do_contractions_commute(i, j, ops, contractions);"))
r("r4-ca-matrix-push", N, ("  std::vector<std::vector<bool>> commutable(nops,\n                                            std::vector<bool>(nops, false));\n  for (int i = 0; i < nops; i++) {\n    for (int j = 0; j < nops; j++) {\n      // check if commuting operators i and j changes the contraction\n      if (do_contractions_commute(i, j, ops, contractions)) {\n        commutable[i][j] = true;\n      }\n    }\n  }", "  std::vector<std::vector<bool>> commutable;\n  for (int i = 0; i < nops; i++) {\n    std::vector<bool> row;\n    for (int j = 0; j < nops; j++) {\n      row.push_back(do_contractions_commute(i, j, ops, contractions));\n    }\n    commutable.push_back(row);\n  }"))
r("r4-ca-valid-named", N, ("      if (const auto [is_valid, sign] =\n              is_ops_permutation_valid(ops, ops_perm, commutable);\n          is_valid) {\n        ops_perms.push_back(ops_perm);\n        ops_perms_sign.push_back(sign);", "      const auto valid_sign =\n          is_ops_permutation_valid(ops, ops_perm, commutable);\n      if (valid_sign.first) {\n        const scalar_t sign = valid_sign.second;\n        ops_perms.push_back(ops_perm);\n        ops_perms_sign.push_back(sign);"))
r("r4-ca-iota", N, ("    std::vector<int> ops_perm(ops.size());\n    std::iota(ops_perm.begin(), ops_perm.end(), 0);\n", "    std::vector<int> ops_perm = iota_vector<int>(ops.size());\n"))
r("r4-ca-iota-loop", N, ("    std::vector<int> con_perm(contractions.size());\n    std::iota(con_perm.begin(), con_perm.end(), 0);\n", "    std::vector<int> con_perm;\n    for (int c = 0; c < static_cast<int>(contractions.size()); ++c)\n      con_perm.push_back(c);\n"))
r("r4-ca-graphs-idx", N, ("  for (const auto &[o, ops_perm] : enumerate(ops_perms)) {\n    for (const auto &[c, con_perm] : enumerate(con_perms)) {\n      graphs.push_back(std::pair(o, c));", "  for (size_t o = 0; o < ops_perms.size(); ++o) {\n    for (size_t c = 0; c < con_perms.size(); ++c) {\n      graphs.emplace_back(o, c);"))
r("r4-ca-front", N, ("canonical_contr_perm_idx] = graphs[0];", "canonical_contr_perm_idx] = graphs.front();"))
r("r4-ca-bestref", N, ("  for (int o : ops_perms[canonical_ops_perm_idx]) {\n    canonical_ops.push_back(ops[o]);\n  }", "  const auto &best_perm = ops_perms[canonical_ops_perm_idx];\n  for (int i = 0; i < nops; ++i) {\n    canonical_ops.push_back(ops[best_perm[i]]);\n  }"))
r("r4-ca-permuted", N, ("    std::vector<GraphMatrix> permuted_contr;\n    for (int o : ops_perms[canonical_ops_perm_idx]) {\n      permuted_contr.push_back(contractions[c][o]);\n    }\n    canonical_contr.push_back(permuted_contr);", "    const auto &el_contr = contractions[c];\n    std::vector<GraphMatrix> permuted_contr;\n    for (int o : ops_perms[canonical_ops_perm_idx])\n      permuted_contr.push_back(el_contr[o]);\n    canonical_contr.push_back(ElementaryContraction(permuted_contr));"))
S = "wick_theorem_process_contractions.cc"
r("r4-pr-rank", S, ("    int contr_rank = 0;\n    for (int c : contraction_vec) {\n      contr_rank += elementary_contractions_[c].num_ops();\n    }\n    int term_rank = ops_rank - contr_rank;\n", "    int contr_rank = 0;\n    int term_rank = ops_rank;\n    for (int c : contraction_vec) {\n      const int legs = elementary_contractions_[c].num_ops();\n      contr_rank += legs;\n      term_rank -= legs;\n    }\n"))
r("r4-pr-skip", S, ("    if ((term_rank >= minrank) and (term_rank <= maxrank)) {\n      nprocessed++;", "    const bool in_range = minrank <= term_rank and term_rank <= maxrank;\n    if (in_range) {\n      nprocessed++;"))
r("r4-pr-reuse", S, ("      CompositeContraction contraction;\n      for (int c : contraction_vec) {\n        contraction.push_back(elementary_contractions_[c]);\n      }\n", "      CompositeContraction contraction;\n      for (size_t i = 0; i < contraction_vec.size(); ++i) {\n        const int c = contraction_vec[i];\n        contraction.push_back(elementary_contractions_[c]);\n      }\n"))
r("r4-pr-ternary", S, ("      const auto [best_ops, best_contractions, sign] =\n          do_canonicalize_graph_\n              ? canonicalize_contraction_graph(ops, contraction)\n              : std::make_tuple(ops, contraction, scalar_t(1));\n", "      OperatorProduct best_ops = ops;\n      CompositeContraction best_contractions = contraction;\n      scalar_t sign = 1;\n      if (do_canonicalize_graph_) {\n        std::tie(best_ops, best_contractions, sign) =\n            canonicalize_contraction_graph(ops, contraction);\n      }\n"))
r("r4-pr-term", S, ("      SymbolicTerm &term = term_factor.first;\n      scalar_t canonicalize_factor = term.canonicalize();\n      canonicalize_factor *= term_factor.second;\n      result += {term, canonicalize_factor};\n", "      auto &[term, value] = term_factor;\n      const scalar_t canonicalize_factor = value * term.canonicalize();\n      result.add(term, canonicalize_factor);\n"))
r("r4-pr-single", S, ("    int contr_rank = 0;\n    for (int c : contraction_vec) {\n      contr_rank += elementary_contractions_[c].num_ops();\n    }\n    int term_rank = ops_rank - contr_rank;\n\n    if ((term_rank >= minrank) and (term_rank <= maxrank)) {\n      nprocessed++;", "    result += process_single_contraction(ops, contraction_vec, minrank, maxrank, factor, ops_rank);\n    continue;\n    int contr_rank = 0;\n    for (int c : contraction_vec) {\n      contr_rank += elementary_contractions_[c].num_ops();\n    }\n    int term_rank = ops_rank - contr_rank;\n\n    if ((term_rank >= minrank) and (term_rank <= maxrank)) {\n      nprocessed++;"))
r("r4-pr-early", S, ("  int term_rank = ops_rank - contr_rank;\n\n  if ((term_rank >= minrank) and (term_rank <= maxrank)) {\n\n", "  int term_rank = ops_rank - contr_rank;\n  if (term_rank < minrank or term_rank > maxrank)\n    return result;\n\n  {\n\n"))
r("r4-pr-get", S, ("  for (auto &fut : futures) {\n    result += fut.get(); // Get", "  for (auto &fut : futures) {\n    const Expression part = fut.get();\n    result += part; // Get"))
r("r4-pr-emplace", S, ("    futures.push_back(\n        std::async(std::launch::async, [this, &ops, &contraction_vec, factor,", "    futures.emplace_back(\n        std::async(std::launch::async, [this, &ops, &contraction_vec, factor,"))
r("r4-ev-sb", S, ("  auto tensors_sqops_op_map = contraction_tensors_sqops(ops);\n  std::vector<Tensor> &tensors = std::get<0>(tensors_sqops_op_map);\n  std::vector<SQOperator> &sqops = std::get<1>(tensors_sqops_op_map);\n", "  auto [tensors, sqops, op_map] = contraction_tensors_sqops(ops);\n"), ("  std::map<std::tuple<int, int, bool, int>, int> &op_map =\n      std::get<2>(tensors_sqops_op_map);\n", ""))
r("r4-ev-incr", S, ("    for (int c : pos_cre_sqops) {\n      bit_map[c] = true;\n      sign_order[c] = sorted_position;\n      sorted_position += 1;\n    }", "    for (int c : pos_cre_sqops) {\n      sign_order[c] = sorted_position++;\n      bit_map[c] = true;\n    }"))
r("r4-ev-lambda", S, ("    for (int c : pos_cre_sqops) {\n      bit_map[c] = true;\n      sign_order[c] = sorted_position;\n      sorted_position += 1;\n    }", "    auto mark = [&](int c) {\n      bit_map[c] = true;\n      sign_order[c] = sorted_position;\n      sorted_position += 1;\n    };\n    for (int c : pos_cre_sqops) {\n      mark(c);\n    }"))
r("r4-ev-lambda2", S, ("    for (int c : pos_cre_sqops) {\n      bit_map[c] = true;\n      sign_order[c] = sorted_position;\n      sorted_position += 1;\n    }\n    // mark the annihilation operators contracted and their order\n    for (int a : pos_ann_sqops) {\n      bit_map[a] = true;\n      sign_order[a] = sorted_position;\n      sorted_position += 1;\n    }", "    auto mark = [&](const std::vector<int> &positions) {\n      for (int p : positions) {\n        bit_map[p] = true;\n        sign_order[p] = sorted_position;\n        sorted_position += 1;\n      }\n    };\n    mark(pos_cre_sqops);\n    mark(pos_ann_sqops);"))
r("r4-ev-switch", S, ("    if (dmstruc == SpaceType::Unoccupied) {", "    else if (dmstruc == SpaceType::Unoccupied) {"))
r("r4-ev-rev", S, ("      for (int a : pos_ann_sqops) {\n        lower.push_back(sqops[a].index());\n      }\n      // reverse the lower indices\n      std::reverse(lower.begin(), lower.end());", "      for (auto it = pos_ann_sqops.rbegin(); it != pos_ann_sqops.rend(); ++it) {\n        lower.push_back(sqops[*it].index());\n      }"))
r("r4-ev-label", S, ("        if (pos_cre_sqops[0] < pos_ann_sqops[0]) {\n          label = \"gamma1\";\n        } else {\n          label = \"eta1\";\n          unoccupied_sign *= -1;", "        const bool is_density = pos_cre_sqops[0] < pos_ann_sqops[0];\n        label = is_density ? \"gamma1\" : \"eta1\";\n        if (not is_density) {\n          unoccupied_sign = -unoccupied_sign;"))
r("r4-ev-emplace", S, ("      tensors.push_back(\n          Tensor(label, lower, upper, SymmetryType::Antisymmetric));\n    }\n    bit_map_vec", "      const Tensor cumulant(label, lower, upper, SymmetryType::Antisymmetric);\n      tensors.push_back(cumulant);\n    }\n    bit_map_vec"))
r("r4-ev-emplace2", S, ("      tensors.push_back(\n          Tensor(label, lower, upper, SymmetryType::Antisymmetric));\n    }\n    bit_map_vec", "      tensors.emplace_back(label, lower, upper, SymmetryType::Antisymmetric);\n    }\n    bit_map_vec"))
r("r4-ev-cond", S, ("        if ((sign_order[i] == -1) and (sqops[i].index().space() == s) and\n            (sqops[i].type() == type)) {\n          sign_order[i] = sorted_position;\n          sorted_position += 1;\n        }", "        if (sign_order[i] != -1)\n          continue;\n        if (sqops[i].type() == type and sqops[i].index().space() == s) {\n          sign_order[i] = sorted_position;\n          ++sorted_position;\n        }"))
r("r4-ev-sorted", S, ("  sorted_position = 0;\n  for (const auto &sqop : sqops) {\n    sorted_sqops.push_back(std::make_pair(sign_order[sorted_position], sqop));\n    sorted_position += 1;\n  }", "  for (size_t i = 0; i < sqops.size(); ++i) {\n    sorted_sqops.emplace_back(sign_order[i], sqops[i]);\n  }"))
r("r4-ev-uncontracted", S, ("  sqops.clear();\n  for (int i = nsqops_contracted; i < sorted_sqops.size(); ++i) {\n    sqops.push_back(sorted_sqops[i].second);\n  }", "  std::vector<SQOperator> uncontracted;\n  for (size_t i = nsqops_contracted; i < sorted_sqops.size(); ++i) {\n    uncontracted.push_back(sorted_sqops[i].second);\n  }\n  sqops = uncontracted;"))
r("r4-ev-factor", S, ("  return std::make_pair(term, sign * factor * comb_factor);", "  factor *= comb_factor;\n  factor *= sign;\n  return {term, factor};"))
r("r4-ev-factor-first", S, ("  SymbolicTerm term;\n\n  for (const auto &tensor : tensors) {\n    term.add(tensor);\n  }\n  for (const auto &sqop : sqops) {\n    term.add(sqop);\n  }\n  for (const auto &op : ops) {\n    factor *= op.factor();\n  }\n", "  for (const auto &op : ops) {\n    factor *= op.factor();\n  }\n\n  SymbolicTerm term;\n  for (const auto &sqop : sqops) {\n    term.add(sqop);\n  }\n  for (const auto &tensor : tensors) {\n    term.add(tensor);\n  }\n"))
r("r4-ct-range", S, ("  for (int o = 0, maxo = ops.size(); o < maxo; o++) {\n    const auto &op = ops[o];", "  for (size_t o = 0; o < ops.size(); o++) {\n    const Operator &op = ops[o];"))
r("r4-ct-keyinline", S, ("        auto key = std::make_tuple(o, s, true, c);\n        op_map[key] = n;", "        const std::tuple<int, int, bool, int> key(o, s, true, c);\n        op_map[key] = n;"))
r("r4-ct-size", S, ("        sqops.push_back(SQOperator(SQOperatorType::Creation, idx));\n        lower.push_back(idx);\n        auto key = std::make_tuple(o, s, true, c);\n        op_map[key] = n;", "        auto key = std::make_tuple(o, s, true, c);\n        op_map[key] = n;\n        lower.push_back(idx);\n        sqops.emplace_back(SQOperatorType::Creation, idx);"))
r("r4-ct-insertfront", S, ("        upper.push_back(idx);", "        upper.insert(upper.begin(), idx);"), ("    // reverse the order of the upper indices\n    std::reverse(upper.begin(), upper.end());\n", ""))
r("r4-ct-upa", S, ("      for (int a = op.ann(s) - 1; a >= 0; a--) {", "      for (int k = 0; k < op.ann(s); k++) {\n        const int a = op.ann(s) - 1 - k;"))
r("r4-ep-key", S, ("      auto key =\n          creation\n              ? std::make_tuple(v, s, true,\n                                ops_off + i) // start from the leftmost operator\n              : std::make_tuple(v, s, false, ops_off + i);", "      const auto key = std::make_tuple(v, s, creation, ops_off + i);"))
r("r4-ep-find", S, ("        int sqop_pos = op_map[key];\n        result.push_back(sqop_pos);", "        const int sqop_pos = op_map.at(key);\n        result.push_back(sqop_pos);"))
r("r4-ep-find2", S, ("      if (op_map.count(key) == 0) {", "      if (op_map.find(key) == op_map.end()) {"))
r("r4-ep-if", S, ("    int nops = creation ? graph_matrix.cre(s) : graph_matrix.ann(s);\n", "    int nops = graph_matrix.ann(s);\n    if (creation)\n      nops = graph_matrix.cre(s);\n"))
r("r4-cf-order", S, ("        factor *= binomial(ncre, kcre);\n        factor *= binomial(nann, kann);\n", "        factor *= binomial(nann, kann) * binomial(ncre, kcre);\n"))
r("r4-cf-names", S, ("        const auto &[kcre, kann] = graph_matrix.elements(s);\n        const auto &[ncre, nann] = free_graph_matrix[v].elements(s);\n        factor *= binomial(ncre, kcre);\n        factor *= binomial(nann, kann);\n", "        const auto &free = free_graph_matrix[v];\n        factor *= binomial(free.cre(s), graph_matrix.cre(s));\n        factor *= binomial(free.ann(s), graph_matrix.ann(s));\n"))
r("r4-cf-split", S, ("        factor *= binomial(nann, kann);\n      }\n      free_graph_matrix[v] -= graph_matrix;\n    }", "        factor *= binomial(nann, kann);\n      }\n    }\n    for (int v = 0; v < contraction.size(); v++) {\n      free_graph_matrix[v] -= contraction[v];\n    }"))
r("r4-cf-count", S, ("    contraction_count[contraction] += 1;\n  }\n  for (const auto &kv : contraction_count) {\n    factor /= factorial(kv.second);\n  }", "    ++contraction_count[contraction];\n  }\n  for (const auto &[contraction, count] : contraction_count) {\n    factor /= factorial(count);\n  }"))
r("r4-cf-count-first", S, ("  scalar_t factor = 1;\n\n  // stores", "  std::map<ElementaryContraction, int> contraction_count;\n  for (const auto &c : contractions) {\n    contraction_count[c]++;\n  }\n  scalar_t factor = 1;\n  for (const auto &kv : contraction_count) {\n    factor /= factorial(kv.second);\n  }\n\n  // stores"), ("  std::map<ElementaryContraction, int> contraction_count;\n  for (const auto &contraction : contractions) {\n    contraction_count[contraction] += 1;\n  }\n  for (const auto &kv : contraction_count) {\n    factor /= factorial(kv.second);\n  }\n", ""))
r("r4-cf-running", S, ("    contraction_count[contraction] += 1;\n  }\n  for (const auto &kv : contraction_count) {\n    factor /= factorial(kv.second);\n  }", "    contraction_count[contraction] += 1;\n    factor /= contraction_count[contraction];\n  }"))
r("r4-cs-join", S, ("    s += ops[ops_perm[i]].label();\n    s += signature(ops[ops_perm[i]].graph_matrix());", "    const auto &op = ops[ops_perm[i]];\n    s += op.label() + signature(op.graph_matrix());"))
r("r4-pt-batches", "wick_theorem_process_contractions.cc", ("  std::vector<std::future<Expression>> futures;\n  int ops_rank = ops.num_ops();\n", "  std::vector<std::future<Expression>> futures;\n  Expression result;\n  int ops_rank = ops.num_ops();\n"), ("  // Launch async tasks for each contraction\n  for (const auto &contraction_vec : contractions_) {\n", "  for (const auto &contraction_vec : contractions_) {\n    if (futures.size() == 256) {\n      for (auto &fut : futures) {\n        result += fut.get();\n      }\n      futures.clear();\n    }\n"), ("  // Combine the results of all futures into a single Expression\n  Expression result;\n", ""))
