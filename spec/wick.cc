// Reference functions for the contraction engine.
#include <algorithm>
#include <array>
#include <future>
#include <map>
#include <numeric>
#include "helpers/combinatorics.h"
#include "helpers/helpers.h"
#include "helpers/orbital_space.h"
#include "diagrams/contraction.h"
#include "diagrams/operator_expression.h"
#include "algebra/expression.h"
#include "algebra/sqoperator.h"
#include "algebra/tensor.h"
#include "algebra/term.h"
#include "diagrams/wick_theorem.h"

using key_t4 = std::tuple<int, int, bool, int>;
std::string contraction_signature(const OperatorProduct &ops, const CompositeContraction &contractions, const std::vector<int> &ops_perm, const std::vector<int> &contr_perm);
std::pair<bool, scalar_t> is_ops_permutation_valid(const OperatorProduct &ops, std::vector<int> ops_perm, const std::vector<std::vector<bool>> &permutable);
bool do_contractions_commute(int i, int j, const OperatorProduct &ops, const CompositeContraction &contractions);
bool graph_less(const std::pair<int, int> &l, const std::pair<int, int> &r, const std::vector<std::vector<int>> &ops_perms, std::vector<std::vector<int>> &con_perms, const OperatorProduct &ops, const CompositeContraction &contractions);

namespace spec {
// ------------------------------------------------------------------ options
//@ C11,C15 WickTheorem::set_print
void wt_set_print(WickTheorem &self, PrintLevel p) { self.print_ = p; }
//@ C11,C12,C15,C17 WickTheorem::set_max_cumulant
void wt_set_max_cumulant(WickTheorem &self, int n) { self.maxcumulant_ = n; }
//@ C11,C15 WickTheorem::do_canonicalize_graph
void wt_do_canonicalize(WickTheorem &self, bool v) { self.do_canonicalize_graph_ = v; }
//@ C10,C11,C15 WickTheorem::set_single_threaded
void wt_set_single(WickTheorem &self, bool v) { self.single_threaded_ = v; }
//@ C10,C11,C12,C17 WickTheorem::WickTheorem
void wt_ctor(WickTheorem &self) {
  self.elementary_contractions_.clear();
  self.contractions_.clear();
  self.ncontractions_ = 0;
  self.timers_.clear();
  self.maxcumulant_ = 100;
  self.do_canonicalize_graph_ = true;
  self.print_ = PrintLevel::None;
  self.single_threaded_ = false;
}

// ------------------------------------------------------------------ drivers
//@ C02,C10,C11,C12 WickTheorem::contract
Expression wt_contract(WickTheorem &self, scalar_t factor, const OperatorProduct &ops, const int minrank, const int maxrank) {
  self.ncontractions_ = 0;
  self.contractions_.clear();
  self.elementary_contractions_.clear();
  self.elementary_contractions_ = self.generate_elementary_contractions(ops);
  self.generate_composite_contractions(ops, minrank, maxrank);
  if (self.single_threaded_) return self.process_contractions(factor, ops, minrank, maxrank);
  return self.process_contractions_threads(factor, ops, minrank, maxrank);
}
//@ C02,C07,C11,C12 WickTheorem::contract
Expression wt_contract_sum(WickTheorem &self, scalar_t factor, const OperatorExpression &expr, const int minrank, const int maxrank) {
  Expression r;
  for (const auto &[ops, c] : expr.terms_) r += self.contract(factor * c, ops, minrank, maxrank);
  return r;
}

// ------------------------------------------------------------------ step 1
//@ C11,C16,C17,C04 WickTheorem::generate_elementary_contractions
std::vector<ElementaryContraction> wt_elementary(WickTheorem &self, const OperatorProduct &ops) {
  std::vector<ElementaryContraction> r;
  for (int s = 0; s < orbital_subspaces->num_spaces(); s++) {
    const SpaceType type = orbital_subspaces->space_type(s);
    if (type == SpaceType::Occupied) self.elementary_contractions_occupied(ops, s, r);
    else if (type == SpaceType::Unoccupied) self.elementary_contractions_unoccupied(ops, s, r);
    else if (type == SpaceType::General) self.elementary_contractions_general(ops, s, r);
  }
  return r;
}
//@ C11,C17 WickTheorem::elementary_contractions_occupied
void wt_occupied(WickTheorem &self, const OperatorProduct &ops, int s, std::vector<ElementaryContraction> &out) {
  const int n = ops.size();
  for (int l = 0; l < n; l++)
    for (int r = l + 1; r < n; r++)
      if (ops[l].cre(s) * ops[r].ann(s) > 0) {
        std::vector<GraphMatrix> c(n);
        c[l].set_cre(s, 1);
        c[r].set_ann(s, 1);
        out.push_back(ElementaryContraction(c));
      }
}
//@ C11,C17 WickTheorem::elementary_contractions_unoccupied
void wt_unoccupied(WickTheorem &self, const OperatorProduct &ops, int s, std::vector<ElementaryContraction> &out) {
  const int n = ops.size();
  for (int l = 0; l < n; l++)
    for (int r = l + 1; r < n; r++)
      if (ops[l].ann(s) * ops[r].cre(s) > 0) {
        std::vector<GraphMatrix> c(n);
        c[l].set_ann(s, 1);
        c[r].set_cre(s, 1);
        out.push_back(ElementaryContraction(c));
      }
}
//@ C11,C12,C17 WickTheorem::elementary_contractions_general
void wt_general(WickTheorem &self, const OperatorProduct &ops, int s, std::vector<ElementaryContraction> &out) {
  const int n = ops.size();
  int ncre = 0, nann = 0;
  for (int A = 0; A < n; A++) { ncre += ops[A].cre(s); nann += ops[A].ann(s); }
  const int kmax = std::min(std::min(ncre, nann), self.maxcumulant_);
  for (int k = 1; k <= kmax; k++) {
    std::vector<std::vector<int>> cre_legs, ann_legs;
    for (const auto &part : integer_partitions(k, n)) {
      std::vector<int> perm(n, 0);
      std::copy(part.begin(), part.end(), perm.begin());
      std::sort(perm.begin(), perm.end());
      do {
        bool c = true, a = true;
        for (int A = 0; A < n; A++) {
          if (ops[A].cre(s) < perm[A]) c = false;
          if (ops[A].ann(s) < perm[A]) a = false;
        }
        if (c) cre_legs.push_back(perm);
        if (a) ann_legs.push_back(perm);
      } while (std::next_permutation(perm.begin(), perm.end()));
    }
    for (const auto &c : cre_legs)
      for (const auto &a : ann_legs) {
        int touched = 0;
        for (int A = 0; A < n; A++) touched += (c[A] + a[A] > 0);
        if (touched < 2) continue;
        std::vector<GraphMatrix> g(n);
        for (int A = 0; A < n; A++) {
          g[A].set_cre(s, c[A]);
          g[A].set_ann(s, a[A]);
        }
        out.push_back(ElementaryContraction(g));
      }
  }
}

// ------------------------------------------------------------------ step 2
//@ C04,C10,C11,C12,C13 WickTheorem::generate_composite_contractions
void wt_composite(WickTheorem &self, const OperatorProduct &ops, const int minrank, const int maxrank) {
  std::vector<int> a(std::max(ops.num_ops(), 0) + 1, -1);
  std::vector<GraphMatrix> fr;
  for (const auto &op : ops) fr.push_back(op.graph_matrix());
  self.generate_contractions_backtrack(a, 0, self.elementary_contractions_, fr, minrank, maxrank);
}
//@ C11,C12,C13,C04 WickTheorem::generate_contractions_backtrack
void wt_backtrack(WickTheorem &self, std::vector<int> a, int k, const std::vector<ElementaryContraction> &el, std::vector<GraphMatrix> &fr, const int minrank, const int maxrank) {
  self.process_contraction(a, k, fr, minrank, maxrank);
  std::vector<int> cand = self.construct_candidates(a, k + 1, el, fr);
  for (int c : cand) {
    self.make_move(a, k + 1, c, el, fr);
    self.generate_contractions_backtrack(a, k + 1, el, fr, minrank, maxrank);
    self.unmake_move(a, k + 1, c, el, fr);
  }
}
//@ C11,C12,C13 WickTheorem::process_contraction
void wt_process(WickTheorem &self, const std::vector<int> &a, int k, const std::vector<GraphMatrix> &fr, const int minrank, const int maxrank) {
  const int n = sum_num_ops(fr);
  if (minrank <= n && n <= maxrank) {
    self.contractions_.push_back(std::vector<int>(a.begin(), a.begin() + k));
    self.ncontractions_++;
  }
}
//@ C12,C13,C04 WickTheorem::construct_candidates
std::vector<int> wt_candidates(WickTheorem &self, std::vector<int> &a, int k, const std::vector<ElementaryContraction> &el, const std::vector<GraphMatrix> &fr) {
  std::vector<int> r;
  const int n = fr.size();
  for (int c = k > 1 ? a[k - 2] : 0; c < int(el.size()); c++) {
    bool ok = true;
    for (int A = 0; A < n; A++)
      for (int s = 0; s < orbital_subspaces->num_spaces(); s++) {
        if (fr[A].cre(s) < el[c][A].cre(s)) ok = false;
        if (fr[A].ann(s) < el[c][A].ann(s)) ok = false;
      }
    if (ok) r.push_back(c);
  }
  return r;
}
//@ C11,C12,C13 WickTheorem::make_move
void wt_make(WickTheorem &self, std::vector<int> &a, int k, int c, const std::vector<ElementaryContraction> &el, std::vector<GraphMatrix> &fr) {
  a[k - 1] = c;
  const int n = fr.size();
  for (int A = 0; A < n; A++) fr[A] -= el[c][A];
}
//@ C11,C12,C13 WickTheorem::unmake_move
void wt_unmake(WickTheorem &self, std::vector<int> &a, int k, int c, const std::vector<ElementaryContraction> &el, std::vector<GraphMatrix> &fr) {
  a[k - 1] = -1;
  const int n = fr.size();
  for (int A = 0; A < n; A++) fr[A] += el[c][A];
}

// ------------------------------------------------------------------ step 3
//@ C02,C08,C09,C10,C11,C12,C13,C26,C27,C28 WickTheorem::process_single_contraction
Expression wt_single(WickTheorem &self, const OperatorProduct &ops, const std::vector<int> &cv, const int minrank, const int maxrank, const scalar_t factor, const int ops_rank) {
  Expression r;
  int n = 0;
  for (int c : cv) n += self.elementary_contractions_[c].num_ops();
  if (ops_rank - n < minrank || ops_rank - n > maxrank) return r;
  CompositeContraction cc;
  for (int c : cv) cc.push_back(self.elementary_contractions_[c]);
  const auto [o, k, sign] = self.do_canonicalize_graph_ ? self.canonicalize_contraction_graph(ops, cc) : std::make_tuple(ops, cc, scalar_t(1));
  auto tf = self.evaluate_contraction(o, k, factor * sign);
  SymbolicTerm t = tf.first;
  scalar_t phase = t.canonicalize();
  r += {t, phase * tf.second};
  return r;
}
//@ C08,C09,C10,C11,C12,C04 WickTheorem::process_contractions
Expression wt_all(WickTheorem &self, scalar_t factor, const OperatorProduct &ops, const int minrank, const int maxrank) {
  Expression r;
  const int rank = ops.num_ops();
  for (const auto &cv : self.contractions_) {
    int n = 0;
    for (int c : cv) n += self.elementary_contractions_[c].num_ops();
    if (rank - n < minrank || rank - n > maxrank) continue;
    CompositeContraction cc;
    for (int c : cv) cc.push_back(self.elementary_contractions_[c]);
    const auto [o, k, sign] = self.do_canonicalize_graph_ ? self.canonicalize_contraction_graph(ops, cc) : std::make_tuple(ops, cc, scalar_t(1));
    auto tf = self.evaluate_contraction(o, k, factor * sign);
    SymbolicTerm t = tf.first;
    scalar_t phase = t.canonicalize();
    r += {t, phase * tf.second};
  }
  return r;
}
//@ C09,C10,C11,C12 WickTheorem::process_contractions_threads
Expression wt_threads(WickTheorem &self, scalar_t factor, const OperatorProduct &ops, const int minrank, const int maxrank) {
  Expression r;
  const int rank = ops.num_ops();
  for (const auto &cv : self.contractions_) r += self.process_single_contraction(ops, cv, minrank, maxrank, factor, rank);
  return r;
}
//@ C02,C08,C26,C28 contraction_signature
std::string wt_signature(const OperatorProduct &ops, const CompositeContraction &con, const std::vector<int> &op, const std::vector<int> &cp) {
  std::string r;
  const int n = ops.size(), m = con.size();
  for (int i = 0; i < n; i++) r += ops[op[i]].label() + signature(ops[op[i]].graph_matrix());
  for (int i = 0; i < m; i++)
    for (int j = 0; j < n; j++) r += signature(con[cp[i]][op[j]]);
  return r;
}
//@ C02,C08,C10,C11,C12,C26,C27,C04 WickTheorem::evaluate_contraction
std::pair<SymbolicTerm, scalar_t> wt_evaluate(WickTheorem &self, const OperatorProduct &ops, const CompositeContraction &con, scalar_t factor) {
  auto [tensors, sqops, pos] = self.contraction_tensors_sqops(ops);
  std::vector<GraphMatrix> used(ops.size());
  std::vector<int> order(sqops.size(), -1);
  index_map_t subst;
  int next = 0, contracted = 0, sign = 1;
  for (const ElementaryContraction &c : con) {
    const int rank = c.num_ops();
    const int s = c.spaces_in_elementary_contraction()[0];
    contracted += rank;
    std::vector<int> cre = self.elements_vec_to_pos(c, used, pos, true);
    std::vector<int> ann = self.elements_vec_to_pos(c, used, pos, false);
    for (int p : cre) { order[p] = next; next++; }
    for (int p : ann) { order[p] = next; next++; }
    const SpaceType type = orbital_subspaces->space_type(s);
    if (type == SpaceType::Occupied) subst[sqops[ann[0]].index()] = sqops[cre[0]].index();
    if (type == SpaceType::Unoccupied) {
      subst[sqops[cre[0]].index()] = sqops[ann[0]].index();
      sign = -sign;
    }
    if (type == SpaceType::General) {
      std::vector<Index> up, lo;
      for (int p : cre) up.push_back(sqops[p].index());
      for (int p : ann) lo.push_back(sqops[p].index());
      std::reverse(lo.begin(), lo.end());
      std::string label;
      if (rank != 2) label = "lambda" + std::to_string(rank / 2);
      else if (cre[0] < ann[0]) label = "gamma1";
      else { label = "eta1"; sign = -sign; }
      tensors.push_back(Tensor(label, lo, up, SymmetryType::Antisymmetric));
    }
  }
  for (SQOperatorType type : {SQOperatorType::Creation, SQOperatorType::Annihilation})
    for (int s = 0; s < orbital_subspaces->num_spaces(); s++)
      for (int i = 0; i < int(sqops.size()); i++)
        if (order[i] == -1 && sqops[i].index().space() == s && sqops[i].type() == type) { order[i] = next; next++; }
  const int total = sign * permutation_sign(order);
  std::vector<std::pair<int, SQOperator>> sorted;
  for (int i = 0; i < int(sqops.size()); i++) sorted.push_back(std::make_pair(order[i], sqops[i]));
  std::sort(sorted.begin(), sorted.end());
  SymbolicTerm t;
  for (const auto &x : tensors) t.add(x);
  for (int i = contracted; i < int(sorted.size()); i++) t.add(sorted[i].second);
  scalar_t w = factor;
  for (const auto &op : ops) w *= op.factor();
  t.reindex(subst);
  return std::make_pair(t, total * w * self.combinatorial_factor(ops, con));
}
//@ C08,C12,C17,C27,C04 WickTheorem::contraction_tensors_sqops
std::tuple<std::vector<Tensor>, std::vector<SQOperator>, std::map<key_t4, int>> wt_tensors(WickTheorem &self, const OperatorProduct &ops) {
  std::vector<Tensor> tensors;
  std::vector<SQOperator> sqops;
  std::map<key_t4, int> pos;
  index_counter ic(orbital_subspaces->num_spaces());
  int n = 0;
  for (int o = 0; o < int(ops.size()); o++) {
    std::vector<Index> lower, upper;
    for (int s = 0; s < orbital_subspaces->num_spaces(); s++)
      for (int c = 0; c < ops[o].cre(s); c++) {
        Index i(s, ic.next_index(s));
        sqops.push_back(SQOperator(SQOperatorType::Creation, i));
        lower.push_back(i);
        pos[std::make_tuple(o, s, true, c)] = n;
        n++;
      }
    for (int s = orbital_subspaces->num_spaces() - 1; s >= 0; s--)
      for (int a = ops[o].ann(s) - 1; a >= 0; a--) {
        Index i(s, ic.next_index(s));
        sqops.push_back(SQOperator(SQOperatorType::Annihilation, i));
        upper.push_back(i);
        pos[std::make_tuple(o, s, false, a)] = n;
        n++;
      }
    std::reverse(upper.begin(), upper.end());
    tensors.push_back(Tensor(ops[o].label(), lower, upper, SymmetryType::Antisymmetric));
  }
  return std::make_tuple(tensors, sqops, pos);
}
//@ C04,C08,C14,C27 WickTheorem::elements_vec_to_pos
std::vector<int> wt_pos(WickTheorem &self, const ElementaryContraction &c, std::vector<GraphMatrix> &used, std::map<key_t4, int> &pos, bool creation) {
  std::vector<int> r;
  const int s = c.spaces_in_elementary_contraction()[0];
  for (int v = 0; v < int(c.size()); v++) {
    const int n = creation ? c[v].cre(s) : c[v].ann(s);
    const int off = creation ? used[v].cre(s) : used[v].ann(s);
    for (int i = 0; i < n; i++) {
      if (pos.count(std::make_tuple(v, s, creation, off + i)) == 0) throw std::runtime_error("");
      r.push_back(pos.at(std::make_tuple(v, s, creation, off + i)));
    }
    if (creation) used[v].set_cre(s, off + n);
    else used[v].set_ann(s, off + n);
  }
  return r;
}
//@ C02,C11,C21,C26 WickTheorem::combinatorial_factor
scalar_t wt_comb(WickTheorem &self, const OperatorProduct &ops, const CompositeContraction &con) {
  scalar_t f = 1;
  std::vector<GraphMatrix> fr;
  for (const auto &op : ops) fr.push_back(op.graph_matrix());
  for (const auto &c : con)
    for (int v = 0; v < int(c.size()); v++) {
      for (int s = 0; s < orbital_subspaces->num_spaces(); s++) {
        f *= binomial(fr[v].elements(s).first, c[v].elements(s).first);
        f *= binomial(fr[v].elements(s).second, c[v].elements(s).second);
      }
      fr[v] -= c[v];
    }
  std::map<ElementaryContraction, int> count;
  for (const auto &c : con) count[c]++;
  for (const auto &[c, n] : count) f /= factorial(n);
  return f;
}

// ------------------------------------------------------------------ canonical graphs
//@ C08,C28 is_ops_permutation_valid
std::pair<bool, scalar_t> perm_valid(const OperatorProduct &ops, std::vector<int> p, const std::vector<std::vector<bool>> &ok) {
  scalar_t sign = 1;
  const int n = p.size();
  for (int i = 0; i < n - 1; i++)
    for (int j = 0; j < n - i - 1; j++)
      if (p[j] > p[j + 1]) {
        if (!ok[p[j + 1]][p[j]]) return std::make_pair(false, scalar_t(1));
        if ((ops[p[j]].num_ops() * ops[p[j + 1]].num_ops()) % 2 == 1) sign = -sign;
        std::swap(p[j], p[j + 1]);
      }
  return std::make_pair(true, sign);
}
//@ C08,C28 do_contractions_commute
bool contractions_commute(int i, int j, const OperatorProduct &ops, const CompositeContraction &con) {
  bool r = true;
  for (const auto &c : con)
    if (c.num_ops() == 2)
      for (int s = 0; s < orbital_subspaces->num_spaces(); s++) {
        if (c[i].cre(s) * c[j].ann(s) > 0) r = false;
        if (c[i].ann(s) * c[j].cre(s) > 0) r = false;
      }
  return r;
}
//@ C05,C28 graph_less
bool gless(const std::pair<int, int> &l, const std::pair<int, int> &r, const std::vector<std::vector<int>> &op, std::vector<std::vector<int>> &cp, const OperatorProduct &ops, const CompositeContraction &con) {
  const int n = op[l.first].size(), m = cp[l.second].size();
  for (int i = 0; i < n; i++) {
    if (ops[op[l.first][i]] < ops[op[r.first][i]]) return true;
    if (ops[op[r.first][i]] < ops[op[l.first][i]]) return false;
  }
  for (int j = 0; j < m; j++)
    for (int i = 0; i < n; i++) {
      const GraphMatrix &x = con[cp[l.second][j]][op[l.first][i]];
      const GraphMatrix &y = con[cp[r.second][j]][op[r.first][i]];
      if (x < y) return false;
      if (y < x) return true;
    }
  return false;
}
//@ C08,C11,C28,C04 WickTheorem::canonicalize_contraction_graph
std::tuple<OperatorProduct, CompositeContraction, scalar_t> wt_canonical(WickTheorem &self, const OperatorProduct &ops, const CompositeContraction &con) {
  const int n = ops.size();
  std::vector<std::vector<bool>> ok(n, std::vector<bool>(n, false));
  for (int i = 0; i < n; i++)
    for (int j = 0; j < n; j++) 
      if (do_contractions_commute(i, j, ops, con)) ok[i][j] = true;
  std::vector<std::vector<int>> ops_perms, con_perms;
  std::vector<scalar_t> signs;
  std::vector<int> p(ops.size());
  std::iota(p.begin(), p.end(), 0);
  do {
    const auto v = is_ops_permutation_valid(ops, p, ok);
    if (v.first) {
      ops_perms.push_back(p);
      signs.push_back(v.second);
    }
  } while (std::next_permutation(p.begin(), p.end()));
  std::vector<int> q(con.size());
  std::iota(q.begin(), q.end(), 0);
  do {
    con_perms.push_back(q);
  } while (std::next_permutation(q.begin(), q.end()));
  std::vector<std::pair<int, int>> graphs;
  for (int o = 0; o < int(ops_perms.size()); o++)
    for (int c = 0; c < int(con_perms.size()); c++) graphs.push_back(std::pair<int, int>(o, c));
  std::sort(graphs.begin(), graphs.end(), [&](const std::pair<int, int> &l, const std::pair<int, int> &r) { return graph_less(l, r, ops_perms, con_perms, ops, con); });
  const int bo = graphs[0].first, bc = graphs[0].second;
  OperatorProduct ro;
  for (int o : ops_perms[bo]) ro.push_back(ops[o]);
  CompositeContraction rc;
  for (int c : con_perms[bc]) {
    std::vector<GraphMatrix> g;
    for (int o : ops_perms[bo]) g.push_back(con[c][o]);
    rc.push_back(ElementaryContraction(g));
  }
  return std::make_tuple(ro, rc, signs[bo]);
}
} // namespace spec
