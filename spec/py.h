// Meaning of the Python operations the helper module uses, for the translation of wicked/utils.py (lib/pyfront.py).
// The functions marked "opaque" have no meaning of their own: only equal uses of them are equal.
#pragma once
#include <algorithm>
#include <map>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <vector>
#include "algebra/equation.h"
#include "algebra/expression.h"
#include "algebra/symbolic_term.h"
#include "algebra/tensor.h"
#include "algebra/index.h"
#include "diagrams/operator.h"
#include "diagrams/operator_expression.h"
#include "helpers/orbital_space.h"
#include "helpers/rational.h"

namespace wpy {
using strs = std::vector<std::string>;
template <class R> using elem_t = std::decay_t<decltype(*std::declval<const R &>().begin())>;

// ---- text
inline std::string of(char c) { return std::string(1, c); }
inline std::string of(const std::string &s) { return s; }
inline std::string val(char c) { return std::string(1, c); }
inline int val(int x) { return x; }
inline bool val(bool x) { return x; }
template <class T> const T &val(const T &x) { return x; }
template <class T> std::string text(const T &x) { return x.str(); }
inline std::string text(const std::string &x) { return x; }
inline std::string text(int x) { return std::to_string(x); }
inline strs pysplit(const std::string &s, const std::string &sep) { return {}; } // opaque
inline strs pysplit_ws(const std::string &s) { return {}; }                      // opaque
inline strs pysplitlines(const std::string &s) { return {}; }                    // opaque
inline std::string pystrip(const std::string &s) { return s; }                   // opaque
inline std::string pyupper(const std::string &s) { return s; }                   // opaque
inline std::string pylower(const std::string &s) { return s; }                   // opaque
inline std::string pyreplace(const std::string &s, const std::string &a, const std::string &b) { return s; } // opaque
inline std::string fmt(const std::string &spec, double x) { return spec; }     // opaque
inline std::string fmt(const std::string &spec, int x) { return spec; }        // opaque
inline std::string glue(const std::string &sep, const strs &v) {
  std::string r;
  for (int i = 0; i < (int)v.size(); i++) {
    if (i > 0) r += sep;
    r += v[i];
  }
  return r;
}
inline strs each(const std::string &s) {
  strs r;
  for (char c : s) r.push_back(std::string(1, c));
  return r;
}
template <class T> const std::vector<T> &each(const std::vector<T> &v) { return v; }
template <class K, class V> std::vector<K> each(const std::map<K, V> &m) {
  std::vector<K> r;
  for (const auto &kv : m) r.push_back(kv.first);
  return r;
}
// ---- sequences
inline std::vector<strs> pyproduct(const std::vector<strs> &v) { return {}; } // opaque
inline std::vector<strs> pyproduct_n(const strs &v, int n) {
  std::vector<strs> c;
  for (int i = 0; i < n; i++) c.push_back(v);
  return pyproduct(c);
}
inline std::vector<int> range(int a, int b) {
  std::vector<int> r;
  for (int i = a; i < b; i++) r.push_back(i);
  return r;
}
inline std::vector<int> range(int b) { return range(0, b); }
template <class T> std::vector<T> sorted(std::vector<T> v) { std::sort(v.begin(), v.end()); return v; }
template <class T> std::vector<T> reversed(std::vector<T> v) { std::reverse(v.begin(), v.end()); return v; }
template <class T> std::vector<T> distinct(const std::vector<T> &v) { return {}; } // opaque: the elements without order and repetition
template <class T> std::vector<T> times(const std::vector<T> &v, int n) {
  std::vector<T> r;
  for (int i = 0; i < n; i++)
    for (const auto &x : v) r.push_back(x);
  return r;
}
template <class A, class B> std::vector<std::pair<A, B>> zip(const std::vector<A> &a, const std::vector<B> &b) {
  std::vector<std::pair<A, B>> r;
  for (int i = 0; i < (int)std::min(a.size(), b.size()); i++) r.push_back({a[i], b[i]});
  return r;
}
template <class A> std::vector<std::pair<int, A>> enumerate(const std::vector<A> &a) {
  std::vector<std::pair<int, A>> r;
  for (int i = 0; i < (int)a.size(); i++) r.push_back({i, a[i]});
  return r;
}
template <class T> std::vector<T> plus(const std::vector<T> &a, const std::vector<T> &b) {
  std::vector<T> r = a;
  r.insert(r.end(), b.begin(), b.end());
  return r;
}
inline std::string plus(const std::string &a, const std::string &b) { return a + b; }
inline int plus(int a, int b) { return a + b; }
template <class T> std::vector<T> &iadd(std::vector<T> &a, const std::vector<T> &b) { a.insert(a.end(), b.begin(), b.end()); return a; }
inline std::string &iadd(std::string &a, const std::string &b) { a += b; return a; }
inline int &iadd(int &a, int b) { a += b; return a; }
inline Expression &iadd(Expression &a, const Expression &b) { a += b; return a; }
template <class T> int len(const T &x) { return (int)x.size(); }
template <class T> bool isempty(const T &x) { return x.empty(); }
inline bool truth(bool b) { return b; }
inline bool truth(int n) { return n != 0; }
inline bool truth(const std::string &s) { return !s.empty(); }
template <class T> bool truth(const std::vector<T> &s) { return !s.empty(); }
template <class K, class V> bool truth(const std::map<K, V> &s) { return !s.empty(); }
// ---- numbers
inline int floordiv(int a, int b) {
  if (b == 0) throw std::runtime_error("division by zero");
  if (a % b != 0 and (a < 0) != (b < 0)) return a / b - 1;
  return a / b;
}
inline int mod(int a, int b) { return a - b * floordiv(a, b); }
// ---- subscripts
inline std::string idx(const std::string &s, int k) {
  if (k < 0) return std::string(1, s.at((int)s.size() + k));
  return std::string(1, s.at(k));
}
template <class T> T idx(const std::vector<T> &v, int k) {
  if (k < 0) return v.at((int)v.size() + k);
  return v.at(k);
}
template <class V> const V &idx(const std::map<std::string, V> &m, const std::string &k) { return m.at(k); }
template <class V> const V &idx(const std::map<int, V> &m, int k) { return m.at(k); }
template <class V> V &lidx(std::map<std::string, V> &m, const std::string &k) { return m.at(k); }
template <class T> T &lidx(std::vector<T> &m, int k) { return m.at(k); }
template <class V, class W> void setidx(std::map<std::string, V> &m, const std::string &k, const W &v) { m[k] = v; }
template <class V, class W> void setidx(std::map<int, V> &m, int k, const W &v) { m[k] = v; }
template <class V, class W> void setidx(std::vector<V> &m, int k, const W &v) { m.at(k) = v; }
inline std::string cut(const std::string &s, int a, int b) { return s.substr(a, b - a); }
inline std::string cut_from(const std::string &s, int a) { return s.substr(a); }
template <class T> std::vector<T> cut_from(const std::vector<T> &v, int a) { return std::vector<T>(v.begin() + a, v.end()); }
inline std::string cut_last(const std::string &s, int n) {
  if ((int)s.size() < n) return "";
  return s.substr(0, s.size() - n);
}
template <class V> bool has(const std::map<std::string, V> &m, const std::string &k) { return m.count(k) > 0; }
template <class V> bool has(const std::map<int, V> &m, int k) { return m.count(k) > 0; }
template <class T> bool has(const std::vector<T> &m, const T &k) { return std::find(m.begin(), m.end(), k) != m.end(); }
template <class V> V getd(const std::map<std::string, V> &m, const std::string &k, const V &d) {
  if (m.count(k) > 0) return m.at(k);
  return d;
}
template <class T> T pop(std::vector<T> &v, int k) {
  if (k < 0 or k >= (int)v.size()) throw std::out_of_range("pop index out of range");
  T x = v[k];
  v.erase(v.begin() + k);
  return x;
}
template <class T> T pop(std::vector<T> &v) {
  if (v.empty()) throw std::out_of_range("pop from empty list");
  T x = v.back();
  v.pop_back();
  return x;
}
// ---- comprehensions
template <class R, class F> auto listof(const R &r, F f) {
  std::vector<std::decay_t<decltype(f(*r.begin()))>> out;
  for (const auto &x : r) out.push_back(f(x));
  return out;
}
template <class R, class F, class C> auto listof(const R &r, F f, C c) {
  std::vector<std::decay_t<decltype(f(*r.begin()))>> out;
  for (const auto &x : r)
    if (c(x)) out.push_back(f(x));
  return out;
}
template <class R, class F, class G> auto dictof(const R &r, F key, G value) {
  std::map<std::decay_t<decltype(key(*r.begin()))>, std::decay_t<decltype(value(*r.begin()))>> out;
  for (const auto &x : r) out[key(x)] = value(x);
  return out;
}
template <class R, class F> bool any(const R &r, F f) {
  for (const auto &x : r)
    if (f(x)) return true;
  return false;
}
template <class R, class F> bool all(const R &r, F f) {
  for (const auto &x : r)
    if (not f(x)) return false;
  return true;
}
inline double to_float(const rational &r) { return r.to_double(); }
inline double to_float(int r) { return r; }
} // namespace wpy
