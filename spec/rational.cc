// Reference meaning of the exact rationals and the combinatorial numbers.  Parsed and compared with the code as
// value-flow summaries; never compiled into anything that runs.
//   //@ <properties> <function of the repository> [options]
#include <numeric>
#include <regex>
#include <boost/lexical_cast.hpp>
#include "helpers/rational.h"
#include "helpers/combinatorics.h"

rational_t integer_from_digits(const std::string &s);
namespace spec {
// n/d in lowest terms, d > 0
struct canonical { rational_t n, d; };
static void lowest(rational_t &n, rational_t &d) {
  rational_t g = boost::gcd(n, d);
  if (g > 1) { n /= g; d /= g; }
}
//@ C01,C02 rational::rational | exact
void ctor_zero(rational &self) { self.numerator_ = 0; self.denominator_ = 1; }
//@ C01,C02 rational::rational | exact
void ctor_int(rational &self, int n) { self.numerator_ = n; self.denominator_ = 1; }
//@ C01,C02 rational::rational | exact
void ctor_ll(rational &self, long long int n) { self.numerator_ = n; self.denominator_ = 1; }
//@ C01,C02 rational::rational | exact
void ctor_big(rational &self, rational_t n) { self.numerator_ = n; self.denominator_ = 1; }
//@ C01,C02 rational::rational | exact
void ctor_frac(rational &self, rational_t n, rational_t d) {
  if (d == 0) throw 1;
  if (d < 0) { n = -n; d = -d; }
  lowest(n, d);
  self.numerator_ = n; self.denominator_ = d;
}
//@ C01,C02 rational::numerator | exact
rational_t num(const rational &self) { return self.numerator_; }
//@ C01,C02 rational::denominator | exact
rational_t den(const rational &self) { return self.denominator_; }
//@ C01,C02,C14 rational::reduce | exact
void reduce(rational &self) { lowest(self.numerator_, self.denominator_); }
//@ C01,C02 rational::operator+= | exact self
rational &add(rational &self, const rational &o) {
  rational_t n = self.numerator_ * o.denominator_ + o.numerator_ * self.denominator_, d = self.denominator_ * o.denominator_;
  lowest(n, d);
  self.numerator_ = n; self.denominator_ = d;
  return self;
}
//@ C01,C02 rational::operator-= | exact self
rational &sub(rational &self, const rational &o) {
  rational_t n = self.numerator_ * o.denominator_ - o.numerator_ * self.denominator_, d = self.denominator_ * o.denominator_;
  lowest(n, d);
  self.numerator_ = n; self.denominator_ = d;
  return self;
}
//@ C01,C02 rational::operator*= | exact self
rational &mul(rational &self, const rational &o) {
  rational_t n = self.numerator_ * o.numerator_, d = self.denominator_ * o.denominator_;
  lowest(n, d);
  self.numerator_ = n; self.denominator_ = d;
  return self;
}
static void quotient(rational_t &n, rational_t &d, const rational &l, const rational &r) {
  n = l.numerator_ * r.denominator_;
  d = l.denominator_ * r.numerator_;
  if (d == 0) throw 1;
  if (d < 0) { n = -n; d = -d; }
  lowest(n, d);
}
//@ C01,C02,C14 rational::operator/= | exact self strong
rational &div(rational &self, const rational &o) {
  rational_t n, d;
  quotient(n, d, self, o);
  self.numerator_ = n; self.denominator_ = d;
  return self;
}
//@ C01,C02 operator+ | exact
rational plus(rational r) { return r; }
//@ C01,C02 operator- | exact posden
rational minus(rational r) {
  rational_t n = -r.numerator_, d = r.denominator_;
  if (d == 0) throw 1;
  if (d < 0) { n = -n; d = -d; }
  lowest(n, d);
  rational s; s.numerator_ = n; s.denominator_ = d; return s;
}
//@ C01,C02 operator+ | exact
rational add2(rational l, const rational &r) {
  rational_t n = l.numerator_ * r.denominator_ + r.numerator_ * l.denominator_, d = l.denominator_ * r.denominator_;
  lowest(n, d);
  rational s; s.numerator_ = n; s.denominator_ = d; return s;
}
//@ C01,C02 operator- | exact
rational sub2(rational l, const rational &r) {
  rational_t n = l.numerator_ * r.denominator_ - r.numerator_ * l.denominator_, d = l.denominator_ * r.denominator_;
  lowest(n, d);
  rational s; s.numerator_ = n; s.denominator_ = d; return s;
}
//@ C01,C02 operator* | exact
rational mul2(rational l, const rational &r) {
  rational_t n = l.numerator_ * r.numerator_, d = l.denominator_ * r.denominator_;
  lowest(n, d);
  rational s; s.numerator_ = n; s.denominator_ = d; return s;
}
//@ C01,C02,C14 operator/ | exact
rational div2(rational l, const rational &r) {
  rational s;
  quotient(s.numerator_, s.denominator_, l, r);
  return s;
}
//@ C01 operator== | exact
bool eq(const rational &l, const rational &r) {
  if (l.numerator_ == 0 && r.numerator_ == 0) return true;
  return l.numerator_ == r.numerator_ && l.denominator_ == r.denominator_;
}
//@ C01 operator!= | exact expand=operator==
bool ne(const rational &l, const rational &r) {
  if (l.numerator_ == 0 && r.numerator_ == 0) return false;
  return l.numerator_ != r.numerator_ || l.denominator_ != r.denominator_;
}

// ------------------------------------------------------------------ text
static std::string text(const rational_t &n) { return boost::lexical_cast<std::string>(n); }
//@ C02,C22 rational::str | exact
std::string str(const rational &self, bool sign) {
  if (self.numerator_ == 0) return "0";
  std::string s;
  if (sign && self.numerator_ > 0) s += "+";
  if (self.denominator_ != 1) return s + text(self.numerator_) + "/" + text(self.denominator_);
  if (self.numerator_ == 1) return s;
  if (self.numerator_ == -1) return s + "-";
  return s + text(self.numerator_);
}
//@ C02,C22 rational::repr | exact
std::string repr(const rational &self) { return "rational(" + text(self.numerator_) + "," + text(self.denominator_) + ")"; }
//@ C02,C22 rational::latex | exact
std::string latex(const rational &self, bool first) {
  rational_t n = self.numerator_, d = self.denominator_;
  if (n == 0) return "0";
  std::string s;
  if (d == 1) {
    if (n == 1) return "+";
    if (n == -1) return "-";
    if (!first && n > 0) s += "+";
    return s + text(n);
  }
  s = n > 0 ? "+" : "-";
  return s + "\\frac{" + text(n > 0 ? n : rational_t(-n)) + "}{" + text(d) + "}";
}
//@ C02,C18 rational::compile | exact
std::string compile(const rational &self, const std::string &) {
  return std::to_string(static_cast<double>(self.numerator_) / static_cast<double>(self.denominator_));
}
//@ C02,C14,C22 integer_from_digits | exact
rational_t digits(const std::string &s) {
  if (s.size() > 308) throw 1;
  rational_t r = 0;
  for (size_t i = 0; i < s.size(); ++i) r = 10 * r + (s[i] - '0');
  return r;
}

// ------------------------------------------------------------------ combinatorics
//@ C02,C14,C21,C25,C26 factorial
long long int factorial(int n) {
  long long int r = 1;
  for (int k = 2; k <= n; k++) r *= k;
  return r;
}
//@ C02,C14,C21,C26 binomial
long long int binomial(int n, int k) {
  if (k > n) return 0;
  if (2 * k > n) k = n - k;
  if (k == 0) return 1;
  long long int r = n;
  for (int i = 2; i <= k; ++i) r = r * (n - i + 1) / i;   // r * (n-i+1) is divisible by i
  return r;
}
//@ C02,C08,C21,C23,C26,C28 permutation_sign
int permutation_sign(const std::vector<int> &v) {
  int s = 1;
  for (size_t i = 0; i < v.size(); ++i)
    for (size_t j = i + 1; j < v.size(); ++j)
      if (v[i] > v[j]) s = -s;
  return s;
}
//@ C14,C17,C21,C04 integer_partitions
std::vector<std::vector<int>> integer_partitions(int n, int maxlen) {
  std::vector<std::vector<int>> out;
  if (n == 0) { out.push_back({}); return out; }
  if (n == 1) { out.push_back({1}); return out; }
  if (n < 0) return out;
  // algorithm ZS2: x[1..m] is the current partition in non-increasing order, x[h] its last part larger than one
  std::vector<int> x(n + 1, 1);
  if (n <= maxlen) out.push_back(std::vector<int>(x.begin() + 1, x.begin() + n + 1));
  x[0] = 1;
  x[1] = 2;
  int h = 1, m = n - 1;
  if (m <= maxlen) out.push_back(std::vector<int>(x.begin() + 1, x.begin() + m + 1));
  while (x[1] != n) {
    if (m - h > 1) {
      h = h + 1;
      x[h] = 2;
      m = m - 1;
    } else {
      int j = m - 2;
      while (x[j] == x[m - 1]) { x[j] = 1; j--; }
      h = j + 1;
      x[h] = x[m - 1] + 1;
      int r = x[m] + x[m - 1] * (m - h - 1);
      x[m] = 1;
      if (m - h > 1) x[m - 1] = 1;
      m = h + r - 1;
    }
    if (m <= maxlen) out.push_back(std::vector<int>(x.begin() + 1, x.begin() + m + 1));
  }
  return out;
}
//@ C14,C22 make_rational_from_str | exact
rational from_str(const std::string &s) {
  std::smatch sm;
  if (!std::regex_match(s, sm, std::regex("^\\s*([+-])?(\\d*)?(\\/)?(\\d*)?\\s*"))) throw std::runtime_error("");
  std::string sign = sm[1], num = sm[2], slash = sm[3], den = sm[4];
  if (!slash.empty() && (num.empty() || den.empty())) throw std::runtime_error("");
  rational_t n = sign == "-" ? -1 : 1, d = 1;
  if (!num.empty()) n = n * integer_from_digits(num);
  if (slash == "/" && !den.empty()) d = integer_from_digits(den);
  return rational(n, d);
}
//@ C22 operator<<
std::ostream &shift(std::ostream &os, const rational &r) { os << r.str(); return os; }
} // namespace spec
