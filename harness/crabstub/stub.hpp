/* Stand-in for the parts of crab / ikos / clam that verifier/src/ntt_intervals.{hpp,cpp} uses: unbounded numbers (128 bits here),
 * intervals with infinite bounds, and an interval domain with the standard operations. Each operation of the stand-in has a
 * distinguishable effect on the state, so that a wrapper calling a different one is noticed. */
#pragma once
#include <boost/optional.hpp>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>
#include <utility>
#include <iostream>
#include <stdexcept>
#include <cstdint>
namespace ikos {
class z_number {
public:
  __int128 v;
  z_number() : v(0) {}
  z_number(int x) : v(x) {}
  z_number(long x) : v(x) {}
  z_number(long long x) : v(x) {}
  z_number(unsigned x) : v(x) {}
  z_number(unsigned long x) : v(x) {}
  static z_number raw(__int128 x) { z_number r; r.v = x; return r; }
  explicit operator int64_t() const { return (int64_t)v; }
  z_number operator+(z_number o) const { return raw(v + o.v); }
  z_number operator-(z_number o) const { return raw(v - o.v); }
  z_number operator*(z_number o) const { return raw(v * o.v); }
  z_number operator/(z_number o) const { return raw(v / o.v); }
  z_number operator%(z_number o) const { return raw(v % o.v); }
  z_number operator-() const { return raw(-v); }
  z_number operator~() const { return raw(~v); }
  explicit operator int() const { return (int)v; }
  bool fits_int64() const { return v == (__int128)(int64_t)v; }
  bool fits_slong() const { return fits_int64(); }
  std::string get_str(unsigned = 10) const { return std::to_string((long long)v); }
  z_number &operator^=(z_number o) { v ^= o.v; return *this; }
  z_number operator&(z_number o) const { return raw(v & o.v); }
  z_number operator|(z_number o) const { return raw(v | o.v); }
  z_number operator^(z_number o) const { return raw(v ^ o.v); }
  z_number operator<<(z_number o) const { return raw((__int128)((unsigned __int128)v << (int)o.v)); }
  z_number operator>>(z_number o) const { return raw(v >> (int)o.v); }
  z_number &operator+=(z_number o) { v += o.v; return *this; }
  z_number &operator-=(z_number o) { v -= o.v; return *this; }
  z_number &operator*=(z_number o) { v *= o.v; return *this; }
  z_number &operator/=(z_number o) { v /= o.v; return *this; }
  z_number &operator%=(z_number o) { v %= o.v; return *this; }
  z_number &operator&=(z_number o) { v &= o.v; return *this; }
  z_number &operator|=(z_number o) { v |= o.v; return *this; }
  z_number &operator<<=(z_number o) { *this = *this << o; return *this; }
  z_number &operator>>=(z_number o) { v >>= (int)o.v; return *this; }
  z_number operator++(int) { return raw(v++); }
  z_number operator--(int) { return raw(v--); }
  z_number &operator++() { ++v; return *this; }
  z_number &operator--() { --v; return *this; }
  bool operator==(z_number o) const { return v == o.v; }
  bool operator!=(z_number o) const { return v != o.v; }
  bool operator<(z_number o) const { return v < o.v; }
  bool operator<=(z_number o) const { return v <= o.v; }
  bool operator>(z_number o) const { return v > o.v; }
  bool operator>=(z_number o) const { return v >= o.v; }
};
inline z_number operator+(int a, z_number b) { return z_number(a) + b; }
inline z_number operator-(int a, z_number b) { return z_number(a) - b; }
inline z_number operator*(int a, z_number b) { return z_number(a) * b; }
inline std::ostream &operator<<(std::ostream &o, z_number n) { return o << (long long)n.v; }

template <typename N> class bound {
  int inf; N n;
public:
  bound(N x) : inf(0), n(x) {}
  bound(int i, N x) : inf(i), n(x) {}
  static bound plus_infinity() { return bound(1, N(0)); }
  static bound minus_infinity() { return bound(-1, N(0)); }
  bool is_infinite() const { return inf != 0; }
  bool is_finite() const { return inf == 0; }
  bool is_plus_infinity() const { return inf > 0; }
  bool is_minus_infinity() const { return inf < 0; }
  boost::optional<N> number() const { if (inf) return boost::optional<N>(); return boost::optional<N>(n); }
  bool operator<=(const bound &o) const { if (inf != o.inf) return inf < o.inf; return inf ? true : n <= o.n; }
  bool operator<(const bound &o) const { return !(o <= *this); }
  bool operator>=(const bound &o) const { return o <= *this; }
  bool operator>(const bound &o) const { return !(*this <= o); }
  bool operator==(const bound &o) const { return inf == o.inf && (inf || n == o.n); }
  bool operator!=(const bound &o) const { return !(*this == o); }
  bound operator-() const { return bound(-inf, inf ? N(0) : -n); }
  bound operator+(const bound &o) const { if (inf || o.inf) { if (inf && o.inf && inf != o.inf) throw std::runtime_error("oo - oo"); return bound(inf ? inf : o.inf, N(0)); } return bound(n + o.n); }
  bound operator-(const bound &o) const { return *this + (-o); }
  bound operator*(const bound &o) const { int a = inf ? inf : n < N(0) ? -1 : n > N(0), b = o.inf ? o.inf : o.n < N(0) ? -1 : o.n > N(0); if (inf || o.inf) return bound(a * b, N(0)); return bound(n * o.n); }
  static bound min(bound a, bound b, bound c) { return min(min(a, b), c); }
  static bound max(bound a, bound b, bound c) { return max(max(a, b), c); }
  static bound min(bound a, bound b) { return a <= b ? a : b; }
  static bound max(bound a, bound b) { return a <= b ? b : a; }
};
template <typename N> class interval {
  bound<N> l, u;
public:
  using bound_t = bound<N>;
  interval(bound<N> a, bound<N> b) : l(a), u(b) { if (b < a) { l = bound<N>(N(0)); u = bound<N>(N(-1)); } }
  interval(bound<N> a) : l(a), u(a) {}
  interval(N a) : l(a), u(a) {}
  interval(N a, N b) : interval(bound<N>(a), bound<N>(b)) {}
  static interval top() { return interval(bound<N>::minus_infinity(), bound<N>::plus_infinity()); }
  static interval bottom() { return interval(bound<N>(N(0)), bound<N>(N(-1))); }
  bound<N> lb() const { return l; }
  bound<N> ub() const { return u; }
  bool is_bottom() const { return u < l; }
  bool is_top() const { return l.is_infinite() && u.is_infinite(); }
  bool operator==(const interval &o) const { return (is_bottom() && o.is_bottom()) || (l == o.l && u == o.u); }
  bool operator!=(const interval &o) const { return !(*this == o); }
  bool operator<=(const interval &o) const { return is_bottom() || (!o.is_bottom() && o.l <= l && u <= o.u); }
  interval operator|(const interval &o) const { if (is_bottom()) return o; if (o.is_bottom()) return *this; return interval(bound<N>::min(l, o.l), bound<N>::max(u, o.u)); }
  interval operator&(const interval &o) const { if (is_bottom() || o.is_bottom()) return bottom(); return interval(bound<N>::max(l, o.l), bound<N>::min(u, o.u)); }
  interval operator-() const { return is_bottom() ? *this : interval(-u, -l); }
  interval operator+(const interval &o) const { return is_bottom() || o.is_bottom() ? bottom() : interval(l + o.l, u + o.u); }
  interval operator-(const interval &o) const { return *this + (-o); }
  interval operator*(const interval &o) const { if (is_bottom() || o.is_bottom()) return bottom(); bound<N> a = l * o.l, b = l * o.u, c = u * o.l, d = u * o.u; return interval(bound<N>::min(bound<N>::min(a, b), bound<N>::min(c, d)), bound<N>::max(bound<N>::max(a, b), bound<N>::max(c, d))); }
  boost::optional<N> singleton() const { if (!is_bottom() && l == u) return l.number(); return boost::optional<N>(); }
};
} // namespace ikos
namespace crab {
class crab_os { public: std::string s; template <class T> crab_os &operator<<(const T &) { return *this; } };
inline crab_os &outs() { static crab_os o; return o; }
inline crab_os &errs() { static crab_os o; return o; }
template <typename N> struct thresholds { int id; };
struct CrabStats { static void count(const std::string &) {} };
struct ScopedCrabStats { ScopedCrabStats(const std::string &, bool = false) {} };
namespace domains {
enum arith_operation_t { OP_ADDITION, OP_SUBTRACTION, OP_MULTIPLICATION, OP_SDIV, OP_UDIV, OP_SREM, OP_UREM };
enum bitwise_operation_t { OP_AND, OP_OR, OP_XOR, OP_SHL, OP_LSHR, OP_ASHR };
enum int_conv_operation_t { OP_TRUNC, OP_SEXT, OP_ZEXT };
template <typename Dom> struct abstract_domain_traits;
template <typename V> struct var_t { V n; var_t(V x) : n(x) {} bool operator<(const var_t &o) const { return n < o.n; } bool operator==(const var_t &o) const { return n == o.n; } bool operator!=(const var_t &o) const { return n != o.n; } const V &name() const { return n; } };
template <typename V, typename N> struct voc_t { bool isv; V v; N k; voc_t(var_t<V> x) : isv(true), v(x.n), k(0) {} voc_t(N c) : isv(false), v(), k(c) {} bool is_variable() const { return isv; } bool is_constant() const { return !isv; } var_t<V> get_variable() const { if (!isv) throw std::runtime_error("not a variable"); return var_t<V>(v); } N get_constant() const { return k; } };
struct expr_t { int id; }; struct cst_t { int id; }; struct csts_t { int id; std::shared_ptr<void> st; }; /* may carry a whole state: the harness's way in and out of a domain */ struct dcsts_t { int id; }; struct ref_t { int id; };
template <typename Dom> class abstract_domain_api {
public:
  using number_t = typename abstract_domain_traits<Dom>::number_t;
  using varname_t = typename abstract_domain_traits<Dom>::varname_t;
  using interval_t = ikos::interval<number_t>;
  using variable_t = var_t<varname_t>;
  using variable_vector_t = std::vector<variable_t>;
  using variable_or_constant_t = voc_t<varname_t, number_t>;
  using variable_or_constant_vector_t = std::vector<variable_or_constant_t>;
  using linear_expression_t = expr_t; using linear_constraint_t = cst_t; using linear_constraint_system_t = csts_t;
  using disjunctive_linear_constraint_system_t = dcsts_t; using reference_constraint_t = ref_t;
  virtual ~abstract_domain_api() {}
  virtual Dom make_top() const = 0; virtual Dom make_bottom() const = 0;
  virtual void set_to_top() = 0; virtual void set_to_bottom() = 0; virtual bool is_bottom() const = 0; virtual bool is_top() const = 0;
  virtual bool operator<=(const Dom &) const = 0; virtual void operator|=(const Dom &) = 0; virtual void operator&=(const Dom &) = 0;
  virtual Dom operator|(const Dom &) const = 0; virtual Dom operator&(const Dom &) const = 0; virtual Dom operator||(const Dom &) const = 0;
  virtual Dom widening_thresholds(const Dom &, const crab::thresholds<number_t> &) const = 0; virtual Dom operator&&(const Dom &) const = 0;
  virtual void operator-=(const variable_t &) = 0; virtual interval_t operator[](const variable_t &) = 0; virtual interval_t at(const variable_t &) const = 0;
  virtual void operator+=(const linear_constraint_system_t &) = 0; virtual void assign(const variable_t &, const linear_expression_t &) = 0;
  virtual void apply(arith_operation_t, const variable_t &, const variable_t &, const variable_t &) = 0; virtual void apply(arith_operation_t, const variable_t &, const variable_t &, number_t) = 0;
  virtual void apply(int_conv_operation_t, const variable_t &, const variable_t &) = 0;
  virtual void apply(bitwise_operation_t, const variable_t &, const variable_t &, const variable_t &) = 0; virtual void apply(bitwise_operation_t, const variable_t &, const variable_t &, number_t) = 0;
  virtual void select(const variable_t &, const linear_constraint_t &, const linear_expression_t &, const linear_expression_t &) = 0;
  virtual void intrinsic(std::string, const variable_or_constant_vector_t &, const variable_vector_t &) = 0; virtual bool entails(const linear_constraint_t &) const = 0;
  virtual void weak_assign(const variable_t &, const linear_expression_t &) = 0; virtual void backward_assign(const variable_t &, const linear_expression_t &, const Dom &) = 0;
  virtual void backward_apply(arith_operation_t, const variable_t &, const variable_t &, number_t, const Dom &) = 0; virtual void backward_apply(arith_operation_t, const variable_t &, const variable_t &, const variable_t &, const Dom &) = 0;
  virtual void backward_intrinsic(std::string, const variable_or_constant_vector_t &, const variable_vector_t &, const Dom &) = 0;
  virtual void forget(const variable_vector_t &) = 0; virtual void project(const variable_vector_t &) = 0; virtual void rename(const variable_vector_t &, const variable_vector_t &) = 0; virtual void expand(const variable_t &, const variable_t &) = 0;
  virtual void normalize() = 0; virtual void minimize() = 0; virtual void write(crab::crab_os &) const = 0;
  virtual linear_constraint_system_t to_linear_constraint_system() const = 0; virtual disjunctive_linear_constraint_system_t to_disjunctive_linear_constraint_system() const = 0;
  virtual std::string domain_name() const = 0;
};
} // namespace domains
} // namespace crab
#define BOOL_OPERATIONS_NOT_IMPLEMENTED(D)
#define ARRAY_OPERATIONS_NOT_IMPLEMENTED(D)
#define REGION_AND_REFERENCE_OPERATIONS_NOT_IMPLEMENTED(D)
#define CRAB_ERROR(...) throw std::runtime_error("CRAB_ERROR")
#define CRAB_WARN(...) do { } while (0)
#define CRAB_LOG(...) do { } while (0)
namespace ikos {
template <typename N, typename V> class interval_domain {
public:
  using number_t = N; using varname_t = V; using interval_t = interval<N>; using variable_t = crab::domains::var_t<V>; using vv = std::vector<variable_t>;
  std::map<V, interval_t> m; bool bot = false; std::string tag;
  interval_domain make_top() const { return interval_domain(); }
  interval_domain make_bottom() const { interval_domain d; d.bot = true; return d; }
  void set_to_top() { *this = make_top(); }
  void set_to_bottom() { *this = make_bottom(); }
  bool is_bottom() const { return bot; }
  bool is_top() const { return !bot && m.empty() && tag.empty(); }
  interval_t at(const variable_t &v) const { if (bot) return interval_t::bottom(); auto i = m.find(v.n); return i == m.end() ? interval_t::top() : i->second; }
  interval_t operator[](const variable_t &v) const { return at(v); }
  interval_t operator[](const variable_t &v) { return at(v); }
  void set(const variable_t &v, interval_t i) { if (bot) return; if (i.is_bottom()) { set_to_bottom(); return; } m.erase(v.n); if (!i.is_top()) m.insert(std::make_pair(v.n, i)); }
  bool operator<=(const interval_domain &o) const { if (bot) return true; if (o.bot) return false; for (auto &k : o.m) if (!(at(variable_t(k.first)) <= k.second)) return false; return true; }
  interval_domain operator|(const interval_domain &o) const { if (bot) return o; if (o.bot) return *this; interval_domain d; for (auto &k : m) { auto i = o.m.find(k.first); if (i != o.m.end()) d.set(variable_t(k.first), k.second | i->second); } return d; }
  interval_domain operator&(const interval_domain &o) const { if (bot || o.bot) return make_bottom(); interval_domain d(*this); for (auto &k : o.m) d.set(variable_t(k.first), d.at(variable_t(k.first)) & k.second); return d; }
  void operator|=(const interval_domain &o) { *this = *this | o; }
  void operator&=(const interval_domain &o) { *this = *this & o; }
  interval_domain operator||(const interval_domain &o) const { interval_domain d = *this | o; d.tag += "widen"; return d; }
  interval_domain operator&&(const interval_domain &o) const { interval_domain d = *this & o; d.tag += "narrow"; return d; }
  interval_domain widening_thresholds(const interval_domain &o, const crab::thresholds<N> &t) const { interval_domain d = *this | o; d.tag += "widenth" + std::to_string(t.id); return d; }
  void operator-=(const variable_t &v) { if (!bot) m.erase(v.n); }
  void operator+=(const crab::domains::csts_t &c) { if (c.st) { *this = *(interval_domain *)c.st.get(); return; } tag += "add" + std::to_string(c.id); }
  void assign(const variable_t &x, const crab::domains::expr_t &e) { *this -= x; tag += "assign" + std::to_string(x.n) + "," + std::to_string(e.id); }
  void weak_assign(const variable_t &x, const crab::domains::expr_t &e) { tag += "weak" + std::to_string(x.n) + "," + std::to_string(e.id); }
  template <class OP> void apply(OP op, const variable_t &x, const variable_t &y, const variable_t &z) { tag += "ap3" + std::string(1, (char)('a' + sizeof(OP))) + std::to_string((int)op) + "," + std::to_string(x.n) + "," + std::to_string(y.n) + "," + std::to_string(z.n) + kind(op); }
  template <class OP> void apply(OP op, const variable_t &x, const variable_t &y, N k) { tag += "apk" + std::to_string((int)op) + "," + std::to_string(x.n) + "," + std::to_string(y.n) + "," + std::to_string((long)k.v) + kind(op); }
  void apply(crab::domains::int_conv_operation_t op, const variable_t &x, const variable_t &y) { tag += "cv" + std::to_string((int)op) + "," + std::to_string(x.n) + "," + std::to_string(y.n); }
  static std::string kind(crab::domains::arith_operation_t) { return "A"; }
  static std::string kind(crab::domains::bitwise_operation_t) { return "B"; }
  void select(const variable_t &l, const crab::domains::cst_t &c, const crab::domains::expr_t &a, const crab::domains::expr_t &b) { tag += "sel" + std::to_string(l.n) + "," + std::to_string(c.id) + "," + std::to_string(a.id) + "," + std::to_string(b.id); }
  bool entails(const crab::domains::cst_t &c) const { return c.id & 1; }
  void forget(const vv &v) { for (auto &x : v) *this -= x; }
  void project(const vv &v) { std::map<V, interval_t> k; for (auto &x : v) { auto i = m.find(x.n); if (i != m.end()) k.insert(*i); } m = k; }
  void rename(const vv &f, const vv &t) { for (size_t i = 0; i < f.size(); i++) { interval_t x = at(f[i]); *this -= f[i]; set(t[i], x); } }
  void expand(const variable_t &x, const variable_t &y) { set(y, at(x)); }
  void normalize() {}
  void minimize() {}
  void write(crab::crab_os &o) const { o.s += "w" + tag; }
  crab::domains::csts_t to_linear_constraint_system() const { return crab::domains::csts_t{ (int)m.size() + 10 * bot, std::make_shared<interval_domain>(*this) }; }
  crab::domains::dcsts_t to_disjunctive_linear_constraint_system() const { return crab::domains::dcsts_t{ 100 + (int)m.size() + 10 * bot }; }
  bool same(const interval_domain &o) const { return bot == o.bot && (bot || (m == o.m && tag == o.tag)); }
};
} // namespace ikos
namespace clam { using number_t = ikos::z_number; using varname_t = int; }
