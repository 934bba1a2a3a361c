// P22: vector, matrix and sparse vector expressions against element loops
#include "common.h"
#include <limits>
#include <memory>
#include <sol/math/matrix.h>
#include <sol/math/sparse_vector.h>
#include <sol/math/vector.h>
typedef sol::math::Vector<float> LV;
typedef sol::math::Matrix<float> LM;
typedef sol::math::SVector<float> LS;

// ---- reference: values with an error bound for float evaluation ----
namespace ref {
const double U = 1.3e-7, TINY = 1e-37;
const double INF = std::numeric_limits<double>::infinity();
struct E {
  double v, e;
  E() : v(0), e(0) {}
  E(double x) : v(x), e(0) {}
  E(double x, double y) : v(x), e(y) {}
};
inline E mk(double v, double e) {
  if (!std::isfinite(v) || !std::isfinite(e) || std::fabs(v) > 1e30) return E(0, INF);
  return E(v, e + std::fabs(v) * U + TINY);
}
inline E operator+(E a, E b) { return mk(a.v + b.v, a.e + b.e); }
inline E operator-(E a, E b) { return mk(a.v - b.v, a.e + b.e); }
inline E operator*(E a, E b) { return mk(a.v * b.v, std::fabs(a.v) * b.e + std::fabs(b.v) * a.e + a.e * b.e); }
inline E operator/(E a, E b) {
  if (!(std::fabs(b.v) > 2 * b.e)) return E(0, INF);
  double q = a.v / b.v, m = std::fabs(b.v) - b.e;
  return mk(q, (a.e + std::fabs(q) * b.e) / m);
}
// a sum in any order of summation
struct Sum {
  E s;
  double mag = 0;
  size_t n = 0;
  void add(E x) {
    s.v += x.v;
    s.e += x.e;
    mag += std::fabs(x.v);
    ++n;
  }
  E get() const { return mk(s.v, s.e + mag * U * (double)n); }
};
inline E fabs_(E a) { return E(std::fabs(a.v), a.e); }
inline E sqrt_(E a) {
  if (a.v - a.e < 0 && !(a.v == 0 && a.e == 0)) return E(0, INF);
  return mk(std::sqrt(a.v), a.v > 0 ? 2 * a.e / std::sqrt(a.v) : 0);
}
inline E trunc_(E a, E b) {
  double v = a.v >= 0 ? (a.v > b.v ? a.v - b.v : 0) : (-a.v > b.v ? a.v + b.v : 0);
  if (b.v - b.e < 0 && std::fabs(a.v) <= a.e && a.e > 0) return E(0, INF);  // jump at 0 for a negative threshold
  return mk(v, a.e + b.e + (std::fabs(a.v) + std::fabs(b.v)) * U);
}
struct RS;
struct RD {
  std::vector<E> v;
  RD() {}
  explicit RD(size_t n) : v(n) {}
  RD& operator=(const RS& s);
  RD& operator=(E k) {
    for (auto& x : v) x = k;
    return *this;
  }
  RS slice(const RS& x) const;
};
struct RS {
  std::vector<std::pair<uint32_t, E>> v;
  RS& operator=(E k) {
    for (auto& x : v) x.second = k;
    return *this;
  }
};
inline RD& RD::operator=(const RS& s) {
  for (auto& p : s.v) if (p.first < v.size()) v[p.first] = p.second;
  return *this;
}
inline RS RD::slice(const RS& x) const {
  RS r = x;
  for (auto& p : r.v) p.second = v[p.first];
  return r;
}
#define REF_BIN(NAME, EXPR)                                                                              \
  inline RD NAME(const RD& a, const RD& b) { RD r(a.v.size()); for (size_t i = 0; i < a.v.size(); ++i) { E p = a.v[i], q = b.v[i]; r.v[i] = EXPR; } return r; } \
  inline RD NAME(const RD& a, E q) { RD r(a.v.size()); for (size_t i = 0; i < a.v.size(); ++i) { E p = a.v[i]; r.v[i] = EXPR; } return r; }                     \
  inline RD NAME(E p, const RD& b) { RD r(b.v.size()); for (size_t i = 0; i < b.v.size(); ++i) { E q = b.v[i]; r.v[i] = EXPR; } return r; }                     \
  inline RS NAME(const RS& a, const RD& b) { RS r = a; for (auto& x : r.v) { E p = x.second, q = b.v[x.first]; x.second = EXPR; } return r; }                   \
  inline RS NAME(const RD& a, const RS& b) { RS r = b; for (auto& x : r.v) { E p = a.v[x.first], q = x.second; x.second = EXPR; } return r; }                   \
  inline RS NAME(const RS& a, E q) { RS r = a; for (auto& x : r.v) { E p = x.second; x.second = EXPR; } return r; }                                             \
  inline RS NAME(E p, const RS& b) { RS r = b; for (auto& x : r.v) { E q = x.second; x.second = EXPR; } return r; }
REF_BIN(operator+, p + q)
REF_BIN(operator-, p - q)
REF_BIN(operator*, p * q)
REF_BIN(operator/, p / q)
REF_BIN(truncate, trunc_(p, q))
#define REF_CMP(OP, ROP)                                                                                     \
  inline RD& operator OP(RD& d, const RD& b) { for (size_t i = 0; i < d.v.size(); ++i) d.v[i] = d.v[i] ROP b.v[i]; return d; } \
  inline RD& operator OP(RD& d, const RS& b) { for (auto& p : b.v) if (p.first < d.v.size()) d.v[p.first] = d.v[p.first] ROP p.second; return d; } \
  inline RD& operator OP(RD& d, E k) { for (auto& x : d.v) x = x ROP k; return d; } \
  inline RS& operator OP(RS& d, E k) { for (auto& x : d.v) x.second = x.second ROP k; return d; }
REF_CMP(+=, +)
REF_CMP(-=, -)
REF_CMP(*=, *)
REF_CMP(/=, /)
#define REF_UN(NAME, EXPR)                                                       \
  inline RD NAME(RD a) { for (auto& p : a.v) p = EXPR; return a; }               \
  inline RS NAME(RS a) { for (auto& x : a.v) { E p = x.second; x.second = EXPR; } return a; }
REF_UN(Sqrt, sqrt_(p))
REF_UN(L1, fabs_(p))
REF_UN(L2, p * p)
inline RS slice(const RD& a, const RS& x) { return a.slice(x); }
#define REF_DOT(NAME, OP)                                                                                              \
  inline E NAME(const RD& a, const RD& b) { Sum s; for (size_t i = 0; i < a.v.size(); ++i) s.add(a.v[i] OP b.v[i]); return s.get(); } \
  inline E NAME(const RD& a, const RS& b) { Sum s; for (auto& p : b.v) if (p.first < a.v.size()) s.add(a.v[p.first] OP p.second); return s.get(); }
REF_DOT(dotmul, *)
REF_DOT(dotplus, +)
REF_DOT(dotminus, -)
REF_DOT(dotdiv, /)
template <typename OP> inline E reduce(const RD& a) { Sum s; for (auto& p : a.v) s.add(p); return s.get(); }
template <typename OP> inline E reduce(const RS& a) { Sum s; for (auto& p : a.v) s.add(p.second); return s.get(); }
inline E Norm1(const RD& a) { return reduce<int>(L1(a)); }
inline E Norm1(const RS& a) { return reduce<int>(L1(a)); }
inline E Norm2(const RD& a) { return reduce<int>(L2(a)); }
inline E Norm2(const RS& a) { return reduce<int>(L2(a)); }
}  // namespace ref

namespace {
using namespace vf;
using namespace ref;
using namespace sol::math::expr;
namespace op = sol::math::expr::op;

template <class D, class X, class K>
struct Args {
  D &d, &a, &b;
  X &x, &z;  // x within the dimension, z with indices beyond it
  K k, h;
  K& r;
};
struct Stmt {
  const char* name;
  void (*lib)(Args<LV, LS, float>);
  void (*mat)(Args<LM, LS, float>);
  void (*rf)(Args<RD, RS, E>);
};
std::vector<Stmt>& stmts() {
  static std::vector<Stmt> v;
  return v;
}
#define CAT_(a, b) a##b
#define CAT(a, b) CAT_(a, b)
#define BODY(N, ...)                                                             \
  struct CAT(S, N) {                                                             \
    template <class D, class X, class K> static void f(Args<D, X, K> q) {        \
      D &d = q.d, &a = q.a, &b = q.b; X &x = q.x, &z = q.z; K k = q.k, h = q.h; K& r = q.r; \
      (void)d; (void)a; (void)b; (void)x; (void)z; (void)k; (void)h; (void)r;    \
      __VA_ARGS__;                                                               \
    }                                                                            \
  };
// any dense operands / vectors with sparse operands
#define DENSE_(N, ...) BODY(N, __VA_ARGS__) struct CAT(R, N) { CAT(R, N)() { stmts().push_back({#__VA_ARGS__, &CAT(S, N)::f<LV, LS, float>, &CAT(S, N)::f<LM, LS, float>, &CAT(S, N)::f<RD, RS, E>}); } } CAT(I, N);
#define SPARSE_(N, ...) BODY(N, __VA_ARGS__) struct CAT(R, N) { CAT(R, N)() { stmts().push_back({#__VA_ARGS__, &CAT(S, N)::f<LV, LS, float>, nullptr, &CAT(S, N)::f<RD, RS, E>}); } } CAT(I, N);
#define DENSE(...) DENSE_(__COUNTER__, __VA_ARGS__)
#define SPARSE(...) SPARSE_(__COUNTER__, __VA_ARGS__)
#define OP2(o1, o2)                                                                     \
  DENSE(d = (a o1 b) o2 k) DENSE(d += a o1 (b o2 k)) DENSE(d = k o1 (h o2 a)) \
  SPARSE(d = (a o1 x) o2 k) SPARSE(d += (x o1 a) o2 h) SPARSE(d -= k o1 (x o2 b)) SPARSE(d = x o1 (a o2 b)) SPARSE(d += (a o1 b) o2 x)
OP2(+, +) OP2(+, -) OP2(+, *) OP2(+, /)
OP2(-, +) OP2(-, -) OP2(-, *) OP2(-, /)
OP2(*, +) OP2(*, -) OP2(*, *) OP2(*, /)
OP2(/, +) OP2(/, -) OP2(/, *) OP2(/, /)
#define ASG(o) DENSE(d o a) DENSE(d o k) DENSE(d o k * a) DENSE(d o L2(a + b)) SPARSE(d o x) SPARSE(d o z) SPARSE(d o k * z) SPARSE(d o L1(z)) SPARSE(x o k)
ASG(+=) ASG(-=) ASG(*=) ASG(/=)
DENSE(d = k) SPARSE(d = x) SPARSE(d = z) SPARSE(d = z * k) SPARSE(x = k)
DENSE(d = Sqrt(L1(a) + 1.f)) DENSE(d = L1(a)) DENSE(d = L2(a)) DENSE(d = L1(a - b) * k) DENSE(d = Sqrt(L2(a) + L2(b)))
SPARSE(d = Sqrt(L1(x))) SPARSE(d -= L2(x) * a) SPARSE(d += L2(x) / (L1(a) + 1.f))
DENSE(d = truncate(a, k)) DENSE(d = truncate(a, b)) DENSE(d = truncate(a, L1(b))) DENSE(d = truncate(k, a)) DENSE(d = truncate(a - k, h * L1(b)))
SPARSE(d = truncate(a.slice(x), k)) SPARSE(d = -1.f * truncate(a.slice(x), L1(b))) SPARSE(d = truncate(x, k)) SPARSE(d = truncate(a, L1(x)))
SPARSE(d = a.slice(x)) SPARSE(d = k * a.slice(x)) SPARSE(d += slice(a + b, x)) SPARSE(d *= a.slice(x)) SPARSE(d = a / (k + b + L2(x)))
DENSE(r = dotmul(a, b)) DENSE(r = dotplus(a, b)) DENSE(r = dotminus(a, b)) DENSE(r = dotdiv(a, b)) DENSE(r = dotmul(a + b, a - b)) DENSE(r = dotmul(a * k, b))
SPARSE(r = dotmul(a, x)) SPARSE(r = dotmul(a, z)) SPARSE(r = dotmul(a * b, x)) SPARSE(r = dotmul(a, L2(x))) SPARSE(r = dotmul(a, z * k)) SPARSE(r = dotplus(a, x)) SPARSE(r = dotminus(a, z)) SPARSE(r = dotdiv(a, x))
DENSE(r = Norm1(a)) DENSE(r = Norm2(a)) DENSE(r = Norm2(a - b)) SPARSE(r = Norm1(z)) SPARSE(r = Norm2(z)) SPARSE(r = Norm2(x * a)) SPARSE(r = Norm1(k * x))
DENSE(r = reduce<op::plus>(a)) DENSE(r = reduce<op::plus>(a * b + k)) SPARSE(r = reduce<op::plus>(z)) SPARSE(r = reduce<op::plus>(a.slice(x) * k))

float val(pbt::Gen& g) {
  switch (g.below(5)) {
    case 0: return 0.f;
    case 1: return (float)g.range(-1000, 1000) / 7.f;
    case 2: return (float)g.range(-100000, 100000) * (g.chance(1, 2) ? 1e-6f : 0.37f);
    default: return nice_value(g);
  }
}
RD to_ref(const LM& m) {
  RD r(m.size());
  for (size_t i = 0; i < r.v.size(); ++i) r.v[i] = E(m[i]);
  return r;
}
RS to_ref(const LS& m) {
  RS r;
  for (size_t i = 0; i < m.size(); ++i) r.v.push_back(std::make_pair((uint32_t)m.index(i), E(m.value(i))));
  return r;
}
std::string sh(const RD& d) {
  std::ostringstream o;
  o << std::setprecision(9) << "[";
  for (auto& x : d.v) o << " " << x.v;
  return o.str() + " ]";
}
std::string sh(const RS& d) {
  std::ostringstream o;
  o << std::setprecision(9) << "{";
  for (auto& x : d.v) o << " " << x.first << ":" << x.second.v;
  return o.str() + " }";
}
bool agree(float got, const E& w) {
  if (w.e == INF) return true;
  return std::isfinite(got) && std::fabs(got - w.v) <= w.e * 1.01;
}
void compare(const RD& want, const LM& got, const char* what, int i) {
  PBT_CHECK(got.size() == want.v.size(), "size", what << i << " has " << got.size() << " elements instead of " << want.v.size());
  for (size_t k = 0; k < want.v.size(); ++k)
    PBT_CHECK(agree(got[k], want.v[k]), "value", std::setprecision(9) << "element " << k << " of " << what << i << " is " << got[k] << " instead of " << want.v[k].v);
}
void compare(const RS& want, const LS& got, const char* what) {
  PBT_CHECK(got.size() == want.v.size(), "size", what << " has " << got.size() << " elements instead of " << want.v.size());
  for (size_t k = 0; k < want.v.size(); ++k)
    PBT_CHECK(got.index(k) == want.v[k].first && agree(got.value(k), want.v[k].second), "value", std::setprecision(9) << "element " << k << " of " << what << " is " << got.index(k) << ":" << got.value(k) << " instead of " << want.v[k].first << ":" << want.v[k].second.v);
}
bool sane(const LM& m) {
  for (size_t i = 0; i < m.size(); ++i)
    if (!std::isfinite(m[i]) || std::fabs(m[i]) > 1e9 || (m[i] != 0 && std::fabs(m[i]) < 1e-9)) return false;
  return true;
}
bool sane(const LS& m) {
  for (size_t i = 0; i < m.size(); ++i)
    if (!std::isfinite(m.value(i)) || std::fabs(m.value(i)) > 1e9 || (m.value(i) != 0 && std::fabs(m.value(i)) < 1e-9)) return false;
  return true;
}
template <class M> void fill(pbt::Gen& g, M& m) {
  for (size_t i = 0; i < m.size(); ++i) m[i] = val(g);
}
void fill_sparse(pbt::Gen& g, LS& s, uint32_t n, bool wide) {
  s.clear();
  uint32_t i = (uint32_t)g.below(3);
  if (wide && g.chance(1, 8)) i = n + (uint32_t)g.below(4);        // nothing within the dimension
  if (wide && g.chance(1, 16)) i = n + 6;                          // at most one far index
  while (i < (wide ? n + 6 : n)) {
    s.push_back(i, val(g));
    i += (uint32_t)g.range(1, 4);
  }
  if (wide && g.chance(1, 6)) s.push_back(g.chance(1, 2) ? 4294967295u : 1000000u, val(g));
}
template <class T> struct Prog;
template <> struct Prog<LV> {
  static void make(LV& v, size_t rows, size_t cols) { v.resize(rows * cols); }
  static void run(const Stmt& s, Args<LV, LS, float> a) { s.lib(a); }
};
template <> struct Prog<LM> {
  static void make(LM& v, size_t rows, size_t cols) { v.resize({rows, cols}); }
  static void run(const Stmt& s, Args<LM, LS, float> a) { s.mat(a); }
};
template <class T>
void program(pbt::Gen& g, pbt::Ctx& c, const std::vector<const Stmt*>& cat) {
  size_t rows = std::is_same<T, LM>::value ? g.range(1, 4) : 1, cols = g.range(1, 9);
  if (g.chance(1, 100)) {
    c.label("large");
    if (std::is_same<T, LM>::value) rows = g.range(1, 20);
    cols = g.range(10, rows > 4 ? 24 : 400);
  }
  size_t n = rows * cols;
  T v[3];
  for (auto& x : v) {
    // elements behind the last one, within the capacity, must never be touched
    Prog<T>::make(x, rows + 8, cols);
    x = 4711.f;
    Prog<T>::make(x, rows, cols);
    fill(g, x);
  }
  std::vector<float> snap[3];
  for (int j = 0; j < 3; ++j) snap[j].assign(v[j].data(), v[j].data() + std::min<size_t>(v[j].capacity(), n + 8 * cols));
  auto behind = [&]() {
    for (int j = 0; j < 3; ++j)
      for (size_t i = n; i < std::min<size_t>(v[j].capacity(), snap[j].size()); ++i)
        PBT_CHECK(memcmp(v[j].data() + i, &snap[j][i], sizeof(float)) == 0, "behind", "an operation wrote " << v[j].data()[i] << " to element " << i << " of a vector of " << n << " elements");
  };
  LS x, z;
  fill_sparse(g, x, n, false);
  fill_sparse(g, z, n, true);
  int len = (int)g.range(1, 8), changed = 0;
  for (int s = 0; s < len; ++s) {
    const Stmt& st = *cat[g.below(cat.size())];
    int d = (int)g.below(3), a = (int)g.below(3), b = (int)g.below(3);
    float k = val(g), h = val(g), r = 0;
    RD rv[3] = {to_ref(v[0]), to_ref(v[1]), to_ref(v[2])};
    RS rx = to_ref(x), rz = to_ref(z);
    E rr;
    c.desc << "v0=" << sh(rv[0]) << " v1=" << sh(rv[1]) << " v2=" << sh(rv[2]) << " x=" << sh(rx) << " z=" << sh(rz) << " k=" << k << " h=" << h << "\n  d=v" << d << " a=v" << a << " b=v" << b << "  " << st.name << "\n";
    c.label(st.name);
    RD before = rv[d];
    Prog<T>::run(st, Args<T, LS, float>{v[d], v[a], v[b], x, z, k, h, r});
    st.rf(Args<RD, RS, E>{rv[d], rv[a], rv[b], rx, rz, E(k), E(h), rr});
    for (int i = 0; i < 3; ++i) compare(rv[i], v[i], "v", i);
    behind();
    compare(rx, x, "x");
    compare(rz, z, "z");
    PBT_CHECK(agree(r, rr), "scalar", std::setprecision(9) << "result " << r << " instead of " << rr.v);
    for (size_t i = 0; i < n; ++i) changed += before.v[i].v != v[d][i];
    changed += rr.v != 0;
    for (auto& m : v) if (!sane(m)) fill(g, m);
    if (!sane(x) || g.chance(1, 4)) fill_sparse(g, x, n, false);
    if (!sane(z) || g.chance(1, 4)) fill_sparse(g, z, n, true);
    (void)sane(z);
  }
  c.nontrivial = changed > 0;
}
void vectors(pbt::Gen& g, pbt::Ctx& c) {
  static std::vector<const Stmt*> cat;
  if (cat.empty()) for (auto& s : stmts()) cat.push_back(&s);
  program<LV>(g, c, cat);
}
void matrices(pbt::Gen& g, pbt::Ctx& c) {
  static std::vector<const Stmt*> cat;
  if (cat.empty()) for (auto& s : stmts()) if (s.mat != nullptr) cat.push_back(&s);
  program<LM>(g, c, cat);
}
// containers: a vector against std::vector, sharing and copying, text
template <class T> T elem(pbt::Gen& g);
template <> float elem<float>(pbt::Gen& g) { return g.chance(1, 4) ? (float)g.range(-1000000, 1000000) / 3.f * (g.chance(1, 3) ? 1e-20f : 1.f) : val(g); }
template <> int elem<int>(pbt::Gen& g) { return (int)g.range(-2147483647, 2147483647); }
template <> double elem<double>(pbt::Gen& g) { return (double)g.range(-1000000, 1000000) / 3.; }
template <> uint32_t elem<uint32_t>(pbt::Gen& g) { return (uint32_t)g.bits(32); }
template <class T>
void container(pbt::Gen& g, pbt::Ctx& c) {
  typedef sol::math::Vector<T> V;
  // group 0 is the vector, alias shares its memory, copy is a separate vector
  V v(g.range(0, 3));
  for (size_t i = 0; i < v.size(); ++i) v[i] = elem<T>(g);
  std::vector<T> m(v.begin(), v.begin() + v.size());
  V copy;
  std::vector<T> mc;
  bool has_copy = false;
  int n = (int)g.range(1, 25);
  size_t top = m.size();
  for (int k = 0; k < n; ++k) {
    V share(v);
    V& u = g.chance(1, 3) ? share : v;
    switch (g.below(11)) {
      case 0: { T e = elem<T>(g); c.desc << "push " << e << "\n"; u.push_back(e); m.push_back(e); break; }
      case 1:
        c.desc << "pop\n";
        if (m.empty()) {
          bool t = false;
          try { u.pop_back(); } catch (std::runtime_error&) { t = true; }
          PBT_CHECK(t, "pop", "popping from an empty vector did not throw");
        } else {
          u.pop_back();
          m.pop_back();
        }
        break;
      case 2: {
        size_t s = g.chance(1, 20) ? (size_t)g.range(200, 1500) : g.below(40);
        c.desc << "resize " << s << "\n";
        size_t old = m.size();
        u.resize(s);
        m.resize(s);
        // new elements have no defined value
        for (size_t i = old; i < s; ++i) u[i] = m[i] = i < 64 ? elem<T>(g) : T(i * 2654435761u % 1000003);
        break;
      }
      case 3: { size_t s = g.chance(1, 10) ? (size_t)g.range(500, 4000) : g.below(100); c.desc << "reserve " << s << "\n"; u.reserve(s); PBT_CHECK(u.capacity() >= s, "capacity", "capacity " << u.capacity() << " after reserving " << s); break; }
      case 4: c.desc << "clear\n"; u.clear(); m.clear(); break;
      case 5: { T e = elem<T>(g); c.desc << "fill " << e << "\n"; u = e; std::fill(m.begin(), m.end(), e); break; }
      case 6:
        if (!m.empty()) { size_t i = g.below(m.size()); T e = elem<T>(g); c.desc << "set " << i << " " << e << "\n"; (g.chance(1, 2) ? u[i] : u(i, 0)) = e; m[i] = e; }
        break;
      case 7: {
        size_t a = g.below(m.size() + 1), b = a + g.below(m.size() - a + 1);
        bool all = g.chance(1, 2);
        c.desc << "slice_op " << a << " " << (all ? m.size() : b) << "\n";
        int cnt = 0;
        auto f = [&cnt](T& e) { e = T(cnt++); };
        if (all) u.slice_op(std::function<void(T&)>(f), a);
        else u.slice_op(std::function<void(T&)>(f), a, b);
        int j = 0;
        for (size_t i = a; i < (all ? m.size() : b); ++i) m[i] = T(j++);
        break;
      }
      case 8: c.desc << "copyto\n"; u.copyto(copy); mc = m; has_copy = true; break;
      case 9: {
        c.desc << "text\n";
        std::stringstream t;
        t << std::setprecision(std::numeric_limits<T>::max_digits10 ? std::numeric_limits<T>::max_digits10 : 9) << u << "\n";
        if (m.empty()) { PBT_CHECK(t.str() == "[]\n", "text", "an empty vector is written as " << t.str()); break; }
        V back(m.size());
        t >> back;
        PBT_CHECK(bool(t) || t.eof(), "text", "reading back " << t.str() << " failed");
        for (size_t i = 0; i < m.size(); ++i) PBT_CHECK(back[i] == m[i], "text", "element " << i << " is " << back[i] << " after writing and reading " << m[i]);
        break;
      }
      default:
        if (has_copy) {
          c.desc << "change copy\n";
          T e = elem<T>(g);
          copy.push_back(e);
          mc.push_back(e);
          copy[0] = e;
          mc[0] = e;
        }
    }
    top = std::max(top, m.size());
    const V& cv = v;
    PBT_CHECK(cv.size() == m.size() && cv.dim() == m.size() && share.size() == m.size() && cv.empty() == m.empty(), "size", "size " << cv.size() << " instead of " << m.size());
    for (size_t i = 0; i < m.size(); ++i) PBT_CHECK(cv[i] == m[i] && share[i] == m[i] && cv(i, 0) == m[i] && cv.begin()[i] == m[i], "content", "element " << i << " is " << cv[i] << " instead of " << m[i]);
    if (!m.empty()) PBT_CHECK(cv.front() == m.front() && cv.back() == m.back() && size_t(cv.end() - cv.begin()) == m.size(), "content", "front, back or end wrong");
    size_t cnt = 0;
    bool ok = true;
    if (!m.empty()) cv.slice_op(std::function<void(const T&)>([&](const T& e) { ok = ok && e == m[cnt]; ++cnt; }));
    PBT_CHECK(ok && cnt == m.size(), "content", "slice_op visits " << cnt << " of " << m.size() << " elements, or others");
    if (has_copy) {
      PBT_CHECK(copy.size() == mc.size(), "copy", "the copy has " << copy.size() << " elements instead of " << mc.size());
      for (size_t i = 0; i < mc.size(); ++i) PBT_CHECK(copy[i] == mc[i], "copy", "element " << i << " of the copy is " << copy[i] << " instead of " << mc[i]);
    }
  }
  c.nontrivial = top >= 3;
}
void containers(pbt::Gen& g, pbt::Ctx& c) {
  switch (g.below(4)) {
    case 0: c.label("float"); return container<float>(g, c);
    case 1: c.label("int"); return container<int>(g, c);
    case 2: c.label("double"); return container<double>(g, c);
    default: c.label("unsigned"); return container<uint32_t>(g, c);
  }
}
// matrices: indexing, construction from expressions, text, mismatching shapes
void shapes(pbt::Gen& g, pbt::Ctx& c) {
  bool large = g.chance(1, 40);
  size_t r = g.range(1, large ? 30 : 5), k = g.range(1, large ? 30 : 5);
  LM m({r, k});
  std::vector<float> ref;
  for (size_t i = 0; i < r * k; ++i) ref.push_back(m[i] = elem<float>(g));
  c.desc << r << "x" << k << sh(to_ref(m)) << "\n";
  PBT_CHECK(m.rows() == r && m.cols() == k && m.size() == r * k && m.dim(0) == r && m.dim(1) == k && !m.empty(), "shape", "shape is " << m.rows() << "x" << m.cols());
  const LM& cm = m;
  for (size_t y = 0; y < r; ++y)
    for (size_t x = 0; x < k; ++x) {
      PBT_CHECK(m(x, y) == ref[y * k + x], "index", "m(" << x << "," << y << ") is " << m(x, y) << " instead of " << ref[y * k + x]);
      PBT_CHECK(cm(x, y) == ref[y * k + x] && cm.data(y)[x] == ref[y * k + x], "index", "constant m(" << x << "," << y << ") is " << cm(x, y) << " instead of " << ref[y * k + x]);
    }
  // written and read back
  std::stringstream t;
  t << std::setprecision(9) << m << "\n";
  LM back({r, k});
  back = 7.f;
  t >> back;
  for (size_t i = 0; i < ref.size(); ++i) PBT_CHECK(back[i] == ref[i], "text", "element " << i << " is " << back[i] << " after writing and reading " << ref[i]);
  // made from expressions
  float s = val(g);
  LM e1(m + m), e2;
  e2 = m * s;
  LV lv(r * k);
  for (size_t i = 0; i < ref.size(); ++i) lv[i] = ref[i];
  LV v1(lv - s), v2;
  v2 = lv + lv;
  PBT_CHECK(e1.rows() == r && e1.cols() == k && e2.rows() == r && e2.cols() == k && v1.size() == r * k && v2.size() == r * k, "construct", "a matrix made from an expression has another shape");
  for (size_t i = 0; i < ref.size(); ++i)
    PBT_CHECK(close(e1[i], (double)ref[i] + ref[i], 1e-5, 1e-30) && close(e2[i], (double)ref[i] * s, 1e-5, 1e-30) && close(v1[i], (double)ref[i] - s, 1e-5, 1e-5 * std::fabs(s)) && close(v2[i], 2. * ref[i], 1e-5, 1e-30), "construct", "element " << i << " of a matrix made from an expression is wrong");
  // sharing and copying
  LM share(m), cp;
  share[0] = 5.f;
  PBT_CHECK(m[0] == 5.f, "share", "a copy-constructed matrix does not share memory");
  m.copyto(cp);
  m[0] = 6.f;
  PBT_CHECK(cp[0] == 5.f && cp.rows() == r && cp.cols() == k, "copy", "copyto does not make a separate copy");
  share = cp;
  PBT_CHECK(share[0] == 5.f && m[0] == 6.f, "share", "assigning another matrix to a sharing one changed the original");
  m[0] = ref[0];
  // different shapes are refused, nothing changes
  size_t r2 = g.range(1, large ? 30 : 5), k2 = g.range(1, large ? 30 : 5);
  if (large && g.chance(1, 2)) r2 = r;
  if (r2 != r || k2 != k) {
    c.desc << "against " << r2 << "x" << k2;
    LM o({r2, k2});
    fill(g, o);
    int thrown = 0, tried = 4;
    try { m += o; } catch (std::runtime_error&) { ++thrown; }
    try { m = m + o; } catch (std::runtime_error&) { ++thrown; }
    try { m = o * 2.f; } catch (std::runtime_error&) { ++thrown; }
    float dm = 0;
    try { dm = dotmul(m, o); } catch (std::runtime_error&) { ++thrown; }
    PBT_CHECK(thrown == tried, "mismatch", tried - thrown << " operations on different shapes did not throw");
    for (size_t i = 0; i < ref.size(); ++i) PBT_CHECK(m[i] == ref[i], "mismatch", "a refused operation changed element " << i);
    (void)dm;
  }
  c.nontrivial = r > 1 && k > 1;
}
// data points and sparse vectors: sharing, cloning, dimension
void points(pbt::Gen& g, pbt::Ctx& c) {
  sol::pario::DataPoint p;
  p.Clear();
  Ex m;
  m.label = 0;
  p.set_label(0);
  int n = (int)g.range(1, 14);
  sol::pario::DataPoint q;
  Ex mq;
  bool clone = false;
  uint32_t next = 1;
  size_t top = 0;
  int bulk = g.chance(1, 30) ? (int)g.below(n) : -1;
  for (int k = 0; k < n; ++k) {
    if (k == bulk) {
      int j = (int)g.range(50, 1500), step = (int)g.range(1, 9);
      c.desc << "add " << j << " from " << next << " by " << step << "\n";
      for (; j > 0; --j, next += (uint32_t)step) {
        p.AddNewFeat(next, (float)(j % 17) - 8.f);
        m.f.push_back(std::make_pair(next, (float)(j % 17) - 8.f));
      }
    }
    switch (g.below(7)) {
      case 0: case 1: case 2: {
        next += (uint32_t)g.range(0, 5);
        uint32_t i = g.chance(1, 4) && next > 1 ? (uint32_t)g.range(1, next) : next;
        float v = elem<float>(g);
        c.desc << "add " << i << ":" << v << "\n";
        p.AddNewFeat(i, v);
        m.f.push_back(std::make_pair(i, v));
        ++next;
        break;
      }
      case 3: m.label = g.range(-100, 100); c.desc << "label " << m.label << "\n"; p.set_label((sol::label_t)m.label); break;
      case 4: {
        std::set<uint32_t> s;
        bool dup = false;
        for (auto& x : m.f) dup |= !s.insert(x.first).second;
        if (dup) break;
        c.desc << "sort\n";
        p.Sort();
        std::sort(m.f.begin(), m.f.end());
        PBT_CHECK(p.IsSorted(), "sort", "not sorted after sorting");
        break;
      }
      case 5:
        c.desc << "clone\n";
        if (g.chance(1, 2)) p.Clone(q);
        else q = p.Clone();
        mq = m;
        clone = true;
        break;
      default:
        if (clone && !mq.f.empty()) { c.desc << "change clone\n"; size_t i = g.below(mq.f.size()); q.feature(i) = mq.f[i].second = elem<float>(g); q.index(i) = mq.f[i].first = mq.f[i].first; }
        else if (g.chance(1, 6)) { c.desc << "clear\n"; p.Clear(); m.f.clear(); m.label = p.label(); next = 1; }
    }
    top = std::max(top, m.f.size());
    PBT_CHECK(from_point(p) == m, "point", "data point is " << str(from_point(p)) << " instead of " << str(m));
    if (clone) PBT_CHECK(from_point(q) == mq, "clone", "clone is " << str(from_point(q)) << " instead of " << str(mq));
    bool sorted = true;
    for (size_t i = 1; i < m.f.size(); ++i) sorted &= m.f[i - 1].first <= m.f[i].first;
    std::set<uint32_t> distinct;
    for (auto& x : m.f) distinct.insert(x.first);
    if (distinct.size() == m.f.size()) PBT_CHECK(p.IsSorted() == sorted, "sort", "IsSorted is " << p.IsSorted());
    if (sorted) PBT_CHECK(p.dim() == (m.f.empty() ? 0 : m.f.back().first + 1), "dim", "dimension is " << p.dim());
  }
  c.nontrivial = top >= 2;
}
// handles that share their content after copying and assignment, until given another
struct HVec {
  LV h;
  size_t size() const { return h.size(); }
  void push(uint32_t, float v) { h.push_back(v); }
  void resize(size_t n) { h.resize(n); }
  void set(size_t i, uint32_t, float v) { h[i] = v; }
  void fill(float v) { h = v; }
  std::pair<uint32_t, float> get(size_t i) const { return std::make_pair(0u, h[i]); }
};
struct HSp {
  LS h;
  size_t size() const { return h.size(); }
  void push(uint32_t x, float v) { h.push_back(x, v); }
  void resize(size_t n) { h.resize(n); }
  void set(size_t i, uint32_t x, float v) { h.index(i) = x; h.value(i) = v; }
  void fill(float v) { h = v; }
  std::pair<uint32_t, float> get(size_t i) const { return std::make_pair((uint32_t)h.index(i), h.value(i)); }
};
struct HPt {
  sol::pario::DataPoint h;
  size_t size() const { return h.size(); }
  void push(uint32_t x, float v) { h.AddNewFeat(x, v); }
  void resize(size_t n) { h.Resize(n); }
  void set(size_t i, uint32_t x, float v) { h.index(i) = x; h.feature(i) = v; }
  void fill(float v) { h.data() = v; }
  std::pair<uint32_t, float> get(size_t i) const { return std::make_pair((uint32_t)h.index(i), h.feature(i)); }
};
template <class H>
void sharing_of(pbt::Gen& g, pbt::Ctx& c, bool indexed) {
  typedef std::vector<std::pair<uint32_t, float>> C;
  const int N = 5;
  std::unique_ptr<H> h[N];
  std::shared_ptr<C> m[N];  // null: holds nothing yet
  for (int i = 0; i < N; ++i) h[i].reset(new H);
  auto own = [&](int i) -> C& {
    if (!m[i]) m[i].reset(new C);
    return *m[i];
  };
  int n = (int)g.range(2, 20), shares = 0;
  for (int k = 0; k < n; ++k) {
    int i = (int)g.below(N), j = (int)g.below(N);
    uint32_t x = indexed ? (uint32_t)g.range(1, 90) : 0;
    float v = elem<float>(g);
    switch (g.below(7)) {
      case 0: case 1:
        c.desc << "h" << i << " push " << x << ":" << v << "\n";
        h[i]->push(x, v);
        own(i).push_back(std::make_pair(x, v));
        break;
      case 2: {
        size_t z = g.below(3) ? 0 : g.below(9);
        C& q = own(i);
        size_t old = q.size();
        c.desc << "h" << i << " resize " << z << "\n";
        h[i]->resize(z);
        q.resize(z);
        for (size_t t = old; t < z; ++t) {
          q[t] = std::make_pair(x, v);
          h[i]->set(t, x, v);
        }
        break;
      }
      case 3:
        c.desc << "h" << i << " = h" << j << "\n";
        *h[i] = *h[j];
        m[i] = m[j];
        shares += i != j && m[j];
        break;
      case 4:
        if (i == j) break;
        c.desc << "h" << i << " copy of h" << j << "\n";
        h[i].reset(new H(*h[j]));
        m[i] = m[j];
        shares += m[j] != nullptr;
        break;
      case 5:
        c.desc << "h" << i << " new\n";
        if (g.chance(1, 2)) h[i].reset(new H);
        else *h[i] = H();
        m[i].reset();
        break;
      default:
        if (!m[i] || m[i]->empty()) break;
        c.desc << "h" << i << " set " << x << ":" << v << "\n";
        {
          size_t t = g.below(m[i]->size());
          h[i]->set(t, x, v);
          (*m[i])[t] = std::make_pair(x, v);
        }
    }
    for (int t = 0; t < N; ++t) {
      const H& q = *h[t];
      size_t z = m[t] ? m[t]->size() : 0;
      PBT_CHECK(q.size() == z, "share-size", "h" << t << " holds " << q.size() << " elements instead of " << z);
      for (size_t e = 0; e < z; ++e)
        PBT_CHECK(q.get(e) == (*m[t])[e], "share", "element " << e << " of h" << t << " is " << q.get(e).first << ":" << q.get(e).second << " instead of " << (*m[t])[e].first << ":" << (*m[t])[e].second);
    }
  }
  c.nontrivial = shares >= 1;
}
void sharing(pbt::Gen& g, pbt::Ctx& c) {
  switch (g.below(3)) {
    case 0: c.label("vectors"); return sharing_of<HVec>(g, c, false);
    case 1: c.label("sparse vectors"); return sharing_of<HSp>(g, c, true);
    default: c.label("data points"); return sharing_of<HPt>(g, c, true);
  }
}
}  // namespace
int main(int argc, char** argv) {
  std::vector<pbt::Target> t;
  t.push_back({"vector-programs", "programs of up to 8 statements from a catalogue of expressions over dense vectors, sparse vectors (within and beyond the dimension) and scalars, with aliasing; non-trivial: an element or a result changed", 150000, 5000000, vectors, 20});
  t.push_back({"matrix-programs", "the same for matrices; non-trivial: an element or a result changed", 60000, 2000000, matrices, 20});
  t.push_back({"containers", "operation histories of vectors of four element types with sharing and copies against std::vector; non-trivial: three or more elements held", 60000, 2000000, containers, 20});
  t.push_back({"shapes", "matrices of all small shapes: indexing, text, construction from expressions, mismatching shapes; non-trivial: at least 2x2", 30000, 1000000, shapes, 20});
  t.push_back({"points", "operation histories of data points; non-trivial: two or more features held", 30000, 1000000, points, 20});
  t.push_back({"sharing", "histories of five handles (vectors, sparse vectors, data points) that are assigned, copied, emptied and changed; non-trivial: content shared at least once", 60000, 2000000, sharing, 20});
  return pbt::Main(argc, argv, t);
}
