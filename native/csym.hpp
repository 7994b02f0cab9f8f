// Tracing number type: the wagyu headers are compiled with it in place of
// double, so that the real code records what it computes and every decision
// it takes.  A value is its native double plus the index of a node in a
// computation graph.
#pragma once
#include <bits/stdc++.h>

namespace csym {
enum Op : int { INPUT, CONST, ADD, SUB, MUL, DIV, NEG, FLOOR, CEIL, TRUNC,
                ROUND, ABS, RINT };
enum Cmp : int { LT = 1, EQ = 2, LE = 3, GT = 4, NE = 5, GE = 6, ALMOST = 8 };
struct Node { int op, a, b, pad; double v; };
struct Decision { int op, a, b, res; };
struct Budget : std::runtime_error { Budget() : std::runtime_error("steps") {} };
extern std::vector<Node> nodes;
extern std::vector<Decision> log;
extern long budget;
inline int make(int op, int a, int b, double v) {
  nodes.push_back({op, a, b, 0, v});
  if ((long)nodes.size() > budget) throw Budget();
  return (int)nodes.size() - 1;
}
inline void decide(int op, int a, int b, bool res) {
  log.push_back({op, a, b, res});
  if ((long)log.size() > budget) throw Budget();
}
}  // namespace csym

class SymI;
class Sym {
 public:
  double v;
  int n;                       // node, or -1 for a constant
  constexpr Sym() noexcept : v(0), n(-1) {}
  constexpr Sym(double x) noexcept : v(x), n(-1) {}
  constexpr Sym(float x) noexcept : v(x), n(-1) {}
  constexpr Sym(int x) noexcept : v(x), n(-1) {}
  constexpr Sym(long x) noexcept : v((double)x), n(-1) {}
  constexpr Sym(long long x) noexcept : v((double)x), n(-1) {}
  constexpr Sym(unsigned x) noexcept : v(x), n(-1) {}
  constexpr Sym(unsigned long x) noexcept : v((double)x), n(-1) {}
  constexpr Sym(double x, int node) noexcept : v(x), n(node) {}
  Sym(SymI const& x) noexcept;
  int node() const { return n >= 0 ? n : csym::make(csym::CONST, -1, -1, v); }
  explicit operator bool() const { return *this != Sym(0); }
  double fix() const {         // leave the traced world
    if (n >= 0) csym::decide(csym::EQ, n, Sym(v).node(), true);
    return v;
  }
  explicit operator double() const { return fix(); }
  explicit operator int() const { return (int)fix(); }
  explicit operator long() const { return (long)fix(); }
  explicit operator long long() const { return (long long)fix(); }
  explicit operator unsigned() const { return (unsigned)fix(); }
  explicit operator unsigned long() const { return (unsigned long)fix(); }
  explicit operator float() const { return (float)fix(); }

  static Sym bin(int op, Sym const& a, Sym const& b, double v) {
    if (a.n < 0 && b.n < 0) return Sym(v);
    int x = a.node(), y = b.node();
    return Sym(v, csym::make(op, x, y, v));
  }
  static Sym un(int op, Sym const& a, double v) {
    if (a.n < 0) return Sym(v);
    return Sym(v, csym::make(op, a.n, -1, v));
  }
  static bool cmp(int op, Sym const& a, Sym const& b, bool r) {
    if (a.n < 0 && b.n < 0) return r;
    if (a.n == b.n) return r;
    if (!std::isfinite(a.v) || !std::isfinite(b.v)) return r;
    int x = a.node(), y = b.node();
    csym::decide(op, x, y, r);
    return r;
  }
  friend Sym operator+(Sym const& a, Sym const& b) { return bin(csym::ADD, a, b, a.v + b.v); }
  friend Sym operator-(Sym const& a, Sym const& b) { return bin(csym::SUB, a, b, a.v - b.v); }
  friend Sym operator*(Sym const& a, Sym const& b) { return bin(csym::MUL, a, b, a.v * b.v); }
  friend Sym operator/(Sym const& a, Sym const& b) {
    if (b.n >= 0) csym::decide(csym::EQ, b.n, Sym(0).node(), b.v == 0);
    return bin(csym::DIV, a, b, a.v / b.v);
  }
  friend Sym operator-(Sym const& a) { return un(csym::NEG, a, -a.v); }
  friend Sym operator+(Sym const& a) { return a; }
  Sym& operator+=(Sym const& o) { return *this = *this + o; }
  Sym& operator-=(Sym const& o) { return *this = *this - o; }
  Sym& operator*=(Sym const& o) { return *this = *this * o; }
  Sym& operator/=(Sym const& o) { return *this = *this / o; }
  Sym& operator++() { return *this = *this + Sym(1); }
  Sym& operator--() { return *this = *this - Sym(1); }
  friend bool operator==(Sym const& a, Sym const& b) { return cmp(csym::EQ, a, b, a.v == b.v); }
  friend bool operator!=(Sym const& a, Sym const& b) { return cmp(csym::NE, a, b, a.v != b.v); }
  friend bool operator<(Sym const& a, Sym const& b) { return cmp(csym::LT, a, b, a.v < b.v); }
  friend bool operator<=(Sym const& a, Sym const& b) { return cmp(csym::LE, a, b, a.v <= b.v); }
  friend bool operator>(Sym const& a, Sym const& b) { return cmp(csym::GT, a, b, a.v > b.v); }
  friend bool operator>=(Sym const& a, Sym const& b) { return cmp(csym::GE, a, b, a.v >= b.v); }
  friend std::ostream& operator<<(std::ostream& o, Sym const& a) { return o << a.v; }
};

// Traced 64-bit integer; conversion from Sym truncates towards zero.
class SymI {
 public:
  long long v;
  int n;
  constexpr SymI() noexcept : v(0), n(-1) {}
  constexpr SymI(int x) noexcept : v(x), n(-1) {}
  constexpr SymI(unsigned x) noexcept : v(x), n(-1) {}
  constexpr SymI(long x) noexcept : v(x), n(-1) {}
  constexpr SymI(long long x) noexcept : v(x), n(-1) {}
  constexpr SymI(unsigned long x) noexcept : v((long long)x), n(-1) {}
  constexpr SymI(long long x, int node) noexcept : v(x), n(node) {}
  explicit SymI(Sym const& x) : v((long long)x.v), n(-1) {
    if (x.n >= 0) n = csym::make(csym::TRUNC, x.n, -1, (double)v);
  }
  Sym sym() const { return Sym((double)v, n); }
  explicit operator bool() const { return v != 0; }
  explicit operator int() const { return (int)sym().fix(); }
  explicit operator long() const { return (long)sym().fix(); }
  explicit operator long long() const { return (long long)sym().fix(); }
  explicit operator double() const { return sym().fix(); }
  static SymI bin(int op, SymI const& a, SymI const& b, long long v) {
    return SymI(v, Sym::bin(op, a.sym(), b.sym(), (double)v).n);
  }
  friend SymI operator+(SymI const& a, SymI const& b) { return bin(csym::ADD, a, b, a.v + b.v); }
  friend SymI operator-(SymI const& a, SymI const& b) { return bin(csym::SUB, a, b, a.v - b.v); }
  friend SymI operator*(SymI const& a, SymI const& b) { return bin(csym::MUL, a, b, (long long)((unsigned long long)a.v * (unsigned long long)b.v)); }
  friend SymI operator-(SymI const& a) { return SymI(-a.v, Sym::un(csym::NEG, a.sym(), (double)-a.v).n); }
  friend bool operator==(SymI const& a, SymI const& b) { return Sym::cmp(csym::EQ, a.sym(), b.sym(), a.v == b.v); }
  friend bool operator!=(SymI const& a, SymI const& b) { return Sym::cmp(csym::NE, a.sym(), b.sym(), a.v != b.v); }
  friend bool operator<(SymI const& a, SymI const& b) { return Sym::cmp(csym::LT, a.sym(), b.sym(), a.v < b.v); }
  friend bool operator<=(SymI const& a, SymI const& b) { return Sym::cmp(csym::LE, a.sym(), b.sym(), a.v <= b.v); }
  friend bool operator>(SymI const& a, SymI const& b) { return Sym::cmp(csym::GT, a.sym(), b.sym(), a.v > b.v); }
  friend bool operator>=(SymI const& a, SymI const& b) { return Sym::cmp(csym::GE, a.sym(), b.sym(), a.v >= b.v); }
  friend std::ostream& operator<<(std::ostream& o, SymI const& a) { return o << a.v; }
};
inline Sym::Sym(SymI const& x) noexcept : v((double)x.v), n(x.n) {}

inline Sym sym_floor(Sym const& a) { return Sym::un(csym::FLOOR, a, std::floor(a.v)); }
inline Sym sym_ceil(Sym const& a) { return Sym::un(csym::CEIL, a, std::ceil(a.v)); }
inline Sym sym_trunc(Sym const& a) { return Sym::un(csym::TRUNC, a, std::trunc(a.v)); }
inline Sym sym_round(Sym const& a) { return Sym::un(csym::ROUND, a, std::round(a.v)); }
inline Sym sym_rint(Sym const& a) { return Sym::un(csym::RINT, a, std::nearbyint(a.v)); }
inline Sym sym_abs(Sym const& a) { return Sym::un(csym::ABS, a, std::fabs(a.v)); }
inline SymI sym_llround(Sym const& a) {
  return SymI((long long)std::llround(a.v), Sym::un(csym::ROUND, a, std::round(a.v)).n);
}
inline SymI sym_llrint(Sym const& a) {
  return SymI((long long)std::llrint(a.v), Sym::un(csym::RINT, a, std::nearbyint(a.v)).n);
}
#define CSYM_FUNCTIONS                                              \
  inline Sym floor(Sym const& a) { return sym_floor(a); }           \
  inline Sym ceil(Sym const& a) { return sym_ceil(a); }             \
  inline Sym trunc(Sym const& a) { return sym_trunc(a); }           \
  inline Sym round(Sym const& a) { return sym_round(a); }           \
  inline Sym rint(Sym const& a) { return sym_rint(a); }             \
  inline Sym nearbyint(Sym const& a) { return sym_rint(a); }        \
  inline Sym fabs(Sym const& a) { return sym_abs(a); }              \
  inline Sym abs(Sym const& a) { return sym_abs(a); }               \
  inline SymI llround(Sym const& a) { return sym_llround(a); }      \
  inline SymI lround(Sym const& a) { return sym_llround(a); }       \
  inline SymI llrint(Sym const& a) { return sym_llrint(a); }        \
  inline SymI lrint(Sym const& a) { return sym_llrint(a); }         \
  inline bool isnan(Sym const& a) { return std::isnan(a.v); }       \
  inline bool isinf(Sym const& a) { return std::isinf(a.v); }       \
  inline bool isfinite(Sym const& a) { return std::isfinite(a.v); } \
  inline bool signbit(Sym const& a) {                               \
    return a.v == 0 ? (a == Sym(0), std::signbit(a.v)) : a < Sym(0); } \
  inline Sym fmax(Sym const& a, Sym const& b) { return a < b ? b : a; } \
  inline Sym fmin(Sym const& a, Sym const& b) { return b < a ? b : a; }
CSYM_FUNCTIONS
namespace std {
CSYM_FUNCTIONS
using SymI = ::SymI;
template <>
class numeric_limits<Sym> : public numeric_limits<double> {
 public:
  static Sym min() noexcept { return numeric_limits<double>::min(); }
  static Sym max() noexcept { return numeric_limits<double>::max(); }
  static Sym lowest() noexcept { return numeric_limits<double>::lowest(); }
  static Sym epsilon() noexcept { return numeric_limits<double>::epsilon(); }
  static Sym infinity() noexcept { return numeric_limits<double>::infinity(); }
  static Sym quiet_NaN() noexcept { return numeric_limits<double>::quiet_NaN(); }
};
template <>
class numeric_limits<SymI> : public numeric_limits<long long> {};
}  // namespace std

// The ULP comparison runs natively on the real values (the header has no
// include guard and no mention of double, so only the specialisation is given
// here; its body follows the headers, see CSYM_EPILOGUE).
typedef double csym_double;
namespace mapbox { namespace geometry { namespace wagyu { namespace util {
template <typename R> class FloatingPoint;
template <>
class FloatingPoint<Sym> {
 public:
  explicit FloatingPoint(Sym const& x) : x_(x) {}
  bool AlmostEquals(FloatingPoint const& o) const;
 private:
  Sym x_;
};
}}}}
#define CSYM_EPILOGUE                                                         \
  bool mapbox::geometry::wagyu::util::FloatingPoint<Sym>::AlmostEquals(       \
      FloatingPoint const& o) const {                                         \
    bool r = FloatingPoint<csym_double>(x_.v).AlmostEquals(                   \
        FloatingPoint<csym_double>(o.x_.v));                                  \
    return Sym::cmp(csym::ALMOST, x_, o.x_, r);                               \
  }
#define double Sym
#define int64_t SymI
