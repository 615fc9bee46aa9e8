// Conversions between scalar types under every error mode, against exact arithmetic.
#include "model.hpp"
#include <cfloat>
#include <cmath>
#include <dynd/assignment.hpp>
using namespace mv;
typedef unsigned __int128 u128;
typedef __int128 i128;

enum Cls { BOOL, SINT, UINT, FLT, CPX };
struct T {
  const char *name;
  Cls c;
  int bits; // of the integer, or of one component
};
static const T TYPES[] = {{"bool", BOOL, 8},     {"int8", SINT, 8},       {"int16", SINT, 16},   {"int32", SINT, 32},
                          {"int64", SINT, 64},   {"uint8", UINT, 8},    {"uint16", UINT, 16},
                          {"uint32", UINT, 32},  {"uint64", UINT, 64}, {"float32", FLT, 32},
                          {"float64", FLT, 64},  {"complex[float32]", CPX, 32}, {"complex[float64]", CPX, 64}};
const int NT = sizeof(TYPES) / sizeof(TYPES[0]);
static size_t size_of(const T &t) { return t.c == CPX ? t.bits / 4 : t.bits / 8; }

// an exact number: sign and magnitude of an integer, or a double, or two doubles
struct Num {
  Cls c;
  bool neg;
  u128 mag;
  double re, im;
};
static Num num_int(bool neg, u128 m) { return Num{SINT, neg && m != 0, m, 0, 0}; }
static Num num_real(double x) { return Num{FLT, false, 0, x, 0}; }
static Num num_cpx(double x, double y) { return Num{CPX, false, 0, x, y}; }

static S dec(u128 v) {
  S s;
  do {
    s.insert(s.begin(), '0' + (char)(unsigned)(v % 10));
    v /= 10;
  } while (v);
  return s;
}
static S show(const Num &n) {
  switch (n.c) {
  case FLT:
    return mc::fmt("%a", n.re);
  case CPX:
    return mc::fmt("(%a, %a)", n.re, n.im);
  default:
    return (n.neg ? "-" : "") + dec(n.mag);
  }
}
static Num load(const T &t, const char *p) {
  switch (t.c) {
  case BOOL:
    return num_int(false, (unsigned char)*p);
  case SINT: {
    i128 v = 0;
    switch (t.bits) {
    case 8:
      v = rd<int8_t>(p);
      break;
    case 16:
      v = rd<int16_t>(p);
      break;
    case 32:
      v = rd<int32_t>(p);
      break;
    case 64:
      v = rd<int64_t>(p);
      break;
    case 128: {
      v = (i128)(((u128)rd<uint64_t>(p + 8) << 64) | rd<uint64_t>(p));
      break;
    }
    }
    return num_int(v < 0, v < 0 ? (u128)0 - (u128)v : (u128)v);
  }
  case UINT:
    switch (t.bits) {
    case 8:
      return num_int(false, rd<uint8_t>(p));
    case 16:
      return num_int(false, rd<uint16_t>(p));
    case 32:
      return num_int(false, rd<uint32_t>(p));
    case 64:
      return num_int(false, rd<uint64_t>(p));
    default:
      return num_int(false, ((u128)rd<uint64_t>(p + 8) << 64) | rd<uint64_t>(p));
    }
  case FLT:
    return num_real(t.bits == 32 ? (double)rd<float>(p) : rd<double>(p));
  case CPX:
    return t.bits == 32 ? num_cpx(rd<float>(p), rd<float>(p + 4)) : num_cpx(rd<double>(p), rd<double>(p + 8));
  }
  return Num();
}
static void store(const T &t, char *p, const Num &n) {
  switch (t.c) {
  case BOOL:
  case SINT:
  case UINT: {
    u128 v = n.neg ? (u128)0 - n.mag : n.mag;
    memcpy(p, &v, t.bits / 8); // little endian
    return;
  }
  case FLT:
    if (t.bits == 32)
      wr<float>(p, (float)n.re);
    else
      wr<double>(p, n.re);
    return;
  case CPX:
    if (t.bits == 32) {
      wr<float>(p, (float)n.re);
      wr<float>(p + 4, (float)n.im);
    } else {
      wr<double>(p, n.re);
      wr<double>(p + 8, n.im);
    }
  }
}

enum Mode { NOCHECK, OVER, FRAC, INEXACT, DEFAULT };
static const assign_error_mode MODES[] = {assign_error_nocheck, assign_error_overflow, assign_error_fractional, assign_error_inexact, assign_error_default};
static const char *MNAMES[] = {"nocheck", "overflow", "fractional", "inexact", "default"};

struct Want {
  bool may_fail = false, may_pass = false, any = false; // any: the value is not specified
  Num v;
};
static Want error() {
  Want w;
  w.may_fail = true;
  return w;
}
static Want value(const Num &n) {
  Want w;
  w.may_pass = true;
  w.v = n;
  return w;
}
static Want unspecified() { // neither the value nor success is specified
  Want w;
  w.may_pass = w.may_fail = w.any = true;
  return w;
}
static bool in_range(const T &d, bool neg, u128 mag) {
  if (d.c == BOOL)
    return !neg && mag <= 1;
  if (d.c == UINT)
    return !neg && (d.bits == 128 || mag <= (((u128)1 << d.bits) - 1));
  u128 half = (u128)1 << (d.bits - 1);
  return neg ? mag <= half : mag < half;
}
static Num wrap(const T &d, const Num &n) {
  char b[16];
  memset(b, 0, 16);
  store(d, b, n);
  return load(d, b);
}
// one floating point component from an integer
static bool int_exact(int bits, const Num &n) { // exactly representable?
  if (n.mag == 0)
    return true;
  int lo = 0, hi = 127;
  while (!((n.mag >> lo) & 1))
    ++lo;
  while (!((n.mag >> hi) & 1))
    --hi;
  return hi - lo < (bits == 32 ? 24 : 53); // exponents up to 127 fit in both (2^128-1 is not exact)
}
static double int_nearest(int bits, const Num &n) { // round to nearest, ties to even
  if (n.mag == 0)
    return 0;
  int p = bits == 32 ? 24 : 53;
  int hi = 127;
  while (!((n.mag >> hi) & 1))
    --hi;
  double r;
  if (hi < p)
    r = (double)(uint64_t)n.mag;
  else {
    int sh = hi - p + 1;
    u128 q = n.mag >> sh, rem = n.mag & (((u128)1 << sh) - 1), half = (u128)1 << (sh - 1);
    if (rem > half || (rem == half && (q & 1)))
      ++q;
    r = std::ldexp((double)(uint64_t)q, sh);
  }
  if (bits == 32 && r > FLT_MAX)
    r = HUGE_VAL;
  return n.neg ? -r : r;
}
static float to_float(double x) { // nearest, with the overflow made explicit
  return (float)x;
}
// double -> component
static Want real_to_real(int bits, double x, Mode m) {
  if (bits == 64) {
    Want w = value(num_real(x));
    w.may_fail = m == INEXACT && x != x;
    return w;
  }
  float f = to_float(x);
  Want w = value(num_real((double)f));
  if (m == NOCHECK)
    return w;
  if (x != x) { // NaN is a NaN in every precision; a checked conversion may also refuse it as inexact
    w.may_fail = m == INEXACT;
    return w;
  }
  if (std::isinf(x))
    return w;
  if (std::fabs(x) > FLT_MAX) {
    if (std::isinf(f))
      return error();
    w.may_fail = true; // rounds to the largest value
    if (m == INEXACT)
      return error();
    return w;
  }
  if (m == INEXACT && (double)f != x)
    return error();
  return w;
}
static Want real_to_int(const T &d, double x, Mode m) {
  if (d.c == BOOL) {
    if (m == NOCHECK)
      return value(num_int(false, x != 0));
    if (x == 0 || x == 1)
      return value(num_int(false, (u128)x));
    return error();
  }
  if (x != x || std::isinf(x))
    return m == NOCHECK ? unspecified() : error();
  double t = std::trunc(x);
  if (std::fabs(t) >= 340282366920938463463374607431768211456.0)
    return m == NOCHECK ? unspecified() : error();
  bool neg = std::signbit(t) && t != 0;
  u128 mag = (u128)std::fabs(t);
  if (!in_range(d, neg, mag))
    return m == NOCHECK ? unspecified() : error();
  Want w = value(num_int(neg, mag));
  if (m == NOCHECK || t == x)
    return w;
  if (m >= FRAC)
    return error();
  // overflow mode: fractions are dropped; a value less than one beyond the last representable integer may be either
  u128 m1 = mag + 1;
  bool xneg = x < 0;
  if (!in_range(d, xneg, m1))
    w.may_fail = true;
  return w;
}
static Want expect(const T &s, const T &d, const Num &n, Mode m) {
  if (m == DEFAULT)
    m = NOCHECK; // decided by the caller
  if (s.c == BOOL || s.c == SINT || s.c == UINT) {
    switch (d.c) {
    case BOOL:
      if (m == NOCHECK)
        return value(num_int(false, n.mag != 0));
    case SINT:
    case UINT:
      if (in_range(d, n.neg, n.mag))
        return value(n);
      return m == NOCHECK ? value(wrap(d, n)) : error();
    case FLT:
    case CPX: {
      double r = int_nearest(d.bits, n);
      Num v = d.c == FLT ? num_real(r) : num_cpx(r, 0);
      if (m == INEXACT && !int_exact(d.bits, n))
        return error();
      Want w = value(v);
      if (std::isinf(r) && m != NOCHECK)
        w.may_fail = true;
      return w;
    }
    }
  }
  if (s.c == FLT) {
    switch (d.c) {
    case FLT:
      return real_to_real(d.bits, n.re, m);
    case CPX: {
      Want w = real_to_real(d.bits, n.re, m);
      w.v = num_cpx(w.v.re, 0);
      return w;
    }
    default:
      return real_to_int(d, n.re, m);
    }
  }
  // complex source
  if (d.c == CPX) {
    Want a = real_to_real(d.bits, n.re, m), b = real_to_real(d.bits, n.im, m);
    Want w;
    w.may_fail = a.may_fail || b.may_fail;
    w.may_pass = a.may_pass && b.may_pass;
    w.v = num_cpx(a.v.re, b.v.re);
    return w;
  }
  if (d.c == BOOL) {
    if (m == NOCHECK)
      return value(num_int(false, n.re != 0 || n.im != 0));
    if (n.im != 0 || (n.re != 0 && n.re != 1) || n.im != n.im)
      return error();
    return value(num_int(false, (u128)n.re));
  }
  if (m != NOCHECK && n.im != 0)
    return error();
  return d.c == FLT ? real_to_real(d.bits, n.re, m) : real_to_int(d, n.re, m);
}
static bool same(const Num &a, const Num &b) {
  auto eq = [](double x, double y) { return (x != x && y != y) || (x == y && std::signbit(x) == std::signbit(y)); };
  if (a.c == FLT)
    return b.c == FLT && eq(a.re, b.re);
  if (a.c == CPX)
    return b.c == CPX && eq(a.re, b.re) && eq(a.im, b.im);
  return b.c != FLT && b.c != CPX && a.neg == b.neg && a.mag == b.mag;
}

// --- values ---
static std::vector<double> doubles(bool single, bool full) {
  std::vector<double> r;
  int mb = single ? 23 : 52, bias = single ? 127 : 1023, emax = single ? 255 : 2047;
  std::set<uint64_t> ms, few;
  uint64_t all = ((uint64_t)1 << mb) - 1;
  for (int k = 0; k <= mb; ++k) {
    uint64_t lo = k == 0 ? 0 : ((uint64_t)1 << k) - 1;
    for (uint64_t m : {((uint64_t)1 << k) & all, lo, all & ~lo, (all & ~lo) ^ 1, (((uint64_t)1 << k) | 1) & all}) {
      ms.insert(m & all);
    }
  }
  few = {0, 1, all, (all >> 1) + 1, all >> 1};
  if (!single) {
    few.insert((uint64_t)1 << 29);
    few.insert((uint64_t)1 << 28);
    few.insert(((uint64_t)1 << 28) + 1);
    few.insert(((uint64_t)3 << 28));
    few.insert(((uint64_t)0x7fffff) << 29);
    few.insert((((uint64_t)0xffffff) << 28));
  }
  for (int e = 0; e <= emax; ++e) {
    int x = e - bias;
    bool near = (x >= -2 && x <= 66) || (x >= 122 && x <= 129) || (x >= -151 && x <= -124) || e <= 1 || e >= emax - 1;
    std::set<uint64_t> pats = few;
    if (near && full && single)
      pats = ms;
    else if (near) {
      // patterns around the unit, around half of it, and around the precision of float32
      for (int c : {mb - x, mb - 23})
        for (int k = c - 2; k <= c + 1; ++k)
          if (k >= 0 && k < mb)
            for (uint64_t m : {(uint64_t)1 << k, ((uint64_t)1 << k) - 1, all & ~(((uint64_t)1 << k) - 1), ((uint64_t)1 << k) | 1, ((uint64_t)3 << k), all ^ ((uint64_t)1 << k)})
              pats.insert(m & all);
      if (full)
        for (uint64_t m : ms)
          pats.insert(m);
    }
    for (uint64_t m : pats)
      for (int s = 0; s < 2; ++s) {
        uint64_t b = m | ((uint64_t)e << mb) | ((uint64_t)s << (single ? 31 : 63));
        if (single)
          r.push_back(rd<float>((const char *)&b));
        else
          r.push_back(rd<double>((const char *)&b));
      }
  }
  return r;
}
static std::vector<double> few_doubles(bool single) {
  std::vector<double> r = {0.0, -0.0, 1, -1, 0.5, -0.5, 2, 127, 128, -128, -129, 127.5, 255, 256, -1.5, 32767, 32768, 65535, 65536, 16777216, 16777217, 2147483647.0, 2147483648.0, -2147483648.0, -2147483649.0,
                           4294967295.0, 4294967296.0, 9223372036854774784.0, 9223372036854775808.0, -9223372036854775808.0, -9223372036854777856.0, 18446744073709549568.0, 18446744073709551616.0,
                           FLT_MAX, -FLT_MAX, 3.4028235677973366e38, 3.5e38, 1e300, DBL_MAX, -DBL_MAX, HUGE_VAL, -HUGE_VAL, NAN, FLT_MIN, DBL_MIN, 4e-324, 1e-45, 1e-46, 0.1, 1.1, 1.0 + DBL_EPSILON};
  if (single)
    for (double &x : r)
      x = (double)(float)x;
  return r;
}
static std::vector<Num> values(const T &t, bool thorough) {
  std::vector<Num> r;
  switch (t.c) {
  case BOOL:
    return {num_int(false, 0), num_int(false, 1)};
  case SINT:
  case UINT: {
    if (t.bits <= 16) {
      for (long v = t.c == UINT ? 0 : -(1L << (t.bits - 1)); v < (t.c == UINT ? 1L << t.bits : 1L << (t.bits - 1)); ++v)
        r.push_back(num_int(v < 0, v < 0 ? -v : v));
      return r;
    }
    std::set<std::pair<bool, u128>> s;
    auto add = [&](bool neg, u128 m) {
      if (in_range(t, neg && m, m))
        s.insert({neg && m, m});
    };
    for (int neg = 0; neg < 2; ++neg)
      for (int k = 0; k < t.bits; ++k) {
        u128 p = (u128)1 << k;
        for (int o = -3; o <= 3; ++o)
          add(neg, p + (u128)(i128)o);
        for (int j = 0; j < k; ++j) { // rounding: ties and neighbours at every width
          u128 q = (u128)1 << j;
          add(neg, p | q);
          add(neg, p - q);
          if (j > 0) {
            add(neg, p | q | 1);
            add(neg, p | q | (q >> 1));
            add(neg, (p | q) - 1);
          }
          if (thorough && j > 1)
            for (int i = 0; i < j; ++i)
              add(neg, p | q | ((u128)1 << i));
        }
      }
    add(false, ~(u128)0);
    add(true, (u128)1 << 127);
    for (auto &e : s)
      r.push_back(num_int(e.first, e.second));
    return r;
  }
  case FLT:
    for (double x : doubles(t.bits == 32, thorough))
      r.push_back(num_real(x));
    if (t.bits == 64)
      for (double x : doubles(true, thorough))
        r.push_back(num_real(x));
    for (int k = 0; k <= 65; ++k) // around the integer boundaries
      for (int neg = 0; neg < 2; ++neg)
        for (double o : {-1.0, -0.75, -0.5, -0.25, 0.25, 0.5, 0.75, 1.0}) {
          double x = (neg ? -1 : 1) * (std::ldexp(1.0, k) + o);
          if (t.bits == 32)
            x = (double)(float)x;
          r.push_back(num_real(x));
        }
    return r;
  case CPX: {
    for (double a : few_doubles(t.bits == 32))
      for (double b : few_doubles(t.bits == 32))
        r.push_back(num_cpx(a, b));
    for (double a : doubles(t.bits == 32, thorough))
      r.push_back(num_cpx(a, 0));
    return r;
  }
  }
  return r;
}

static void numeric(mc::X &x) {
  x.section("numeric");
  for (int si = 0; si < NT; ++si) {
    const T &s = TYPES[si];
    std::vector<Num> vals = values(s, x.thorough());
    ndt::type stp(s.name);
    for (int di = 0; di < NT; ++di) {
      const T &d = TYPES[di];
      ndt::type dtp(d.name);
      for (int m = 0; m < 5; ++m) {
        const size_t CH = 2000;
        for (size_t v0 = 0; v0 < vals.size(); v0 += CH) {
          if (!x.unit())
            continue;
          size_t v1 = std::min(vals.size(), v0 + CH);
          // whole arrays, forwards and backwards, of all the values that must be accepted
          std::vector<size_t> good, rest;
          for (size_t v = v0; v < v1; ++v) {
            Want w = expect(s, d, vals[v], (Mode)m);
            if (w.may_pass && !w.may_fail && !w.any)
              good.push_back(v);
            else
              rest.push_back(v);
          }
          bool whole = true;
          for (int rev = 0; rev < 2 && !good.empty(); ++rev) {
            MC_CASE_S(x, S(d.name) + " <- " + s.name + " array of " + mc::fmt("%zu", good.size()) + " values from " + show(vals[good[0]]) + " on (" + MNAMES[m] + ")" + (rev ? " reversed" : ""));
            size_t n = good.size();
            nd::array A = nd::empty(ndt::make_fixed_dim(n, stp)), B = nd::empty(ndt::make_fixed_dim(n, dtp));
            for (size_t i = 0; i < n; ++i)
              store(s, A.data() + i * size_of(s), vals[good[i]]);
            memset(B.data(), 0x5a, n * size_of(d));
            x.trans(n);
            whole = false;
            try {
              if (rev) {
                nd::array br = B(irange().by(-1)), ar = A(irange().by(-1));
                br.assign(ar, MODES[m]);
              } else
                B.assign(A, MODES[m]);
              whole = true;
              for (size_t i = 0; i < n; ++i) {
                Num got = load(d, B.cdata() + i * size_of(d)), want = expect(s, d, vals[good[i]], (Mode)m).v;
                x.state(mc::h64(A.cdata() + i * size_of(s), size_of(s), mc::h64(&si, sizeof si)));
                if (!x.check(same(got, want), "array value", mc::fmt("element %zu: ", i) + show(vals[good[i]]) + " gave " + show(got) + ", expected " + show(want)))
                  break;
              }
            } catch (const std::exception &e) {
              x.fail("array rejected", e.what());
            } catch (const dynd::dynd_exception &e) {
              x.fail("array rejected", e.what());
            }
          }
          // one by one: those that may or must be rejected, and some of the others
          nd::array sa = nd::empty(stp), da = nd::empty(dtp);
          if (s.c <= UINT && d.c <= UINT && (m == FRAC || m == INEXACT) && !x.thorough()) {
            // the same code decides as in the mode "overflow"
            std::vector<size_t> some;
            for (size_t i = 0; i < rest.size(); i += 7)
              some.push_back(rest[i]);
            rest = some;
          }
          for (size_t i = 0; i < good.size(); i += whole ? 40 : 1)
            rest.push_back(good[i]);
          for (size_t v : rest) {
            MC_CASE_S(x, S(d.name) + " <- " + s.name + " " + show(vals[v]) + " (" + MNAMES[m] + ")");
            Want w = expect(s, d, vals[v], (Mode)m);
            store(s, sa.data(), vals[v]);
            memset(da.data(), 0x5a, size_of(d));
            bool threw = false;
            S what;
            try {
              da.assign(sa, MODES[m]);
            } catch (const std::exception &e) {
              threw = true;
              what = e.what();
            } catch (const dynd::dynd_exception &e) {
              threw = true;
              what = e.what();
            }
            x.trans();
            x.state(mc::h64(sa.cdata(), size_of(s), mc::h64(&si, sizeof si)));
            if (threw) {
              x.check(w.may_fail, "rejected", what);
              x.outcome("rejected");
            } else if (!w.may_pass) {
              x.check(false, "accepted", "gave " + show(load(d, da.cdata())));
            } else {
              Num got = load(d, da.cdata());
              if (!w.any)
                x.check(same(got, w.v), "value", "got " + show(got) + ", expected " + show(w.v));
              x.outcome("value");
            }
            x.check(same(load(s, sa.cdata()), vals[v]), "source", "the source changed");
          }
        }
      }
    }
  }
}

// --- strings ---
static nd::array text(const S &t) {
  nd::array a = nd::empty(ndt::type("string"));
  reinterpret_cast<dynd::string *>(a.data())->assign(t.data(), t.size());
  return a;
}
static S strip(const S &t) {
  size_t b = 0, e = t.size();
  while (b < e && isspace((unsigned char)t[b]))
    ++b;
  while (e > b && isspace((unsigned char)t[e - 1]))
    --e;
  return t.substr(b, e - b);
}
// A decimal number: what its text says exactly.
struct Dec {
  bool ok = false;      // [-]digits[.[digits]][e[+-]digits]
  bool plain = false;   // of the form that must be accepted as an integer
  bool neg = false, integral = false;
  bool huge = false;    // at least 2^127
  u128 mag = 0;
};
static Dec decimal(const S &t) {
  Dec d;
  size_t i = 0;
  if (i < t.size() && t[i] == '-') {
    d.neg = true;
    ++i;
  }
  S digs;
  size_t d0 = i;
  while (i < t.size() && isdigit((unsigned char)t[i]))
    digs += t[i++];
  if (i == d0)
    return d;
  long scale = 0;
  bool point = false, zeros = true, expo = false, esign = false;
  if (i < t.size() && t[i] == '.') {
    point = true;
    ++i;
    while (i < t.size() && isdigit((unsigned char)t[i])) {
      zeros = zeros && t[i] == '0';
      digs += t[i++];
      --scale;
    }
  }
  size_t edigits = 0;
  if (i < t.size() && (t[i] == 'e' || t[i] == 'E')) {
    expo = true;
    ++i;
    bool en = false;
    if (i < t.size() && (t[i] == '+' || t[i] == '-')) {
      esign = en = t[i] == '-';
      ++i;
    }
    size_t e0 = i;
    long e = 0;
    bool lead = true;
    while (i < t.size() && isdigit((unsigned char)t[i])) {
      lead = lead && t[i] == '0';
      edigits += !lead;
      e = std::min(100000L, e * 10 + (t[i++] - '0'));
    }
    if (i == e0)
      return d;
    scale += en ? -e : e;
  }
  if (i != t.size())
    return d;
  d.ok = true;
  d.plain = !(point && expo) && zeros && !esign && edigits <= 2;
  while (digs.size() > 1 && digs[0] == '0')
    digs.erase(0, 1);
  bool zero = digs.find_first_not_of('0') == S::npos;
  while (!zero && scale < 0 && digs.back() == '0') {
    digs.pop_back();
    ++scale;
  }
  d.integral = zero || scale >= 0;
  if (zero)
    return d;
  const u128 lim = (u128)1 << 127;
  for (char c : digs) {
    if (d.mag > (lim - 9) / 10)
      d.huge = true;
    d.mag = d.mag * 10 + (c - '0');
  }
  for (long k = 0; k < scale && !d.huge; ++k) {
    if (d.mag > lim / 10)
      d.huge = true;
    d.mag *= 10;
  }
  return d;
}
static S sdec(i128 v) { return v < 0 ? "-" + dec((u128)0 - (u128)v) : dec((u128)v); }
static std::vector<S> number_texts(bool thorough) {
  std::set<S> r;
  for (int k : {7, 8, 15, 16, 31, 32, 63, 64, 65, 70, 100})
    for (int sg : {1, -1})
      for (int o = -3; o <= 3; ++o)
        r.insert(sdec(sg * (((i128)1 << k) + o)));
  // one decimal digit beyond the range: the leading digits decide whether a wrapped product still grows
  for (int k : {8, 16, 32, 64})
    for (int lead = 1; lead <= 99; ++lead) {
      S m = dec(((u128)1 << k) - 1);
      for (size_t n = m.size() - 1; n <= m.size() + 1; ++n) {
        S q = std::to_string(lead);
        if (q.size() > n)
          continue;
        r.insert(q + S(n - q.size(), '0'));
        r.insert(q + S(n - q.size(), '9'));
        r.insert("-" + q + S(n - q.size(), '0'));
      }
      for (int e = (int)m.size() - 3; e <= (int)m.size() + 1; ++e)
        if (e >= 0)
          r.insert(std::to_string(lead) + "e" + std::to_string(e));
    }
  for (const char *b : {"0", "7", "-7", "12", "-128", "127", "128", "255", "2147483647", "-2147483648", "9223372036854775807", "9223372036854775808", "-9223372036854775808"})
    for (const char *suf : {"", ".", ".0", ".000", ".5", ".50", ".001", "e0", "e00", "e1", "E1", "e+1", "e-1", "e01", "e18", "e19", "e20", "e99", "e100", "e001", "e0100", " ", "x", ".0x", "e", "e+", "e1x", "-", " 1", ".0e1", "e1.0", ",", "_1"})
      for (const char *pre : {"", " ", "0", "00", "+", "-", "\t", "x"})
        r.insert(S(pre) + b + suf);
  // every short text
  const S al = thorough ? "019-.e +x" : "09-.e +x";
  std::vector<S> cur = {""};
  for (int len = 0; len <= 4; ++len) {
    std::vector<S> nx;
    for (auto &t : cur) {
      r.insert(t);
      for (char c : al)
        nx.push_back(t + c);
    }
    cur = nx;
  }
  return std::vector<S>(r.begin(), r.end());
}
static void string_to_int(mc::X &x) {
  x.section("string to integer");
  auto texts = number_texts(x.thorough());
  for (const char *tn : {"int8", "int16", "int32", "int64"})
    for (int m = 0; m < 5; ++m)
      for (size_t t0 = 0; t0 < texts.size(); t0 += 500) {
        if (!x.unit())
          continue;
        const T *t = nullptr;
        for (auto &e : TYPES)
          if (S(e.name) == tn)
            t = &e;
        ndt::type tp(tn);
        for (size_t i = t0; i < std::min(texts.size(), t0 + 500); ++i) {
          const S &s = texts[i];
          MC_CASE_S(x, S(tn) + " <- " + mc::quote(s) + " (" + MNAMES[m] + ")");
          Dec d = decimal(strip(s));
          bool fits = d.ok && d.integral && !d.huge && in_range(*t, d.neg && d.mag, d.mag);
          nd::array src = text(s), dst = nd::empty(tp);
          memset(dst.data(), 0x5a, tp.get_data_size());
          bool threw = false;
          S what;
          try {
            dst.assign(src, MODES[m]);
          } catch (const std::exception &e) {
            threw = true;
            what = e.what();
          } catch (const dynd::dynd_exception &e) {
            threw = true;
            what = e.what();
          }
          x.trans();
          x.state(s);
          S st = strip(s);
          bool no_digits = st.empty() ? false : (st[0] == '.' || st[0] == 'e' || (st.size() > 1 && st[0] == '-' && (st[1] == '.' || st[1] == 'e')));
          if (threw) {
            x.check(!(fits && d.plain), "rejected", what);
            x.outcome("rejected");
          } else {
            Num got = load(*t, dst.cdata());
            if (fits) {
              if (d.plain || MODES[m] != assign_error_nocheck)
                x.check(same(got, num_int(d.neg, d.mag)), "value", "got " + show(got));
            } else
              x.check(MODES[m] == assign_error_nocheck || no_digits, "accepted", "gave " + show(got));
            x.outcome("value");
          }
          x.check(read(src).s == s, "source", "the source changed");
        }
      }
}
static void string_to_real(mc::X &x) {
  x.section("string to real");
  std::vector<S> texts = number_texts(x.thorough());
  for (const char *w : {"nan", "NaN", "-nan", "inf", "-inf", "Infinity", "-Infinity", "INF", "1.#QNAN", "1.#IND", "1.#INF", "-1.#INF", "infi", "nann", "in", "n", "1.#", "1.#INFx", "infinit", "infinityy"})
    texts.push_back(w);
  for (double v : few_doubles(false))
    if (std::isfinite(v))
      for (int pr : {1, 6, 9, 15, 17, 25}) {
        texts.push_back(mc::fmt("%.*g", pr, v));
        texts.push_back(mc::fmt("%.*e", pr, v));
        texts.push_back("  " + mc::fmt("%.*G", pr, v) + " ");
      }
  for (int e = -330; e <= 310; e += x.thorough() ? 1 : 3)
    for (const char *mnt : {"1", "1.7976931348623157", "1.7976931348623159", "4.9406564584124654", "2.4703282292062327", "3.4028234663852886", "3.4028235677973366", "9.99"})
      texts.push_back(S(mnt) + "e" + std::to_string(e));
  for (int bits : {32, 64})
    for (int m = 0; m < 5; ++m)
      for (size_t t0 = 0; t0 < texts.size(); t0 += 500) {
        if (!x.unit())
          continue;
        ndt::type tp(bits == 32 ? "float32" : "float64");
        const T &t = bits == 32 ? TYPES[9] : TYPES[10];
        for (size_t i = t0; i < std::min(texts.size(), t0 + 500); ++i) {
          const S &s = texts[i];
          MC_CASE_S(x, tstr(tp) + " <- " + mc::quote(s) + " (" + MNAMES[m] + ")");
          if (S(t.name) != tstr(tp))
            x.fail("harness", "type table");
          S st = strip(s), low;
          for (char c : st)
            low += (char)tolower((unsigned char)c);
          S body_ = !low.empty() && low[0] == '-' ? low.substr(1) : low;
          bool neg = !low.empty() && low[0] == '-';
          bool special = true, must = true;
          double v = 0;
          if (body_ == "nan" || body_ == "1.#qnan" || body_ == "1.#ind")
            v = NAN;
          else if (body_ == "inf" || body_ == "infinity" || body_ == "1.#inf")
            v = neg ? -HUGE_VAL : HUGE_VAL;
          else {
            special = false;
            Dec d = decimal(st);
            must = d.ok;
            if (must)
              v = strtod(st.c_str(), nullptr);
          }
          bool may_reject = !must, either = false;
          Want w;
          if (must) {
            Mode mm = m == DEFAULT ? NOCHECK : (Mode)m;
            w = real_to_real(bits, v, mm);
            may_reject = w.may_fail;
            if (!special && std::isinf(v)) // too large for a double: infinity, or an error in the checked modes
              may_reject = mm != NOCHECK;
          }
          nd::array src = text(s), dst = nd::empty(tp);
          memset(dst.data(), 0x5a, tp.get_data_size());
          bool threw = false;
          S what;
          try {
            dst.assign(src, MODES[m]);
          } catch (const std::exception &e) {
            threw = true;
            what = e.what();
          } catch (const dynd::dynd_exception &e) {
            threw = true;
            what = e.what();
          }
          x.trans();
          x.state(s);
          (void)either;
          if (threw) {
            x.check(may_reject, "rejected", what);
            x.outcome("rejected");
          } else {
            Num got = load(t, dst.cdata());
            x.outcome("value");
            if (must && !w.may_pass)
              x.check(false, "accepted", "gave " + show(got));
            else if (must) {
              // straight to the nearest float32 is as right as through float64
              float direct = strtof(st.c_str(), nullptr);
              x.check(same(got, w.v) || (bits == 32 && !special && same(got, num_real(direct))), "value", "got " + show(got) + ", expected " + show(w.v));
            } else {
              // not a decimal number: forms that the C library reads to their end (a leading '+' or '.', hexadecimal)
              // are left open
              char *end;
              bool c_number = !st.empty() && (strtod(st.c_str(), &end), *end == 0);
              x.check(c_number, "accepted", "gave " + show(got));
            }
          }
        }
      }
}
static void string_to_bool(mc::X &x) {
  x.section("string to bool");
  static const char *yes[] = {"1", "y", "t", "yes", "on", "true"}, *no[] = {"0", "n", "f", "no", "off", "false"};
  std::set<S> texts;
  for (int k = 0; k < 12; ++k) {
    S w = k < 6 ? yes[k] : no[k - 6];
    for (unsigned mask = 0; mask < (1u << w.size()); ++mask) {
      S t = w;
      for (size_t i = 0; i < w.size(); ++i)
        if (mask >> i & 1)
          t[i] = (char)toupper((unsigned char)t[i]);
      texts.insert(t);
      texts.insert(" " + t + "\t");
    }
    for (size_t i = 0; i < w.size(); ++i) // one character off
      for (char c : S("aeflnorstuy01x ")) {
        S t = w;
        t[i] = c;
        texts.insert(t);
        texts.insert(w + c);
        texts.insert(w.substr(0, i));
      }
  }
  for (int m = 0; m < 5; ++m)
    for (int u = 0; u < 1; ++u) {
      if (!x.unit())
        continue;
      for (const S &s : texts) {
        MC_CASE_S(x, "bool <- " + mc::quote(s) + " (" + MNAMES[m] + ")");
        S low;
        for (char c : strip(s))
          low += (char)tolower((unsigned char)c);
        int want = -1;
        for (auto w : yes)
          if (low == w)
            want = 1;
        for (auto w : no)
          if (low == w)
            want = 0;
        nd::array src = text(s), dst = nd::empty(ndt::type("bool"));
        *dst.data() = 0x5a;
        bool threw = false;
        S what;
        try {
          dst.assign(src, MODES[m]);
        } catch (const std::exception &e) {
          threw = true;
          what = e.what();
        } catch (const dynd::dynd_exception &e) {
          threw = true;
          what = e.what();
        }
        x.trans();
        x.state(s);
        if (threw)
          x.check(want < 0, "rejected", what);
        else if (want >= 0)
          x.check(*dst.cdata() == want, "value", mc::fmt("got %d", *dst.cdata()));
        else
          x.check((MODES[m] == assign_error_nocheck || m == DEFAULT) && (*dst.cdata() == 0 || *dst.cdata() == 1), "accepted", mc::fmt("gave %d", *dst.cdata()));
        x.outcome(threw ? "rejected" : "value");
      }
    }
}
static void int_to_string(mc::X &x) {
  x.section("integer to fixed string");
  const T *t = nullptr;
  for (auto &e : TYPES)
    if (S(e.name) == "int32")
      t = &e;
  auto vals = values(*t, false);
  for (int cap : {11, 16, 64})
    for (size_t v0 = 0; v0 < vals.size(); v0 += 2000) {
      if (!x.unit())
        continue;
      size_t n = std::min(vals.size(), v0 + 2000) - v0;
      MC_CASE_S(x, mc::fmt("fixed_string[%d] <- int32 array of %zu values from ", cap, n) + show(vals[v0]));
      nd::array A = nd::empty(ndt::make_fixed_dim(n, ndt::type("int32"))), B = nd::empty(ndt::make_fixed_dim(n, ndt::type(mc::fmt("fixed_string[%d]", cap))));
      memset(B.data(), 'x', n * cap);
      for (size_t i = 0; i < n; ++i)
        store(*t, A.data() + i * size_of(*t), vals[v0 + i]);
      B.assign(A);
      x.trans(n);
      V r = read(B);
      for (size_t i = 0; i < n; ++i) {
        x.state(show(vals[v0 + i]));
        if (!x.check(r.k[i].s == show(vals[v0 + i]), "text", "got " + mc::quote(r.k[i].s) + " for " + show(vals[v0 + i])))
          break;
      }
    }
}
// Every pair of scalar types either converts or is reported: nothing is read or written out of bounds.
static void all_pairs(mc::X &x) {
  x.section("every pair of types");
  static const char *ts[] = {"bool", "int8", "int16", "int32", "int64", "int128", "uint8", "uint16", "uint32", "uint64", "uint128", "float32", "float64", "complex[float32]", "complex[float64]", "string", "fixed_string[1]", "fixed_string[3]",
                             "fixed_string[20]", "fixed_string[4,'utf16']", "bytes", "fixed_bytes[3,1]", "char", "type", "?bool", "?int32", "?float64", "?string", "(int32, float64)", "{a: int32}", "{}"};
  for (const char *d : ts)
    for (int m = 0; m < 5; ++m) {
      if (!x.unit())
        continue;
      for (const char *s : ts)
        for (int dims = 0; dims < 3; ++dims) {
          MC_CASE_S(x, S(d) + " <- " + s + mc::fmt(" (%d dims, ", dims) + MNAMES[m] + ")");
          S pre = dims == 2 ? "2 * 3 * " : dims ? "3 * " : "";
          nd::array src, dst;
          try {
            src = nd::empty(ndt::type(pre + s));
            dst = nd::empty(ndt::type(pre + d));
          } catch (const dynd::dynd_exception &) {
            continue; // no such data
          }
          size_t n = src.get_type().get_data_size();
          if (S(s).find("string") == S::npos || S(s)[0] == 'f')
            if (S(s) != "bytes" && S(s) != "type")
              memset(src.data(), n && S(s)[0] == 'f' && S(s)[5] == '_' ? '1' : 1, n);
          x.trans();
          try {
            dst.assign(src, MODES[m]);
            x.outcome("assigned");
          } catch (const std::exception &) {
            x.outcome("rejected");
          } catch (const dynd::dynd_exception &) {
            x.outcome("rejected");
          }
          x.state(S(d) + s);
        }
    }
}

static void body(mc::X &x) {
  numeric(x);
  string_to_int(x);
  string_to_real(x);
  string_to_bool(x);
  int_to_string(x);
  all_pairs(x);
}
MC_MAIN(body)
