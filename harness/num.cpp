// The 128-bit integers and the half precision floats, against the compiler's __int128 and exact arithmetic.
#include "model.hpp"
#include <climits>
#include <cmath>
#include <dynd/config.hpp>
using namespace mv;
typedef unsigned __int128 U;
typedef __int128 I;

static U mk(uint64_t hi, uint64_t lo) { return (U)hi << 64 | lo; }
static dynd::int128 di(U v) { return dynd::int128((uint64_t)(v >> 64), (uint64_t)v); }
static dynd::uint128 du(U v) { return dynd::uint128((uint64_t)(v >> 64), (uint64_t)v); }
static U back(const dynd::int128 &v) { return mk(v.m_hi, v.m_lo); }
static U back(const dynd::uint128 &v) { return mk(v.m_hi, v.m_lo); }
static S dec(U v) {
  S s;
  do {
    s += char('0' + (int)(v % 10));
    v /= 10;
  } while (v);
  return S(s.rbegin(), s.rend());
}
static S sdec(I v) { return v < 0 ? "-" + dec(-(U)v) : dec((U)v); }
static S hx(U v) { return mc::fmt("0x%016llx%016llx", (unsigned long long)(v >> 64), (unsigned long long)v); }

static std::vector<U> values(bool deep) {
  std::vector<uint64_t> w = {0,
                             1,
                             2,
                             0x7fffffffULL,
                             0x80000000ULL,
                             0xffffffffULL,
                             0x100000000ULL,
                             0x123456789abcdefULL,
                             0x7fffffffffffffffULL,
                             0x8000000000000000ULL,
                             0x8000000000000001ULL,
                             0xffffffff00000000ULL,
                             0xfffffffffffffffeULL,
                             0xffffffffffffffffULL};
  if (deep)
    for (int i = 0; i < 64; i += 3) {
      w.push_back((1ULL << i) + 1);
      w.push_back((1ULL << i) - 3);
    }
  std::vector<U> r;
  for (auto h : w)
    for (auto l : w)
      r.push_back(mk(h, l));
  return r;
}
template <class T>
static S out(const T &v) {
  std::ostringstream o;
  o << v;
  return o.str();
}
// a float conversion: the right sign, exact where the value is representable, within an ulp elsewhere
template <class F>
static bool close(F got, long double want) {
  if (std::isinf((F)want))
    return std::isinf(got) || got == std::numeric_limits<F>::max();
  if ((long double)(F)want == want)
    return (long double)got == want;
  return std::fabs((long double)got - want) <= std::fabs(want) * std::numeric_limits<F>::epsilon();
}
static bool exact_ld(U m) { // 64 significant bits or less
  if (!m)
    return true;
  while (!(m & 1))
    m >>= 1;
  return m >> 64 == 0;
}

template <class D, class W, bool SIGNED>
static void binary(mc::X &x, U a, U b, D (*mkd)(U)) {
  D p = mkd(a), q = mkd(b);
  W wa = (W)a, wb = (W)b;
#define CK(EXPR, WANT, NAME)                                                                                           \
  x.trans(1);                                                                                                          \
  x.check((EXPR) == (WANT), NAME, mc::fmt("%s gives %s, expected %s", #EXPR, S(show(EXPR)).c_str(), S(show(WANT)).c_str()))
  struct Sh {
    static S f(bool v) { return v ? "true" : "false"; }
    static S f(U v) { return hx(v); }
  };
  auto show = [](auto v) { return Sh::f(v); };
  CK(back(p + q), (U)(a + b), "addition");
  CK(back(p - q), (U)(a - b), "subtraction");
  CK((p == q), (a == b), "equality");
  CK((p != q), (a != b), "equality");
  CK((p < q), (wa < wb), "order");
  CK((p <= q), (wa <= wb), "order");
  CK((p > q), (wa > wb), "order");
  CK((p >= q), (wa >= wb), "order");
}

static float f32(uint32_t u) {
  float f;
  memcpy(&f, &u, 4);
  return f;
}
static double f64(uint64_t u) {
  double f;
  memcpy(&f, &u, 8);
  return f;
}
// exact value of a half
static double half_value(uint16_t h) {
  int e = (h >> 10) & 31, m = h & 1023;
  double v;
  if (e == 31)
    v = m ? NAN : INFINITY;
  else if (!e)
    v = std::ldexp((double)m, -24);
  else
    v = std::ldexp((double)(1024 + m), e - 25);
  return h & 0x8000 ? -v : v;
}
// the half nearest to d (finite), ties to even; by search
static uint16_t nearest(double d) {
  uint16_t s = std::signbit(d) ? 0x8000 : 0;
  double a = std::fabs(d);
  if (std::isinf(a))
    return s | 0x7c00;
  // largest half <= a
  int lo = 0, hi = 0x7bff;
  while (lo < hi) {
    int m = (lo + hi + 1) / 2;
    if (half_value(m) <= a)
      lo = m;
    else
      hi = m - 1;
  }
  double l = half_value(lo), h = lo == 0x7bff ? 65536.0 : half_value(lo + 1);
  double dl = a - l, dh = h - a;
  int r = dl < dh ? lo : dh < dl ? lo + 1 : (lo & 1 ? lo + 1 : lo);
  return s | r;
}
// what a conversion of d may give: the nearest half; or an error if that loses everything the format promises
// (rounds to infinity, or is an inexact subnormal)
static S judge(double d, bool threw, uint16_t got) {
  if (std::isnan(d)) {
    if (threw || (got & 0x7c00) != 0x7c00 || !(got & 0x3ff))
      return "NaN is not kept";
    if (!!(got & 0x8000) != std::signbit(d))
      return "the sign of NaN is lost";
    return "";
  }
  uint16_t want = nearest(d);
  bool may = !std::isinf(d) && ((want & 0x7fff) == 0x7c00 ||
                                ((want & 0x7fff) <= 0x400 && half_value(want) != d));
  if (threw)
    return may ? "" : "error, although the value is representable or rounds to a normal number";
  if (got != want)
    return mc::fmt("gives 0x%04x (%g), the nearest is 0x%04x (%g)", got, half_value(got), want, half_value(want));
  return "";
}

static void body(mc::X &x) {
  std::vector<U> vs = values(x.thorough());
  x.section("128-bit pairs");
  for (size_t i = 0; i < vs.size(); ++i) {
    if (!x.unit())
      continue;
    for (size_t j = 0; j < vs.size(); ++j) {
      U a = vs[i], b = vs[j];
      MC_CASE(x, "%s and %s", hx(a).c_str(), hx(b).c_str());
      binary<dynd::int128, I, true>(x, a, b, di);
      binary<dynd::uint128, U, false>(x, a, b, du);
      dynd::int128 p = di(a);
      p += di(b);
      x.trans(1);
      x.check(back(p) == (U)(a + b), "int128 +=", "gives " + hx(back(p)));
    }
  }
  x.section("128-bit by 32-bit");
  {
    std::vector<uint32_t> ms = {0, 1, 2, 3, 10, 0xffff, 0x10000, 0x7fffffff, 0x80000000, 0xfffffffe, 0xffffffff};
    for (auto a : vs) {
      if (!x.unit())
        continue;
      for (auto m : ms) {
        MC_CASE(x, "%s by %u", hx(a).c_str(), m);
        x.trans(4);
        x.check(back(di(a) * m) == (U)(a * m), "int128 *", hx(back(di(a) * m)));
        x.check(back(du(a) * m) == (U)(a * m), "uint128 *", hx(back(du(a) * m)));
        if (m) {
          x.check(back(du(a) / m) == a / m, "uint128 /", hx(back(du(a) / m)));
          dynd::uint128 q = du(a);
          uint32_t r = 77;
          q.divrem(m, r);
          x.check(back(q) == a / m && r == (uint32_t)(a % m), "uint128 divrem", hx(back(q)));
        }
      }
    }
  }
  x.section("128-bit single");
  for (auto a : vs) {
    if (!x.unit())
      continue;
    MC_CASE(x, "%s", hx(a).c_str());
    dynd::int128 p = di(a);
    dynd::uint128 q = du(a);
    I s = (I)a;
    x.trans(30);
    x.check(back(-p) == (U)-a, "int128 unary -", hx(back(-p)));
    x.check(back(-q) == (U)-a, "uint128 unary -", hx(back(-q)));
    x.check(back(+p) == a && back(+q) == a, "unary +", "");
    x.check(back(~p) == ~a && back(~q) == ~a, "~", "");
    x.check(!p == !a, "int128 !", "");
    x.check(!q == !a, "uint128 !", "");
    x.check((bool)p == !!a && (bool)q == !!a, "bool", "");
    x.check(p.is_negative() == (s < 0), "is_negative", "");
    dynd::int128 n = p;
    n.negate();
    x.check(back(n) == (U)-a, "negate", hx(back(n)));
    x.check(out(p) == sdec(s), "int128 text", out(p) + " expected " + sdec(s));
    x.check(out(q) == dec(a), "uint128 text", out(q) + " expected " + dec(a));
    if (exact_ld(s < 0 ? -a : a)) {
      x.check(close((double)p, (long double)s), "int128 to double", mc::fmt("%.17g expected %.17Lg", (double)p, (long double)s));
      x.check(close((float)p, (long double)s), "int128 to float", mc::fmt("%.9g expected %.17Lg", (float)p, (long double)s));
    }
    if (exact_ld(a)) {
      x.check(close((double)q, (long double)a), "uint128 to double", mc::fmt("%.17g expected %.17Lg", (double)q, (long double)a));
      x.check(close((float)q, (long double)a), "uint128 to float", mc::fmt("%.9g expected %.17Lg", (float)q, (long double)a));
    }
    x.check((signed char)p == (signed char)a && (unsigned char)p == (unsigned char)a && (short)p == (short)a &&
                (unsigned short)p == (unsigned short)a && (int)p == (int)a && (unsigned)p == (unsigned)a &&
                (long long)p == (long long)a && (unsigned long long)p == (unsigned long long)a,
            "int128 to smaller", "");
    x.check((signed char)q == (signed char)a && (unsigned char)q == (unsigned char)a && (short)q == (short)a &&
                (unsigned short)q == (unsigned short)a && (int)q == (int)a && (unsigned)q == (unsigned)a &&
                (long long)q == (long long)a && (unsigned long long)q == (unsigned long long)a,
            "uint128 to smaller", "");
    x.check(back(dynd::int128(q)) == a && back(dynd::uint128(p)) == a, "signed to unsigned", "");
    for (int k : {0, 1, -1, 7, -128, INT_MAX, INT_MIN}) {
      x.check((p == k) == (s == k) && (p != k) == (s != k) && (k == p) == (s == k) && (k != p) == (s != k), "int128 with int equality",
              mc::fmt("%d", k));
      x.check((p < k) == (s < k) && (p > k) == (s > k) && (k < p) == (k < s) && (k > p) == (k > s), "int128 with int order",
              mc::fmt("%d", k));
    }
  }
  x.section("from smaller integers");
  {
    std::vector<long long> ss;
    for (int i = 0; i < 64; ++i)
      for (int d = -2; d <= 2; ++d) {
        ss.push_back((long long)((1ULL << i) + d));
        ss.push_back((long long)(-(1ULL << i) + d));
      }
    if (x.unit())
      for (long long v : ss) {
        MC_CASE(x, "%lld", v);
        x.trans(16);
#define FROM(T)                                                                                                        \
  x.check(back(dynd::int128((T)v)) == (U)(I)(T)v, "int128 from " #T, hx(back(dynd::int128((T)v))));                    \
  x.check(back(dynd::uint128((T)v)) == (U)(T)v, "uint128 from " #T, hx(back(dynd::uint128((T)v))));
        FROM(signed char)
        FROM(unsigned char)
        FROM(short)
        FROM(unsigned short)
        FROM(int)
        FROM(unsigned int)
        FROM(long)
        FROM(unsigned long)
        FROM(long long)
        FROM(unsigned long long)
        FROM(char)
      }
  }
  x.section("from floats");
  {
    // every exponent at which the value fits, several significands
    for (int e = -3; e < 128; ++e) {
      if (!x.unit())
        continue;
      for (uint64_t m : {0ULL, 1ULL, 0x8000000000000ULL, 0xfffffffffffffULL, 0x123456789abcdULL, 0xffffff0000000ULL, 0xfffffe0000000ULL}) {
        for (int neg = 0; neg < 2; ++neg) {
          double d = f64((uint64_t)(e + 1023) << 52 | m);
          if (neg)
            d = -d;
          float f = (float)d;
          MC_CASE(x, "%a", d);
          x.trans(4);
          if (std::fabs(d) < 0x1p127) {
            x.check(back(dynd::int128(d)) == (U)(I)d, "int128 from double", hx(back(dynd::int128(d))));
            if (std::fabs(f) < 0x1p127)
              x.check(back(dynd::int128(f)) == (U)(I)f, "int128 from float", hx(back(dynd::int128(f))));
          }
          if (!neg) {
            x.check(back(dynd::uint128(d)) == (U)d, "uint128 from double", hx(back(dynd::uint128(d))));
            if (!std::isinf(f))
              x.check(back(dynd::uint128(f)) == (U)f, "uint128 from float", hx(back(dynd::uint128(f))));
          }
        }
      }
    }
  }
  x.section("halves");
  for (int top = 0; top < 256; ++top) {
    if (!x.unit())
      continue;
    for (int low = 0; low < 256; ++low) {
      uint16_t h = top << 8 | low;
      MC_CASE(x, "half 0x%04x", h);
      x.trans(20);
      double want = half_value(h);
      dynd::float16 f(h, dynd::float16::raw_bits_tag());
      x.check(f.bits() == h, "bits", "");
      float gf = f;
      double gd = (double)f;
      if (std::isnan(want))
        x.check(std::isnan(gf) && std::isnan(gd) && std::signbit(gf) == (h >> 15) && std::signbit(gd) == (h >> 15), "half to float", mc::fmt("%g %g", gf, gd));
      else
        x.check(memcmp(&gd, &want, 8) == 0 && (double)gf == want && std::signbit(gf) == (h >> 15), "half to float",
                mc::fmt("%.9g %.9g expected %.9g", gf, gd, want));
      x.check(f.isnan_() == std::isnan(want) && f.isinf_() == !!std::isinf(want) && f.isfinite_() == !!std::isfinite(want) &&
                  f.iszero() == (want == 0) && f.signbit_() == std::signbit(want),
              "half classification", "");
      x.check((bool)f == (want != 0), "half to bool", "");
      x.check(!f == (want == 0), "half !", "");
      x.check((-f).bits() == (h ^ 0x8000) || std::isnan(want), "half unary -", mc::fmt("0x%04x", (-f).bits()));
      x.check((+f).bits() == h, "half unary +", "");
      uint16_t bf = dynd::float_to_halfbits(gf), bd = dynd::double_to_halfbits(gd);
      x.check(bf == h && bd == h, "half round trip", mc::fmt("0x%04x 0x%04x", bf, bd));
      if (std::isfinite(want)) {
        int64_t t = (int64_t)want;
        x.check((int32_t)f == t && (int64_t)f == t && back((dynd::int128)f) == (U)(I)t && back(dynd::int128(f)) == (U)(I)t, "half to integer",
                mc::fmt("%lld", (long long)t));
        if (want >= 0)
          x.check((uint32_t)f == (uint64_t)t && (uint64_t)f == (uint64_t)t && (uint16_t)f == (uint64_t)t &&
                      back((dynd::uint128)f) == (U)t && back(dynd::uint128(f)) == (U)t,
                  "half to unsigned", mc::fmt("%lld", (long long)t));
      }
    }
  }
  x.section("half pairs");
  {
    std::vector<uint16_t> hs;
    for (int e = 0; e < 32; ++e)
      for (int m : {0, 1, 2, 511, 512, 1022, 1023})
        for (int s = 0; s < 2; ++s)
          hs.push_back(s << 15 | e << 10 | m);
    for (uint16_t a : hs) {
      if (!x.unit())
        continue;
      for (uint16_t b : hs) {
        MC_CASE(x, "halves 0x%04x and 0x%04x", a, b);
        x.trans(8);
        dynd::float16 p(a, dynd::float16::raw_bits_tag()), q(b, dynd::float16::raw_bits_tag());
        double u = half_value(a), v = half_value(b);
        x.check((p == q) == (u == v) && (p != q) == (u != v) && (p < q) == (u < v) && (p <= q) == (u <= v) &&
                    (p > q) == (u > v) && (p >= q) == (u >= v),
                "half comparison", "");
        if (!std::isnan(u) && !std::isnan(v))
          x.check(p.less_nonan(q) == (u < v) && p.less_equal_nonan(q) == (u <= v), "half comparison without NaN", "");
      }
    }
  }
  x.section("float to half");
  {
    // every sign, exponent and value of the 11 leading bits of the significand, with all kinds of remainders
    std::vector<uint32_t> rem = {0, 1, 0x7ff, 0x800, 0x801, 0xffe, 0xfff};
    for (int e = 0; e < 256; ++e) {
      if (!x.unit())
        continue;
      bool near = (e >= 100 && e <= 144) || e == 255;
      for (int top = 0; top < 2048; top += near ? 1 : 97)
        for (int s = 0; s < 2; ++s) {
          MC_CASE(x, "float32 with sign %d, exponent %d, significand starting with 0x%03x", s, e, top);
          for (uint32_t r : rem) {
            uint32_t u = (uint32_t)s << 31 | (uint32_t)e << 23 | (uint32_t)top << 12 | r;
            float f = f32(u);
            x.trans(2);
            uint16_t got = 0;
            bool threw = false;
            try {
              got = dynd::float16(f).bits();
            } catch (const std::exception &) {
              threw = true;
            }
            S w = judge(f, threw, got);
            x.check(w.empty(), "float to half", mc::fmt("0x%08x (%.9g): ", u, f) + w);
            // the same as a double, and with bits only a double has
            for (uint64_t extra : {0ULL, 1ULL, 0x10000000ULL, 0x1fffffffULL}) {
              if (extra && e == 0)
                continue;
              double d = f;
              uint64_t b;
              memcpy(&b, &d, 8);
              b |= extra;
              d = f64(b);
              threw = false;
              got = 0;
              try {
                got = dynd::float16(d).bits();
              } catch (const std::exception &) {
                threw = true;
              }
              w = judge(d, threw, got);
              x.check(w.empty(), "double to half", mc::fmt("0x%016llx (%.17g): ", (unsigned long long)b, d) + w);
            }
          }
        }
    }
  }
  x.section("integer to half");
  for (int base = -66000; base < 66000; base += 1000) {
    if (!x.unit())
      continue;
    for (int v = base; v < base + 1000; ++v) {
      MC_CASE(x, "%d", v);
      x.trans(3);
      for (int k = 0; k < 5; ++k) {
        bool threw = false;
        uint16_t got = 0;
        try {
          got = k == 0   ? dynd::float16((int32_t)v).bits()
                : k == 1 ? dynd::float16((int64_t)v).bits()
                : k == 2 ? dynd::float16(dynd::int128(v)).bits()
                : v < 0  ? nearest(v)
                : k == 3 ? dynd::float16((uint64_t)v).bits()
                         : dynd::float16(dynd::uint128(v)).bits();
        } catch (const std::exception &) {
          threw = true;
        }
        S w = judge(v, threw, got);
        x.check(w.empty(), "integer to half", w);
      }
    }
  }
  if (x.thorough()) {
    x.section("every float to half");
    for (int hi = 0; hi < 4096; ++hi) {
      if (!x.unit())
        continue;
      for (int mid = 0; mid < 16; ++mid) {
        MC_CASE(x, "floats 0x%03x%01x....", hi, mid);
        for (uint32_t lo = 0; lo < 65536; ++lo) {
          uint32_t u = (uint32_t)hi << 20 | (uint32_t)mid << 16 | lo;
          float f = f32(u);
          int e = (u >> 23) & 255;
          if (e < 100 && lo % 4096 > 2)
            continue; // all of them underflow, and exceptions are slow
          bool threw = false;
          uint16_t got = 0;
          try {
            got = dynd::float16(f).bits();
          } catch (const std::exception &) {
            threw = true;
          }
          x.trans(1);
          S w = judge(f, threw, got);
          x.check(w.empty(), "float to half", mc::fmt("0x%08x: ", u) + w);
        }
      }
    }
  }
}
MC_MAIN(body)
