// Ranges and evenly spaced values: every begin, end and step of a palette with the extremes of each type, through the
// typed functions and through the callable with every subset of its keywords; the oracle counts in 128 bits.
#include "mc.hpp"
#include <dynd/array.hpp>
#include <dynd/array_range.hpp>
#include <dynd/callable.hpp>
#include <dynd/exceptions.hpp>
#include <dynd/range.hpp>
#include <cmath>
#include <limits>
using namespace dynd;
typedef std::string S;
typedef __int128 W;
static S ws(W v) {
  if (v < 0)
    return "-" + ws(-v);
  return v < 10 ? S(1, char('0' + (int)v)) : ws(v / 10) + char('0' + (int)(v % 10));
}
struct Got {
  bool threw = false;
  S what;
  nd::array a;
};
template <class Fn>
static Got run(Fn fn) {
  Got g;
  try {
    g.a = fn();
  } catch (const dynd_exception &e) {
    g.threw = true;
    g.what = e.what();
  } catch (const std::exception &e) {
    g.threw = true;
    g.what = e.what();
  }
  return g;
}
template <class T>
static bool vec(const nd::array &a, std::vector<T> &v) {
  ndt::type t = a.get_type();
  if (t.get_ndim() != 1 || t.get_dtype() != ndt::make_type<T>())
    return false;
  intptr_t n = a.get_dim_size(), s = a.get_strides()[0];
  for (intptr_t i = 0; i < n; ++i)
    v.push_back(*reinterpret_cast<const T *>(a.cdata() + i * s));
  return true;
}
static W wcount(W b, W e, W s) { return s > 0 ? (e <= b ? 0 : (e - b + s - 1) / s) : (e >= b ? 0 : (b - e - s - 1) / -s); }
template <class T>
static void icheck(mc::X &x, const Got &g, W b, W e, W s) {
  x.trans();
  if (s == 0) {
    x.check(g.threw, "a step of zero is accepted", "");
    return;
  }
  if (!x.check(!g.threw, "a range is rejected", g.what))
    return;
  std::vector<T> v;
  W n = wcount(b, e, s);
  if (!x.check(vec<T>(g.a, v), "a range has the wrong type", ""))
    return;
  if (!x.check((W)v.size() == n, "a range has the wrong number of elements", mc::fmt("%zu for ", v.size()) + ws(n)))
    return;
  for (W i = 0; i < n; ++i)
    if (!x.check((W)v[(size_t)i] == b + i * s, "an element of a range is wrong",
                 ws(v[(size_t)i]) + " for " + ws(b + i * s)))
      return;
  x.state(mc::h64(mc::fmt("%zu", v.size()) + ws(b) + "," + ws(s)));
}
// the callable exists for some types only
template <class T, class Enable = void>
struct callable_range {
  static const bool value = false;
};
template <class T>
struct callable_range<T, std::enable_if_t<std::is_same<T, int32_t>::value || std::is_same<T, int64_t>::value>> {
  static const bool value = true;
};
typedef std::pair<const char *, nd::array> KW;
template <class T>
static nd::array by_keywords(bool hb, T b, bool he, T e, bool hs, T s) {
  nd::array B(b), E(e), St(s);
  KW k[3];
  int n = 0;
  if (hb)
    k[n++] = KW("start", B);
  if (he)
    k[n++] = KW("stop", E);
  if (hs)
    k[n++] = KW("step", St);
  return n == 0 ? nd::range({}, {}) : n == 1 ? nd::range({}, {k[0]}) : n == 2 ? nd::range({}, {k[0], k[1]})
                                                                             : nd::range({}, {k[0], k[1], k[2]});
}
template <class T>
static void integers(mc::X &x, const char *name) {
  typedef std::numeric_limits<T> L;
  std::vector<W> v, st;
  W lo = L::min(), hi = L::max();
  int m = x.thorough() ? 12 : 6;
  for (int i = -m; i <= m; ++i)
    if (i >= lo) {
      v.push_back(i);
      st.push_back(i);
    }
  for (W d = 0; d < 3; ++d) {
    v.push_back(hi - d);
    st.push_back(hi - d);
    st.push_back(hi / 2 - d);
    st.push_back(hi / 3 + d);
    v.push_back(hi / 2 + d);
    if (lo < 0) {
      v.push_back(lo + d);
      st.push_back(lo + d);
      st.push_back(lo / 2 + d);
      v.push_back(lo / 2 - d);
    }
  }
  for (W b : v)
    for (W e : v) {
      if (!x.unit())
        continue;
      for (W s : st) {
        W n = s == 0 ? 0 : wcount(b, e, s);
        if (n > 1500)
          continue;
        S d = S(name) + " " + ws(b) + " to " + ws(e) + " by " + ws(s);
        do {
          MC_CASE_S(x, d);
          icheck<T>(x, run([&] { return nd::old_range((T)b, (T)e, (T)s); }), b, e, s);
          if (s == 1) {
            icheck<T>(x, run([&] { return nd::old_range((T)b, (T)e); }), b, e, s);
            if (b == 0)
              icheck<T>(x, run([&] { return nd::old_range((T)e); }), b, e, s);
          }
        } while (0);
        if (callable_range<T>::value) {
          do {
            MC_CASE_S(x, d + " by keywords");
            icheck<T>(x, run([&] { return by_keywords<T>(true, b, true, e, true, s); }), b, e, s);
            if (b == 0)
              icheck<T>(x, run([&] { return by_keywords<T>(false, 0, true, e, true, s); }), b, e, s);
            if (s == 1)
              icheck<T>(x, run([&] { return by_keywords<T>(true, b, true, e, false, 0); }), b, e, s);
            if (s == 1 && b == 0) {
              icheck<T>(x, run([&] { return by_keywords<T>(false, 0, true, e, false, 0); }), b, e, s);
              icheck<T>(x, run([&] { return by_keywords<T>(true, e, false, 0, false, 0); }), b, e, s);
            }
          } while (0);
        }
      }
    }
}
template <class T>
static bool close(T got, long double want, long double begin) { // within the rounding of begin and of the way from it
  long double t = 4 * std::numeric_limits<T>::epsilon() * std::max<long double>(fabsl(begin) + fabsl(want - begin), 1);
  return fabsl((long double)got - want) <= t;
}
template <class T>
static void fcheck(mc::X &x, const Got &g, T b, T s, intptr_t n) {
  x.trans();
  if (!x.check(!g.threw, "a range is rejected", g.what))
    return;
  std::vector<T> v;
  if (!x.check(vec<T>(g.a, v), "a range has the wrong type", ""))
    return;
  if (!x.check((intptr_t)v.size() == n, "a range has the wrong number of elements",
               mc::fmt("%zu for %ld", v.size(), (long)n)))
    return;
  for (intptr_t i = 0; i < n; ++i)
    if (!x.check(close<T>(v[i], (long double)b + (long double)i * s, b), "an element of a range is wrong",
                 mc::fmt("%.17g for %.17g", (double)v[i], (double)(b + i * s))))
      return;
  x.state(mc::h64(mc::fmt("%ld %g %g", (long)n, (double)b, (double)s)));
}
template <class T>
static void reals(mc::X &x, const char *name) {
  std::vector<T> bs = {0, 1, -1, T(0.5), T(-0.1), T(0.3), T(-7.25), 10, 100};
  std::vector<T> ss = {1, -1, T(0.5), T(-0.5), T(0.25), T(-0.125), 2, T(-3), T(0.1), T(-0.1), T(0.3), T(1.0 / 3), T(0.7), 10};
  int m = x.thorough() ? 200 : 40;
  for (T b : bs)
    for (T s : ss) {
      if (!x.unit())
        continue;
      // Some long ones too, where rounding errors would add up
      std::vector<int> ns = {300, 1000, 4001};
      for (int n = -5; n <= m; ++n)
        ns.push_back(n);
      for (int n : ns) {
        T e = b + n * s;
        MC_CASE(x, "%s %.9g, %d steps of %.9g", name, (double)b, n, (double)s);
        intptr_t want = n < 0 ? 0 : n;
        fcheck<T>(x, run([&] { return nd::old_range(b, e, s); }), b, s, want);
        fcheck<T>(x, run([&] { return by_keywords<T>(true, b, true, e, true, s); }), b, s, want);
        if (s == 1) {
          fcheck<T>(x, run([&] { return nd::old_range(b, e); }), b, s, want);
          fcheck<T>(x, run([&] { return by_keywords<T>(true, b, true, e, false, 0); }), b, s, want);
        }
        if (b == 0) {
          fcheck<T>(x, run([&] { return by_keywords<T>(false, 0, true, e, true, s); }), b, s, want);
          if (s == 1) {
            fcheck<T>(x, run([&] { return nd::old_range(e); }), b, s, want);
            fcheck<T>(x, run([&] { return by_keywords<T>(false, 0, true, e, false, 0); }), b, s, want);
            fcheck<T>(x, run([&] { return by_keywords<T>(true, e, false, 0, false, 0); }), b, s, want);
          }
        }
        if (n == 1) {
          x.check(run([&] { return nd::old_range(b, e, T(0)); }).threw, "a step of zero is accepted", "");
          x.check(run([&] { return by_keywords<T>(true, b, true, e, true, 0); }).threw, "a step of zero is accepted", "");
        }
      }
    }
}
template <class T>
struct part {
  typedef T type;
  static T re(T v) { return v; }
  static T im(T v) { return 0; }
};
template <class T>
struct part<dynd::complex<T>> {
  typedef T type;
  static T re(dynd::complex<T> v) { return v.real(); }
  static T im(dynd::complex<T> v) { return v.imag(); }
};
template <class T>
static void spaced_check(mc::X &x, const Got &g, T b, T e, int n) {
  typedef part<T> P;
  typedef typename P::type R;
  x.trans();
  if (n < 2) {
    x.check(g.threw, "fewer than two values are accepted", "");
    return;
  }
  if (!x.check(!g.threw, "evenly spaced values are rejected", g.what))
    return;
  std::vector<T> v;
  if (!x.check(vec<T>(g.a, v), "evenly spaced values have the wrong type", ""))
    return;
  if (!x.check((int)v.size() == n, "wrong number of values", mc::fmt("%zu", v.size())))
    return;
  for (int i = 0; i < n; ++i) {
    long double re = ((long double)(n - 1 - i) * P::re(b) + (long double)i * P::re(e)) / (n - 1),
                im = ((long double)(n - 1 - i) * P::im(b) + (long double)i * P::im(e)) / (n - 1);
    long double m = 4 * std::numeric_limits<R>::epsilon() *
                    std::max<long double>(std::max(fabsl(P::re(b)), fabsl(P::re(e))),
                                          std::max(fabsl(P::im(b)), fabsl(P::im(e))));
    if (!x.check(fabsl(P::re(v[i]) - re) <= m && fabsl(P::im(v[i]) - im) <= m, "an evenly spaced value is wrong",
                 mc::fmt("element %d is (%.17g, %.17g)", i, (double)P::re(v[i]), (double)P::im(v[i]))))
      return;
  }
  x.state(mc::h64(mc::fmt("%d %g %g %g %g", n, (double)P::re(b), (double)P::im(b), (double)P::re(e), (double)P::im(e))));
}
template <class T>
static void spaced(mc::X &x, const char *name, std::vector<T> v) {
  int m = x.thorough() ? 120 : 24;
  for (size_t i = 0; i < v.size(); ++i)
    for (size_t j = 0; j < v.size(); ++j) {
      if (!x.unit())
        continue;
      for (int n = -1; n <= m; ++n) {
        MC_CASE(x, "%s values %zu to %zu, %d", name, i, j, n);
        spaced_check<T>(x, run([&] { return nd::old_linspace(ndt::make_type<T>(), &v[i], &v[j], n); }), v[i], v[j], n);
        spaced_check<T>(x, run([&] { return nd::old_linspace(nd::array(v[i]), nd::array(v[j]), n); }), v[i], v[j], n);
        spaced_check<T>(
            x, run([&] { return nd::old_linspace(nd::array(v[i]), nd::array(v[j]), n, ndt::make_type<T>()); }), v[i], v[j],
            n);
      }
    }
}
static void body(mc::X &x) {
  x.section("integer ranges");
  integers<int8_t>(x, "int8");
  integers<int16_t>(x, "int16");
  integers<int32_t>(x, "int32");
  integers<int64_t>(x, "int64");
  integers<uint8_t>(x, "uint8");
  integers<uint16_t>(x, "uint16");
  integers<uint32_t>(x, "uint32");
  integers<uint64_t>(x, "uint64");
  x.section("index ranges");
  for (intptr_t a = -5; a <= 5; ++a)
    for (intptr_t b = -5; b <= 5; ++b) {
      if (!x.unit())
        continue;
      for (intptr_t s = -4; s <= 4; ++s) {
        if (s == 0)
          continue;
        MC_CASE(x, "irange %ld:%ld:%ld", (long)a, (long)b, (long)s);
        icheck<int64_t>(x, run([&] { return nd::old_range(irange(a, b, s)); }), a, b, s);
      }
    }
  x.section("real ranges");
  reals<float>(x, "float32");
  reals<double>(x, "float64");
  x.section("evenly spaced values");
  spaced<float>(x, "float32", {0, 1, -1, 0.1f, 1e20f, -3e-20f, 7.5f});
  spaced<double>(x, "float64", {0, 1, -1, 0.1, 1e200, -3e-200, 7.5});
  typedef dynd::complex<float> cf;
  typedef dynd::complex<double> cd;
  spaced<cf>(x, "complex64", {cf(0, 0), cf(1, -1), cf(0.5f, 3), cf(-1e10f, 1)});
  spaced<cd>(x, "complex128", {cd(0, 0), cd(1, -1), cd(0.5, 3), cd(-1e100, 1)});
  for (int i = -3; i <= 3; ++i)
    for (int j = -3; j <= 3; ++j) {
      if (!x.unit())
        continue;
      for (int n = 0; n < 9; ++n) {
        MC_CASE(x, "integers %d to %d, %d", i, j, n);
        spaced_check<double>(x, run([&] { return nd::old_linspace(nd::array(i), nd::array(j), n); }), i, j, n);
        spaced_check<double>(x, run([&] { return nd::old_linspace(nd::array((uint8_t)(i + 3)), nd::array((int64_t)j), n); }),
                             i + 3, j, n);
        spaced_check<double>(x, run([&] { return nd::old_linspace(nd::array((float)i), nd::array((double)j), n); }), i, j,
                             n);
      }
    }
}
MC_MAIN(body)
