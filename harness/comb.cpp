// Combinators: outer, compose and constant over every shape, layout, chunk boundary and element kind within the bounds,
// compared with the function applied element by element in plain C++; byte swapping of every size likewise.
#include "mc.hpp"
#include <dynd/array.hpp>
#include <dynd/callable.hpp>
#include <dynd/exceptions.hpp>
#include <dynd/functional.hpp>
#include <dynd/json_parser.hpp>
#include <dynd/kernels/byteswap_kernels.hpp>
#include <dynd/assignment.hpp>
#include <functional>
using namespace dynd;
typedef std::string S;
typedef std::vector<intptr_t> Sh;
template <class Fn>
static bool run(mc::X &x, nd::array &r, const char *cls, Fn fn) {
  S w;
  bool ok = false;
  try {
    r = fn();
    ok = true;
  } catch (const std::exception &e) {
    w = e.what();
  } catch (const dynd_exception &e) {
    w = e.what();
  }
  return x.check(ok, cls, w);
}
template <class Fn>
static bool refused(Fn fn) {
  try {
    fn();
  } catch (const std::exception &) {
    return true;
  } catch (const dynd_exception &) {
    return true;
  }
  return false;
}
static S shs(const Sh &s) {
  S r = "[";
  for (size_t i = 0; i < s.size(); ++i)
    r += (i ? "," : "") + mc::fmt("%ld", (long)s[i]);
  return r + "]";
}
static intptr_t total(const Sh &s) {
  intptr_t n = 1;
  for (intptr_t k : s)
    n *= k;
  return n;
}
// The addresses of the elements in order, from the strides of the array
static void addresses(const nd::array &a, size_t nd, std::vector<char *> &out) {
  std::vector<intptr_t> st = a.get_strides(), sh = a.get_shape();
  std::function<void(size_t, char *)> go = [&](size_t i, char *p) {
    if (i == nd) {
      out.push_back(p);
      return;
    }
    for (intptr_t k = 0; k < sh[i]; ++k)
      go(i + 1, p + k * st[i]);
  };
  go(0, const_cast<char *>(a.cdata()));
}
enum { PLAIN, REVERSED, SPREAD, TRANSPOSED, LAYOUTS };
template <class T>
static nd::array make(const Sh &s, int layout, const std::vector<T> &v) {
  S t;
  for (size_t i = 0; i < s.size(); ++i)
    t += mc::fmt("%ld * ", (long)(layout == SPREAD ? 2 * s[i] + 2 : layout == TRANSPOSED ? s[s.size() - 1 - i] : s[i]));
  std::ostringstream o;
  o << ndt::make_type<T>();
  nd::array a = nd::empty(ndt::type(t + o.str()));
  if (!s.empty()) {
    if (layout == TRANSPOSED)
      a = a.transpose();
    else if (layout != PLAIN) {
      std::vector<irange> ix;
      for (size_t i = 0; i < s.size(); ++i)
        ix.push_back(layout == REVERSED ? irange().by(-1) : irange(1, 2 * s[i] + 1, 2));
      a = a.at_array(ix.size(), ix.data());
    }
  }
  std::vector<char *> p;
  addresses(a, s.size(), p);
  for (size_t i = 0; i < p.size(); ++i)
    *reinterpret_cast<T *>(p[i]) = v[i];
  return a;
}
template <class T>
static bool same(mc::X &x, const nd::array &r, const Sh &s, const std::vector<T> &want) {
  Sh got;
  for (intptr_t k : r.get_shape())
    got.push_back(k);
  if (!x.check(r.get_dtype() == ndt::make_type<T>(), "the result has the wrong element type", ""))
    return false;
  if (!x.check(got == s, "the result has the wrong shape", shs(got) + " for " + shs(s)))
    return false;
  std::vector<char *> p;
  addresses(r, s.size(), p);
  for (size_t i = 0; i < p.size(); ++i)
    if (!x.check(*reinterpret_cast<T *>(p[i]) == want[i], "the result has a wrong element", mc::fmt("element %zu", i)))
      return false;
  x.state(mc::h64(shs(s) + mc::fmt(" %zu", want.size())));
  return true;
}
static double mix(double a, double b, double c) { return a * 10000 + b * 100 + c; }
static std::vector<int> ints(const Sh &s, int from) {
  std::vector<int> v;
  for (intptr_t i = 0; i < total(s); ++i)
    v.push_back(from + (int)i);
  return v;
}
static Sh cat(const Sh &a, const Sh &b) {
  Sh r = a;
  r.insert(r.end(), b.begin(), b.end());
  return r;
}
static void outers(mc::X &x) {
  std::vector<Sh> sh = {{}, {0}, {1}, {2}, {3}, {5}, {2, 3}, {3, 1}, {1, 2}, {2, 0}, {0, 2}, {2, 2, 2}};
  if (x.thorough()) {
    for (int i = 0; i < 4; ++i)
      for (int j = 0; j < 4; ++j)
        sh.push_back({i, j});
    sh.push_back({2, 1, 3});
    sh.push_back({2, 1, 2, 2});
    sh.push_back({130});
  }
  nd::callable f1 = nd::functional::outer([](int a) { return mix(a, 0, 0); });
  nd::callable f2 = nd::functional::outer([](int a, int b) { return mix(a, b, 0); });
  nd::callable f3 = nd::functional::outer([](int a, double b, int16_t c) { return mix(a, b, c); });
  for (const Sh &a : sh)
    for (int la = 0; la < LAYOUTS; ++la) {
      if (a.empty() && la)
        continue;
      std::vector<int> va = ints(a, 1);
      if (x.unit())
        do {
          MC_CASE(x, "outer of one array of shape %s, layout %d", shs(a).c_str(), la);
          x.trans();
          nd::array r;
          if (!run(x, r, "outer is refused", [&] { return f1(make<int>(a, la, va)); }))
            break;
          std::vector<double> w;
          for (int i : va)
            w.push_back(mix(i, 0, 0));
          same<double>(x, r, a, w);
        } while (0);
      for (const Sh &b : sh) {
        if (!x.unit())
          continue;
        for (int lb = 0; lb < LAYOUTS; ++lb) {
          if (b.empty() && lb)
            continue;
          std::vector<int> vb = ints(b, 20);
          do {
            MC_CASE(x, "outer of shapes %s and %s, layouts %d %d", shs(a).c_str(), shs(b).c_str(), la, lb);
            x.trans();
            nd::array r;
            if (!run(x, r, "outer is refused", [&] { return f2(make<int>(a, la, va), make<int>(b, lb, vb)); }))
              break;
            std::vector<double> w;
            for (int i : va)
              for (int j : vb)
                w.push_back(mix(i, j, 0));
            same<double>(x, r, cat(a, b), w);
          } while (0);
          for (const Sh &c : sh)
            for (int lc = 0; lc < LAYOUTS; ++lc) {
              if ((c.empty() && lc) || (!x.thorough() && (la + lb + lc) % 3) || total(a) * total(b) * total(c) > 4000)
                continue;
              std::vector<double> vd(vb.begin(), vb.end());
              std::vector<int16_t> vc;
              for (int i : ints(c, 40))
                vc.push_back((int16_t)i);
              MC_CASE(x, "outer of shapes %s, %s and %s, layouts %d %d %d", shs(a).c_str(), shs(b).c_str(),
                      shs(c).c_str(), la, lb, lc);
              x.trans();
              nd::array r;
              if (!run(x, r, "outer is refused",
                       [&] { return f3(make<int>(a, la, va), make<double>(b, lb, vd), make<int16_t>(c, lc, vc)); }))
                continue;
              std::vector<double> w;
              for (int i : va)
                for (double j : vd)
                  for (int k : vc)
                    w.push_back(mix(i, j, k));
              same<double>(x, r, cat(cat(a, b), c), w);
            }
        }
      }
    }
}
// What outer does not support is refused, not read as if it were supported
static void unsupported(mc::X &x) {
  nd::callable e8 = nd::functional::elwise(
      [](int a, int b, int c, int d, int e, int f, int g, int h) { return mix(a, b, c) + d + e + f + g + h; });
  nd::callable f1 = nd::functional::outer([](int a) { return mix(a, 0, 0); });
  nd::callable f2 = nd::functional::outer([](int a, int b) { return mix(a, b, 0); });
  nd::callable f4 = nd::functional::outer([](int a, int b, int c, int d) { return mix(a, b, c) + d; });
  const char *t[][2] = {{"int32", "3"}, {"2 * int32", "[1,2]"}, {"var * int32", "[1,2,3]"}, {"2 * var * int32", "[[1],[2,3]]"},
                        {"var * 2 * int32", "[[1,2]]"}, {"var * var * int32", "[[],[1,2]]"}, {"var * int32", "[]"}};
  std::vector<nd::array> v;
  for (auto &p : t)
    v.push_back(parse_json(ndt::type(S(p[0])), S(p[1]), &dynd::eval::default_eval_context));
  if (!x.unit())
    return;
  for (size_t i = 0; i < v.size(); ++i) {
    if (i > 1) {
      MC_CASE(x, "outer of %s", t[i][0]);
      x.trans();
      x.check(refused([&] { f1(v[i]); }), "outer of a var dimension is not refused", "");
    }
    for (size_t j = 0; j < v.size(); ++j) {
      if (i > 1 || j > 1) {
        MC_CASE(x, "outer of %s and %s", t[i][0], t[j][0]);
        x.trans();
        x.check(refused([&] { f2(v[i], v[j]); }), "outer of a var dimension is not refused", "");
      }
      MC_CASE(x, "outer of four arguments, %s and %s", t[i][0], t[j][0]);
      x.trans();
      bool arrays = i || j;
      x.check(refused([&] { f4(v[0], v[i], v[0], v[j]); }) == arrays, "outer of four arguments", "");
      x.check(refused([&] { e8(v[0], v[i], v[0], v[j], v[0], v[0], v[0], v[0]); }) == arrays, "elwise of eight arguments", "");
    }
  }
}
// Functions between the element kinds, distinguishable, with the C++ function itself as the oracle
static double i2d(int a) { return a * 1.5 - 7; }
static int16_t d2s(double a) { return (int16_t)(a * 2); }
static int64_t s2l(int16_t a) { return (int64_t)a * 1000003; }
static double d2d(double a) { return a / 3; }
static int i2i(int a) { return 3 * a + 1; }
static dynd::string i2str(int a) {
  S s = mc::fmt("%s%d", a % 2 ? "x" : "a string that does not fit in place ", a);
  dynd::string r;
  r.assign(s.data(), s.size());
  return r;
}
static int str2i(const dynd::string &s) {
  int n = 0;
  for (const char *p = s.begin(); p != s.end(); ++p)
    n = (n * 31 + (unsigned char)*p) & 0xffffff;
  return n;
}
template <class A, class R>
static void composed(mc::X &x, const char *name, const nd::callable &f, const std::function<R(A)> &ref, bool big) {
  nd::callable e = nd::functional::elwise(f);
  std::vector<Sh> sh;
  for (int n = 0; n <= 6; ++n)
    sh.push_back({n});
  if (big)
    for (int k = 1; k <= (x.thorough() ? 9 : 3); ++k)
      for (int d = -2; d <= 2; ++d)
        sh.push_back({128 * k + d});
  for (int i = 0; i <= 3; ++i)
    for (int j = 0; j <= 3; ++j)
      sh.push_back({i, j});
  if (big) {
    sh.push_back({3, 129});
    sh.push_back({130, 2});
    sh.push_back({2, 2, 257});
  }
  for (int i = -3; i <= 3; ++i)
    do {
      MC_CASE(x, "%s of the value %d", name, i);
      x.trans();
      nd::array r;
      if (run(x, r, "a composition is refused", [&] { return f(nd::array((A)i)); }))
        same<R>(x, r, {}, {ref((A)i)});
      if (run(x, r, "a composition is refused", [&] { return e(nd::array((A)i)); }))
        same<R>(x, r, {}, {ref((A)i)});
    } while (0);
  for (const Sh &s : sh)
    for (int l = 0; l < LAYOUTS; ++l) {
      MC_CASE(x, "%s of shape %s, layout %d", name, shs(s).c_str(), l);
      x.trans();
      std::vector<A> v;
      std::vector<R> w;
      for (intptr_t i = 0; i < total(s); ++i) {
        v.push_back((A)(i - 5));
        w.push_back(ref((A)(i - 5)));
      }
      nd::array r;
      if (run(x, r, "a composition is refused", [&] { return e(make<A>(s, l, v)); }))
        same<R>(x, r, s, w);
    }
}
static void composes(mc::X &x) {
  using nd::functional::compose;
  using nd::functional::apply;
  struct F {
    const char *name;
    nd::callable f;
  };
  std::vector<F> fs = {{"int->double", apply(&i2d)}, {"double->int16", apply(&d2s)}, {"int16->int64", apply(&s2l)},
                       {"double->double", apply(&d2d)}, {"int->int", apply(&i2i)}, {"int->string", apply(&i2str)},
                       {"string->int", apply(&str2i)}};
  const char *types[] = {"int16", "int32", "int64", "float64", "string"};
  std::function<S(const ndt::type &)> ts = [](const ndt::type &t) {
    std::ostringstream o;
    o << t;
    return o.str();
  };
  if (x.unit()) {
    // Every pair with every intermediate type: only those that fit together make a function
    for (const F &f : fs)
      for (const F &g : fs)
        for (const char *t : types) {
          MC_CASE(x, "compose %s, %s by %s", f.name, g.name, t);
          x.trans();
          S fr = ts(f.f->get_ret_type()), ga = ts(g.f->get_arg_types()[0]);
          bool fits = fr == t && ga == t;
          bool no = refused([&] {
            nd::callable c = compose(f.f, g.f, ndt::type(S(t)));
            S a = ts(f.f->get_arg_types()[0]);
            c(nd::empty(ndt::type(a)).assign(parse_json(ndt::type(S(a)), a == "string" ? "\"7\"" : "7",
                                                        &dynd::eval::default_eval_context)));
          });
          x.check(no == !fits, fits ? "a composition is refused" : "functions that do not fit together are composed", "");
        }
  }
  if (x.unit())
    composed<int, double>(x, "int->int->double", compose(fs[4].f, fs[0].f, ndt::make_type<int>()),
                          [](int a) { return i2d(i2i(a)); }, true);
  if (x.unit())
    composed<int, int16_t>(x, "int->double->int16", compose(fs[0].f, fs[1].f, ndt::make_type<double>()),
                           [](int a) { return d2s(i2d(a)); }, true);
  if (x.unit())
    composed<double, int64_t>(x, "double->int16->int64", compose(fs[1].f, fs[2].f, ndt::make_type<int16_t>()),
                              [](double a) { return s2l(d2s(a)); }, true);
  if (x.unit())
    composed<double, double>(x, "double->double->double", compose(fs[3].f, fs[3].f, ndt::make_type<double>()),
                             [](double a) { return d2d(d2d(a)); }, true);
  if (x.unit())
    composed<int, int>(x, "int->string->int", compose(fs[5].f, fs[6].f, ndt::make_type<dynd::string>()),
                       [](int a) { return str2i(i2str(a)); }, true);
  if (x.unit())
    composed<int, int64_t>(x, "int->double->int16->int64",
                           compose(compose(fs[0].f, fs[1].f, ndt::make_type<double>()), fs[2].f, ndt::make_type<int16_t>()),
                           [](int a) { return s2l(d2s(i2d(a))); }, true);
  if (x.unit())
    composed<int, int64_t>(x, "int->(double->int16->int64)",
                           compose(fs[0].f, compose(fs[1].f, fs[2].f, ndt::make_type<int16_t>()), ndt::make_type<double>()),
                           [](int a) { return s2l(d2s(i2d(a))); }, true);
  if (x.unit())
    composed<int, double>(x, "int->string->int->int->double",
                          compose(compose(compose(fs[5].f, fs[6].f, ndt::make_type<dynd::string>()), fs[4].f,
                                          ndt::make_type<int>()),
                                  fs[0].f, ndt::make_type<int>()),
                          [](int a) { return i2d(i2i(str2i(i2str(a)))); }, true);
  if (x.unit()) {
    // The first function takes the intermediate type as its destination
    nd::callable c = compose(nd::copy, fs[3].f, ndt::make_type<double>());
    for (int i = -4; i <= 4; ++i)
      do {
        MC_CASE(x, "copy to double->double of %d", i);
        x.trans();
        nd::array r = nd::empty(ndt::make_type<double>()), u;
        for (int k = 0; k < 3; ++k) {
          nd::array a = k == 0 ? nd::array(i) : k == 1 ? nd::array((double)i) : nd::array(mc::fmt("%d", i).c_str());
          if (run(x, u, "a composition is refused", [&] { return c({a}, {{"dst", r}}); }))
            same<double>(x, r, {}, {d2d(i)});
        }
      } while (0);
  }
}
static void constants(mc::X &x) {
  const char *vals[][2] = {{"int32", "-5"},
                           {"float64", "2.5"},
                           {"bool", "true"},
                           {"string", "\"abc\""},
                           {"string", "\"a string that does not fit in place\""},
                           {"3 * int32", "[1,2,3]"},
                           {"2 * 2 * string", "[[\"a\",\"\"],[\"a string that does not fit in place\",\"z\"]]"},
                           {"{x: int16, y: string}", "[4,\"a string that does not fit in place\"]"},
                           {"(int8, 2 * float32)", "[1,[2.5,3.5]]"},
                           {"2 * {x: int64}", "[[1],[2]]"},
                           {"?int32", "null"},
                           {"?int32", "7"}};
  nd::array args[] = {nd::array(1), nd::array(2.5), nd::array("s"), nd::array{1, 2, 3}};
  for (auto &v : vals) {
    if (!x.unit())
      continue;
    nd::array val = parse_json(ndt::type(S(v[0])), S(v[1]), &dynd::eval::default_eval_context);
    std::ostringstream want;
    want << val;
    nd::callable f = nd::functional::constant(val);
    for (int n = 0; n <= 3; ++n)
      for (int k = 0; k < (n ? 4 : 1); ++k)
        for (int k2 = 0; k2 < (n > 1 ? 4 : 1); ++k2) {
          MC_CASE(x, "constant %s of type %s, %d arguments from %d %d", v[1], v[0], n, k, k2);
          for (int again = 0; again < 2; ++again) {
            x.trans();
            nd::array r;
            if (!run(x, r, "a constant function is refused", [&] {
                  return n == 0 ? f() : n == 1 ? f(args[k]) : n == 2 ? f(args[k], args[k2]) : f(args[k], args[k2], args[(k + k2) % 4]);
                }))
              break;
            std::ostringstream got;
            got << r;
            if (!x.check(got.str() == want.str(), "a constant function returns something else", got.str()))
              break;
            x.check(r.cdata() != val.cdata(), "a constant function returns its constant itself", "");
            // Overwriting the result must not change the constant
            if (r.get_type().is_scalar() && r.get_type().get_base_id() != string_kind_id)
              memset(r.data(), 0, 1);
            x.state(mc::h64(want.str()));
          }
        }
  }
}
static void swaps(mc::X &x) {
  for (int pair = 0; pair < 2; ++pair)
    for (int n = 1 + pair; n <= (x.thorough() ? 64 : 24); n += 1 + pair) {
      if (!x.unit())
        continue;
      for (int align = 1; align <= 16 && n % align == 0; align *= 2) {
        MC_CASE(x, "%s of %d bytes aligned to %d", pair ? "pairwise byteswap" : "byteswap", n, align);
        x.trans();
        ndt::type t(mc::fmt("fixed_bytes[%d, align=%d]", n, align));
        nd::array a = nd::empty(t);
        for (int i = 0; i < n; ++i)
          a.data()[i] = (char)(i + 1);
        S want;
        for (int i = 0; i < n; ++i)
          want += (char)(pair ? (i < n / 2 ? n / 2 - i : n - (i - n / 2)) : n - i);
        for (int inplace = 0; inplace < 2; ++inplace) {
          nd::array r = inplace ? a : nd::empty(t), u;
          if (!run(x, u, "byteswap is refused",
                   [&] { return (pair ? nd::pairwise_byteswap : nd::byteswap)({a}, {{"dst", r}}); }))
            break;
          S got(r.cdata(), n);
          x.check(got == want, inplace ? "a byteswap in place is wrong" : "a byteswap is wrong", mc::quote(got));
          bool kept = true;
          for (int i = 0; i < n; ++i)
            kept = kept && a.cdata()[i] == (char)(i + 1);
          x.check(kept || inplace, "a byteswap changes its argument", "");
        }
        x.state(mc::h64(want));
      }
    }
}
static void body(mc::X &x) {
  x.section("outer products");
  outers(x);
  unsupported(x);
  x.section("compositions");
  composes(x);
  x.section("constants");
  constants(x);
  x.section("byte order");
  swaps(x);
}
MC_MAIN(body)
