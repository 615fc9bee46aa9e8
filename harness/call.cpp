// Call binding: every signature over a small palette of parameter types, called with every list of positional
// arguments and every list of keywords up to the bounds. The callee records what it was handed; the oracle binds the
// arguments from the written rules alone.
#include "model.hpp"
#include <dynd/callables/base_callable.hpp>
#include <dynd/functional.hpp>
#include <dynd/kernels/base_kernel.hpp>
#include <algorithm>
#include <map>
using namespace dynd;
using mv::S;
static S jn(const std::vector<S> &v) {
  S r = "[";
  for (auto &s : v)
    r += (r.size() > 1 ? ", " : "") + s;
  return r + "]";
}

// types of values: 0 int32, 1 float64, 2 string;  of parameters also: 3 T, and for keywords 4 ?int32, 5 ?T
static const char *TN[] = {"int32", "float64", "string", "T", "?int32", "?T"};
static ndt::type ptype(int t) {
  switch (t) {
  case 0: return ndt::make_type<int32_t>();
  case 1: return ndt::make_type<double>();
  case 2: return ndt::make_type<ndt::string_type>();
  case 3: return ndt::type("T");
  case 4: return ndt::type("?int32");
  default: return ndt::type("?T");
  }
}
static nd::array value(int t, int n) {
  switch (t) {
  case 0: return nd::array(int32_t(100 + n));
  case 1: return nd::array(n + 0.5);
  default: {
    nd::array a = nd::empty(ndt::type("string"));
    a.assign(nd::array(("a long enough text, number " + std::to_string(n)).c_str()));
    return a;
  }
  }
}
static S vtext(int t, int n) {
  switch (t) {
  case 0: return "int32:" + std::to_string(100 + n);
  case 1: return "float64:" + std::to_string(n) + ".5";
  default: return "string:a long enough text, number " + std::to_string(n);
  }
}
static S raw(const ndt::type &tp, const char *data) {
  char b[64];
  if (tp == ndt::make_type<int32_t>())
    return "int32:" + std::to_string(*reinterpret_cast<const int32_t *>(data));
  if (tp == ndt::make_type<double>())
    return snprintf(b, sizeof b, "float64:%.1f", *reinterpret_cast<const double *>(data)), b;
  if (tp.get_id() == string_id)
    return "string:" + S(reinterpret_cast<const dynd::string *>(data)->begin(), reinterpret_cast<const dynd::string *>(data)->size());
  std::stringstream ss;
  ss << tp << ":?";
  return ss.str();
}
static S kwtext(const nd::array &a) {
  if (a.is_null())
    return "nothing";
  ndt::type tp = a.get_type();
  if (tp.get_id() == option_id)
    return S(a.is_na() ? "NA " : "some ") + [&] { std::stringstream ss; ss << tp; return ss.str(); }();
  return raw(tp, a.cdata());
}

struct Record {
  int resolved = 0, ran = 0;
  std::vector<S> pos, kw;
  S dsttp;
} g;

struct rec_kernel : nd::base_kernel<rec_kernel> {
  std::vector<ndt::type> tp;
  ndt::type dst_tp;
  rec_kernel(const std::vector<ndt::type> &tp, const ndt::type &d) : tp(tp), dst_tp(d) {}
  void call(nd::array *dst, const nd::array *src) {
    ++g.ran;
    for (size_t i = 0; i < tp.size(); ++i)
      g.pos.push_back(raw(tp[i], src[i].cdata()));
    if (dst_tp == ndt::make_type<int32_t>())
      *reinterpret_cast<int32_t *>(dst->data()) = 4711;
    else if (dst_tp == ndt::make_type<double>())
      *reinterpret_cast<double *>(dst->data()) = 4711;
  }
};
struct recorder : nd::base_callable {
  recorder(const ndt::type &tp) : base_callable(tp) {}
  ndt::type resolve(base_callable *, char *, nd::call_graph &cg, const ndt::type &dst_tp, size_t nsrc, const ndt::type *src_tp, size_t nkwd,
                    const nd::array *kwds, const std::map<std::string, ndt::type> &tp_vars) {
    ++g.resolved;
    for (size_t i = 0; i < get_nkwd(); ++i)
      g.kw.push_back(kwtext(kwds[i]));
    ndt::type r = dst_tp;
    if (r.is_symbolic())
      r = ndt::substitute(r, tp_vars, true);
    g.dsttp = mv::tstr(r);
    std::vector<ndt::type> st(src_tp, src_tp + nsrc);
    cg.emplace_back([st, r](nd::kernel_builder &kb, kernel_request_t kernreq, char *, const char *, size_t, const char *const *) {
      kb.emplace_back<rec_kernel>(kernreq, st, r);
    });
    return r;
  }
};

struct Kw {
  int name, type; // names: 0 a, 1 b, 2 zz, 3 dst (value type), 4 dst_tp
};
static const char *KN[] = {"a", "b", "zz", "dst", "dst_tp"};

struct Sigt {
  std::vector<int> pos, kw;
  int ret; // 0 int32, 3 T
  bool variadic;
  S text() const {
    S r = "(";
    for (size_t i = 0; i < pos.size(); ++i)
      r += S(i ? ", " : "") + TN[pos[i]];
    if (variadic)
      r += "...";
    for (size_t i = 0; i < kw.size(); ++i)
      r += S(r.size() > 1 ? ", " : "") + KN[i] + ": " + TN[kw[i]];
    return r + ") -> " + TN[ret];
  }
};

// The rules. Returns false when the call must be refused.
static bool bind(const Sigt &s, const std::vector<int> &args, const std::vector<Kw> &kws, Record &e, int &dst) {
  size_t n = s.variadic ? args.size() : s.pos.size();
  if (args.size() < n || args.size() - n > s.kw.size())
    return false;
  int T = -1;
  auto fits = [&](int p, int v) {
    if (p == 4)
      p = 0;
    if (p == 3 || p == 5) {
      if (T < 0)
        T = v;
      return T == v;
    }
    return p == v;
  };
  for (size_t i = 0; i < n; ++i) {
    if (!s.variadic && !fits(s.pos[i], args[i]))
      return false;
    e.pos.push_back(vtext(args[i], int(i)));
  }
  std::vector<S> got(s.kw.size());
  for (size_t i = n; i < args.size(); ++i) {
    if (!fits(s.kw[i - n], args[i]))
      return false;
    got[i - n] = vtext(args[i], int(i));
  }
  dst = -1;
  for (size_t i = 0; i < kws.size(); ++i) {
    int k = kws[i].name;
    if (k >= 3) {
      dst = kws[i].type;
      continue;
    }
    if (k >= (int)s.kw.size() || !got[k].empty() || !fits(s.kw[k], kws[i].type))
      return false;
    got[k] = vtext(kws[i].type, 10 + int(i));
  }
  if (dst >= 0 && !fits(s.ret, dst))
    return false;
  for (size_t i = 0; i < got.size(); ++i)
    if (got[i].empty()) {
      if (s.kw[i] < 4)
        return false;
      got[i] = "NA ?" + S(s.kw[i] == 4 ? "int32" : T < 0 ? "void" : TN[T]);
    }
  if (s.ret == 3 && T < 0)
    return false; // nothing says what T is
  e.kw = got;
  e.dsttp = TN[s.ret == 3 ? T : s.ret];
  return true;
}

static S describe(const Sigt &s, const std::vector<int> &args, const std::vector<Kw> &kws) {
  S r = s.text() + " called with (";
  for (size_t i = 0; i < args.size(); ++i)
    r += S(i ? ", " : "") + TN[args[i]];
  r += ") {";
  for (size_t i = 0; i < kws.size(); ++i)
    r += S(i ? ", " : "") + KN[kws[i].name] + ": " + TN[kws[i].type];
  return r + "}";
}

static void run(mc::X &x, const Sigt &s, const nd::callable &f, const std::vector<int> &args, const std::vector<Kw> &kws) {
  do {
    MC_CASE_S(x, describe(s, args, kws));
    Record e;
    int dst = -1;
    bool ok = bind(s, args, kws, e, dst);
    std::vector<nd::array> a;
    for (size_t i = 0; i < args.size(); ++i)
      a.push_back(value(args[i], int(i)));
    std::vector<std::pair<const char *, nd::array>> k;
    nd::array d;
    for (size_t i = 0; i < kws.size(); ++i) {
      nd::array v;
      if (kws[i].name == 4)
        v = nd::array(ptype(kws[i].type));
      else
        v = value(kws[i].type, 10 + int(i));
      if (kws[i].name == 3) { // the others are not writable
        d = nd::empty(v.get_type());
        d.assign(v);
        v = d;
      }
      k.emplace_back(KN[kws[i].name], v);
    }
    g = Record();
    nd::array r;
    S err;
    bool threw = false;
    try {
      r = f.call(a.size(), a.data(), k.size(), k.data());
    } catch (std::exception &ex) {
      threw = true;
      err = ex.what();
    } catch (dynd::dynd_exception &ex) {
      threw = true;
      err = ex.what();
    }
    x.trans(1);
    if (!ok) {
      x.outcome("refused");
      x.check(threw, "accepted", "a call that does not fit the signature is carried out; keywords seen by the callee: " + jn(g.kw));
      x.check(g.ran == 0, "ran", "the callee ran although the call was refused");
      continue;
    }
    if (threw) {
      x.fail("refused", "a call that fits is refused: " + err);
      continue;
    }
    x.outcome("bound");
    x.check(g.ran == 1 && g.resolved == 1, "once", mc::fmt("resolved %d times, ran %d times", g.resolved, g.ran));
    x.check(g.pos == e.pos, "positional", "received " + jn(g.pos) + "; expected " + jn(e.pos));
    x.check(g.kw == e.kw, "keywords", "received " + jn(g.kw) + "; expected " + jn(e.kw));
    x.check(mv::tstr(r.get_type()) == e.dsttp, "type", "returned " + mv::tstr(r.get_type()) + "; expected " + e.dsttp);
    if (!d.is_null())
      x.check(r.cdata() == d.cdata(), "dst", "the result is not the given \"dst\"");
    if (e.dsttp == "int32")
      x.check(*reinterpret_cast<const int32_t *>(r.cdata()) == 4711, "result", "the result is not what the callee stored");
    for (size_t i = 0; i < args.size(); ++i)
      x.check(raw(a[i].get_type(), a[i].cdata()) == vtext(args[i], int(i)), "argument", "the call changed an argument");
  } while (0);
}

template <typename F>
static void lists(int n, int base, F fn) { // all lists of length n over 0..base-1
  std::vector<int> v(n, 0);
  for (;;) {
    fn(v);
    int i = n - 1;
    while (i >= 0 && ++v[i] == base)
      v[i--] = 0;
    if (i < 0)
      return;
  }
}

static void signatures(mc::X &x, bool variadic) {
  std::vector<Kw> kwo = {{0, 0}, {0, 1}, {0, 2}, {1, 0}, {1, 1}, {1, 2}, {2, 0}, {3, 0}, {3, 1}, {4, 0}, {4, 1}};
  int maxkw = x.thorough() ? 3 : 2;
  for (int np = 0; np <= (variadic ? 0 : 2); ++np)
    lists(np, 4, [&](const std::vector<int> &pos) {
      for (int nk = 0; nk <= 2; ++nk)
        lists(nk, 6, [&](const std::vector<int> &kwt0) {
          // keyword parameter types: int32, float64, string, T, ?int32, ?T
          for (int ret : {0, 3}) {
            if (!x.unit())
              continue;
            // the quick tier: the more parameters, the fewer types of them
            auto skip = [&](const std::vector<int> &v) {
              for (int t : v)
                if ((t == 1 && np + nk >= 3) || (t == 2 && np + nk >= 4))
                  return true;
              return false;
            };
            if (!x.thorough() && (skip(pos) || skip(kwt0)))
              continue;
            Sigt s{pos, kwt0, ret, variadic};
            std::vector<ndt::type> pt;
            for (int p : pos)
              pt.push_back(ptype(p));
            std::vector<std::pair<ndt::type, std::string>> kt;
            for (size_t i = 0; i < kwt0.size(); ++i)
              kt.emplace_back(ptype(kwt0[i]), KN[i]);
            ndt::type ct = variadic ? ndt::make_type<ndt::callable_type>(ptype(ret), ndt::make_type<ndt::tuple_type>(true), ndt::make_type<ndt::struct_type>(kt))
                                    : ndt::make_type<ndt::callable_type>(ptype(ret), pt.size(), pt.data(), kt);
            nd::callable f = nd::make_callable<recorder>(ct);
            int maxargs = variadic ? 3 : np + nk + 1;
            for (int na = 0; na <= maxargs; ++na)
              lists(na, 3, [&](const std::vector<int> &args) {
                if (!x.thorough() && na > 3) { // the quick tier varies the first and the last two only
                  for (int i = 1; i + 2 < na; ++i)
                    if (args[i] != (s.pos.size() > (size_t)i && s.pos[i] < 3 ? s.pos[i] : 0))
                      return;
                }
                // too many arguments are too many with any keywords
                for (int k = 0; k <= (!x.thorough() && na > np + nk ? 0 : maxkw); ++k)
                  lists(k, int(kwo.size()), [&](const std::vector<int> &ks) {
                    std::vector<Kw> kws;
                    int dsts = 0;
                    for (int i : ks) {
                      kws.push_back(kwo[i]);
                      dsts += kwo[i].name >= 3;
                    }
                    if (dsts > 1)
                      return; // what two destinations mean is not specified
                    run(x, s, f, args, kws);
                  });
              });
          }
        });
    });
}

// ------------------------------------------------------------------ callables made from C++ functions
static std::vector<S> gl;
template <typename T>
S one(const T &v) { std::stringstream ss; ss << v; return ss.str(); }
static int f2(int a, double b) { gl = {one(a), one(b)}; return a * 1000 + int(b * 10); }
static double f3(double a, int b, int c) { gl = {one(a), one(b), one(c)}; return a + 10 * b + 100 * c; }
static int f1(int a) { gl = {one(a)}; return -a; }
struct functor {
  int k;
  int operator()(int a, int b) const { gl = {one(k), one(a), one(b)}; return k * 100 + a * 10 + b; }
};
struct member {
  int k;
  int go(int a, int b) { gl = {one(k), one(a), one(b)}; return k * 100 + a * 10 + b; }
};

struct Cpp {
  const char *name;
  nd::callable f;
  std::vector<int> types; // parameters in order: 0 int32, 1 float64
  int npos;
  std::vector<S> names;
};

static void cpp(mc::X &x) {
  std::vector<Cpp> all;
  all.push_back({"f2", nd::functional::apply<decltype(&f2), &f2>(), {0, 1}, 2, {}});
  all.push_back({"f2 b", nd::functional::apply<decltype(&f2), &f2>("b"), {0, 1}, 1, {"b"}});
  all.push_back({"f2 a b", nd::functional::apply<decltype(&f2), &f2>("a", "b"), {0, 1}, 0, {"a", "b"}});
  all.push_back({"f3 c", nd::functional::apply<decltype(&f3), &f3>("c"), {1, 0, 0}, 2, {"c"}});
  all.push_back({"f3 b c", nd::functional::apply<decltype(&f3), &f3>("b", "c"), {1, 0, 0}, 1, {"b", "c"}});
  all.push_back({"f3 c b", nd::functional::apply<decltype(&f3), &f3>("c", "b"), {1, 0, 0}, 1, {"c", "b"}});
  all.push_back({"pointer f1", nd::callable(&f1), {0}, 1, {}});
  all.push_back({"pointer f2 b", nd::callable(&f2, "b"), {0, 1}, 1, {"b"}});
  all.push_back({"lambda f3", nd::callable([](double a, int b, int c) { return f3(a, b, c); }), {1, 0, 0}, 3, {}});
  all.push_back({"lambda f3 x y", nd::callable([](double a, int b, int c) { return f3(a, b, c); }, "x", "y"), {1, 0, 0}, 1, {"x", "y"}});
  all.push_back({"functor", nd::callable(functor{7}, "b"), {0, 0}, 1, {"b"}});
  for (auto &c : all) {
    int np = int(c.types.size());
    // each parameter is given: by position, by name, or not at all; with the right type or the other one; names in
    // every order; plus an unknown name or a repetition
    for (int extra = 0; extra < 3; ++extra) {
      if (!x.unit())
        continue;
      lists(np, 5, [&](const std::vector<int> &how) { // 0 position ok, 1 position wrong type, 2 name ok, 3 name wrong type, 4 absent
        // positions must be a prefix
        int nargs = 0;
        while (nargs < np && how[nargs] < 2)
          ++nargs;
        for (int i = nargs; i < np; ++i)
          if (how[i] < 2)
            return;
        std::vector<int> named;
        for (int i = nargs; i < np; ++i)
          if (how[i] == 2 || how[i] == 3) {
            if (i < c.npos)
              return; // has no name
            named.push_back(i);
          }
        std::sort(named.begin(), named.end());
        do {
          do {
            S d = S(c.name) + " (";
            for (int i = 0; i < nargs; ++i)
              d += S(i ? ", " : "") + TN[how[i] ? !c.types[i] : c.types[i]];
            d += ") {";
            for (int i : named)
              d += c.names[i - c.npos] + ": " + TN[how[i] == 3 ? !c.types[i] : c.types[i]] + " ";
            d += extra == 1 ? "unknown}" : extra == 2 ? "repeated}" : "}";
            MC_CASE_S(x, d);
            if (extra == 2 && named.empty())
              continue;
            std::vector<nd::array> a;
            std::vector<std::pair<const char *, nd::array>> k;
            bool ok = extra == 0;
            std::vector<double> v(np);
            auto val = [&](int i) {
              bool wrong = how[i] & 1;
              ok = ok && !wrong;
              bool fl = (c.types[i] == 1) != wrong;
              v[i] = fl ? i + 1.5 : i + 3;
              return fl ? nd::array(v[i]) : nd::array(int32_t(v[i]));
            };
            for (int i = 0; i < nargs; ++i)
              a.push_back(val(i));
            for (int i : named)
              k.emplace_back(c.names[i - c.npos].c_str(), val(i));
            if (extra == 1)
              k.emplace_back("unknown", nd::array(1));
            if (extra == 2)
              k.push_back(k[0]);
            for (int i = 0; i < np; ++i)
              ok = ok && how[i] != 4;
            gl.clear();
            nd::array r;
            bool threw = false;
            S err;
            try {
              r = c.f.call(a.size(), a.data(), k.size(), k.data());
            } catch (std::exception &e) {
              threw = true;
              err = e.what();
            } catch (dynd::dynd_exception &e) {
              threw = true;
              err = e.what();
            }
            x.trans(1);
            if (!ok) {
              x.outcome("C++ refused");
              x.check(threw && gl.empty(), "C++ accepted", "a call that does not fit is carried out with " + jn(gl));
              continue;
            }
            x.outcome("C++ bound");
            if (threw) {
              x.fail("C++ refused", err);
              continue;
            }
            std::vector<S> e;
            if (S(c.name) == "functor")
              e.push_back("7");
            for (int i = 0; i < np; ++i)
              e.push_back(one(v[i]));
            x.check(gl == e, "C++ arguments", "received " + jn(gl) + "; expected " + jn(e));
          } while (0);
        } while (std::next_permutation(named.begin(), named.end()));
      });
    }
  }
}

static void body(mc::X &x) {
  x.section("every signature of up to two positional and two keyword parameters, every call");
  signatures(x, false);
  x.section("variadic positional parameters with keywords, every call");
  signatures(x, true);
  x.section("C++ functions, lambdas and function objects as callables, every way of passing every parameter");
  cpp(x);
}
MC_MAIN(body)
