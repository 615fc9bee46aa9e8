// Elementwise evaluation and assignment over fixed and ragged dimensions, against a tree model of broadcasting.
#include "model.hpp"
#include <dynd/arithmetic.hpp>
#include <dynd/assignment.hpp>
#include <dynd/functional.hpp>
using namespace mv;

// --- shapes: each dimension is a fixed size, or VAR ---
const int VAR = -1;
typedef std::vector<int> Dims;
static S dstr(const Dims &d, const char *dt) {
  S s;
  for (int x : d)
    s += x == VAR ? S("var * ") : mc::fmt("%d * ", x);
  return s + dt;
}
static std::map<S, ndt::type> type_cache;
static const ndt::type &ty(const S &s) {
  auto it = type_cache.find(s);
  if (it == type_cache.end())
    it = type_cache.insert({s, ndt::type(s)}).first;
  return it->second;
}
// all trees of a given dimension list; leaves are numbered by `number`
static void trees(const Dims &d, size_t k, const std::vector<int> &varsizes, std::vector<V> &out) {
  if (k == d.size()) {
    out.push_back(V::Int(0));
    return;
  }
  std::vector<V> sub;
  trees(d, k + 1, varsizes, sub);
  std::vector<int> sizes = d[k] == VAR ? varsizes : std::vector<int>{d[k]};
  bool ragged = sub.size() > 1;
  for (int n : sizes) {
    if (!ragged || n == 0) {
      V v = V::List();
      for (int i = 0; i < n; ++i)
        v.k.push_back(sub[0]);
      out.push_back(v);
    } else {
      size_t tot = 1;
      for (int i = 0; i < n; ++i)
        tot *= sub.size();
      for (size_t c = 0; c < tot; ++c) {
        V v = V::List();
        size_t q = c;
        for (int i = 0; i < n; ++i) {
          v.k.push_back(sub[q % sub.size()]);
          q /= sub.size();
        }
        out.push_back(v);
      }
    }
  }
}
static void number(V &v, int &n) {
  if (v.kind == V::LIST) {
    for (V &e : v.k)
      number(e, n);
  } else
    v = V::Int(n++);
}
static S shape_of(const V &v) {
  if (v.kind != V::LIST)
    return ".";
  S s = "[";
  for (auto &e : v.k)
    s += shape_of(e);
  return s + "]";
}

struct Arg {
  Dims d;
  V v;
  int layout;
};
static S astr(const Arg &a) {
  static const char *L[] = {"", " reversed", " strided", " transposed", " offset"};
  return dstr(a.d, "T") + (std::count(a.d.begin(), a.d.end(), VAR) ? " " + shape_of(a.v) : "") + L[a.layout];
}
static bool has_var(const Dims &d) { return std::count(d.begin(), d.end(), VAR) > 0; }
static V embed_reversed(const V &v) {
  if (v.kind != V::LIST)
    return v;
  V r = V::List();
  for (size_t i = v.k.size(); i-- > 0;)
    r.k.push_back(embed_reversed(v.k[i]));
  return r;
}
static V pad_to(const V &shape, int val) {
  if (shape.kind != V::LIST)
    return V::Int(val);
  V r = V::List();
  for (auto &e : shape.k)
    r.k.push_back(pad_to(e, val));
  return r;
}
static V blank(const Dims &d, size_t k) {
  if (k == d.size())
    return V::Int(-99);
  V r = V::List();
  for (int i = 0; i < d[k]; ++i)
    r.k.push_back(blank(d, k + 1));
  return r;
}
static void put_strided(V &base, const V &v) {
  if (v.kind != V::LIST) {
    base = v;
    return;
  }
  for (size_t i = 0; i < v.k.size(); ++i)
    put_strided(base.k[2 * i + 1], v.k[i]);
}
static V get_strided(const V &base, const V &like) {
  if (like.kind != V::LIST)
    return base;
  V r = V::List();
  for (size_t i = 0; i < like.k.size(); ++i)
    r.k.push_back(get_strided(base.k[2 * i + 1], like.k[i]));
  return r;
}
static V transpose(const V &v, const Dims &d) {
  Dims rd(d.rbegin(), d.rend());
  V r = blank(rd, 0);
  std::vector<int> ix(d.size(), 0);
  int n = 1;
  for (int x : d)
    n *= x;
  for (int q = 0; q < n; ++q) {
    int t = q;
    for (int k = (int)d.size() - 1; k >= 0; --k) {
      ix[k] = t % d[k];
      t /= d[k];
    }
    const V *p = &v;
    V *o = &r;
    for (size_t k = 0; k < d.size(); ++k) {
      p = &p->k[ix[k]];
      o = &o->k[ix[d.size() - 1 - k]];
    }
    *o = *p;
  }
  return r;
}
static V pair_leaf(const V &v) {
  if (v.kind != V::LIST) {
    V r = V::List();
    r.k.push_back(V::Int(-98));
    r.k.push_back(v);
    return r;
  }
  V r = V::List();
  for (auto &e : v.k)
    r.k.push_back(pair_leaf(e));
  return r;
}
// Realises an argument; `whole` is the array that owns the storage.
static nd::array realise(const Arg &a, const char *dt, nd::array &whole) {
  size_t n = a.d.size();
  switch (a.layout) {
  case 1: {
    whole = build(ty(dstr(a.d, dt)), embed_reversed(a.v));
    std::vector<irange> ix(n, irange().by(-1));
    return whole.at_array(n, ix.data());
  }
  case 2: {
    Dims d = a.d;
    for (int &x : d)
      x = 2 * x + 1;
    V b = blank(d, 0);
    put_strided(b, a.v);
    whole = build(ty(dstr(d, dt)), b);
    std::vector<irange> ix(n, irange(1, std::numeric_limits<intptr_t>::max(), 2));
    return whole.at_array(n, ix.data());
  }
  case 3: {
    Dims d(a.d.rbegin(), a.d.rend());
    whole = build(ty(dstr(d, dt)), transpose(a.v, a.d));
    return whole.transpose();
  }
  case 4: {
    Dims d = a.d;
    d.push_back(2);
    whole = build(ty(dstr(d, dt)), pair_leaf(a.v));
    std::vector<irange> ix(n, irange());
    ix.push_back(irange(1));
    return whole.at_array(n + 1, ix.data());
  }
  }
  whole = build(ty(dstr(a.d, dt)), a.v);
  return whole;
}
static bool layout_ok(const Dims &d, int layout) {
  switch (layout) {
  case 0:
    return true;
  case 1:
  case 2:
    return !has_var(d) && d.size() > 0 && (layout == 1 || std::count(d.begin(), d.end(), 0) == 0);
  case 3:
    return !has_var(d) && d.size() > 1;
  case 4:
    return d.size() > 0;
  }
  return false;
}

// --- the model ---
struct Mismatch {};
// dimensions of the result known statically; throws Mismatch
static void static_check(const std::vector<const Dims *> &args, const Dims *dst) {
  size_t nd = dst ? dst->size() : 0;
  for (auto a : args) {
    if (dst && a->size() > dst->size())
      throw Mismatch();
    nd = std::max(nd, a->size());
  }
  for (size_t k = 0; k < nd; ++k) { // from the right
    int size = 1;
    bool given = false;
    if (dst && dst->size() > k && (*dst)[dst->size() - 1 - k] != VAR) {
      size = (*dst)[dst->size() - 1 - k];
      given = true;
    }
    for (auto a : args) {
      if (a->size() <= k)
        continue;
      int s = (*a)[a->size() - 1 - k];
      if (s == VAR || s == 1)
        continue;
      if (size == s)
        continue;
      if (size == 1 && !given)
        size = s;
      else
        throw Mismatch();
    }
  }
}
typedef std::function<V(const std::vector<V> &)> F;
// evaluates over trees; dst (if any) fixes the sizes where it is LIST with known size (kind LIST), NONE = unallocated
// (a fixed destination dimension has its size even below an unallocated var dimension)
static V tree_eval(std::vector<const V *> args, std::vector<int> nd, int ndim, const V *dst, const F &f, const Dims *dd = nullptr) {
  if (ndim == 0) {
    std::vector<V> l;
    for (auto a : args)
      l.push_back(*a);
    return f(l);
  }
  size_t size = 1;
  bool given = dst && dst->kind == V::LIST;
  if (given)
    size = dst->k.size();
  else if (dd && (*dd)[dd->size() - ndim] != VAR) {
    given = true;
    size = (*dd)[dd->size() - ndim];
  }
  bool elems = dst && dst->kind == V::LIST;
  for (size_t i = 0; i < args.size(); ++i) {
    if (nd[i] != ndim)
      continue;
    size_t s = args[i]->k.size();
    if (s == 1 || s == size)
      continue;
    if (size == 1 && !given)
      size = s;
    else
      throw Mismatch();
  }
  V r = V::List();
  for (size_t j = 0; j < size; ++j) {
    std::vector<const V *> a = args;
    std::vector<int> n = nd;
    for (size_t i = 0; i < args.size(); ++i)
      if (nd[i] == ndim) {
        a[i] = &args[i]->k[args[i]->k.size() == 1 ? 0 : j];
        --n[i];
      }
    static const V none;
    r.k.push_back(tree_eval(a, n, ndim - 1, elems ? &dst->k[j] : &none, f, dd));
  }
  return r;
}
static V model(const std::vector<Arg> &args, const Arg *dst, const F &f, bool &ok) {
  std::vector<const Dims *> d;
  std::vector<const V *> v;
  std::vector<int> nd;
  int ndim = dst ? dst->d.size() : 0;
  for (auto &a : args) {
    d.push_back(&a.d);
    v.push_back(&a.v);
    nd.push_back(a.d.size());
    ndim = std::max(ndim, nd.back());
  }
  ok = true;
  try {
    static_check(d, dst ? &dst->d : nullptr);
    return tree_eval(v, nd, ndim, dst ? &dst->v : nullptr, f, dst ? &dst->d : nullptr);
  } catch (Mismatch) {
    ok = false;
    return V();
  }
}

static std::vector<Dims> fixed_shapes(const std::vector<int> &sizes, int maxnd, int minnd = 0) {
  std::vector<Dims> r{{}}, last{{}}, out;
  if (minnd == 0)
    out.push_back({});
  for (int n = 1; n <= maxnd; ++n) {
    std::vector<Dims> nx;
    for (auto &d : last)
      for (int s : sizes) {
        Dims e = d;
        e.push_back(s);
        nx.push_back(e);
      }
    last = nx;
    if (n >= minnd)
      out.insert(out.end(), nx.begin(), nx.end());
  }
  return out;
}
// every argument over the given dimension lists
static std::vector<Arg> mkargs(const std::vector<Dims> &ds, const std::vector<int> &varsizes, const std::vector<int> &layouts) {
  std::vector<Arg> r;
  for (auto &d : ds) {
    std::vector<V> t;
    trees(d, 0, varsizes, t);
    for (auto &v : t)
      for (int l : layouts)
        if (layout_ok(d, l))
          r.push_back(Arg{d, v, l});
  }
  return r;
}
static Arg numbered(Arg a, int base) {
  int n = base;
  number(a.v, n);
  return a;
}
static V add2(const std::vector<V> &l) { return V::Int(l[0].i + l[1].i); }
static V reals(const V &v) {
  if (v.kind == V::INT)
    return V::Real((double)v.i);
  V r = v;
  for (auto &e : r.k)
    e = reals(e);
  return r;
}
template <class E>
static void run(mc::X &x, bool ok, const V &want, E &&e, bool may_reject = false) {
  x.trans();
  bool threw = false;
  S what;
  V got;
  try {
    got = e();
  } catch (const std::exception &ex) {
    threw = true;
    what = ex.what();
  } catch (const dynd::dynd_exception &ex) {
    threw = true;
    what = ex.what();
  }
  if (!ok) {
    x.check(threw, "accepted", "shapes that cannot be broadcast together gave " + got.str());
    x.outcome("error");
  } else if (threw && may_reject) {
    x.outcome("rejected");
  } else if (x.check(!threw, "rejected", what)) {
    x.check(got == want, "value", "got " + got.str() + ", expected " + want.str());
    x.outcome(shape_of(want));
  }
}

static void binary(mc::X &x, const char *name, const std::vector<Arg> &as, const std::vector<Arg> &bs) {
  x.section(name);
  for (auto &a0 : as) {
    if (!x.unit())
      continue;
    Arg a = numbered(a0, 1);
    nd::array wa, va = realise(a, "int32", wa);
    for (auto &b0 : bs) {
      Arg b = numbered(b0, 100);
      MC_CASE_S(x, astr(a) + " + " + astr(b));
      nd::array wb, vb = realise(b, "int32", wb);
      bool ok;
      V want = model({a, b}, nullptr, add2, ok);
      run(x, ok, want, [&] {
        nd::array r = nd::add(va, vb);
        if (r.get_dtype() != ndt::make_type<int>())
          return V::Str("element type " + tstr(r.get_dtype()));
        return read(r);
      });
      x.state(astr(a) + astr(b));
    }
  }
}
static void binary_mixed(mc::X &x, const char *name, const std::vector<Arg> &as, const std::vector<Arg> &bs) {
  x.section(name);
  for (auto &a0 : as) {
    if (!x.unit())
      continue;
    Arg a = numbered(a0, 1);
    nd::array wa, va = realise(a, "int32", wa), wa2, va2 = realise(a, "float64", wa2);
    for (auto &b0 : bs) {
      Arg b = numbered(b0, 100);
      MC_CASE_S(x, astr(a) + " * " + astr(b) + " (int32 with float64, both orders)");
      nd::array wb, vb = realise(b, "float64", wb), wb2, vb2 = realise(b, "int16", wb2);
      bool ok;
      V want = model({a, b}, nullptr, [](const std::vector<V> &l) { return V::Real((double)(l[0].i * l[1].i)); }, ok);
      run(x, ok, want, [&] { return read(va * vb); });
      run(x, ok, want, [&] { return read(va2 * vb2); });
    }
  }
}
static void into_dst(mc::X &x, const char *name, const std::vector<Arg> &as, const std::vector<Arg> &bs, const std::vector<Arg> &ds) {
  x.section(name);
  for (auto &a0 : as) {
    if (!x.unit())
      continue;
    Arg a = numbered(a0, 1);
    nd::array wa, va = realise(a, "int32", wa);
    for (auto &b0 : bs) {
      Arg b = numbered(b0, 100);
      nd::array wb, vb = realise(b, "int32", wb);
      for (auto &d : ds) {
        MC_CASE_S(x, astr(d) + " <- " + astr(a) + " + " + astr(b));
        bool ok;
        V want = model({a, b}, &d, add2, ok);
        Arg dd = d;
        dd.v = pad_to(d.v, -5);
        nd::array wd, vd = realise(dd, "int32", wd);
        V before = read(wd);
        run(x, ok, want, [&] {
          nd::array r = nd::add({va, vb}, {{"dst", vd}});
          V res = read(r);
          if (d.layout == 2) { // nothing else may change
            V b2 = before;
            put_strided(b2, want);
            V after = read(wd);
            if (after != b2)
              return V::Str("storage around the destination changed: " + after.str());
          }
          V again = read(vd);
          if (again != res)
            return V::Str("the array returned is not the destination");
          return res;
        }, a.d.empty() && b.d.empty() && !d.d.empty());
      }
    }
  }
}
// unallocated ragged destinations
static std::vector<Arg> fresh_dsts(const std::vector<Dims> &ds) {
  std::vector<Arg> r;
  for (auto &d : ds)
    if (has_var(d)) {
      Arg a;
      a.d = d;
      a.layout = 0;
      // model: fixed leading dimensions are given, everything from the first var on is not
      std::function<V(size_t)> mk = [&](size_t k) -> V {
        if (k == d.size() || d[k] == VAR)
          return V();
        V v = V::List();
        for (int i = 0; i < d[k]; ++i)
          v.k.push_back(mk(k + 1));
        return v;
      };
      a.v = mk(0);
      r.push_back(a);
    }
  return r;
}
static void assign(mc::X &x, const char *name, const std::vector<Arg> &ds, const std::vector<Arg> &as, const char *dt_d,
                   const char *dt_s, bool fresh) {
  x.section(name);
  bool str = S(dt_s) == "string";
  for (auto &a0 : as) {
    if (!x.unit())
      continue;
    Arg a = numbered(a0, 1);
    if (str) {
      std::function<void(V &)> f = [&](V &v) {
        if (v.kind == V::LIST)
          for (auto &e : v.k)
            f(e);
        else
          v = V::Str(S(v.i % 2 ? 3 : 20, (char)('a' + v.i)) + mc::fmt("%ld", (long)v.i));
      };
      f(a.v);
    }
    nd::array wa, va = realise(a, dt_s, wa);
    for (auto &d : ds) {
      MC_CASE_S(x, astr(d) + (fresh ? " (unallocated) <- " : " <- ") + astr(a) + " " + dt_d + "<-" + dt_s);
      bool ok;
      V want = model({a}, &d, [](const std::vector<V> &l) { return l[0]; }, ok);
      Arg dd = d;
      nd::array wd, vd;
      if (fresh) {
        wd = vd = nd::empty(ty(dstr(d.d, dt_d)));
      } else {
        dd.v = pad_to(d.v, -5);
        if (str) {
          std::function<void(V &)> f = [&](V &v) {
            if (v.kind == V::LIST)
              for (auto &e : v.k)
                f(e);
            else
              v = V::Str("a previous value, long enough for the heap");
          };
          f(dd.v);
        }
        vd = realise(dd, dt_d, wd);
      }
      bool real = S(dt_d)[0] == 'f';
      run(x, ok, real ? reals(want) : want, [&] {
        V before = fresh ? V() : read(wd);
        vd.assign(va);
        if (!fresh && d.layout == 2) {
          V b2 = before;
          put_strided(b2, real ? reals(want) : want);
          if (read(wd) != b2)
            return V::Str("storage around the destination changed: " + read(wd).str());
        }
        V s = read(va);
        if (s != a.v)
          return V::Str("the source changed");
        return read(vd);
      });
    }
  }
}
static void ternary(mc::X &x, const char *name, const std::vector<Arg> &as, const std::vector<Arg> &bs, const std::vector<Arg> &cs) {
  x.section(name);
  nd::callable f = nd::functional::elwise(nd::functional::apply([](int a, int b, int c) { return a * 10000 + b * 100 + c; }));
  for (auto &a0 : as)
    for (auto &b0 : bs) {
      if (!x.unit())
        continue;
      Arg a = numbered(a0, 1), b = numbered(b0, 31);
      nd::array wa, va = realise(a, "int32", wa), wb, vb = realise(b, "int32", wb);
      for (auto &c0 : cs) {
        Arg c = numbered(c0, 61);
        MC_CASE_S(x, "f(" + astr(a) + ", " + astr(b) + ", " + astr(c) + ")");
        nd::array wc, vc = realise(c, "int32", wc);
        bool ok;
        V want = model({a, b, c}, nullptr,
                       [](const std::vector<V> &l) { return V::Int(l[0].i * 10000 + l[1].i * 100 + l[2].i); }, ok);
        run(x, ok, want, [&] { return read(f(va, vb, vc)); });
      }
    }
}
static void unary(mc::X &x, const char *name, const std::vector<Arg> &as) {
  x.section(name);
  nd::callable f = nd::functional::elwise(nd::functional::apply([](int a) { return a * 3 + 1; }));
  nd::callable g = nd::functional::elwise(nd::functional::apply([](const dynd::string &a) { return (int)(a.end() - a.begin()); }));
  for (auto &a0 : as) {
    if (!x.unit())
      continue;
    for (int once = 0; once < 1; ++once) {
      Arg a = numbered(a0, 1);
      MC_CASE_S(x, "f(" + astr(a) + ")");
      nd::array wa, va = realise(a, "int32", wa);
      bool ok;
      V want = model({a}, nullptr, [](const std::vector<V> &l) { return V::Int(l[0].i * 3 + 1); }, ok);
      run(x, ok, want, [&] { return read(f(va)); });
      V want2 = model({a}, nullptr, [](const std::vector<V> &l) { return V::Int(-l[0].i); }, ok);
      run(x, ok, want2, [&] { return read(-va); });
      // a copy and a conversion keep the structure
      run(x, ok, a.v, [&] { return read(va.eval_copy()); });
      run(x, ok, reals(a.v), [&] {
        nd::array r = nd::empty(ty(dstr(a.d, "float64")));
        r.assign(va);
        return read(r);
      });
      Arg s = a;
      std::function<void(V &)> mk = [&](V &v) {
        if (v.kind == V::LIST)
          for (auto &e : v.k)
            mk(e);
        else
          v = V::Str(S(v.i % 40, 'q'));
      };
      mk(s.v);
      nd::array ws, vs = realise(s, "string", ws);
      V want3 = model({a}, nullptr, [](const std::vector<V> &l) { return V::Int(l[0].i % 40); }, ok);
      run(x, ok, want3, [&] { return read(g(vs)); });
      run(x, ok, s.v, [&] { return read(vs.eval_copy()); });
    }
  }
}
template <int N>
struct many;
static void nary(mc::X &x) {
  x.section("many arguments");
  nd::callable f0 = nd::functional::elwise(nd::functional::apply([]() { return 7; }));
  nd::callable f4 = nd::functional::elwise(nd::functional::apply([](int a, int b, int c, int d) { return ((a * 50 + b) * 50 + c) * 50 + d; }));
  nd::callable f5 = nd::functional::elwise(nd::functional::apply([](int a, int b, int c, int d, int e) { return (((a * 20 + b) * 20 + c) * 20 + d) * 20 + e; }));
  nd::callable f6 = nd::functional::elwise(nd::functional::apply([](int a, int b, int c, int d, int e, int g) { return ((((a * 8 + b) * 8 + c) * 8 + d) * 8 + e) * 8 + g; }));
  nd::callable f7 = nd::functional::elwise(nd::functional::apply([](int a, int b, int c, int d, int e, int g, int h) { return (((((a * 8 + b) * 8 + c) * 8 + d) * 8 + e) * 8 + g) * 8 + h; }));
  std::vector<Dims> ds = {{}, {1}, {2}, {2, 1}, {1, 2}};
  for (auto &d : fixed_shapes({0, 1, 2}, 2)) {
    if (!x.unit())
      continue;
    for (int once = 0; once < 1; ++once) {
      MC_CASE_S(x, dstr(d, "T") + " <- f()");
      Arg dd{d, blank(d, 0), 0};
      bool ok;
      V want = model({}, &dd, [](const std::vector<V> &) { return V::Int(7); }, ok);
      run(x, ok, want, [&] {
        nd::array r = nd::empty(ty(dstr(d, "int32")));
        f0({}, {{"dst", r}});
        return read(r);
      });
    }
  }
  for (int n = 4; n <= 7; ++n) {
    int tot = 1;
    for (int i = 0; i < n; ++i)
      tot *= (int)ds.size();
    if (n == 7 && !x.thorough())
      continue;
    for (int c0 = 0; c0 < tot; c0 += 125) {
      if (!x.unit())
        continue;
      for (int c = c0; c < c0 + 125 && c < tot; ++c) {
        std::vector<Arg> as;
        int q = c;
        for (int i = 0; i < n; ++i) {
          Arg a{ds[q % ds.size()], blank(ds[q % ds.size()], 0), 0};
          as.push_back(numbered(a, i));
          q /= ds.size();
        }
        auto desc = [&] {
          S s;
          for (auto &a : as)
            s += (s.empty() ? "f(" : ", ") + astr(a);
          return s + ")";
        };
        MC_CASE_S(x, desc());
        int m = n == 4 ? 50 : n == 5 ? 20 : 8;
        bool ok;
        V want = model(as, nullptr,
                       [m](const std::vector<V> &l) {
                         int r = 0;
                         for (auto &v : l)
                           r = r * m + v.i;
                         return V::Int(r);
                       },
                       ok);
        run(x, ok, want, [&] {
          std::vector<nd::array> w(n), v(n);
          for (int i = 0; i < n; ++i)
            v[i] = realise(as[i], "int32", w[i]);
          nd::callable &f = n == 4 ? f4 : n == 5 ? f5 : n == 6 ? f6 : f7;
          return read(f.call(n, v.data(), 0, nullptr));
        });
      }
    }
  }
}

static void body(mc::X &x) {
  bool t = x.thorough();
  std::vector<Dims> f2 = fixed_shapes({0, 1, 2, 3}, 2);
  std::vector<Dims> f3 = fixed_shapes({1, 2, 3}, 3, 3);
  std::vector<Dims> f3z = {{0, 1, 2}, {2, 0, 1}, {1, 2, 0}, {0, 0, 0}};
  std::vector<Dims> fall = f2;
  fall.insert(fall.end(), f3.begin(), f3.end());
  fall.insert(fall.end(), f3z.begin(), f3z.end());
  std::vector<int> vs3 = {0, 1, 2, 3}, vs2 = {0, 1, 2};
  std::vector<Arg> fa = mkargs(fall, vs3, {0, 1, 2, 3});
  std::vector<Arg> fa0 = mkargs(fall, vs3, {0, 3});
  binary(x, "fixed", fa, fa);
  binary_mixed(x, "fixed mixed types", mkargs(f2, vs3, {0, 1, 2}), fa0);
  std::vector<Arg> f12 = mkargs(fixed_shapes({1, 2, 3}, 2), vs3, {0});
  std::vector<Arg> f02 = mkargs(f2, vs3, {0});
  into_dst(x, "fixed into destination", mkargs(fixed_shapes({1, 2, 3}, 2), vs3, {0, 2}), f12, mkargs(fall, vs3, {0, 1, 2, 3}));
  assign(x, "assign fixed", fa, fa, "int32", "int32", false);
  assign(x, "assign fixed, converting", fa0, fa0, "float64", "int16", false);
  assign(x, "assign fixed strings", mkargs(f2, vs3, {0, 1, 2}), mkargs(f2, vs3, {0, 1, 3}), "string", "string", false);
  ternary(x, "fixed ternary", f02, f02, f02);
  nary(x);

  // ragged
  std::vector<Dims> v1 = {{}, {1}, {2}, {3}, {VAR}};
  std::vector<Dims> v2;
  for (int a : {1, 2, VAR})
    for (int b : {1, 2, VAR})
      if (a == VAR || b == VAR)
        v2.push_back({a, b});
  std::vector<Dims> v12 = v1;
  v12.insert(v12.end(), v2.begin(), v2.end());
  v12.push_back({1, 1});
  v12.push_back({2, 1});
  v12.push_back({1, 2});
  v12.push_back({2, 2});
  v12.push_back({2, 3});
  v12.push_back({0});
  v12.push_back({2, 0});
  std::vector<Arg> va = mkargs(v12, vs2, {0, 4});
  std::vector<Arg> va0 = mkargs(v12, vs2, {0});
  binary(x, "ragged", va, va);
  ternary(x, "ragged ternary", mkargs({{}, {1}, {2}, {VAR}, {VAR, 2}, {2, VAR}}, vs2, {0}), mkargs({{}, {1}, {2}, {VAR}, {VAR, VAR}}, vs2, {0}),
          mkargs({{}, {2}, {1}, {VAR}, {VAR, 1}, {1, VAR}}, vs2, {0}));
  binary_mixed(x, "ragged mixed types", va0, va0);
  std::vector<Dims> v3;
  for (int a : {1, 2, VAR})
    for (int b : {1, 2, VAR})
      for (int c : {1, 2, VAR})
        if (a == VAR || b == VAR || c == VAR)
          v3.push_back({a, b, c});
  std::vector<Arg> va3 = mkargs(v3, {1, 2}, {0});
  // three ragged dimensions: every 7th tree (the trees are enumerated in order; all in the thorough tier)
  std::vector<Arg> va3s;
  for (size_t i = 0; i < va3.size(); i += t ? 1 : 7)
    va3s.push_back(va3[i]);
  binary(x, "ragged 3-d", va3s, mkargs({{}, {2}, {1}, {VAR}, {2, 1}, {1, VAR}, {VAR, 1}, {VAR, 2}, {VAR, VAR}}, {1, 2}, {0}));
  {
    std::vector<Arg> all = va, s = mkargs(f2, vs3, {2});
    unary(x, "unary", fa);
    unary(x, "unary ragged", mkargs(v12, {0, 1, 2, 3}, {0, 4}));
    unary(x, "unary ragged 3-d", mkargs(v3, {0, 1, 2}, {0}));
  }
  // destinations
  std::vector<Arg> vd = mkargs(v12, {1, 2, 3}, {0, 4});
  std::vector<Arg> fr = fresh_dsts(v12);
  std::vector<Arg> small = mkargs({{}, {1}, {2}, {VAR}, {VAR, 1}, {2, VAR}, {VAR, VAR}, {1, 2}, {VAR, 2}}, vs2, {0});
  assign(x, "assign ragged", vd, va, "int32", "int32", false);
  assign(x, "assign ragged, unallocated", fr, va, "int32", "int32", true);
  assign(x, "assign ragged, converting", vd, va0, "float64", "int16", false);
  assign(x, "assign ragged strings", mkargs(v12, {1, 2}, {0}), va0, "string", "string", false);
  assign(x, "assign ragged strings, unallocated", fr, va0, "string", "string", true);
  assign(x, "assign ragged 3-d", fresh_dsts(v3), va3s, "int32", "int32", true);
  {
    x.section("ragged into destination");
    for (auto &a0 : small) {
      if (!x.unit())
        continue;
      Arg a = numbered(a0, 1);
      nd::array wa, va_ = realise(a, "int32", wa);
      for (auto &b0 : small) {
        Arg b = numbered(b0, 100);
        nd::array wb, vb_ = realise(b, "int32", wb);
        auto one = [&](const Arg &d, bool fresh) {
          bool ok;
          V want = model({a, b}, &d, add2, ok);
          Arg dd = d;
          nd::array wd, vd_;
          if (fresh)
            vd_ = nd::empty(ty(dstr(d.d, "int32")));
          else {
            dd.v = pad_to(d.v, -5);
            vd_ = realise(dd, "int32", wd);
          }
          run(x, ok, want, [&] {
            nd::add({va_, vb_}, {{"dst", vd_}});
            return read(vd_);
          }, a.d.empty() && b.d.empty());
        };
        for (auto &d : vd) {
          MC_CASE_S(x, astr(d) + " <- " + astr(a) + " + " + astr(b));
          one(d, false);
        }
        for (auto &d : fr) {
          MC_CASE_S(x, astr(d) + " (unallocated) <- " + astr(a) + " + " + astr(b));
          one(d, true);
        }
      }
    }
  }
}
MC_MAIN(body)
