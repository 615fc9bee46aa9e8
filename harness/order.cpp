// Sorting, binary search and taking of elements: every short sequence over a few values, every sequence of two values
// at lengths where the library's sort changes algorithm, every mask and every short list of indices, in every layout.
#include "model.hpp"
#include <dynd/index.hpp>
#include <dynd/search.hpp>
#include <dynd/sort.hpp>
using namespace mv;

enum Lay { PLAIN, GAPS, REVERSED, RGAPS, COLUMN, ROW, NLAY };
static const char *layname[] = {"plain", "every second", "reversed", "every second reversed", "column", "row"};
struct Arr {
  nd::array whole, a;
  V init;               // of whole
  std::vector<std::vector<int>> at; // path in whole of element i
};
// vals[i] in element i, `gap` between
static Arr make(const ndt::type &e, Lay lay, const std::vector<V> &vals, const V &gap) {
  Arr r;
  int n = vals.size();
  V w = V::List();
  auto line = [&](int size) {
    V l = V::List();
    l.k.assign(size, gap);
    return l;
  };
  switch (lay) {
  case PLAIN:
  case REVERSED:
    w = line(n);
    break;
  case GAPS:
  case RGAPS:
    w = line(2 * n + 1);
    break;
  case COLUMN:
    for (int i = 0; i < n; ++i)
      w.k.push_back(line(3));
    break;
  case ROW:
    for (int i = 0; i < 3; ++i)
      w.k.push_back(line(n));
    break;
  default:
    break;
  }
  for (int i = 0; i < n; ++i) {
    std::vector<int> p;
    switch (lay) {
    case PLAIN:
      p = {i};
      break;
    case REVERSED:
      p = {n - 1 - i};
      break;
    case GAPS:
      p = {2 * i + 1};
      break;
    case RGAPS:
      p = {2 * (n - 1 - i) + 1};
      break;
    case COLUMN:
      p = {i, 1};
      break;
    default:
      p = {1, i};
    }
    V *v = &w;
    for (int j : p)
      v = &v->k[j];
    *v = vals[i];
    r.at.push_back(p);
  }
  ndt::type wt = lay == COLUMN ? ndt::make_fixed_dim(n, ndt::make_fixed_dim(3, e)) : lay == ROW ? ndt::make_fixed_dim(3, ndt::make_fixed_dim(n, e)) : ndt::make_fixed_dim(w.k.size(), e);
  r.whole = build(wt, w);
  r.init = w;
  switch (lay) {
  case PLAIN:
    r.a = r.whole;
    break;
  case REVERSED:
    r.a = r.whole(irange().by(-1));
    break;
  case GAPS:
    r.a = r.whole(irange(1, 2 * n + 1).by(2));
    break;
  case RGAPS:
    r.a = r.whole(irange(1, 2 * n + 1).by(2))(irange().by(-1));
    break;
  case COLUMN:
    r.a = r.whole(irange(), 1);
    break;
  default:
    r.a = r.whole(1);
  }
  return r;
}
struct T {
  S name;
  std::vector<V> up; // ascending values
  V gap;
};
static std::vector<T> types() {
  std::vector<T> r;
  auto I = [](int64_t x) { return V::Int(x); };
  for (int b : {8, 16, 32, 64}) {
    int64_t lo = b == 64 ? INT64_MIN : -(int64_t(1) << (b - 1)), hi = b == 64 ? INT64_MAX : (int64_t(1) << (b - 1)) - 1;
    r.push_back({mc::fmt("int%d", b), {I(lo), I(-1), I(0), I(hi)}, I(7)});
    r.push_back({mc::fmt("uint%d", b), {I(0), I(1), I(b == 64 ? (int64_t(1) << 62) : (int64_t(1) << (b - 1))), I(b == 64 ? INT64_MAX : (int64_t)((uint64_t(1) << b) - 1))}, I(7)});
  }
  r.push_back({"bool", {V::Bool(false), V::Bool(true)}, V::Bool(true)});
  auto D = [](double x) { return V::Real(x); };
  r.push_back({"float32", {D(-INFINITY), D(-1.5), D(0.25), D(INFINITY)}, D(7)});
  r.push_back({"float64", {D(-INFINITY), D(-1e300), D(1e-300), D(INFINITY)}, D(7)});
  auto s = [](const char *x) { return V::Str(x); };
  r.push_back({"string", {s(""), s("a"), s("a much longer text"), s("a much longer texu"), s("ab")}, s("not to be moved, and long")});
  return r;
}
static V now(const Arr &r, size_t i) {
  V w = read(r.whole);
  const V *v = &w;
  for (int j : r.at[i])
    v = &v->k[j];
  return *v;
}
static void sort_one(mc::X &x, const ndt::type &tp, const T &t, Lay lay, const std::vector<int> &seq, const S &o) {
  std::vector<V> vals;
  for (int k : seq)
    vals.push_back(t.up[k]);
  Arr r = make(tp, lay, vals, t.gap);
  x.trans();
  try {
    nd::sort(r.a);
  } catch (const std::exception &e) {
    x.check(false, "sort threw", o + e.what());
    return;
  } catch (const dynd_exception &e) {
    x.check(false, "sort threw", o + e.what());
    return;
  }
  std::vector<int> want = seq;
  std::sort(want.begin(), want.end());
  V w = r.init;
  for (size_t i = 0; i < want.size(); ++i) {
    V *v = &w;
    for (int j : r.at[i])
      v = &v->k[j];
    *v = t.up[want[i]];
  }
  V got = read(r.whole);
  if (got != w)
    x.fail("sorted", o + "the memory is then " + got.str() + ", expected " + w.str());
}
static S seqstr(const std::vector<int> &s) {
  S r;
  for (int k : s)
    r += mc::fmt("%d ", k);
  return r;
}
template <class F>
static void sequences(int n, int k, const F &f) {
  std::vector<int> s(n);
  for (;;) {
    f(s);
    int i = n - 1;
    while (i >= 0 && ++s[i] == k)
      s[i--] = 0;
    if (i < 0)
      return;
  }
}
static void body(mc::X &x) {
  bool th = x.thorough();
  auto ts = types();
  x.section("sort");
  for (auto &t : ts) {
    ndt::type tp(t.name);
    for (int lay = 0; lay < NLAY; ++lay)
      for (int n = 0; n <= (th ? 7 : 5); ++n) {
        if (n == 0 && lay != PLAIN)
          continue;
        if (!x.unit())
          continue;
        sequences(n, t.up.size(), [&](const std::vector<int> &s) {
          do {
            MC_CASE(x, "%s, %s, values %s", t.name.c_str(), layname[lay], seqstr(s).c_str());
            sort_one(x, tp, t, (Lay)lay, s, "");
          } while (0);
        });
        x.state(mc::h64(mc::fmt("%s %d %d", t.name.c_str(), lay, n)));
      }
  }
  // all sequences of two values, and all sequences with one or two out of place, where the sort works by partitions
  x.section("sort long");
  for (const char *name : {"int32", "float64", "string"}) {
    const T *t = nullptr;
    for (auto &u : ts)
      if (u.name == name)
        t = &u;
    ndt::type tp(t->name);
    bool i32 = S(name) == "int32";
    for (int lay = 0; lay < NLAY; ++lay) {
      for (int n = 16; n <= 19; ++n)
        for (int hi = 0; hi < 64; ++hi) {
          if (!x.unit())
            continue;
          // the leading 6 bits are `hi`; the others: all, or (unless thorough) those with few changes
          int rest = n - 6;
          for (uint32_t lo = 0; lo < (1u << rest); ++lo) {
            uint32_t bits = (uint32_t(hi) << rest) | lo;
            int changes = __builtin_popcount((bits ^ (bits >> 1)) & ((1u << (n - 1)) - 1));
            if (changes > (th ? (i32 ? 20 : 5) : (i32 && n == 17 ? 6 : 3)))
              continue;
            std::vector<int> s(n);
            for (int i = 0; i < n; ++i)
              s[i] = bits >> i & 1;
            MC_CASE(x, "%s, %s, values %s", t->name.c_str(), layname[lay], seqstr(s).c_str());
            sort_one(x, tp, *t, (Lay)lay, s, "");
          }
        }
      // permutations of 17..40 distinct values: rotations, reversals, interleavings, one pair exchanged
      T d;
      d.name = t->name;
      d.gap = t->gap;
      for (int i = 0; i < 64; ++i)
        d.up.push_back(i32 ? V::Int(i - 20) : S(name) == "float64" ? V::Real(i - 20.5) : V::Str(mc::fmt("%02d", i) + (i % 2 ? "" : " and more than fits")));
      for (int n : {15, 16, 17, 18, 31, 33, 40, 64}) {
        if (!x.unit())
          continue;
        std::vector<std::vector<int>> perms;
        std::vector<int> up(n);
        for (int i = 0; i < n; ++i)
          up[i] = i;
        for (int rot = 0; rot < n; ++rot) {
          auto p = up;
          std::rotate(p.begin(), p.begin() + rot, p.end());
          perms.push_back(p);
          std::reverse(p.begin(), p.end());
          perms.push_back(p);
        }
        for (int step = 2; step < n; ++step) {
          std::vector<int> p;
          for (int a = 0; a < step; ++a)
            for (int i = a; i < n; i += step)
              p.push_back(i);
          perms.push_back(p);
          std::reverse(p.begin(), p.end());
          perms.push_back(p);
        }
        for (int a = 0; a < n; ++a)
          for (int b = a + 1; b < n; b += (th ? 1 : 3)) {
            auto p = up;
            std::swap(p[a], p[b]);
            perms.push_back(p);
            for (int &q : p)
              q = n - 1 - q;
            perms.push_back(p);
          }
        for (auto &p : perms) {
          MC_CASE(x, "%s, %s, distinct values %s", t->name.c_str(), layname[lay], seqstr(p).c_str());
          sort_one(x, tp, d, (Lay)lay, p, "");
        }
      }
    }
  }
  x.section("search");
  for (auto &t : ts) {
    if (t.name != "int32" && t.name != "string" && t.name != "bool")
      continue;
    ndt::type tp(t.name);
    T u = t;
    if (t.name == "int32") // more values, also outside those of the array
      for (int64_t v : {-2147483647, 2, 5})
        u.up.insert(std::upper_bound(u.up.begin(), u.up.end(), v, [](int64_t a, const V &b) { return a < b.i; }), V::Int(v));
    if (t.name == "string")
      u.up.push_back(V::Str("b"));
    for (int lay = 0; lay < NLAY; ++lay)
      for (int n = 0; n <= (th ? 7 : 5); ++n) {
        if (n == 0 && lay != PLAIN)
          continue;
        if (!x.unit())
          continue;
        sequences(n, u.up.size(), [&](const std::vector<int> &s) {
          do {
            if (!std::is_sorted(s.begin(), s.end()))
              break;
            MC_CASE(x, "%s, %s, values %s", t.name.c_str(), layname[lay], seqstr(s).c_str());
            std::vector<V> vals;
            for (int k : s)
              vals.push_back(u.up[k]);
            Arr r = make(tp, (Lay)lay, vals, t.gap);
            for (int k = 0; k < (int)u.up.size(); ++k) {
              x.trans();
              nd::array res = nd::binary_search(r.a, build(tp, u.up[k]));
              V g = read(res);
              bool present = std::find(s.begin(), s.end(), k) != s.end();
              x.check(g.kind == V::INT && (present ? g.i >= 0 && g.i < n && s[g.i] == k : g.i == -1), "found at", mc::fmt("value %d: ", k) + g.str());
            }
            x.check(read(r.whole) == r.init, "search changed", "the array changed");
          } while (0);
        });
        x.state(mc::h64(mc::fmt("%s %d %d", t.name.c_str(), lay, n)));
      }
  }
  // ---- take
  struct E {
    const char *type;
    std::function<V(int)> val;
  };
  auto pair = [](int i) {
    V v = V::List();
    v.k = {V::Int(10 * i), V::Int(10 * i + 1)};
    return v;
  };
  std::vector<E> es = {{"int8", [](int i) { return V::Int(i - 2); }},
                       {"int32", [](int i) { return V::Int(i * 100000 - 2); }},
                       {"float64", [](int i) { return V::Real(i + 0.5); }},
                       {"bool", [](int i) { return V::Bool(i % 2); }},
                       {"string", [](int i) { return V::Str(S(i * 9, 'x') + mc::fmt("%d", i)); }},
                       {"?int32", [](int i) { return i % 2 ? V::Int(i) : V::NA(); }},
                       {"2 * int32", pair},
                       {"(int16, string)", [](int i) {
                          V v = V::List();
                          v.k = {V::Int(i), V::Str(mc::fmt("element number %d", i))};
                          return v;
                        }},
                       {"{x: float64}", [](int i) {
                          V v = V::List();
                          v.k = {V::Real(i)};
                          return v;
                        }},
                       {"var * int32", [](int i) {
                          V v = V::List();
                          for (int j = 0; j < i; ++j)
                            v.k.push_back(V::Int(j + 10 * i));
                          return v;
                        }}};
  x.section("masked take");
  for (auto &e : es) {
    ndt::type tp(e.type);
    for (int lay = 0; lay < NLAY; ++lay)
      for (int mlay = 0; mlay < NLAY; ++mlay)
        for (int n = 0; n <= (th ? 8 : 6); ++n) {
          if (n == 0 && (lay != PLAIN || mlay != PLAIN))
            continue;
          if (!x.unit())
            continue;
          std::vector<V> vals;
          for (int i = 0; i < n; ++i)
            vals.push_back(e.val(i));
          Arr r = make(tp, (Lay)lay, vals, e.val(9));
          for (int m = 0; m < 1 << n; ++m) {
            MC_CASE(x, "%d * %s, %s, mask %x, %s", n, e.type, layname[lay], m, layname[mlay]);
            std::vector<V> mask;
            V want = V::List();
            for (int i = 0; i < n; ++i) {
              mask.push_back(V::Bool(m >> i & 1));
              if (m >> i & 1)
                want.k.push_back(vals[i]);
            }
            Arr b = make(ndt::type("bool"), (Lay)mlay, mask, V::Bool(true));
            x.trans();
            try {
              nd::array c = nd::take(r.a, b.a);
              x.check(c.get_type() == ndt::type(S("var * ") + e.type), "mask type", tstr(c.get_type()));
              V got = read(c);
              x.check(got == want, "mask", "gave " + got.str() + ", expected " + want.str());
              x.check(read(r.whole) == r.init && read(b.whole) == b.init, "mask source", "a source changed");
            } catch (const std::exception &e) {
              x.check(false, "mask threw", e.what());
            } catch (const dynd_exception &e) {
              x.check(false, "mask threw", e.what());
            }
          }
        }
  }
  x.section("mask of another size");
  for (int n = 0; n < 4; ++n)
    for (int m = 0; m < 4; ++m) {
      if (n == m || !x.unit())
        continue;
      MC_CASE(x, "%d elements, mask of %d", n, m);
      V a = V::List(), b = V::List();
      a.k.assign(n, V::Int(1));
      b.k.assign(m, V::Bool(true));
      bool threw = false;
      x.trans();
      try {
        nd::take(build(ndt::make_fixed_dim(n, ndt::type("int32")), a), build(ndt::make_fixed_dim(m, ndt::type("bool")), b));
      } catch (const std::exception &e) {
        threw = true;
      } catch (const dynd_exception &e) {
        threw = true;
      }
      x.check(threw, "mask size", "no error");
    }
  x.section("indexed take");
  for (auto &e : es) {
    ndt::type tp(e.type);
    for (int lay = 0; lay < NLAY; ++lay)
      for (int n = 0; n <= 3; ++n)
        for (int k = 0; k <= (th ? 4 : 3); ++k) {
          if (n == 0 && lay != PLAIN)
            continue;
          if (!x.unit())
            continue;
          std::vector<V> vals;
          for (int i = 0; i < n; ++i)
            vals.push_back(e.val(i));
          Arr r = make(tp, (Lay)lay, vals, e.val(9));
          sequences(k, 2 * n + 2, [&](const std::vector<int> &s) {
            for (int ilay = 0; ilay < NLAY; ++ilay) {
              if (k == 0 && ilay != PLAIN)
                continue;
              if (k == 3 && ilay != lay && !th)
                continue;
              std::vector<V> ix;
              V want = V::List();
              bool ok = true;
              for (int q : s) {
                int i = q - n - 1; // from -n-1 to n
                ix.push_back(V::Int(i));
                ok = ok && i >= -n && i < n;
                if (ok)
                  want.k.push_back(vals[i < 0 ? i + n : i]);
              }
              MC_CASE(x, "%d * %s, %s, indices %s less %d, %s", n, e.type, layname[lay], seqstr(s).c_str(), n + 1, layname[ilay]);
              Arr b = make(ndt::type("int64"), (Lay)ilay, ix, V::Int(1000000));
              x.trans();
              x.outcome(ok ? "in range" : "out of range");
              S err;
              try {
                nd::array c = nd::take(r.a, b.a);
                x.check(ok, "index range", "no error for an index out of range");
                if (ok) {
                  x.check(c.get_type() == ndt::make_fixed_dim(k, tp), "index type", tstr(c.get_type()));
                  V got = read(c);
                  x.check(got == want, "indices", "gave " + got.str() + ", expected " + want.str());
                }
                x.check(read(r.whole) == r.init && read(b.whole) == b.init, "index source", "a source changed");
              } catch (const std::exception &e) {
                x.check(!ok, "indices threw", e.what());
              } catch (const dynd_exception &e) {
                x.check(!ok, "indices threw", e.what());
              }
            }
          });
        }
  }
}
MC_MAIN(body)
