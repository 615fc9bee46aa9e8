// Reductions over every axis subset of fixed and ragged arrays, against a direct fold over plain index tuples.
#include "model.hpp"
#include <dynd/arithmetic.hpp>
#include <dynd/comparison.hpp>
#include <dynd/functional.hpp>
#include <dynd/io.hpp>
#include <dynd/logic.hpp>
#include <dynd/math.hpp>
#include <dynd/range.hpp>
#include <dynd/statistics.hpp>
#include <dynd/index.hpp>
#include <cfloat>
using namespace mv;
typedef std::vector<int> Dims;

static std::map<S, ndt::type> type_cache;
static const ndt::type &ty(const S &s) {
  auto it = type_cache.find(s);
  if (it == type_cache.end())
    it = type_cache.insert({s, ndt::type(s)}).first;
  return it->second;
}
static S dstr(const Dims &d, const S &dt) {
  S s;
  for (int x : d)
    s += x < 0 ? S("var * ") : mc::fmt("%d * ", x);
  return s + dt;
}
static S ints(const std::vector<int> &v) {
  S s = "[";
  for (size_t i = 0; i < v.size(); ++i)
    s += (i ? "," : "") + std::to_string(v[i]);
  return s + "]";
}
static int64_t val(int i, int salt) { return (int64_t)(mc::h64(mc::fmt("%d.%d", i, salt)) >> 8); }

// an array of shape d in a given layout: bit k of rev reverses axis k, step 2 leaves gaps, perm reverses the axis order
struct Lay {
  int rev;
  bool gap, perm;
  S str() const { return mc::fmt("rev%d%s%s", rev, gap ? " gap" : "", perm ? " transposed" : ""); }
};
static nd::array make(const Dims &d, const Lay &l, int salt, std::vector<int64_t> &flat) {
  size_t n = d.size();
  Dims bd(n);
  for (size_t k = 0; k < n; ++k)
    bd[k] = l.gap ? 2 * d[k] + 1 : d[k];
  Dims pd(bd);
  if (l.perm)
    std::reverse(pd.begin(), pd.end());
  nd::array b = nd::empty(ty(dstr(pd, "int64")));
  size_t tot = 1;
  for (int x : pd)
    tot *= x;
  int64_t *p = (int64_t *)b.data();
  for (size_t i = 0; i < tot; ++i)
    p[i] = 0x5555555555555555LL + i;
  nd::array a = b;
  if (l.perm) {
    std::vector<intptr_t> ax;
    for (size_t k = 0; k < n; ++k)
      ax.push_back(n - 1 - k);
    a = a.permute(n, ax.data());
  }
  std::vector<irange> ir;
  for (size_t k = 0; k < n; ++k) {
    irange r = irange();
    bool rv = l.rev >> k & 1;
    if (l.gap && d[k] == 0)
      r = irange(0, 0);
    else if (l.gap)
      r = rv ? irange(2 * d[k] - 1, 0).by(-2) : irange(1, 2 * d[k]).by(2);
    else if (rv)
      r = irange().by(-1);
    ir.push_back(r);
  }
  if (n)
    a = a.at_array(n, ir.data());
  // write through the documented layout
  flat.clear();
  size_t m = 1;
  for (int x : d)
    m *= x;
  for (size_t i = 0; i < m; ++i) {
    size_t q = i;
    char *q0 = const_cast<char *>(a.cdata());
    for (size_t k = n; k-- > 0;) {
      const size_stride_t *ss = reinterpret_cast<const size_stride_t *>(a.get()->metadata()) + k;
      q0 += (q % d[k]) * ss->stride;
      q /= d[k];
    }
    int64_t v = val(i, salt);
    memcpy(q0, &v, 8);
    flat.push_back(v);
  }
  return a;
}
// model: fold over the reduced axes in index order
static V fold(const Dims &d, const std::vector<bool> &red, bool keep, std::function<int64_t(int64_t, size_t)> op, int64_t ident) {
  size_t n = d.size();
  std::vector<int64_t> out;
  Dims od;
  for (size_t k = 0; k < n; ++k)
    if (!red[k])
      od.push_back(d[k]);
  size_t on = 1, m = 1;
  for (int x : od)
    on *= x;
  for (int x : d)
    m *= x;
  out.assign(on, ident);
  for (size_t i = 0; i < m; ++i) {
    size_t q = i, o = 0, mul = 1;
    for (size_t k = n; k-- > 0;) {
      size_t c = q % d[k];
      q /= d[k];
      if (!red[k]) {
        o += c * mul;
        mul *= d[k];
      }
    }
    out[o] = op(out[o], i);
  }
  Dims fd;
  for (size_t k = 0; k < n; ++k)
    if (!red[k])
      fd.push_back(d[k]);
    else if (keep)
      fd.push_back(1);
  size_t pos = 0;
  std::function<V(size_t)> rec = [&](size_t k) {
    if (k == fd.size())
      return V::Int(out[pos++]);
    V v = V::List();
    for (int i = 0; i < fd[k]; ++i)
      v.k.push_back(rec(k + 1));
    return v;
  };
  return rec(0);
}
static Dims out_dims(const Dims &d, const std::vector<bool> &red, bool keep) {
  Dims f;
  for (size_t k = 0; k < d.size(); ++k)
    if (!red[k])
      f.push_back(d[k]);
    else if (keep)
      f.push_back(1);
  return f;
}
static void shapes(int nd, int maxsize, std::vector<Dims> &out) {
  int tot = 1;
  for (int i = 0; i < nd; ++i)
    tot *= maxsize + 1;
  for (int c = 0; c < tot; ++c) {
    Dims d;
    int q = c;
    for (int i = 0; i < nd; ++i) {
      d.push_back(q % (maxsize + 1));
      q /= maxsize + 1;
    }
    out.push_back(d);
  }
}
typedef std::vector<std::pair<const char *, nd::array>> Kw;
static nd::array int_list(const std::vector<int> &v) {
  nd::array a = nd::empty(ty(mc::fmt("%d * int32", (int)v.size())));
  for (size_t i = 0; i < v.size(); ++i)
    ((int32_t *)a.data())[i] = v[i];
  return a;
}
static nd::array call(const nd::callable &f, const std::vector<nd::array> &a, const Kw &kw) {
  return f.call(a.size(), a.data(), kw.size(), kw.data());
}
static S run(std::function<V()> f, V &out) {
  try {
    out = f();
    return "";
  } catch (const std::exception &e) {
    return S("error: ") + e.what();
  } catch (const dynd::dynd_exception &e) {
    return S("error: ") + e.what();
  }
}

// neither commutative nor associative, so the order of the visits and every repeated visit show
static int64_t step(int64_t r, int64_t v) { return (int64_t)((uint64_t)r * 1000003u + (uint64_t)v); }

static void body(mc::X &x) {
  nd::callable red1 = nd::functional::reduction([] { return (int64_t)7; },
                                                [](const return_wrapper<int64_t> &res, int64_t v) { res = step(res, v); });
  nd::callable red2 = nd::functional::reduction([] { return (int64_t)7; }, [](const return_wrapper<int64_t> &res, int64_t u, int64_t v) {
    res = step(res, (int64_t)((uint64_t)u * (uint64_t)v));
  });
  std::vector<Dims> all;
  for (int n = 1; n <= 3; ++n)
    shapes(n, 3, all);
  shapes(4, 3, all);
  shapes(5, x.thorough() ? 2 : 1, all);
  if (x.thorough())
    shapes(6, 1, all);

  x.section("axes and layouts");
  for (const Dims &d : all) {
    if (!x.unit())
      continue;
    int n = d.size();
    std::vector<Lay> lays;
    for (int r = 0; r < (1 << n); ++r)
      if (n <= 3 || r == 0 || r == 5 || r == (1 << n) - 1)
        for (int g = 0; g < 2; ++g)
          for (int p = 0; p < 2; ++p)
            lays.push_back(Lay{r, g == 1, p == 1});
    for (const Lay &l : lays) {
      std::vector<int64_t> f1, f2;
      nd::array a = make(d, l, 0, f1);
      nd::array b = make(d, lays[(&l - lays.data() + 3) % lays.size()], 1, f2);
      for (int two = 0; two < 2; ++two)
        for (int m = -1; m < (1 << n); ++m)
          for (int keep = 0; keep < 3; ++keep) {
            std::vector<bool> red(n, true);
            Kw kw;
            std::vector<int> ax;
            if (m >= 0) {
              for (int k = 0; k < n; ++k)
                if ((red[k] = (m >> k & 1)))
                  ax.push_back(k);
              if (m % 3 == 2)
                std::reverse(ax.begin(), ax.end());
              kw.push_back({"axes", int_list(ax)});
            }
            if (keep < 2)
              kw.push_back({"keepdims", nd::array((bool)keep)});
            MC_CASE_S(x, mc::fmt("%s %s %s args=%d axes=%s keepdims=%s", dstr(d, "int64").c_str(), l.str().c_str(),
                                 "fold", two + 1, m < 0 ? "NA" : ints(ax).c_str(), keep == 2 ? "NA" : keep ? "true" : "false"));
            V want = fold(d, red, keep == 1, [&](int64_t r, size_t i) {
              return step(r, two ? (int64_t)((uint64_t)f1[i] * (uint64_t)f2[i]) : f1[i]);
            }, 7);
            V got;
            nd::array res;
            S e = run([&] {
              res = two ? call(red2, {a, b}, kw) : call(red1, {a}, kw);
              return read(res);
            }, got);
            x.trans(f1.size() + 1);
            x.outcome(e.empty() ? "value" : "error");
            if (!e.empty()) {
              x.fail("unexpected error", e);
              continue;
            }
            S wt = dstr(out_dims(d, red, keep == 1), "int64");
            x.check(tstr(res.get_type()) == wt, "wrong shape", tstr(res.get_type()) + " instead of " + wt);
            x.check(got == want, "wrong value", got.str() + " instead of " + want.str());
            x.state(mc::h64(wt + ints(ax)));
          }
    }
  }

  x.section("destination given");
  for (const Dims &d : all) {
    int n = d.size();
    if (n > 2 || !x.unit())
      continue;
    std::vector<int64_t> f1;
    nd::array a = make(d, Lay{0, false, false}, 0, f1);
    for (int m = -1; m < (1 << n); ++m)
      for (int keep = 0; keep < 2; ++keep)
        for (const Dims &dd0 : all) {
          Dims dd = dd0;
          if (&dd0 == &all.back())
            dd.clear();
          if (dd.size() > 2)
            continue;
          for (int rv = 0; rv < (1 << dd.size()); ++rv) {
            std::vector<bool> red(n, true);
            Kw kw;
            std::vector<int> ax;
            if (m >= 0) {
              for (int k = 0; k < n; ++k)
                if ((red[k] = (m >> k & 1)))
                  ax.push_back(k);
              kw.push_back({"axes", int_list(ax)});
            }
            kw.push_back({"keepdims", nd::array((bool)keep)});
            MC_CASE_S(x, mc::fmt("%s axes=%s keepdims=%d into %s rev%d", dstr(d, "int64").c_str(), m < 0 ? "NA" : ints(ax).c_str(),
                                 keep, dstr(dd, "int64").c_str(), rv));
            V want = fold(d, red, keep == 1, [&](int64_t r, size_t i) { return step(r, f1[i]); }, 7);
            std::vector<int64_t> fd;
            nd::array dst = make(dd, Lay{rv, false, false}, 9, fd);
            V before = read(dst);
            kw.push_back({"dst", dst});
            V got;
            S e = run([&] {
              call(red1, {a}, kw);
              return read(dst);
            }, got);
            x.trans(1);
            bool same = out_dims(d, red, keep == 1) == dd;
            x.outcome(e.empty() ? "value" : "error");
            if (e.empty())
              x.check(same && got == want, same ? "wrong value" : "destination of the wrong shape accepted",
                      got.str() + " instead of " + want.str());
            else
              x.check(read(dst) == before, "destination changed by an error", e);
          }
        }
  }

  x.section("bad axes and argument shapes");
  for (const Dims &d : all) {
    int n = d.size();
    if (n > 3 || !x.unit())
      continue;
    std::vector<int64_t> f1, f2;
    nd::array a = make(d, Lay{0, false, false}, 0, f1);
    for (int bad : {-4, -3, -2, -1, n, n + 1, 1000})
      for (int with = 0; with < 2; ++with) {
        std::vector<int> ax;
        if (with)
          ax.push_back(0);
        ax.push_back(bad);
        MC_CASE_S(x, mc::fmt("%s axes=%s", dstr(d, "int64").c_str(), ints(ax).c_str()));
        V got;
        S e = run([&] { return read(call(red1, {a}, {{"axes", int_list(ax)}})); }, got);
        x.trans(1);
        x.outcome(e.empty() ? "accepted" : "rejected");
        x.check(!e.empty(), "axis out of range accepted", got.str());
      }
    for (const Dims &d2 : all) {
      if (d2.size() > 2 || (n == 3 && !x.thorough() && d2.size() > 1))
        continue;
      nd::array b = make(d2, Lay{0, false, false}, 1, f2);
      MC_CASE_S(x, mc::fmt("%s with %s", dstr(d, "int64").c_str(), dstr(d2, "int64").c_str()));
      V got;
      S e = run([&] { return read(call(red2, {a, b}, {})); }, got);
      x.trans(1);
      x.outcome(e.empty() ? "value" : "error");
      if (d == d2) {
        x.check(e.empty(), "unexpected error", e);
      } else if (e.empty()) {
        // only a broadcast is acceptable
        bool bc = true;
        size_t nn = std::max(d.size(), d2.size());
        Dims o;
        for (size_t k = 0; k < nn; ++k) {
          int p = k + d.size() < nn ? 1 : d[k + d.size() - nn], q = k + d2.size() < nn ? 1 : d2[k + d2.size() - nn];
          if (p != q && p != 1 && q != 1)
            bc = false;
          o.push_back(p == 1 ? q : p);
        }
        auto at = [&](const Dims &s, const std::vector<int64_t> &f, size_t i) {
          size_t r = 0, mul = 1;
          for (size_t k = nn; k-- > 0;) {
            int c = i % o[k];
            i /= o[k];
            if (k + s.size() >= nn) {
              int sz = s[k + s.size() - nn];
              r += (sz == 1 ? 0 : c) * mul;
              mul *= sz;
            }
          }
          return (uint64_t)f[r];
        };
        if (!bc) {
          x.fail("mismatched argument shapes accepted", got.str());
          continue;
        }
        V want = fold(o, std::vector<bool>(nn, true), false, [&](int64_t r, size_t i) { return step(r, (int64_t)(at(d, f1, i) * at(d2, f2, i))); }, 7);
        x.check(got == want, "mismatched argument shapes give a wrong value", got.str() + " instead of " + want.str());
      }
    }
  }

  x.section("ragged");
  {
    // trees: fixed outer dimensions, var somewhere
    std::vector<Dims> forms = {{-1}, {0, -1}, {1, -1}, {2, -1}, {3, -1}, {2, 2, -1}, {1, 2, -1}, {2, 0, -1}, {0, 2, -1}, {-1, -1}, {-1, 2}, {2, -1, 2}, {-1, 0}, {2, -1, -1}};
    for (const Dims &d : forms) {
      // enumerate the row lengths of every var dimension
      int slots = 0;
      std::function<V(size_t, std::vector<int> &, int &, int &)> build_tree = [&](size_t k, std::vector<int> &len, int &pos, int &num) -> V {
        if (k == d.size()) {
          int i = num++;
          return V::Int(val(i, 4));
        }
        int sz = d[k];
        if (sz < 0) {
          if (pos >= (int)len.size())
            len.push_back(0);
          sz = len[pos++];
        }
        V v = V::List();
        for (int i = 0; i < sz; ++i)
          v.k.push_back(build_tree(k + 1, len, pos, num));
        return v;
      };
      (void)slots;
      // breadth: all length vectors over 0..3 (0..2 for deeper forms), extended as the tree asks for them
      int maxlen = d.size() <= 2 ? 3 : 2;
      std::vector<std::vector<int>> todo = {{}};
      std::vector<V> vals;
      while (!todo.empty()) {
        std::vector<int> len = todo.back();
        todo.pop_back();
        int pos = 0, num = 0;
        std::vector<int> l2 = len;
        V v = build_tree(0, l2, pos, num);
        if ((int)l2.size() > (int)len.size()) {
          for (int q = 0; q <= maxlen; ++q) {
            std::vector<int> l3 = len;
            l3.push_back(q);
            todo.push_back(l3);
          }
          continue;
        }
        vals.push_back(v);
        if (vals.size() > (x.thorough() ? 4000u : 600u))
          break;
      }
      for (const V &v : vals) {
        if (!x.unit())
          continue;
        int n = d.size();
        for (int m = -1; m < (1 << n); ++m)
          for (int keep = 0; keep < 2; ++keep)
            for (int sl = 0; sl < 2; ++sl) {
              if (sl && d[0] >= 0)
                continue;
              std::vector<bool> red(n, true);
              Kw kw;
              std::vector<int> ax;
              if (m >= 0) {
                for (int k = 0; k < n; ++k)
                  if ((red[k] = (m >> k & 1)))
                    ax.push_back(k);
                kw.push_back({"axes", int_list(ax)});
              }
              if (keep)
                kw.push_back({"keepdims", nd::array(true)});
              MC_CASE_S(x, mc::fmt("%s %s axes=%s keepdims=%d%s", dstr(d, "int64").c_str(), v.str().c_str(), m < 0 ? "NA" : ints(ax).c_str(), keep, sl ? " behind an offset" : ""));
              nd::array a = build(ty(dstr(d, "int64")), v);
              if (sl) {
                // the same rows, reached through the metadata offset of a longer row
                V w = v;
                V pad = v;
                V extra;
                {
                  std::function<V(size_t)> z = [&](size_t k) {
                    if (k == d.size())
                      return V::Int(12345);
                    V r = V::List();
                    for (int i = 0; i < (d[k] < 0 ? 1 : d[k]); ++i)
                      r.k.push_back(z(k + 1));
                    return r;
                  };
                  extra = z(1);
                }
                w.k.insert(w.k.begin(), extra);
                a = build(ty(dstr(d, "int64")), w);
                ndt::var_dim_type::metadata_type *md = (ndt::var_dim_type::metadata_type *)a.get()->metadata();
                ndt::var_dim_type::data_type *vd = (ndt::var_dim_type::data_type *)a.data();
                md->offset += md->stride;
                vd->size -= 1;
              }
              V got;
              S e = run([&] { return read(call(red1, {a}, kw)); }, got);
              x.trans(1);
              x.outcome(e.empty() ? "value" : "error");
              // Supported: fixed dimensions followed by one innermost var dimension that is reduced
              bool supported = true;
              for (int k = 0; k < n; ++k)
                if (d[k] < 0 && (k != n - 1 || !red[k]))
                  supported = false;
              if (!e.empty()) {
                x.check(!supported, "unexpected error", e);
                continue;
              }
              // a value must be the right one: fold the tree
              std::function<void(const V &, size_t, std::vector<int> &, std::map<std::vector<int>, int64_t> &)> acc = [&](const V &t, size_t k, std::vector<int> &key, std::map<std::vector<int>, int64_t> &o) {
                if (k == d.size()) {
                  int64_t &r = o.insert({key, 7}).first->second;
                  r = step(r, t.i);
                  return;
                }
                for (size_t i = 0; i < t.k.size(); ++i) {
                  if (!red[k])
                    key.push_back(i);
                  acc(t.k[i], k + 1, key, o);
                  if (!red[k])
                    key.pop_back();
                }
              };
              std::map<std::vector<int>, int64_t> o;
              std::vector<int> key;
              acc(v, 0, key, o);
              std::function<void(const V &, size_t, std::vector<int> &)> chk = [&](const V &g, size_t k, std::vector<int> &key) {
                if (k == d.size()) {
                  int64_t w = o.insert({key, 7}).first->second;
                  x.check(g.kind == V::INT && g.i == w, "wrong value", got.str() + mc::fmt(" at %s want %lld", ints(key).c_str(), (long long)w));
                  return;
                }
                if (red[k]) {
                  if (!keep)
                    return chk(g, k + 1, key);
                  if (g.kind != V::LIST || g.k.size() != 1) {
                    x.fail("wrong shape", got.str());
                    return;
                  }
                  return chk(g.k[0], k + 1, key);
                }
                if (g.kind != V::LIST || (d[k] >= 0 && (int)g.k.size() != d[k])) {
                  x.fail("wrong shape", got.str());
                  return;
                }
                for (size_t i = 0; i < g.k.size(); ++i) {
                  key.push_back(i);
                  chk(g.k[i], k + 1, key);
                  key.pop_back();
                }
              };
              chk(got, 0, key);
            }
      }
    }
  }

  x.section("builtin reductions");
  {
    struct T {
      const char *n;
      bool fl, sg;
      int bits;
    };
    const T ts[] = {{"int8", 0, 1, 8},     {"int16", 0, 1, 16},   {"int32", 0, 1, 32},     {"int64", 0, 1, 64},   {"uint8", 0, 0, 8},
                    {"uint16", 0, 0, 16}, {"uint32", 0, 0, 32}, {"uint64", 0, 0, 64}, {"float32", 1, 1, 32}, {"float64", 1, 1, 64}};
    for (const T &t : ts) {
      std::vector<V> dom;
      if (t.fl) {
        double big = t.bits == 32 ? FLT_MAX : DBL_MAX;
        for (double z : {0.0, 1.0, -2.5, big, -big, (double)INFINITY, -(double)INFINITY})
          dom.push_back(V::Real(z));
      } else {
        int64_t hi = t.sg ? (int64_t)((1ULL << (t.bits - 1)) - 1) : (int64_t)(t.bits == 64 ? ~0ULL : (1ULL << t.bits) - 1);
        int64_t lo = t.sg ? -hi - 1 : 0;
        for (int64_t z : std::set<int64_t>{lo, lo + 1, 0, 1, 3, hi - 1, hi})
          dom.push_back(V::Int(z));
      }
      auto lt = [&](const V &a, const V &b) { return t.fl ? a.d < b.d : t.sg ? a.i < b.i : (uint64_t)a.i < (uint64_t)b.i; };
      size_t maxn = x.thorough() ? 6 : 5;
      for (size_t n = 1; n <= maxn; ++n) {
        size_t tot = 1;
        for (size_t i = 0; i < n; ++i)
          tot *= dom.size();
        for (size_t blk = 0; blk < tot; blk += 64) {
          if (!x.unit())
            continue;
          for (size_t c = blk; c < std::min(tot, blk + 64); ++c) {
            V v = V::List();
            size_t q = c;
            for (size_t i = 0; i < n; ++i) {
              v.k.push_back(dom[q % dom.size()]);
              q /= dom.size();
            }
            for (int op = 0; op < 3; ++op) {
              MC_CASE_S(x, mc::fmt("%s of %s %s", op == 0 ? "sum" : op == 1 ? "min" : "max", t.n, v.str().c_str()));
              nd::array a = build(ty(mc::fmt("%d * %s", (int)n, t.n)), v);
              V got;
              S e = run([&] { return read((op == 0 ? nd::sum : op == 1 ? nd::min : nd::max)(a)); }, got);
              x.trans(n);
              x.outcome(e.empty() ? "value" : "error");
              if (!e.empty()) {
                x.fail("unexpected error", e);
                continue;
              }
              V want;
              if (op == 0) {
                if (t.fl) {
                  double s = 0;
                  float sf = 0;
                  for (auto &k : v.k) {
                    s += k.d;
                    sf += (float)k.d;
                  }
                  want = V::Real(t.bits == 32 ? sf : s);
                } else {
                  uint64_t s = 0;
                  for (auto &k : v.k)
                    s += (uint64_t)k.i;
                  if (t.bits < 64)
                    s &= (1ULL << t.bits) - 1;
                  int64_t r = (int64_t)s;
                  if (t.sg && t.bits < 64 && (s >> (t.bits - 1)))
                    r -= 1LL << t.bits;
                  want = V::Int(r);
                }
              } else {
                want = v.k[0];
                for (auto &k : v.k)
                  if (op == 1 ? lt(k, want) : lt(want, k))
                    want = k;
              }
              bool ok = got == want || (want.kind == V::REAL && got.kind == V::REAL && (got.d == want.d || (got.d != got.d && want.d != want.d)));
              x.check(ok, "wrong value", got.str() + " instead of " + want.str());
            }
          }
        }
      }
      // empty: the identity of the operation
      if (x.unit())
        for (int once = 0; once < 1; ++once) {
          MC_CASE_S(x, S("sum of empty ") + t.n);
          V got;
          S e = run([&] { return read(nd::sum(nd::empty(ty(S("0 * ") + t.n)))); }, got);
          x.check(e.empty() && (t.fl ? got.kind == V::REAL && got.d == 0 : got.kind == V::INT && got.i == 0), "sum of nothing is not zero", e + got.str());
        }
    }
    for (int n = 0; n <= 6; ++n) {
      if (!x.unit())
        continue;
      for (int c = 0; c < (1 << n); ++c) {
        MC_CASE_S(x, mc::fmt("all of %d bools %x", n, c));
        V v = V::List();
        for (int i = 0; i < n; ++i)
          v.k.push_back(V::Bool(c >> i & 1));
        V got;
        S e = run([&] { return read(nd::all(build(ty(mc::fmt("%d * bool", n)), v))); }, got);
        x.check(e.empty() && got == V::Bool(c == (1 << n) - 1), "wrong value", e + got.str());
      }
    }
    // all_equal over every pair of short lists and several type pairs
    const char *tp[] = {"int8", "uint8", "int32", "int64", "float64", "uint64"};
    for (const char *t1 : tp)
      for (const char *t2 : tp) {
        if (!x.unit())
          continue;
        for (int n1 = 0; n1 <= 3; ++n1)
          for (int n2 = 0; n2 <= 3; ++n2)
            for (int c1 = 0; c1 < (1 << n1); ++c1)
              for (int c2 = 0; c2 < (1 << n2); ++c2) {
                MC_CASE_S(x, mc::fmt("all_equal %d %s %x, %d %s %x", n1, t1, c1, n2, t2, c2));
                V v1 = V::List(), v2 = V::List();
                for (int i = 0; i < n1; ++i)
                  v1.k.push_back(t1[0] == 'f' ? V::Real(c1 >> i & 1 ? 5 : 9) : V::Int(c1 >> i & 1 ? 5 : 9));
                for (int i = 0; i < n2; ++i)
                  v2.k.push_back(t2[0] == 'f' ? V::Real(c2 >> i & 1 ? 5 : 9) : V::Int(c2 >> i & 1 ? 5 : 9));
                nd::array a = build(ty(mc::fmt("%d * %s", n1, t1)), v1), b = build(ty(mc::fmt("%d * %s", n2, t2)), v2);
                V got;
                S e = run([&] { return read(nd::all_equal(a, b)); }, got);
                x.outcome(e.empty() ? "value" : "error");
                if (n1 == n2)
                  x.check(e.empty() && got == V::Bool(c1 == c2), "wrong value", e + got.str());
                else if (e.empty() && n1 != 1 && n2 != 1)
                  x.check(got == V::Bool(false), "arrays of different sizes compare equal", got.str());
              }
      }
  }
}
MC_MAIN(body)
