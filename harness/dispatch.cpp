// Overload selection: every small set of overload signatures in every order of registration, against the sets of
// argument types each signature accepts according to the specification in tspec.hpp; and topological sorting of every
// small graph.
#include "tspec.hpp"
#include <dynd/callables/base_callable.hpp>
#include <dynd/callables/multidispatch_callable.hpp>
#include <dynd/dispatcher.hpp>
#include <algorithm>

struct tagged : nd::base_callable {
  tagged(const ndt::type &tp) : base_callable(tp) {}
  ndt::type resolve(base_callable *, char *, nd::call_graph &, const ndt::type &, size_t, const ndt::type *, size_t, const nd::array *,
                    const std::map<std::string, ndt::type> &) {
    throw std::runtime_error("not meant to be called");
  }
};
static std::vector<ndt::type> args_only(const ndt::type &, size_t n, const ndt::type *a) { return std::vector<ndt::type>(a, a + n); }

typedef std::vector<P> Sig; // one pattern per argument
typedef std::vector<P> Universe;
// bit i: the pattern accepts universe[i]
static uint64_t extension(const P &p, const Universe &u) {
  uint64_t r = 0;
  for (size_t i = 0; i < u.size(); ++i) {
    Env e;
    if (match(p, u[i], e))
      r |= uint64_t(1) << i;
  }
  return r;
}
static S sigtext(const Sig &s) {
  S r;
  for (auto &p : s)
    r += (r.empty() ? "" : ", ") + text(p);
  return "(" + r + ")";
}
struct Pool {
  Universe u;
  std::vector<Sig> sigs;
  std::vector<std::vector<uint64_t>> ext;
  std::vector<nd::callable> f;
  std::vector<std::vector<ndt::type>> calls; // all tuples of universe types
  std::vector<std::vector<int>> callidx;
  int n;
  Pool(int n, const std::vector<P> &pats, Universe u) : u(u), n(n) {
    std::vector<Sig> all = {{}};
    std::vector<std::vector<int>> c = {{}};
    for (int k = 0; k < n; ++k) {
      std::vector<Sig> next;
      for (auto &s : all)
        for (auto &p : pats) {
          Sig t = s;
          t.push_back(p);
          next.push_back(t);
        }
      all = next;
      std::vector<std::vector<int>> nc;
      for (auto &s : c)
        for (int i = 0; i < (int)u.size(); ++i) {
          auto t = s;
          t.push_back(i);
          nc.push_back(t);
        }
      c = nc;
    }
    sigs = all;
    callidx = c;
    for (auto &s : sigs) {
      std::vector<uint64_t> e;
      for (auto &p : s)
        e.push_back(extension(p, u));
      ext.push_back(e);
      f.push_back(nd::make_callable<tagged>(ndt::type(sigtext(s) + " -> void")));
    }
    for (auto &i : callidx) {
      std::vector<ndt::type> t;
      for (int k : i)
        t.push_back(ty(u[k]));
      calls.push_back(t);
    }
  }
  bool accepts(int s, int call) const {
    for (int k = 0; k < n; ++k)
      if (!(ext[s][k] >> callidx[call][k] & 1))
        return false;
    return true;
  }
  bool below(int s, int t) const { // s is at least as specific as t
    for (int k = 0; k < n; ++k)
      if (ext[s][k] & ~ext[t][k])
        return false;
    return true;
  }
  bool comparable(int s, int t) const { // in every argument on its own
    for (int k = 0; k < n; ++k)
      if ((ext[s][k] & ~ext[t][k]) && (ext[t][k] & ~ext[s][k]))
        return false;
    return true;
  }
  // the set has a pair that nothing decides between
  bool rejected(const std::vector<int> &set) const {
    for (int s : set)
      for (int t : set)
        if (s < t && comparable(s, t) && !below(s, t) && !below(t, s)) {
          bool ok = false;
          for (int k : set)
            ok = ok || (below(k, s) && below(k, t));
          if (!ok)
            return true;
        }
    return false;
  }
  // the overload due: index, -1 none matches, -2 no claim
  int due(const std::vector<int> &set, int call) const {
    std::vector<int> m;
    for (int s : set)
      if (accepts(s, call))
        m.push_back(s);
    if (m.empty())
      return -1;
    for (int s : m) {
      bool best = true;
      for (int t : m)
        best = best && (s == t || (below(s, t) && !below(t, s)));
      if (best)
        return s;
    }
    return -2;
  }
  S show(const std::vector<int> &set) const {
    S r;
    for (int s : set)
      r += (r.empty() ? "" : " ") + sigtext(sigs[s]);
    return r;
  }
};

template <int N>
static void lookups(mc::X &x, const Pool &pool, dispatcher<N, nd::callable> &d, const std::vector<int> &set, const S &how) {
  static const ndt::type dst("void");
  for (size_t c = 0; c < pool.calls.size(); ++c) {
    int w = pool.due(set, c);
    x.trans();
    if (w == -2)
      continue;
    S o = how + ", call with ";
    for (auto &t : pool.calls[c])
      o += tstr(t) + " ";
    try {
      const nd::callable &g = d(dst, N, pool.calls[c].data());
      if (w == -1)
        x.fail("found", o + "found an overload, none accepts");
      else if (g.get() != pool.f[w].get()) {
        S got = "something else";
        for (int s : set)
          if (g.get() == pool.f[s].get())
            got = sigtext(pool.sigs[s]);
        x.fail("choice", o + "chose " + got + ", more specific is " + sigtext(pool.sigs[w]));
      }
    } catch (const std::out_of_range &e) {
      x.check(w == -1, "not found", o + "not found, " + (w >= 0 ? sigtext(pool.sigs[w]) : S()) + " accepts");
    }
  }
}
template <int N>
static void sets(mc::X &x, const Pool &pool, int maxsize) {
  int n = pool.sigs.size();
  std::vector<int> set;
  std::function<void(int)> rec = [&](int first) {
    if (!set.empty())
      do {
        if (!x.unit())
          break;
        MC_CASE(x, "overloads %s", pool.show(set).c_str());
        std::vector<int> order = set;
        bool rej = pool.rejected(set);
        x.outcome(rej ? "ambiguous" : "accepted");
        do {
          S o = "registered in the order " + pool.show(order);
          std::vector<nd::callable> fs;
          for (int s : order)
            fs.push_back(pool.f[s]);
          try {
            dispatcher<N, nd::callable> d(&args_only, fs.begin(), fs.end());
            x.check(!rej, "ambiguous accepted", o);
            x.check((size_t)(d.end() - d.begin()) == set.size(), "size", o);
            if (!rej)
              lookups<N>(x, pool, d, set, o);
            // the same through a callable, and a copy of the dispatcher
            if (!rej) {
              nd::callable front = nd::make_callable<nd::multidispatch_callable<N>>(ndt::type(N == 1 ? "(Any) -> Any" : "(Any, Any) -> Any"), d);
              for (size_t c = 0; c < pool.calls.size(); c += 3) {
                int w = pool.due(set, c);
                if (w >= 0)
                  x.check(front.specialize(ndt::type("void"), N, pool.calls[c].data()).get() == pool.f[w].get(), "specialize", o);
              }
            }
          } catch (const std::out_of_range &e) {
            x.check(false, "out of range", o + ": " + e.what());
          } catch (const std::runtime_error &e) {
            x.check(rej && strstr(e.what(), "ambiguous"), "rejected", o + ": " + e.what());
          }
          // one at a time; a rejected overload leaves the others as they were
          dispatcher<N, nd::callable> d(&args_only);
          std::vector<int> have;
          for (size_t k = 0; k < order.size(); ++k) {
            std::vector<int> next = have;
            next.push_back(order[k]);
            S o1 = o + mc::fmt(", up to number %zu one at a time", k);
            bool r1 = pool.rejected(next), refused = false;
            try {
              d.insert(pool.f[order[k]]);
              x.check(!r1, "ambiguous inserted", o1);
              have = next;
              if (r1)
                break;
            } catch (const std::runtime_error &e) {
              x.check(r1, "insert rejected", o1 + ": " + e.what());
              o1 += ", refused";
              refused = true;
            }
            x.check((size_t)(d.end() - d.begin()) == have.size(), "size after insert", o1);
            bool nulls = false;
            for (auto &g : d)
              nulls = nulls || g.is_null();
            x.check(!nulls, "null overload", o1);
            if (nulls)
              break;
            if (refused || k + 1 == order.size())
              lookups<N>(x, pool, d, have, o1);
          }
        } while (std::next_permutation(order.begin(), order.end()));
        x.state(mc::h64(pool.show(set)));
      } while (0);
    if ((int)set.size() == maxsize)
      return;
    for (int s = first; s < n; ++s) {
      set.push_back(s);
      rec(s + 1);
      set.pop_back();
    }
  };
  rec(0);
}
static void graphs(mc::X &x, int n) {
  for (uint32_t g = 0; g < (1u << n * (n - 1)); ++g) {
    if (!x.unit())
      continue;
    MC_CASE(x, "graph of %d vertices number %u", n, g);
    std::vector<std::vector<size_t>> edges(n);
    uint32_t bit = 0;
    for (int i = 0; i < n; ++i)
      for (int j = 0; j < n; ++j)
        if (i != j && (g >> bit++ & 1))
          edges[i].push_back(j);
    // acyclic: repeatedly remove a vertex without a successor
    std::vector<bool> gone(n);
    int left = n;
    for (bool more = true; more;) {
      more = false;
      for (int i = 0; i < n; ++i)
        if (!gone[i] && std::all_of(edges[i].begin(), edges[i].end(), [&](size_t j) { return gone[j]; })) {
          gone[i] = true;
          --left;
          more = true;
        }
    }
    std::vector<int> v(n), res(n, -1);
    for (int i = 0; i < n; ++i)
      v[i] = 10 + i;
    x.trans();
    bool threw = false;
    try {
      topological_sort(v.begin(), v.end(), edges, res.begin());
    } catch (const std::runtime_error &e) {
      threw = true;
    }
    x.check(threw == (left > 0), "cycle", left ? "a cycle was not reported" : "an error for a graph without cycles");
    if (threw || left)
      continue;
    std::vector<int> pos(n, -1);
    for (int i = 0; i < n; ++i)
      if (res[i] >= 10 && res[i] < 10 + n)
        pos[res[i] - 10] = i;
    for (int i = 0; i < n; ++i) {
      x.check(pos[i] >= 0, "vertex lost", mc::fmt("vertex %d is not in the result", i));
      for (size_t j : edges[i])
        x.check(pos[i] < pos[j], "order", mc::fmt("%d is not before %zu", i, j));
    }
  }
}
static void body(mc::X &x) {
  bool th = x.thorough();
  P any = mk(ANY), sc = mk(KIND, "Scalar"), in = mk(KIND, "Int"), i32 = mk(SC, "int32"), i64 = mk(SC, "int64"), fl = mk(KIND, "Float"), f64 = mk(SC, "float64");
  auto K1 = [](const char *s) { return mk(KIND, s); };
  auto S1 = [](const char *s) { return mk(SC, s); };
  auto D = [](K k, P e, int n = 0) { return mk(k, "", {e}, n); };
  Universe u = {i32, i64, S1("int8"), f64, S1("float32"), S1("uint16"), S1("bool"), S1("string"), S1("fixed_string[4]"), S1("fixed_string[7]"), S1("bytes"), S1("fixed_bytes[4]"),
                S1("complex[float64]"), D(OPT, i32), D(OPT, i64), D(OPT, f64), D(FIX, i32, 2), D(FIX, f64, 2), D(FIX, f64, 3), D(FIX, i32, 3), D(VAR, i32), D(VAR, f64), D(FIX, D(FIX, i32, 2), 2),
                D(FIX, D(VAR, f64), 3), D(VAR, D(FIX, i32, 2)), mk(TUP, "", {}), mk(TUP, "", {i32}), mk(TUP, "", {i32, f64}), mk(TUP, "", {f64, i32}), mk(STRU, "", {i32}, 0, false, {"x"}),
                mk(STRU, "", {i32, f64}, 0, false, {"x", "y"})};
  std::vector<P> pats = {any, sc, in, fl, i32, i64, K1("String"), K1("FixedString"), S1("string"), S1("fixed_string[4]"), K1("Bytes"), K1("FixedBytes"), D(OPT, sc), D(OPT, in), D(OPT, i32),
                         D(FIXK, sc), D(FIXK, i32), D(DIMK, sc), D(DIMK, any), D(VAR, sc), D(FIX, sc, 2), D(FIX, f64, 3), D(FIXK, in), D(FIXK, D(DIMK, sc)),
                         mk(TUP, "", {}, 0, true), mk(TUP, "", {in}, 0, true), mk(TUP, "", {i32, any}), mk(STRU, "", {}, 0, true), mk(STRU, "", {any}, 0, false, {"x"})};
  Pool one(1, pats, u);
  std::vector<P> pats2 = {any, sc, in, i32, f64, D(DIMK, any)};
  if (th)
    pats2.push_back(fl);
  Pool two(2, pats2, {i32, i64, f64, S1("float32"), S1("string"), D(VAR, i32)});
  std::vector<P> pats3 = {any, sc, in, i32};
  Pool small(2, pats3, {i32, i64, f64, D(VAR, i32)});
  x.section("one argument");
  sets<1>(x, one, th ? 4 : 3);
  x.section("ellipses");
  for (P p : {any, sc, D(DIMK, any)}) {
    Pool e(1, {p, mk(ELL, "", {in})}, u);
    sets<1>(x, e, 2);
  }
  x.section("two arguments");
  sets<2>(x, two, 3);
  x.section("two arguments, larger sets");
  sets<2>(x, small, th ? 5 : 4);
  x.section("graphs");
  for (int n = 1; n <= (th ? 5 : 4); ++n)
    graphs(x, n);
}
MC_MAIN(body)
