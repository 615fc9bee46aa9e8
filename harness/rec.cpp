// Structs and tuples: every record type up to three fields over a palette of field types, assigned to every permutation
// and widening of itself, compared with every combination of equal and different fields, and accessed field by field, as
// single values and inside arrays, views and other records.
#include "model.hpp"
#include <dynd/assignment.hpp>
#include <dynd/comparison.hpp>
#include <algorithm>
using namespace dynd;
using mv::S;
using mv::V;

enum { I32, F64, STR, OPT, DIM2, TUP, STC, VARD, NF };
static const char *FT[] = {"int32", "float64", "string", "?int32", "2 * int32", "(int32, string)", "{p: int8, q: float64}", "var * int16"};
// what a field of that type can be assigned to; the struct's fields are exchanged
static const char *FW[] = {"float64", "float64", "string", "?int32", "2 * int64", "(int64, string)", "{q: float64, p: int32}", "var * int64"};
// what a field of that type can be compared with
static const char *FC[] = {"float64", "int64", "string", "", "", "(int64, string)", "{p: int16, q: float64}", ""};
static const char *NAME[] = {"a", "b", "c"};

static S str(int n) { return n % 2 ? mc::fmt("s%d", n) : mc::fmt("a string too long for its place %d", n); }
static V value(int t, int n) {
  V l = V::List();
  switch (t) {
  case I32: return V::Int(1000 + n);
  case F64: return V::Real(n);
  case STR: return V::Str(str(n));
  case OPT: return n % 2 ? V::NA() : V::Int(2000 + n);
  case DIM2: l.k = {V::Int(n), V::Int(-n)}; return l;
  case TUP: l.k = {V::Int(3000 + n), V::Str(str(n + 1))}; return l;
  case STC: l.k = {V::Int(n), V::Real(n + .5)}; return l;
  default:
    for (int i = 0; i <= n % 3; ++i)
      l.k.push_back(V::Int(n + i));
    return l;
  }
}
static V widened(int t, V v) {
  if (t == I32)
    return V::Real(double(v.i));
  if (t == STC)
    std::swap(v.k[0], v.k[1]);
  return v;
}
static V compared(int t, V v) { return t == I32 ? V::Real(double(v.i)) : t == F64 ? V::Int(int64_t(v.d)) : v; }

static S rectype(const std::vector<S> &types, const std::vector<S> &names) {
  S r;
  for (size_t i = 0; i < types.size(); ++i)
    r += S(i ? ", " : "") + (names.empty() ? "" : names[i] + ": ") + types[i];
  return names.empty() ? "(" + r + ")" : "{" + r + "}";
}

template <typename F>
static bool throws(F f, S &what) {
  try {
    f();
  } catch (std::exception &e) {
    what = e.what();
    return true;
  } catch (dynd::dynd_exception &e) {
    what = e.what();
    return true;
  }
  return false;
}

// the ways records occur: alone, in arrays, in views, in other records
enum { ALONE, ARRAY, BROADCAST, REVERSED, INSIDE, RAGGED, NCTX };
static const char *CTX[] = {"alone", "in an array", "one to many", "in a reversed view", "inside another tuple", "into a ragged array"};

static V many(const V &a, const V &b, const V &c) {
  V l = V::List();
  l.k = {a, b, c};
  return l;
}
static V pairv(const V &a, const V &b) {
  V l = V::List();
  l.k = {a, b};
  return l;
}
// src(i), dst(i): the value of the i-th record and what it becomes
template <typename FS, typename FD>
static void assign_case(mc::X &x, const S &st, const S &dt, int ctx, FS src, FD dst) {
  nd::array a, b;
  V expect;
  switch (ctx) {
  case ALONE:
    a = mv::build(ndt::type(st), src(0));
    b = nd::empty(ndt::type(dt));
    expect = dst(0);
    break;
  case ARRAY:
  case REVERSED:
  case RAGGED:
    a = mv::build(ndt::type("3 * " + st), many(src(0), src(1), src(2)));
    b = nd::empty(ndt::type((ctx == RAGGED ? "var * " : "3 * ") + dt));
    expect = many(dst(0), dst(1), dst(2));
    if (ctx == REVERSED) {
      a = a(irange().by(-1));
      expect = many(dst(2), dst(1), dst(0));
    }
    break;
  case BROADCAST:
    a = mv::build(ndt::type(st), src(0));
    b = nd::empty(ndt::type("3 * " + dt));
    expect = many(dst(0), dst(0), dst(0));
    break;
  case INSIDE:
    a = mv::build(ndt::type("(int8, " + st + ")"), pairv(V::Int(7), src(0)));
    b = nd::empty(ndt::type("(int8, " + dt + ")"));
    expect = pairv(V::Int(7), dst(0));
    break;
  }
  V before = mv::read(a);
  S err;
  x.trans(1);
  if (throws([&] { b.assign(a); }, err)) {
    x.fail("refused", err);
    return;
  }
  V got = mv::read(b);
  x.outcome(CTX[ctx]);
  x.check(got == expect, "fields", "is " + got.str() + ", expected " + expect.str());
  x.check(mv::read(a) == before, "source", "the source changed");
}

template <typename F>
static void type_lists(int n, int base, F f) {
  std::vector<int> v(n, 0);
  for (;;) {
    f(v);
    int i = n - 1;
    while (i >= 0 && ++v[i] == base)
      v[i--] = 0;
    if (i < 0)
      return;
  }
}

static void assignments(mc::X &x) {
  for (int n = 0; n <= 3; ++n)
    type_lists(n, NF, [&](const std::vector<int> &t) {
      if (!x.unit())
        return;
      std::vector<S> st, names;
      for (int i = 0; i < n; ++i) {
        st.push_back(FT[t[i]]);
        names.push_back(NAME[i]);
      }
      auto src = [&](int k) {
        V l = V::List();
        for (int i = 0; i < n; ++i)
          l.k.push_back(value(t[i], k * 3 + i));
        return l;
      };
      for (int mask = 0; mask < 1 << n; ++mask) {
        bool same = false;
        for (int i = 0; i < n; ++i)
          if ((mask >> i & 1) && S(FT[t[i]]) == FW[t[i]])
            same = true;
        if (same)
          continue;
        std::vector<int> perm;
        for (int i = 0; i < n; ++i)
          perm.push_back(i);
        bool first = true;
        do {
          std::vector<S> dt, dn;
          for (int i : perm) {
            dt.push_back(mask >> i & 1 ? FW[t[i]] : FT[t[i]]);
            dn.push_back(NAME[i]);
          }
          auto dst = [&](int k) {
            V s = src(k), l = V::List();
            for (int i : perm)
              l.k.push_back(mask >> i & 1 ? widened(t[i], s.k[i]) : s.k[i]);
            return l;
          };
          for (int ctx = 0; ctx < NCTX; ++ctx)
            for (int tuple = 0; tuple < (first ? 2 : 1); ++tuple) {
              if (n == 0 && !tuple)
                continue;
              S s = rectype(st, tuple ? std::vector<S>() : names), d = rectype(dt, tuple ? std::vector<S>() : dn);
              MC_CASE_S(x, s + " to " + d + ", " + CTX[ctx]);
              x.state(s + d);
              assign_case(x, s, d, ctx, src, dst);
            }
          first = false;
        } while (std::next_permutation(perm.begin(), perm.end()));
      }
      // what does not fit is refused and changes nothing
      for (int wrong = 0; wrong < 4; ++wrong)
        for (int tuple = 0; tuple < 2; ++tuple)
          do {
            if ((wrong == 2 && tuple) || ((wrong == 0 || wrong == 2) && n == 0))
              break;
            std::vector<S> dt = st, dn = names;
            V l = src(1);
            if (wrong == 0) {
              dt.pop_back();
              dn.pop_back();
              l.k.pop_back();
            } else if (wrong == 1) {
              dt.push_back("int32");
              dn.push_back("z");
              l.k.push_back(V::Int(5));
            } else if (wrong == 2) {
              dn[n - 1] = "z";
            } else if (n > 0) {
              dt[0] = "(int32, int32, int32)";
              l.k[0] = many(V::Int(1), V::Int(2), V::Int(3));
            } else
              break;
            if (dn.empty() && !tuple)
              break;
            S s = rectype(st, tuple ? std::vector<S>() : names), d = rectype(dt, tuple ? std::vector<S>() : dn);
            MC_CASE_S(x, s + " to " + d + " does not fit");
            nd::array a = mv::build(ndt::type(s), src(0)), b = mv::build(ndt::type(d), l);
            S err;
            x.trans(1);
            x.check(throws([&] { b.assign(a); }, err), "accepted", "became " + mv::read(b).str());
            x.check(mv::read(b) == l, "touched", "a refused assignment changed the destination to " + mv::read(b).str());
            x.outcome("refused");
          } while (0);
    });
}

static void comparisons(mc::X &x) {
  static const int P[] = {I32, F64, STR, TUP, STC};
  for (int n = 0; n <= 3; ++n)
    type_lists(n, 5, [&](const std::vector<int> &ti) {
      if (!x.unit())
        return;
      std::vector<int> t;
      std::vector<S> st, names;
      for (int i = 0; i < n; ++i) {
        t.push_back(P[ti[i]]);
        st.push_back(FT[t[i]]);
        names.push_back(NAME[i]);
      }
      for (int wide = 0; wide < 1 << n; ++wide) {
        std::vector<S> dt = st;
        bool same = false;
        for (int i = 0; i < n; ++i)
          if (wide >> i & 1) {
            dt[i] = FC[t[i]];
            same = same || dt[i] == st[i];
          }
        if (same)
          continue;
        for (int tuple = 0; tuple < 2; ++tuple)
          for (int swap = 0; swap < 2; ++swap)
            for (int ctx = 0; ctx < 4; ++ctx)
              for (int diff = 0; diff < 1 << n; ++diff) {
                if (n == 0 && !tuple)
                  continue;
                S s = rectype(st, tuple ? std::vector<S>() : names), d = rectype(dt, tuple ? std::vector<S>() : names);
                MC_CASE_S(x, s + " compared with " + d + mc::fmt(", different fields %d, swapped %d, ", diff, swap) + CTX[ctx]);
                // record k: equal but for the fields in diff; in arrays, record 1 is equal everywhere
                auto va = [&](int k) {
                  V l = V::List();
                  for (int i = 0; i < n; ++i)
                    l.k.push_back(value(t[i], k * 3 + i));
                  return l;
                };
                auto vb = [&](int k) {
                  V l = V::List();
                  for (int i = 0; i < n; ++i) {
                    V v = value(t[i], k * 3 + i + ((diff >> i & 1) && k != 1 ? 40 : 0));
                    if (t[i] >= TUP && (diff >> i & 1) && k == 0) { // only the last part differs
                      v = value(t[i], i);
                      v.k[1] = value(t[i], i + 20).k[1];
                    }
                    l.k.push_back(wide >> i & 1 ? compared(t[i], v) : v);
                  }
                  return l;
                };
                nd::array a, b;
                V eq;
                switch (ctx) {
                case ALONE:
                  a = mv::build(ndt::type(s), va(0));
                  b = mv::build(ndt::type(d), vb(0));
                  eq = V::Bool(diff == 0);
                  break;
                case ARRAY:
                case REVERSED:
                  a = mv::build(ndt::type("3 * " + s), many(va(0), va(1), va(2)));
                  b = ctx == ARRAY ? mv::build(ndt::type("3 * " + d), many(vb(0), vb(1), vb(2)))
                                   : mv::build(ndt::type("3 * " + d), many(vb(2), vb(1), vb(0)))(irange().by(-1));
                  eq = many(V::Bool(diff == 0), V::Bool(true), V::Bool(diff == 0));
                  break;
                case BROADCAST:
                  a = mv::build(ndt::type(s), va(1));
                  b = mv::build(ndt::type("3 * " + d), many(vb(0), vb(1), vb(2)));
                  eq = many(V::Bool(n == 0), V::Bool(true), V::Bool(n == 0));
                  break;
                }
                if (swap)
                  std::swap(a, b);
                V ne = eq;
                ne.i = !ne.i;
                for (V &v : ne.k)
                  v.i = !v.i;
                if (ne.kind == V::LIST)
                  ne.i = 0;
                S err;
                nd::array r, q;
                x.trans(2);
                if (throws([&] { r = nd::equal(a, b); q = nd::not_equal(a, b); }, err)) {
                  x.fail("refused", err);
                  continue;
                }
                x.outcome(diff ? "different" : "equal");
                x.check(mv::read(r) == eq, "equal", "== gives " + mv::read(r).str() + ", expected " + eq.str() + " for " + mv::read(a).str() + " and " + mv::read(b).str());
                x.check(mv::read(q) == ne, "not equal", "!= gives " + mv::read(q).str() + ", expected " + ne.str());
              }
      }
      // different numbers of fields are not comparable
      for (int tuple = 0; tuple < 2; ++tuple)
        for (int swap = 0; swap < 2; ++swap)
          do {
            if (n == 0)
              break;
            std::vector<S> dt(st.begin(), st.end() - 1), dn(names.begin(), names.end() - 1);
            if (dn.empty() && !tuple)
              break;
            S s = rectype(st, tuple ? std::vector<S>() : names), d = rectype(dt, tuple ? std::vector<S>() : dn);
            MC_CASE_S(x, s + " compared with " + d + mc::fmt(", swapped %d", swap));
            V l = V::List();
            for (int i = 0; i < n; ++i)
              l.k.push_back(value(t[i], i));
            nd::array a = mv::build(ndt::type(s), l);
            l.k.pop_back();
            nd::array b = mv::build(ndt::type(d), l);
            if (swap)
              std::swap(a, b);
            S err;
            nd::array r;
            x.trans(2);
            x.check(throws([&] { r = nd::equal(a, b); }, err), "compared", "records with different numbers of fields compare");
            x.check(throws([&] { r = nd::not_equal(a, b); }, err), "compared", "records with different numbers of fields compare");
            x.outcome("refused");
          } while (0);
    });
}

static void access(mc::X &x) {
  for (int n = 1; n <= 3; ++n)
    type_lists(n, NF, [&](const std::vector<int> &t) {
      if (!x.unit())
        return;
      std::vector<S> st, names;
      for (int i = 0; i < n; ++i) {
        st.push_back(FT[t[i]]);
        names.push_back(NAME[i]);
      }
      auto rec = [&](int k) {
        V l = V::List();
        for (int i = 0; i < n; ++i)
          l.k.push_back(value(t[i], k * 3 + i));
        return l;
      };
      S s = rectype(st, names), tup = rectype(st, {});
      for (int f = 0; f <= n; ++f)
        for (int ctx = 0; ctx < 4; ++ctx) { // alone, in an array, in a reversed view, a field of a record
          MC_CASE_S(x, s + mc::fmt(" field %d, ", f) + (ctx == 0 ? "alone" : ctx == 1 ? "in an array" : ctx == 2 ? "in a reversed view" : "inside another struct"));
          nd::array a, r;
          V whole;
          S prefix;
          if (ctx == 0) {
            a = r = mv::build(ndt::type(s), whole = rec(0));
          } else if (ctx < 3) {
            a = r = mv::build(ndt::type("3 * " + s), whole = many(rec(0), rec(1), rec(2)));
            if (ctx == 2)
              r = a(irange().by(-1));
            prefix = "3 * ";
          } else {
            whole = V::List();
            whole.k = {V::Int(1), rec(0), V::Str(str(2))};
            a = mv::build(ndt::type("{x: int8, a: " + s + ", c: string}"), whole);
            r = a.p(std::string("a"));
          }
          nd::array v;
          S err;
          x.trans(1);
          bool threw = throws([&] { v = r.p(std::string(f < n ? NAME[f] : "nosuch")); }, err);
          if (f == n) {
            x.check(threw, "accepted", "there is no such field");
            x.outcome("no such field");
            continue;
          }
          if (threw) {
            x.fail("refused", err);
            continue;
          }
          x.outcome("accessed");
          V e = ctx == 0 || ctx == 3 ? rec(0).k[f] : ctx == 1 ? many(rec(0).k[f], rec(1).k[f], rec(2).k[f]) : many(rec(2).k[f], rec(1).k[f], rec(0).k[f]);
          x.check(mv::tstr(v.get_type()) == mv::tstr(ndt::type(prefix + FT[t[f]])), "type", "the field has type " + mv::tstr(v.get_type()));
          x.check(mv::read(v) == e, "value", "is " + mv::read(v).str() + ", expected " + e.str());
          x.check(mv::read(a) == whole, "touched", "access changed the record");
          // writing the field changes that field alone
          nd::array w = mv::build(ndt::type(FT[t[f]]), value(t[f], 30));
          x.trans(1);
          if (throws([&] { v.assign(w); }, err)) {
            if (t[f] != VARD) // a ragged dimension that has its size takes only that size
              x.fail("write refused", err);
            continue;
          }
          auto set = [&](V &q) { q.k[f] = value(t[f], 30); };
          if (t[f] == VARD)
            continue;
          if (ctx == 0)
            set(whole);
          else if (ctx < 3)
            for (V &q : whole.k)
              set(q);
          else
            set(whole.k[1]);
          V got = mv::read(a);
          x.check(got == whole, "write", "is " + got.str() + ", expected " + whole.str());
        }
      // by position, alone and in an array
      for (int f = -n - 1; f <= n; ++f)
        for (int ctx = 0; ctx < 4; ++ctx) {
          bool arr = ctx & 1;
          S ty = ctx & 2 ? s : tup;
          MC_CASE_S(x, ty + mc::fmt(" position %d", f) + (arr ? " in an array" : ""));
          nd::array a = arr ? mv::build(ndt::type("3 * " + ty), many(rec(0), rec(1), rec(2))) : mv::build(ndt::type(ty), rec(0));
          nd::array v;
          S err;
          x.trans(1);
          bool threw = throws([&] { v = arr ? a(1, f) : a(f); }, err);
          if (f < -n || f >= n) {
            x.check(threw, "accepted", "there is no such field");
            continue;
          }
          if (threw) {
            x.fail("refused", err);
            continue;
          }
          V e = rec(arr ? 1 : 0).k[f < 0 ? f + n : f];
          x.check(mv::read(v) == e, "value", "is " + mv::read(v).str() + ", expected " + e.str());
        }
    });
}

static void wide(mc::X &x) {
  for (int n = 1; n <= (x.thorough() ? 40 : 24); ++n)
    for (int pat = 0; pat < 3; ++pat) {
      if (!x.unit())
        continue;
      std::vector<S> st, names, rt, rn;
      V l = V::List(), r = V::List();
      for (int i = 0; i < n; ++i) {
        int t = pat == 0 ? I32 : pat == 1 ? STR : i % NF;
        st.push_back(FT[t]);
        names.push_back(mc::fmt("f%d", i));
        l.k.push_back(value(t, i));
      }
      rt.assign(st.rbegin(), st.rend());
      rn.assign(names.rbegin(), names.rend());
      r.k.assign(l.k.rbegin(), l.k.rend());
      for (int what = 0; what < 4; ++what) {
        MC_CASE_S(x, mc::fmt("%d fields, pattern %d, ", n, pat) + (what == 0 ? "struct to its reversal" : what == 1 ? "tuple to itself" : what == 2 ? "tuples compared" : "structs compared"));
        S err;
        x.trans(1);
        x.outcome("many fields");
        if (what < 2) {
          nd::array a = mv::build(ndt::type(rectype(st, what ? std::vector<S>() : names)), l), b = nd::empty(ndt::type(what ? rectype(st, {}) : rectype(rt, rn)));
          if (throws([&] { b.assign(a); }, err)) {
            x.fail("refused", err);
            continue;
          }
          V e = what ? l : r;
          x.check(mv::read(b) == e, "fields", "is " + mv::read(b).str() + ", expected " + e.str());
        } else {
          if (pat == 2)
            continue;
          ndt::type t(rectype(st, what == 2 ? std::vector<S>() : names));
          nd::array a = mv::build(t, l);
          for (int d = -1; d < n; ++d) {
            V m = l;
            if (d >= 0)
              m.k[d] = value(pat == 0 ? I32 : STR, 100);
            nd::array b = mv::build(t, m), q, p;
            if (throws([&] { q = nd::equal(a, b); p = nd::not_equal(a, b); }, err)) {
              x.fail("refused", err);
              break;
            }
            x.check(mv::read(q) == V::Bool(d < 0) && mv::read(p) == V::Bool(d >= 0), "compare", mc::fmt("with field %d different: == %s, != %s", d, mv::read(q).str().c_str(), mv::read(p).str().c_str()));
          }
        }
      }
    }
}

static void body(mc::X &x) {
  x.section("assignment");
  assignments(x);
  x.section("comparison");
  comparisons(x);
  x.section("access");
  access(x);
  x.section("many fields");
  wide(x);
}
MC_MAIN(body)
