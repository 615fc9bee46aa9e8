// Matching of pattern types against concrete types, and substitution of the type variables it binds, against an
// independent recursive specification over small syntax trees.
#include "tspec.hpp"
// ---------------------------------------------------------------------------------------------------------------------
static std::vector<P> concrete_scalars(int level) {
  P i32 = mk(SC, "int32"), f64 = mk(SC, "float64");
  std::vector<P> r = {i32, f64, mk(SC, "string"), mk(OPT, "", {i32})};
  if (level)
    for (const char *s : {"bool", "int64", "uint8", "complex[float64]", "bytes", "fixed_string[4]", "fixed_bytes[4]"})
      r.push_back(mk(SC, s));
  r.push_back(mk(TUP, "", {i32, f64}));
  r.push_back(mk(STRU, "", {i32}, 0, false, {"x"}));
  if (level) {
    r.push_back(mk(OPT, "", {f64}));
    r.push_back(mk(PTR, "", {i32}));
    r.push_back(mk(TUP, "", {}));
    r.push_back(mk(TUP, "", {i32}));
    r.push_back(mk(STRU, "", {i32, i32}, 0, false, {"x", "y"}));
    r.push_back(mk(STRU, "", {i32, f64}, 0, false, {"y", "x"}));
    for (const char *s : {"int8", "int16", "int128", "uint16", "uint32", "uint64", "uint128", "float16", "float32", "complex[float32]", "char"})
      r.push_back(mk(SC, s));
  }
  return r;
}
static std::vector<P> with_dims(const std::vector<P> &elems, int depth, const std::vector<P> &heads) {
  std::vector<P> r = elems, last = elems;
  for (int d = 0; d < depth; ++d) {
    std::vector<P> next;
    for (auto &h : heads)
      for (auto &e : last)
        next.push_back(mk(h->k, h->name, {e}, h->n, false, {}, h->base));
    r.insert(r.end(), next.begin(), next.end());
    last = next;
  }
  return r;
}
static std::vector<P> few_concrete() {
  P i32 = mk(SC, "int32");
  return {i32, mk(OPT, "", {i32})};
}
static std::vector<P> concrete_dims() { return {mk(FIX, "", {}, 2), mk(FIX, "", {}, 3), mk(FIX, "", {}, 1), mk(VAR)}; }
static std::vector<P> pattern_scalars(int level) {
  P i32 = mk(SC, "int32"), t = mk(TV, "T"), any = mk(ANY);
  std::vector<P> r = {any, t, i32, mk(KIND, "Scalar"), mk(OPT, "", {t})};
  if (level) {
    for (const char *s : {"Bool", "Int", "UInt", "Float", "Complex", "String", "FixedString", "Bytes", "FixedBytes"})
      r.push_back(mk(KIND, s));
    r.push_back(mk(SC, "float64"));
    r.push_back(mk(SC, "string"));
    r.push_back(mk(OPT, "", {any}));
    r.push_back(mk(OPT, "", {mk(KIND, "Int")}));
    r.push_back(mk(PTR, "", {t}));
    r.push_back(mk(TUP, "", {t, mk(TV, "U")}));
    r.push_back(mk(TUP, "", {t, t}));
    r.push_back(mk(TUP, "", {t}, 0, true));
    r.push_back(mk(TUP, "", {}, 0, true));
    r.push_back(mk(TUP, "", {any}));
    r.push_back(mk(STRU, "", {t}, 0, false, {"x"}));
    r.push_back(mk(STRU, "", {t}, 0, true, {"x"}));
    r.push_back(mk(STRU, "", {t}, 0, true, {"y"}));
    r.push_back(mk(STRU, "", {}, 0, true));
    r.push_back(mk(STRU, "", {t, t}, 0, false, {"x", "y"}));
  }
  return r;
}
static std::vector<P> pattern_dims(int level) {
  std::vector<P> r = {mk(FIX, "", {}, 2), mk(VAR), mk(FIXK), mk(DIMK), mk(TVD, "N")};
  if (level) {
    r.push_back(mk(TVD, "M"));
    r.push_back(mk(FIX, "", {}, 3));
  }
  return r;
}
// heads that stand for several dimensions: only outermost, or just inside one ordinary dimension
static std::vector<P> many_dims() {
  std::vector<P> r = {mk(ELL, ""), mk(ELL, "Dims")};
  for (P b : {mk(FIX, "", {}, 2), mk(VAR), mk(FIXK), mk(TVD, "N")})
    r.push_back(mk(POW, "E", {}, 0, false, {}, b));
  return r;
}
static std::vector<P> patterns(std::vector<P> s, int depth, int dlevel, bool nested = true) {
  std::vector<P> in = with_dims(s, depth, pattern_dims(dlevel)), r = in;
  for (auto &h : many_dims())
    for (auto &e : in) {
      P m = mk(h->k, h->name, {e}, h->n, false, {}, h->base);
      r.push_back(m);
      if (nested && ndim(e) < 2)
        for (auto &d : pattern_dims(dlevel))
          r.push_back(mk(d->k, d->name, {m}, d->n));
    }
  return r;
}

static S envstr(const std::map<S, ndt::type> &v) {
  S r;
  for (auto &k : v)
    r += k.first + "=" + tstr(k.second) + " ";
  return r;
}
static void one(mc::X &x, const P &p, const P &c) {
  if (unclear(p, c))
    return;
  const ndt::type &pt = ty(p), &ct = ty(c);
  std::map<S, ndt::type> v;
  Env env;
  S o = text(p) + " against " + text(c) + ": ";
  bool want = match(p, c, env);
  x.trans();
  bool got;
  try {
    got = pt.match(ct, v);
  } catch (const std::exception &e) {
    x.check(false, "match threw", o + e.what());
    return;
  } catch (const dynd_exception &e) {
    x.check(false, "match threw", o + e.what());
    return;
  }
  x.check(got == want, "match", o + (want ? "should match" : "should not match"));
  if (got != want)
    return;
  x.check(pt.match(ct) == want, "match without variables", o + "the two forms of match disagree");
  if (!want)
    return;
  // every variable is bound
  std::set<S> vs;
  vars(p, vs);
  for (auto &n : vs) {
    bool zero_base = !env.count(n); // the base of a power of no dimensions stays free
    x.check(zero_base || (v.count(n) && !v[n].is_null()), "unbound", o + n + " is not bound");
  }
  // substitution
  for (int concrete = 0; concrete < 2; ++concrete)
    for (int which = 0; which < 2 + (int)vs.size(); ++which) {
      Env e2;
      std::map<S, ndt::type> v2;
      if (which == 1) {
        e2 = env;
        v2 = v;
      } else if (which > 1) {
        if (vs.size() < 2)
          continue;
        auto it = vs.begin();
        std::advance(it, which - 2);
        if (env.count(*it)) {
          e2[*it] = env[*it];
          v2[*it] = v[*it];
        }
      }
      bool loose = false;
      P w = subst(p, e2, concrete, loose);
      if (loose)
        continue;
      x.trans();
      S err;
      ndt::type r;
      try {
        r = ndt::substitute(pt, v2, concrete);
      } catch (const std::exception &e) {
        err = e.what();
      } catch (const dynd_exception &e) {
        err = e.what();
      }
      S o2 = o + (concrete ? "concrete substitution of " : "substitution of ") + envstr(v2);
      if (!w)
        x.check(err != "", "substitution error due", o2 + "gave " + (err == "" ? tstr(r) : S("")));
      else {
        x.check(err == "", "substitution error", o2 + err);
        if (err == "")
          x.check(r == ty(w), "substitution", o2 + "gave " + tstr(r) + ", expected " + text(w));
      }
    }
}
static void body(mc::X &x) {
  bool th = x.thorough();
  x.section("single");
  {
    std::vector<P> ps, cs;
    auto add = [](std::vector<P> &to, std::vector<P> what) { to.insert(to.end(), what.begin(), what.end()); };
    if (th) {
      add(ps, patterns(pattern_scalars(1), 1, 1));
      add(ps, patterns(pattern_scalars(0), 3, 1));
      add(cs, with_dims(concrete_scalars(1), 2, concrete_dims()));
      add(cs, with_dims(few_concrete(), 4, concrete_dims()));
    } else {
      add(ps, patterns(pattern_scalars(1), 1, 0));
      add(ps, patterns(pattern_scalars(0), 2, 1));
      add(cs, with_dims(concrete_scalars(1), 1, concrete_dims()));
      add(cs, with_dims(few_concrete(), 3, concrete_dims()));
    }
    for (auto &p : ps) {
      if (!x.unit())
        continue;
      MC_CASE(x, "pattern %s", text(p).c_str());
      for (auto &c : cs)
        one(x, p, c);
      x.state(mc::h64(text(p)));
    }
  }
  // variables shared by the fields of a tuple, record, or by the arguments and result of a callable
  x.section("pairs");
  {
    std::vector<P> few = {mk(TV, "T"), mk(SC, "int32")};
    if (th)
      few.push_back(mk(ANY));
    std::vector<P> ps = patterns(few, 1, 0, th), cs0 = with_dims({mk(SC, "int32"), mk(SC, "float64")}, 2, concrete_dims());
    for (auto &p : ps)
      for (auto &q : ps) {
        std::set<S> a, b, both;
        vars(p, a);
        vars(q, b);
        std::set_intersection(a.begin(), a.end(), b.begin(), b.end(), std::inserter(both, both.end()));
        if (both.empty())
          continue;
        if (!x.unit())
          continue;
        MC_CASE(x, "patterns %s and %s", text(p).c_str(), text(q).c_str());
        P pt = mk(TUP, "", {p, q});
        for (auto &c : cs0)
          for (auto &d : cs0) {
            Env e;
            bool plausible = match(p, c, e);
            Env e2;
            plausible = plausible && match(q, d, e2);
            if (!plausible && (&c - &cs0[0]) % 7) // both sides match on their own, or a sample of the rest
              continue;
            one(x, pt, mk(TUP, "", {c, d}));
          }
      }
  }
  x.section("callables");
  {
    std::vector<P> ps = patterns(pattern_scalars(0), 1, 0, th), cs = with_dims(concrete_scalars(0), 1, concrete_dims());
    for (auto &p : ps)
      for (int form = 0; form < 4; ++form) {
        if (!x.unit())
          continue;
        MC_CASE(x, "callable form %d with %s", form, text(p).c_str());
        auto f = [&](P a, P b, P k) {
          std::vector<P> kids = {a, b};
          std::vector<S> names;
          if (form & 1) {
            kids.push_back(k);
            names.push_back("k");
          }
          return mk(CALL, "", kids, 0, false, names);
        };
        P t = mk(TV, "T");
        P pt = form & 2 ? f(t, p, p) : f(p, p, t);
        for (auto &c : cs)
          for (auto &d : cs) {
            one(x, pt, f(form & 2 ? d : c, c, form & 2 ? c : d));
            if (&d - &cs[0] < 6)
              one(x, pt, f(d, c, c));
          }
      }
  }
  // queries
  x.section("queries");
  {
    std::vector<P> ps = patterns(pattern_scalars(1), 1 + th, 1, th), cs = with_dims(concrete_scalars(1), 1 + th, concrete_dims());
    ps.insert(ps.end(), cs.begin(), cs.end());
    for (auto &p : ps) {
      if (!x.unit())
        continue;
      MC_CASE(x, "type %s", text(p).c_str());
      const ndt::type &t = ty(p);
      x.trans();
      x.check(t.is_symbolic() == symbolic(p), "is_symbolic", text(p) + ": is_symbolic is wrong");
      std::set<S> vs;
      vars(p, vs);
      std::unordered_set<S> g = t.get_vars();
      x.check(std::set<S>(g.begin(), g.end()) == vs, "get_vars", text(p) + mc::fmt(": get_vars gave %zu names, expected %zu", g.size(), vs.size()));
      x.check(t == ndt::type(text(p)), "equal", text(p) + ": two of the same type differ");
    }
    // concrete types match exactly themselves
    for (auto &a : cs) {
      if (!x.unit())
        continue;
      MC_CASE(x, "concrete %s", text(a).c_str());
      for (auto &b : cs) {
        x.trans();
        x.check(ty(a).match(ty(b)) == same(a, b), "concrete match", text(a) + " against " + text(b));
        x.check((ty(a) == ty(b)) == same(a, b), "concrete equal", text(a) + " == " + text(b));
      }
    }
  }
}
MC_MAIN(body)
