// Arrays taken as another type: every array of the bounds against every pattern of dimensions (sizes, Fixed, var, N, Dim,
// ellipsis) and element type; and the promotion of every pair of types.
#include "mc.hpp"
#include <dynd/array.hpp>
#include <dynd/asarray.hpp>
#include <dynd/exceptions.hpp>
#include <dynd/json_parser.hpp>
#include <dynd/type_promotion.hpp>
#include <algorithm>
#include <functional>
#include <sstream>
using namespace dynd;
typedef std::string S;
enum { VAR = -1, FIXED = -2, NAME = -3 };
struct V {
  bool leaf = true;
  long n = 0;
  std::vector<V> c;
  S text() const {
    if (leaf)
      return mc::fmt("%ld", n);
    S s = "[";
    for (size_t i = 0; i < c.size(); ++i)
      s += (i ? "," : "") + c[i].text();
    return s + "]";
  }
};
static S print(const nd::array &a) { // the elements as text, without blanks
  std::ostringstream o;
  o << a;
  S s = o.str();
  size_t q = s.rfind(",\n      type=\"");
  s = s.substr(6, q - 6);
  S r;
  for (char c : s)
    if (c != ' ' && c != '\n')
      r += c;
  return r;
}
static S type_text(const ndt::type &t) {
  std::ostringstream o;
  o << t;
  return o.str();
}
static S dims_text(const std::vector<int> &d) {
  S s;
  for (int k : d)
    s += k == VAR ? "var * " : k == FIXED ? "Fixed * " : k == NAME ? "N * " : mc::fmt("%d * ", k);
  return s;
}
static V fill(const std::vector<int> &d, size_t i, long &k) {
  V v;
  if (i == d.size()) {
    v.n = ++k;
    return v;
  }
  v.leaf = false;
  int n = d[i] == VAR ? 1 + (int)(k * 7 + i) % 3 : d[i];
  for (int j = 0; j < n; ++j)
    v.c.push_back(fill(d, i + 1, k));
  return v;
}
// The value broadcast to concrete dimensions; false where that is an error
static bool spread(const V &v, size_t vd, const std::vector<int> &d, size_t i, V &out) {
  size_t left = d.size() - i;
  if (vd > left)
    return false;
  if (left == 0) {
    out = v;
    return true;
  }
  out = V();
  out.leaf = false;
  if (vd < left) {
    for (int j = 0; j < (d[i] == VAR ? 1 : d[i]); ++j) {
      V k;
      if (!spread(v, vd, d, i + 1, k))
        return false;
      out.c.push_back(k);
    }
    return true;
  }
  size_t n = d[i] == VAR ? v.c.size() : (size_t)d[i];
  if (v.c.size() != n && v.c.size() != 1)
    return false;
  for (size_t j = 0; j < n; ++j) {
    V k;
    if (!spread(v.c.size() == n ? v.c[j] : v.c[0], vd - 1, d, i + 1, k))
      return false;
    out.c.push_back(k);
  }
  return true;
}
static void one(mc::X &x, const std::vector<int> &sd, const std::vector<int> &pd, const char *pe) {
  S st = dims_text(sd) + "int32", pt = dims_text(pd) + pe;
  x.trans();
  long k = 0;
  V v = fill(sd, 0, k), want;
  nd::array a = parse_json(ndt::type(st), v.text(), &dynd::eval::default_eval_context), r;
  bool threw = false;
  S what;
  try {
    r = nd::asarray(a, ndt::type(pt));
  } catch (const dynd_exception &e) {
    threw = true;
    what = e.what();
  } catch (const std::bad_alloc &) {
    x.fail("memory for an array of no size is asked for", "");
    return;
  } catch (const std::exception &e) {
    threw = true;
    what = e.what();
  }
  // Whether the pattern matches, and the concrete dimensions otherwise
  bool symbolic_el = !strcmp(pe, "Int") || !strcmp(pe, "Scalar"), same_el = symbolic_el || !strcmp(pe, "int32");
  bool match = same_el && sd.size() == pd.size();
  int name = VAR - 100;
  for (size_t i = 0; i < pd.size() && match; ++i) {
    if (pd[i] == FIXED)
      match = sd[i] >= 0;
    else if (pd[i] == NAME) {
      match = name == VAR - 100 || name == sd[i];
      name = sd[i];
    } else
      match = pd[i] == sd[i];
  }
  if (match) {
    if (x.check(!threw, "an array of a matching type is refused", what))
      x.check(r.cdata() == a.cdata() && r.get_type() == a.get_type(), "an array of a matching type is not passed through", "");
    x.outcome("same");
    return;
  }
  std::vector<int> cd = pd;
  bool ok = !symbolic_el, symbolic = false;
  for (size_t i = 0; i < cd.size(); ++i)
    symbolic = symbolic || cd[i] == FIXED || cd[i] == NAME;
  if (symbolic) {
    // Dimensions without a size take the one of the array in their place
    ok = ok && sd.size() <= pd.size();
    for (size_t i = 0; i < cd.size() && ok; ++i) {
      int n = i < sd.size() ? sd[i] : NAME;
      // The size of a var dimension is known where there is just one of it
      const V *w = &v;
      for (size_t j = 0; j < i && w && i < sd.size(); ++j)
        w = w->c.size() == 1 ? &w->c[0] : nullptr;
      if (n == VAR && w)
        n = (int)w->c.size();
      if (cd[i] == NAME || (cd[i] == FIXED && n < 0))
        ok = false;
      else if (cd[i] == FIXED)
        cd[i] = n;
      else if (cd[i] >= 0 && i < sd.size() && n >= 0 && n != cd[i])
        ok = false;
    }
  }
  ok = ok && spread(v, sd.size(), cd, 0, want);
  if (!ok) {
    x.check(threw, "an array that does not fit is taken as another type", threw ? "" : type_text(r.get_type()));
    x.outcome("refused");
    return;
  }
  if (!x.check(!threw, "an array that fits is refused", what))
    return;
  S t = dims_text(cd) + pe;
  x.check(type_text(r.get_type()) == t, "the result has the wrong type", type_text(r.get_type()) + " for " + t);
  x.check(print(r) == want.text(), "the result has the wrong elements", print(r) + " for " + want.text());
  x.check(print(a) == v.text(), "the source is changed", print(a));
  x.state(mc::h64(t + want.text()));
  x.outcome("converted");
}
static void all_dims(const std::vector<int> &kinds, size_t max, std::vector<std::vector<int>> &out) {
  out.push_back({});
  size_t from = 0;
  for (size_t n = 0; n < max; ++n) {
    size_t to = out.size();
    for (size_t i = from; i < to; ++i)
      for (int k : kinds) {
        std::vector<int> d = out[i];
        d.push_back(k);
        out.push_back(d);
      }
    from = to;
  }
}
static void arrays(mc::X &x) {
  std::vector<std::vector<int>> src, pat;
  all_dims({1, 2, 3, VAR}, x.thorough() ? 3 : 2, src);
  if (!x.thorough())
    for (std::vector<int> d : {std::vector<int>{2, VAR, 2}, {1, 2, 3}, {VAR, VAR, VAR}, {2, 3, VAR}, {3, 1, 2}})
      src.push_back(d);
  all_dims({1, 2, 3, VAR, FIXED, NAME}, 3, pat);
  for (const std::vector<int> &s : src)
    for (size_t p = 0; p < pat.size(); ++p) {
      if (!x.unit())
        continue;
      for (const char *e : {"int32", "float64", "int64", "Int", "Scalar"})
        do {
          MC_CASE_S(x, dims_text(s) + "int32 as " + dims_text(pat[p]) + e);
          one(x, s, pat[p], e);
        } while (0);
    }
}
// Promotion: the C++ arithmetic conversions over the numeric types, applied inside options and var dimensions
static int rank(const S &t) {
  static const char *n[] = {"bool", "int8", "uint8", "int16", "uint16", "int32", "uint32", "int64", "uint64", "int128", "uint128",
                            "float16", "float32", "float64", "complex[float32]", "complex[float64]", nullptr};
  for (int i = 0; n[i]; ++i)
    if (t == n[i])
      return i;
  return -1;
}
static S arith(const S &a, const S &b) {
  int p = rank(a), q = rank(b);
  if (p > q)
    std::swap(p, q);
  static const char *n[] = {"bool", "int8", "uint8", "int16", "uint16", "int32", "uint32", "int64", "uint64", "int128", "uint128",
                            "float16", "float32", "float64", "complex[float32]", "complex[float64]"};
  if (q < 5)
    return "int32";
  if (q == 11)
    return "float32";
  if (q == 14 && p == 13)
    return "complex[float64]";
  return n[q];
}
static S promoted(const S &a, const S &b) { // "" where there is none
  if (rank(a) >= 0 && rank(b) >= 0)
    return arith(a, b);
  bool oa = a[0] == '?', ob = b[0] == '?';
  if (oa || ob) {
    S k = promoted(a.substr(oa), b.substr(ob));
    return k.empty() ? "" : "?" + k;
  }
  bool sa = a == "string" || a == "fixed_string[5]", sb = b == "string" || b == "fixed_string[5]";
  if (sa && sb)
    return "string";
  if (a == "void" || b == "void")
    return a == "void" ? b : a;
  size_t da = a.find(" * "), db = b.find(" * ");
  if (da != S::npos && db != S::npos && (a.substr(0, da) == "var" || b.substr(0, db) == "var")) {
    S k = promoted(a.substr(da + 3), b.substr(db + 3));
    return k.empty() ? "" : "var * " + k;
  }
  if ((a == "type" && b == "string") || (b == "type" && a == "string"))
    return "type";
  return "";
}
static void promotions(mc::X &x) {
  std::vector<S> t = {"bool",  "int8",  "uint8",  "int16",  "uint16",  "int32",   "uint32",  "int64",
                      "uint64", "int128", "uint128", "float16", "float32", "float64", "complex[float32]", "complex[float64]"};
  std::vector<S> all = t;
  all.push_back("string");
  all.push_back("fixed_string[5]");
  size_t n = all.size();
  for (size_t i = 0; i < n; ++i) {
    all.push_back("?" + all[i]);
    all.push_back("var * " + all[i]);
    all.push_back("3 * " + all[i]);
    if (x.thorough()) {
      all.push_back("var * var * " + all[i]);
      all.push_back("3 * var * ?" + all[i]);
    }
  }
  all.push_back("void");
  all.push_back("type");
  for (const S &a : all) {
    if (!x.unit())
      continue;
    for (const S &b : all) {
      MC_CASE_S(x, a + " and " + b);
      x.trans();
      S want = promoted(a, b), got;
      if (want.empty() || (a == "void" && b == "void"))
        continue;
      try {
        got = type_text(promote_types_arithmetic(ndt::type(a), ndt::type(b)));
      } catch (const dynd_exception &e) {
        got = S("error: ") + e.what();
      } catch (const std::exception &e) {
        got = S("error: ") + e.what();
      }
      x.check(got == want, "types are promoted to the wrong type", got + " for " + want);
      x.state(mc::h64(a + b + want));
    }
  }
}
static void body(mc::X &x) {
  x.section("arrays as another type");
  arrays(x);
  x.section("type promotion");
  promotions(x);
}
MC_MAIN(body)
