// Arithmetic, bitwise, logical and comparison operators over all pairs of element types and boundary values, as scalars
// and as arrays in several layouts, with missing values; the oracle computes integers exactly and truncates.
#include "model.hpp"
#include <dynd/arithmetic.hpp>
#include <dynd/comparison.hpp>
#include <dynd/exceptions.hpp>
#include <dynd/functional.hpp>
#include <dynd/math.hpp>
#include <dynd/option.hpp>
#include <cfloat>
#include <cmath>
using namespace mv;
typedef __int128 I;

static std::map<S, ndt::type> type_cache;
static const ndt::type &ty(const S &s) {
  auto it = type_cache.find(s);
  if (it == type_cache.end())
    it = type_cache.insert({s, ndt::type(s)}).first;
  return it->second;
}
template <class F>
static S run(F f) {
  try {
    f();
    return "";
  } catch (const std::exception &e) {
    return S("exception: ") + e.what() + " ";
  } catch (const dynd_exception &e) {
    return S("exception: ") + e.what() + " ";
  }
}

enum Kind { BOOL, SINT, UINT, FLT, CPLX };
struct T {
  const char *n;
  Kind k;
  int bits; // of a component
};
static const T types[] = {{"bool", BOOL, 8},    {"int8", SINT, 8},     {"int16", SINT, 16},   {"int32", SINT, 32},
                          {"int64", SINT, 64},  {"uint8", UINT, 8},    {"uint16", UINT, 16},  {"uint32", UINT, 32},
                          {"uint64", UINT, 64}, {"float32", FLT, 32},  {"float64", FLT, 64},  {"complex[float32]", CPLX, 32},
                          {"complex[float64]", CPLX, 64}};
enum { NT = 13, NREAL = 11 };
static bool isint(const T &t) { return t.k <= UINT; }
static int size_of(const T &t) { return t.bits / 8 * (t.k == CPLX ? 2 : 1); }
static const T *type_named(const S &n) {
  for (const T &t : types)
    if (n == t.n)
      return &t;
  return nullptr;
}

struct Q { // a value
  I i = 0;
  double d = 0, im = 0;
  bool na = false;
};
static Q xi(I v) {
  Q x;
  x.i = v;
  return x;
}
static Q xd(double v, double im = 0) {
  Q x;
  x.d = v;
  x.im = im;
  return x;
}
static S istr(I v) {
  if (v < 0)
    return "-" + istr(-v);
  return v < 10 ? S(1, '0' + (int)v) : istr(v / 10) + S(1, '0' + (int)(v % 10));
}
static S xstr(const T &t, const Q &x) {
  if (x.na)
    return "NA";
  if (isint(t))
    return istr(x.i);
  return t.k == FLT ? mc::fmt("%.17g", x.d) : mc::fmt("(%.17g,%.17g)", x.d, x.im);
}
static I trunc_to(I v, const T &t) {
  if (t.k == BOOL)
    return v != 0;
  unsigned __int128 m = ((unsigned __int128)1 << t.bits) - 1, u = (unsigned __int128)v & m;
  if (t.k == SINT && u >> (t.bits - 1))
    return (I)u - ((I)1 << t.bits);
  return (I)u;
}
static std::vector<Q> values(const T &t, bool thorough) {
  std::vector<Q> r;
  if (t.k == BOOL)
    return {xi(0), xi(1)};
  if (t.k == SINT) {
    I mx = ((I)1 << (t.bits - 1)) - 1;
    for (I v : {(I)0, (I)1, (I)-1, (I)2, (I)-2, (I)3, (I)7, (I)-7, (I)100, mx, mx - 1, -mx, -mx - 1})
      r.push_back(xi(v));
    if (thorough)
      for (int b = 3; b < t.bits - 1; b += 3)
        r.push_back(xi((I)1 << b)), r.push_back(xi(-((I)1 << b) + 1));
  } else if (t.k == UINT) {
    I mx = ((I)1 << t.bits) - 1;
    for (I v : {(I)0, (I)1, (I)2, (I)3, (I)7, (I)100, mx, mx - 1, mx / 2, mx / 2 + 1})
      r.push_back(xi(v));
    if (thorough)
      for (int b = 3; b < t.bits - 1; b += 3)
        r.push_back(xi((I)1 << b)), r.push_back(xi(((I)1 << b) - 1));
  } else if (t.k == FLT) {
    double mx = t.bits == 32 ? FLT_MAX : DBL_MAX, mn = t.bits == 32 ? 1.40129846432481707e-45 : 4.9406564584124654e-324;
    double inf = INFINITY;
    for (double v : {0.0, -0.0, 1.0, -1.0, 0.5, 2.5, -3.25, 7.0, 16777215.0, mx, -mx, mn, inf, -inf, (double)NAN})
      r.push_back(xd(v));
    r.push_back(xd(t.bits == 32 ? (double)0.1f : 0.1));
  } else {
    for (double a : {0.0, 1.0, -2.5, 1024.0})
      for (double b : {0.0, -1.0, 0.75})
        r.push_back(xd(a, b));
  }
  return r;
}
static void put(const T &t, char *p, const Q &x) {
  if (x.na) {
    if (t.k == BOOL)
      *p = 2;
    else if (t.k == FLT) {
      if (t.bits == 32)
        wr<uint32_t>(p, DYND_FLOAT32_NA_AS_UINT);
      else
        wr<uint64_t>(p, DYND_FLOAT64_NA_AS_UINT);
    } else {
      I v = t.k == SINT ? -((I)1 << (t.bits - 1)) : ((I)1 << t.bits) - 1;
      memcpy(p, &v, t.bits / 8);
    }
    return;
  }
  if (isint(t))
    memcpy(p, &x.i, t.bits / 8);
  else if (t.bits == 32) {
    wr<float>(p, (float)x.d);
    if (t.k == CPLX)
      wr<float>(p + 4, (float)x.im);
  } else {
    wr<double>(p, x.d);
    if (t.k == CPLX)
      wr<double>(p + 8, x.im);
  }
}
static Q get(const T &t, const char *p) {
  Q x;
  if (t.k == BOOL)
    x.i = *(const unsigned char *)p;
  else if (isint(t)) {
    memcpy(&x.i, p, t.bits / 8);
    x.i = trunc_to(x.i, t);
  } else {
    x.d = t.bits == 32 ? rd<float>(p) : rd<double>(p);
    if (t.k == CPLX)
      x.im = t.bits == 32 ? rd<float>(p + 4) : rd<double>(p + 8);
  }
  return x;
}
// whether the bytes are those of the missing value of the option type
static bool is_missing(const T &t, const char *p) {
  if (t.k == BOOL)
    return *p == 2;
  if (t.k == FLT)
    return t.bits == 32 ? rd<uint32_t>(p) == DYND_FLOAT32_NA_AS_UINT : rd<uint64_t>(p) == DYND_FLOAT64_NA_AS_UINT;
  if (t.k == CPLX)
    return is_missing(types[t.bits == 32 ? 9 : 10], p);
  Q x = get(t, p);
  return t.k == SINT ? x.i == -((I)1 << (t.bits - 1)) : x.i == ((I)1 << t.bits) - 1;
}

// the type both operands are converted to: integer promotion, then the usual arithmetic conversions
static T common(const T &a, const T &b) {
  if (a.k == CPLX || b.k == CPLX || a.k == FLT || b.k == FLT) {
    bool c = a.k == CPLX || b.k == CPLX;
    bool wide = (a.k >= FLT && a.bits == 64) || (b.k >= FLT && b.bits == 64);
    return c ? types[wide ? 12 : 11] : types[wide ? 10 : 9];
  }
  auto prom = [](const T &t) { return t.bits < 32 || t.k == BOOL ? types[3] : t; };
  T p = prom(a), q = prom(b);
  if (p.bits != q.bits)
    return p.bits > q.bits ? p : q;
  return p.k == UINT ? p : q;
}
static T promoted(const T &a) { return common(a, types[0]); }
static Q conv(const T &from, const T &to, const Q &x) {
  if (isint(to))
    return xi(trunc_to(x.i, to));
  Q r;
  if (isint(from))
    r.d = to.bits == 32 ? (double)(from.bits == 64 && from.k == UINT ? (float)(uint64_t)x.i : (float)(int64_t)x.i)
                        : (from.bits == 64 && from.k == UINT ? (double)(uint64_t)x.i : (double)(int64_t)x.i);
  else {
    r.d = x.d;
    r.im = x.im;
  }
  return r;
}
static bool truth(const T &t, const Q &x) { return isint(t) ? x.i != 0 : x.d != 0 || x.im != 0; }

enum Op { ADD, SUB, MUL, DIV, MOD, AND, OR, XOR, SHL, SHR, LAND, LOR, LXOR, POW, LT, LE, EQ, NE, GE, GT, NOPS };
static const char *op_name[] = {"add", "subtract", "multiply", "divide", "mod", "bitwise_and", "bitwise_or", "bitwise_xor",
                                "left_shift", "right_shift", "logical_and", "logical_or", "logical_xor", "pow", "less",
                                "less_equal", "equal", "not_equal", "greater_equal", "greater"};
static nd::callable &op_fn(int o) {
  nd::callable *f[] = {&nd::add, &nd::subtract, &nd::multiply, &nd::divide, &nd::mod, &nd::bitwise_and, &nd::bitwise_or,
                       &nd::bitwise_xor, &nd::left_shift, &nd::right_shift, &nd::logical_and, &nd::logical_or,
                       &nd::logical_xor, &nd::pow, &nd::less, &nd::less_equal, &nd::equal, &nd::not_equal,
                       &nd::greater_equal, &nd::greater};
  return *f[o];
}
static bool is_cmp(int o) { return o >= LT; }
static bool is_log(int o) { return o >= LAND && o <= LXOR; }
static bool is_bit(int o) { return o >= MOD && o <= SHR; }
static bool is_div(int o) { return o == DIV || o == MOD; }

// whether the operator is defined for the pair: 1 yes, 0 no (an error is due), -1 either
static int defined(int o, const T &a, const T &b) {
  bool c = a.k == CPLX || b.k == CPLX;
  if (o == POW)
    return a.k == FLT && b.k == FLT;
  if (is_bit(o))
    return isint(a) && isint(b);
  if (is_cmp(o))
    return !c ? 1 : (o == EQ || o == NE) && S(a.n) == b.n ? 1 : -1;
  if (is_log(o))
    return c ? -1 : 1;
  return c && (a.k == BOOL || b.k == BOOL) ? -1 : 1;
}

struct R { // the expected result: its type, its value
  T t;
  Q v;
  bool any = false;   // no claim about the value
  bool error = false; // an error is due
  bool alt_bool = false; // the type may be bool or int32
  double tol = 0;
};
template <class F>
static F fop(int o, F a, F b) {
  volatile F p = a, q = b, r;
  switch (o) {
  case ADD:
    r = p + q;
    break;
  case SUB:
    r = p - q;
    break;
  case MUL:
    r = p * q;
    break;
  default:
    r = p / q;
  }
  return r;
}
static R expect(int o, const T &a, const T &b, const Q &x, const Q &y) {
  R r;
  r.t = types[0];
  if (is_log(o)) {
    bool p = truth(a, x), q = truth(b, y);
    r.alt_bool = true;
    r.v = xi(o == LAND ? p && q : o == LOR ? p || q : p != q);
    return r;
  }
  T c = common(a, b);
  Q p = conv(a, c, x), q = conv(b, c, y);
  if (is_cmp(o)) {
    bool lt, eq;
    bool un = false;
    if (isint(c)) {
      lt = p.i < q.i;
      eq = p.i == q.i;
    } else {
      lt = p.d < q.d;
      eq = p.d == q.d && p.im == q.im;
      un = p.d != p.d || q.d != q.d;
    }
    bool v = o == LT ? lt : o == LE ? lt || eq : o == EQ ? eq : o == NE ? !eq : o == GE ? !lt && !un : !lt && !eq && !un;
    r.v = xi(v);
    return r;
  }
  if (o == POW) {
    r.t = types[10];
    r.v = xd(std::pow(x.d, y.d));
    r.tol = 1e-13;
    return r;
  }
  r.t = c;
  if (isint(c)) {
    if (o == SHL || o == SHR) {
      r.t = promoted(a);
      if (y.i < 0 || y.i >= r.t.bits) {
        r.any = true;
        return r;
      }
      Q l = conv(a, r.t, x);
      r.v = xi(trunc_to(o == SHL ? (I)((unsigned __int128)l.i << (int)y.i) : l.i >> (int)y.i, r.t));
      return r;
    }
    if (is_div(o) && q.i == 0) {
      r.error = true;
      return r;
    }
    I v = o == ADD ? p.i + q.i : o == SUB ? p.i - q.i : o == MUL ? (I)((unsigned __int128)p.i * (unsigned __int128)q.i) : o == DIV ? p.i / q.i
        : o == MOD ? p.i % q.i : o == AND ? (p.i & q.i) : o == OR ? (p.i | q.i) : (p.i ^ q.i);
    r.v = xi(trunc_to(v, r.t));
    return r;
  }
  if (c.k == FLT) {
    r.v = xd(c.bits == 32 ? (double)fop<float>(o, (float)p.d, (float)q.d) : fop<double>(o, p.d, q.d));
    return r;
  }
  if (o == ADD || o == SUB) {
    r.v = xd(o == ADD ? p.d + q.d : p.d - q.d, o == ADD ? p.im + q.im : p.im - q.im);
    r.any = !std::isfinite(r.v.d) || !std::isfinite(r.v.im) || std::fabs(r.v.d) > 1e6;
    r.tol = c.bits == 32 ? 1e-6 : 1e-14;
  } else {
    long double ar = p.d, ai = p.im, br = q.d, bi = q.im, m = br * br + bi * bi;
    if (o == MUL)
      r.v = xd((double)(ar * br - ai * bi), (double)(ar * bi + ai * br));
    else
      r.v = xd((double)((ar * br + ai * bi) / m), (double)((ai * br - ar * bi) / m));
    r.any = (o == DIV && m == 0) || !(std::fabs(r.v.d) < 1e30) || !(std::fabs(r.v.im) < 1e30) || std::fabs(p.d) > 1e30 || std::fabs(q.d) > 1e30 ||
            p.d != p.d || q.d != q.d || (q.d != 0 && std::fabs(q.d) < 1e-30) || (p.d != 0 && std::fabs(p.d) < 1e-30);
    r.tol = c.bits == 32 ? 1e-5 : 1e-13;
    // cancellation: judge each component against the magnitude of the whole
  }
  return r;
}
static bool same_real(double a, double b, double tol, double scale) {
  if (a != a || b != b)
    return a != a && b != b;
  if (a == b)
    return tol || std::signbit(a) == std::signbit(b);
  return tol && std::fabs(a - b) <= tol * scale;
}
static bool matches(const R &r, const T &got, const Q &g) {
  if (r.any)
    return true;
  if (isint(r.t))
    return g.i == r.v.i;
  double sc = std::max(std::fabs(r.v.d), std::fabs(r.v.im));
  double tol = r.tol;
  if (got.bits < r.t.bits)
    tol = std::max(tol, 1e-6);
  return same_real(g.d, r.v.d, tol, sc) && (got.k != CPLX || same_real(g.im, r.v.im, tol, sc));
}
static bool type_ok(const R &r, const S &got, bool bools) {
  if (got == r.t.n)
    return true;
  if (r.alt_bool)
    return got == "int32";
  return bools && got == "bool"; // operators of truth values may stay truth values when the result is one
}

// one-dimensional arrays in different layouts
enum Lay { CONTIG, GAPS, REVERSED, VAR, NLAY };
static const char *lay_name[] = {"contiguous", "with gaps", "reversed", "var"};
struct Holder {
  nd::array a;
};
static nd::array make(const T &t, bool opt, const std::vector<Q> &v, int lay) {
  size_t n = v.size();
  S el = S(opt ? "?" : "") + t.n;
  if (lay == VAR) {
    nd::array a = nd::empty(ty("var * " + el));
    auto *d = reinterpret_cast<ndt::var_dim_type::data_type *>(a.data());
    const auto *md = reinterpret_cast<const ndt::var_dim_type::metadata_type *>(a->metadata());
    d->begin = md->blockref->alloc(n);
    d->size = n;
    for (size_t i = 0; i < n; ++i)
      put(t, d->begin + i * md->stride, v[i]);
    return a;
  }
  size_t step = lay == GAPS ? 2 : 1;
  nd::array b = nd::empty(ty(mc::fmt("%zu * ", n * step) + el));
  memset(b.data(), 0x5a, n * step * size_of(t));
  if (t.k == BOOL)
    memset(b.data(), 1, n * step);
  for (size_t i = 0; i < n; ++i)
    put(t, b.data() + (lay == REVERSED ? n - 1 - i : i) * step * size_of(t), v[i]);
  if (lay == GAPS)
    return b(irange().by(2));
  if (lay == REVERSED)
    return b(irange().by(-1));
  return b;
}
static nd::array scalar(const T &t, bool opt, const Q &v) {
  nd::array a = nd::empty(ty(S(opt ? "?" : "") + t.n));
  put(t, a.data(), v);
  return a;
}
// the elements of a result: addresses in order
static bool elements(const nd::array &a, std::vector<const char *> &p, S &dt, bool &opt) {
  if (a.is_null())
    return false;
  ndt::type t = a.get_type();
  const char *md = a->metadata(), *d = a.cdata();
  std::vector<const char *> cur(1, d);
  while (t.get_id() == fixed_dim_id || t.get_id() == var_dim_id) {
    std::vector<const char *> nx;
    if (t.get_id() == fixed_dim_id) {
      const size_stride_t *m = reinterpret_cast<const size_stride_t *>(md);
      for (const char *q : cur)
        for (intptr_t i = 0; i < m->dim_size; ++i)
          nx.push_back(q + i * m->stride);
      t = ndt::type(t.extended<ndt::fixed_dim_type>()->get_element_type());
      md += sizeof(size_stride_t);
    } else {
      const auto *m = reinterpret_cast<const ndt::var_dim_type::metadata_type *>(md);
      for (const char *q : cur) {
        const auto *vd = reinterpret_cast<const ndt::var_dim_type::data_type *>(q);
        if (vd->size > 100000)
          return false;
        for (size_t i = 0; i < vd->size; ++i)
          nx.push_back(vd->begin + m->offset + i * m->stride);
      }
      t = ndt::type(t.extended<ndt::var_dim_type>()->get_element_type());
      md += sizeof(ndt::var_dim_type::metadata_type);
    }
    cur.swap(nx);
  }
  opt = t.get_id() == option_id;
  if (opt)
    t = ndt::type(t.extended<ndt::option_type>()->get_value_type());
  dt = tstr(t);
  p.swap(cur);
  return true;
}

static void judge(mc::X &x, const nd::array &res, int o, const T &a, const T &b, const std::vector<Q> &va, const std::vector<Q> &vb, bool opt) {
  std::vector<const char *> p;
  S dt;
  bool ro;
  if (!elements(res, p, dt, ro)) {
    x.fail("unreadable result", "");
    return;
  }
  const T *rt = type_named(dt);
  if (!rt || ro != opt || p.size() != va.size()) {
    x.fail("wrong result type", tstr(res.get_type()));
    return;
  }
  bool bools = a.k == BOOL && b.k == BOOL;
  for (size_t i = 0; i < va.size(); ++i) {
    R r = expect(o, a, b, va[i], vb[i]);
    if (!type_ok(r, dt, bools && !(r.v.i >> 1)) && !(o == POW && dt == "float32")) {
      x.fail("wrong result type", dt + " instead of " + r.t.n);
      return;
    }
    bool na = va[i].na || vb[i].na;
    bool gna = opt && is_missing(*rt, p[i]);
    Q g = get(*rt, p[i]);
    if (na) {
      if (!gna) {
        x.fail("missing operand, result not missing", xstr(a, va[i]) + ", " + xstr(b, vb[i]) + " gives " + xstr(*rt, g));
        return;
      }
      continue;
    }
    if (gna) {
      // fine only if the value happens to be the one that stands for a missing one
      char buf[16] = {0};
      Q w = r.v;
      if (!r.any && !(rt->k >= FLT && (w.d != w.d))) {
        put(*rt, buf, w);
        if (!is_missing(*rt, buf)) {
          x.fail("result missing, operands are not", xstr(a, va[i]) + ", " + xstr(b, vb[i]));
          return;
        }
      }
      continue;
    }
    if (!matches(r, *rt, g)) {
      x.fail("wrong value", xstr(a, va[i]) + ", " + xstr(b, vb[i]) + " gives " + xstr(*rt, g) + " instead of " + xstr(r.t, r.v));
      return;
    }
  }
}

static void body(mc::X &x) {
  bool th = x.thorough();
  x.section("binary scalars");
  for (int o = 0; o < NOPS; ++o)
    for (int ia = 0; ia < NT; ++ia)
      for (int ib = 0; ib < NT; ++ib) {
        if (!x.unit())
          continue;
        const T &a = types[ia], &b = types[ib];
        int def = defined(o, a, b);
        std::vector<Q> va = values(a, th), vb = values(b, th);
        bool once = false;
        for (const Q &p : va)
          for (const Q &q : vb) {
            if (def <= 0 && once)
              continue;
            MC_CASE_S(x, mc::fmt("%s %s %s %s %s", op_name[o], a.n, xstr(a, p).c_str(), b.n, xstr(b, q).c_str()));
            once = true;
            nd::array l = scalar(a, false, p), r = scalar(b, false, q), res;
            S e = run([&] { res = op_fn(o)(l, r); });
            x.trans();
            x.outcome(e.empty() ? "value" : "error");
            if (def < 0)
              continue;
            R w;
            if (def)
              w = expect(o, a, b, p, q);
            if (!def || w.error) {
              x.check(!e.empty(), "an error is due", e.empty() ? tstr(res.get_type()) : "");
              continue;
            }
            if (!e.empty()) {
              x.fail("unexpected error", e);
              continue;
            }
            judge(x, res, o, a, b, {p}, {q}, false);
          }
      }

  x.section("binary arrays");
  for (int o = 0; o < NOPS; ++o)
    for (int ia = 0; ia < NT; ++ia)
      for (int ib = 0; ib < NT; ++ib) {
        const T &a = types[ia], &b = types[ib];
        if (defined(o, a, b) != 1 || !x.unit())
          continue;
        std::vector<Q> A, B, va = values(a, th), vb = values(b, th), nb;
        for (const Q &q : vb)
          if (!(is_div(o) && isint(a) && isint(b) && q.i == 0))
            nb.push_back(q);
        for (const Q &p : va)
          for (const Q &q : nb) {
            A.push_back(p);
            B.push_back(q);
          }
        int lays[][2] = {{CONTIG, CONTIG}, {GAPS, REVERSED}, {REVERSED, GAPS}, {VAR, CONTIG}, {GAPS, VAR}, {VAR, VAR}};
        for (auto &ly : lays) {
          MC_CASE_S(x, mc::fmt("%s %s %s, %s %s", op_name[o], a.n, lay_name[ly[0]], b.n, lay_name[ly[1]]));
          nd::array l = make(a, false, A, ly[0]), r = make(b, false, B, ly[1]), res;
          S e = run([&] { res = op_fn(o)(l, r); });
          x.trans(A.size());
          if (!e.empty())
            x.fail("unexpected error", e);
          else
            judge(x, res, o, a, b, A, B, false);
        }
        // one operand a scalar
        for (size_t k = 0; k < va.size(); ++k) {
          MC_CASE_S(x, mc::fmt("%s scalar %s %s, array %s", op_name[o], a.n, xstr(a, va[k]).c_str(), b.n));
          nd::array res;
          S e = run([&] { res = op_fn(o)(scalar(a, false, va[k]), make(b, false, nb, k % 2 ? GAPS : CONTIG)); });
          x.trans(nb.size());
          if (!e.empty())
            x.fail("unexpected error", e);
          else
            judge(x, res, o, a, b, std::vector<Q>(nb.size(), va[k]), nb, false);
        }
        for (size_t k = 0; k < nb.size(); ++k) {
          MC_CASE_S(x, mc::fmt("%s array %s, scalar %s %s", op_name[o], a.n, b.n, xstr(b, nb[k]).c_str()));
          nd::array res;
          S e = run([&] { res = op_fn(o)(make(a, false, va, k % 2 ? REVERSED : CONTIG), scalar(b, false, nb[k])); });
          x.trans(va.size());
          if (!e.empty())
            x.fail("unexpected error", e);
          else
            judge(x, res, o, a, b, va, std::vector<Q>(va.size(), nb[k]), false);
        }
        // a destination with gaps
        for (int once = 0; once < 1; ++once) {
          MC_CASE_S(x, mc::fmt("%s %s, %s into a destination", op_name[o], a.n, b.n));
          nd::array l = make(a, false, A, CONTIG), r = make(b, false, B, CONTIG), probe, buf, dst;
          S dt;
          S e = run([&] {
            probe = op_fn(o)(l, r);
            std::vector<const char *> p;
            bool ro;
            elements(probe, p, dt, ro);
            buf = nd::empty(ty(mc::fmt("%zu * %s", A.size() * 2, dt.c_str())));
            memset(buf.data(), 1, A.size() * 2 * size_of(*type_named(dt)));
            dst = buf(irange().by(2));
            op_fn(o)({l, r}, {{"dst", dst}});
          });
          x.trans(A.size());
          if (!e.empty()) {
            x.fail("unexpected error", e);
            continue;
          }
          judge(x, dst, o, a, b, A, B, false);
          int sz = size_of(*type_named(dt));
          bool clean = true;
          for (size_t i = 0; i < A.size(); ++i)
            for (int j = 0; j < sz; ++j)
              clean = clean && buf.data()[(2 * i + 1) * sz + j] == 1;
          x.check(clean, "wrote between the elements of the destination", "");
        }
        // division: a zero anywhere is an error
        if (is_div(o) && isint(a) && isint(b))
          for (size_t k = 0; k < nb.size(); ++k) {
            MC_CASE_S(x, mc::fmt("%s array %s by %s with a zero at %zu", op_name[o], a.n, b.n, k));
            std::vector<Q> z(nb);
            z[k] = xi(0);
            nd::array res;
            S e = run([&] { res = op_fn(o)(make(a, false, std::vector<Q>(nb.size(), va[1]), CONTIG), make(b, false, z, CONTIG)); });
            x.trans(nb.size());
            x.check(!e.empty(), "an error is due", "");
          }
      }

  x.section("missing values");
  for (int o = 0; o < NOPS; ++o)
    for (int ia = 0; ia < NREAL; ++ia)
      for (int ib = 0; ib < NREAL; ++ib) {
        const T &a = types[ia], &b = types[ib];
        if (defined(o, a, b) != 1 || !x.unit())
          continue;
        auto vals = [&](const T &t, bool opt, bool divisor) {
          std::vector<Q> r;
          std::vector<Q> all = values(t, false);
          int n = 0;
          for (const Q &v : all) {
            char buf[16];
            put(t, buf, v);
            if ((opt && is_missing(t, buf)) || (divisor && isint(t) && v.i == 0) || (t.k == FLT && v.d != v.d))
              continue;
            if (n++ < 6)
              r.push_back(v);
          }
          if (opt) {
            Q na;
            na.na = true;
            r.insert(r.begin() + 1, na);
            r.push_back(na);
          }
          return r;
        };
        for (int m = 1; m < 4; ++m) {
          bool oa = m & 1, ob = m & 2;
          std::vector<Q> va = vals(a, oa, false), vb = vals(b, ob, is_div(o)), A, B;
          for (const Q &p : va)
            for (const Q &q : vb) {
              A.push_back(p);
              B.push_back(q);
            }
          int lays[][2] = {{CONTIG, CONTIG}, {GAPS, REVERSED}, {VAR, CONTIG}, {GAPS, VAR}};
          for (auto &ly : lays) {
            MC_CASE_S(x, mc::fmt("%s %s%s %s, %s%s %s", op_name[o], oa ? "?" : "", a.n, lay_name[ly[0]], ob ? "?" : "", b.n, lay_name[ly[1]]));
            nd::array res;
            S e = run([&] { res = op_fn(o)(make(a, oa, A, ly[0]), make(b, ob, B, ly[1])); });
            x.trans(A.size());
            if (!e.empty())
              x.fail("unexpected error", e);
            else
              judge(x, res, o, a, b, A, B, true);
          }
          for (size_t i = 0; i < A.size(); ++i) {
            if (!th && i % 3 && !A[i].na && !B[i].na)
              continue;
            MC_CASE_S(x, mc::fmt("%s %s%s %s, %s%s %s", op_name[o], oa ? "?" : "", a.n, xstr(a, A[i]).c_str(), ob ? "?" : "", b.n, xstr(b, B[i]).c_str()));
            nd::array res;
            S e = run([&] { res = op_fn(o)(scalar(a, oa, A[i]), scalar(b, ob, B[i])); });
            x.trans();
            if (!e.empty())
              x.fail("unexpected error", e);
            else
              judge(x, res, o, a, b, {A[i]}, {B[i]}, true);
          }
          // an option scalar with an array, and the other way round
          for (size_t i = 0; i < va.size(); ++i) {
            MC_CASE_S(x, mc::fmt("%s scalar %s%s %s, array %s%s", op_name[o], oa ? "?" : "", a.n, xstr(a, va[i]).c_str(), ob ? "?" : "", b.n));
            nd::array res;
            S e = run([&] { res = op_fn(o)(scalar(a, oa, va[i]), make(b, ob, vb, CONTIG)); });
            x.trans();
            if (!e.empty())
              x.fail("unexpected error", e);
            else
              judge(x, res, o, a, b, std::vector<Q>(vb.size(), va[i]), vb, true);
          }
          for (size_t i = 0; i < vb.size(); ++i) {
            MC_CASE_S(x, mc::fmt("%s array %s%s, scalar %s%s %s", op_name[o], oa ? "?" : "", a.n, ob ? "?" : "", b.n, xstr(b, vb[i]).c_str()));
            nd::array res;
            S e = run([&] { res = op_fn(o)(make(a, oa, va, CONTIG), scalar(b, ob, vb[i])); });
            x.trans();
            if (!e.empty())
              x.fail("unexpected error", e);
            else
              judge(x, res, o, a, b, va, std::vector<Q>(va.size(), vb[i]), true);
          }
        }
      }

  x.section("unary");
  {
    nd::callable *f[] = {&nd::plus, &nd::minus, &nd::logical_not, &nd::bitwise_not, &nd::sqrt, &nd::cbrt, &nd::cos, &nd::sin, &nd::tan, &nd::exp, &nd::real, &nd::imag, &nd::conj};
    const char *fn[] = {"plus", "minus", "logical_not", "bitwise_not", "sqrt", "cbrt", "cos", "sin", "tan", "exp", "real", "imag", "conj"};
    for (int o = 0; o < 13; ++o)
      for (int ia = 0; ia < NT; ++ia) {
        if (!x.unit())
          continue;
        const T &a = types[ia];
        bool def = o < 3 ? !(a.k == CPLX && o == 2) : o == 3 ? isint(a) : o < 6 ? a.k == FLT : o < 10 ? ia == 10 : a.k == CPLX;
        std::vector<Q> va = values(a, true);
        auto want = [&](const Q &p, T &t) {
          t = promoted(a);
          if (a.k >= FLT)
            t = a;
          double d = p.d;
          float s = (float)p.d;
          switch (o) {
          case 0:
            return p;
          case 1:
            return isint(a) ? xi(trunc_to(-p.i, t)) : xd(-p.d, -p.im);
          case 2:
            t = types[0];
            return xi(!truth(a, p));
          case 3:
            return xi(trunc_to(~p.i, t));
          case 4:
            return xd(a.bits == 32 ? std::sqrt(s) : std::sqrt(d));
          case 5:
            return xd(a.bits == 32 ? std::cbrt(s) : std::cbrt(d));
          case 6:
            return xd(std::cos(d));
          case 7:
            return xd(std::sin(d));
          case 8:
            return xd(std::tan(d));
          case 9:
            return xd(std::exp(d));
          case 10:
            t = types[a.bits == 32 ? 9 : 10];
            return xd(p.d);
          case 11:
            t = types[a.bits == 32 ? 9 : 10];
            return xd(p.im);
          default:
            return xd(p.d, -p.im);
          }
        };
        for (int ly = -1; ly < NLAY + 2; ++ly)
          for (size_t k = 0; k < (ly < 0 && def ? va.size() : 1); ++k) {
            MC_CASE_S(x, mc::fmt("%s %s %s %s", fn[o], a.n, ly < 0 ? "scalar" : ly < NLAY ? lay_name[ly] : ly == NLAY ? "empty" : "into a destination", ly < 0 ? xstr(a, va[k]).c_str() : ""));
            nd::array res;
            S e = run([&] {
              nd::array arg = ly < 0 ? scalar(a, false, va[k]) : make(a, false, ly == NLAY ? std::vector<Q>() : va, ly < NLAY ? ly : (int)CONTIG);
              res = (*f[o])(arg);
              if (ly == NLAY + 1) {
                std::vector<const char *> p;
                S dt;
                bool ro;
                elements(res, p, dt, ro);
                nd::array buf = nd::empty(ty(mc::fmt("%zu * %s", va.size() * 2, dt.c_str())));
                nd::array dst = buf(irange().by(2));
                (*f[o])({arg}, {{"dst", dst}});
                res = dst;
              }
            });
            x.trans();
            x.outcome(e.empty() ? "value" : "error");
            if (!def) {
              if (!(a.k == CPLX && o == 2))
                x.check(!e.empty(), "an error is due", e.empty() ? tstr(res.get_type()) : "");
              continue;
            }
            if (!e.empty()) {
              x.fail("unexpected error", e);
              continue;
            }
            std::vector<const char *> p;
            S dt;
            bool ro;
            if (!elements(res, p, dt, ro) || !type_named(dt) || ro || p.size() != (ly < 0 ? 1 : ly == NLAY ? 0 : va.size())) {
              x.fail("wrong result type", res.is_null() ? "null" : tstr(res.get_type()));
              continue;
            }
            const T &rt = *type_named(dt);
            for (size_t i = 0; i < p.size(); ++i) {
              const Q &v = va[ly < 0 ? k : i];
              R r;
              r.v = want(v, r.t);
              r.tol = o >= 4 && o < 10 ? 1e-12 : 0;
              if (o == 4 || (o == 5 && a.bits == 32))
                r.tol = o == 4 ? 0 : 1e-6;
              Q g = get(rt, p[i]);
              bool tok = dt == r.t.n || (a.k == BOOL && dt == "bool");
              if (a.k == BOOL && dt == "bool" && o < 4) { // truth values may stay truth values: + and - keep, ~ negates
                r.t = types[0];
                r.v = xi(o >= 2 ? !v.i : v.i);
              }
              if (!tok || !matches(r, rt, g)) {
                x.fail(tok ? "wrong value" : "wrong result type", dt + " " + xstr(a, v) + " gives " + xstr(rt, g) + " instead of " + xstr(r.t, r.v));
                break;
              }
            }
          }
      }
  }

  x.section("compound assignment");
  for (int o = 0; o < 2; ++o)
    for (int ia = 0; ia < NT; ++ia)
      for (int ib = 0; ib < NT; ++ib) {
        const T &a = types[ia], &b = types[ib];
        if (a.k == BOOL || b.k == BOOL || (a.k != CPLX && b.k == CPLX) || !x.unit())
          continue;
        std::vector<Q> va = values(a, th), vb = values(b, th), A, B;
        std::vector<R> W;
        for (const Q &p : va)
          for (const Q &q : vb) {
            R r = expect(o ? DIV : ADD, a, b, p, q);
            if (r.error)
              continue;
            // back to the type of the left operand
            if (isint(a) && !isint(b)) {
              double lim = std::ldexp(1.0, a.bits - (a.k == SINT));
              if (!(r.v.d > (a.k == SINT ? -lim - 0.5 : -1) && r.v.d < lim))
                r.any = true;
              else
                r.v.i = (I)r.v.d;
            } else if (isint(a))
              r.v.i = trunc_to(r.v.i, a);
            else if (a.bits == 32) {
              r.v.d = (double)(float)r.v.d;
              r.v.im = (double)(float)r.v.im;
              if (a.k == CPLX)
                r.tol = 1e-5;
            }
            r.t = a;
            A.push_back(p);
            B.push_back(q);
            W.push_back(r);
          }
        // by array (several layouts), by scalar
        for (int ly = 0; ly < 4; ++ly) {
          MC_CASE_S(x, mc::fmt("%s %s, %s layout %d", o ? "compound_div" : "compound_add", a.n, b.n, ly));
          nd::array dst;
          S e = run([&] {
            dst = make(a, false, A, ly == 1 ? GAPS : ly == 2 ? REVERSED : CONTIG);
            nd::array src = make(b, false, B, ly == 1 ? REVERSED : ly == 2 ? GAPS : ly == 3 ? VAR : CONTIG);
            if (o)
              dst /= src;
            else
              dst += src;
          });
          x.trans(A.size());
          if (!e.empty()) {
            x.fail("unexpected error", e);
            continue;
          }
          std::vector<const char *> p;
          S dt;
          bool ro;
          elements(dst, p, dt, ro);
          for (size_t i = 0; i < p.size(); ++i) {
            Q g = get(a, p[i]);
            if (!matches(W[i], a, g)) {
              x.fail("wrong value", xstr(a, A[i]) + ", " + xstr(b, B[i]) + " gives " + xstr(a, g) + " instead of " + xstr(a, W[i].v));
              break;
            }
          }
        }
        for (size_t i = 0; i < A.size(); i += th ? 1 : 3) {
          MC_CASE_S(x, mc::fmt("%s %s %s, %s %s", o ? "compound_div" : "compound_add", a.n, xstr(a, A[i]).c_str(), b.n, xstr(b, B[i]).c_str()));
          nd::array dst = scalar(a, false, A[i]);
          S e = run([&] {
            if (o)
              dst /= scalar(b, false, B[i]);
            else
              dst += scalar(b, false, B[i]);
          });
          x.trans();
          Q g = get(a, dst.cdata());
          if (!e.empty())
            x.fail("unexpected error", e);
          else
            x.check(matches(W[i], a, g), "wrong value", xstr(a, g) + " instead of " + xstr(a, W[i].v));
        }
        if (o && isint(a) && isint(b))
          for (int arr = 0; arr < 2; ++arr) {
            MC_CASE_S(x, mc::fmt("compound_div %s by zero of %s, %s", a.n, b.n, arr ? "array" : "scalar"));
            S e = run([&] {
              nd::array dst = arr ? make(a, false, {xi(1), xi(2)}, CONTIG) : scalar(a, false, xi(5));
              dst /= arr ? make(b, false, {xi(1), xi(0)}, CONTIG) : scalar(b, false, xi(0));
            });
            x.check(!e.empty(), "an error is due", "");
          }
      }

  x.section("operator syntax");
  {
    const int tt[] = {1, 3, 4, 6, 8, 10};
    for (int ia : tt)
      for (int ib : tt)
        for (int o = 0; o < NOPS; ++o) {
          const T &a = types[ia], &b = types[ib];
          if (o == LXOR || o == POW || defined(o, a, b) != 1 || !x.unit())
            continue;
          std::vector<Q> A, B;
          for (const Q &p : values(a, false))
            for (const Q &q : values(b, false))
              if (!(is_div(o) && isint(a) && isint(b) && q.i == 0)) {
                A.push_back(p);
                B.push_back(q);
              }
          for (int once = 0; once < 1; ++once) {
            MC_CASE_S(x, mc::fmt("%s %s %s", a.n, op_name[o], b.n));
            nd::array l = make(a, false, A, CONTIG), r = make(b, false, B, CONTIG), res;
            S e = run([&] {
              switch (o) {
              case ADD: res = l + r; break;
              case SUB: res = l - r; break;
              case MUL: res = l * r; break;
              case DIV: res = l / r; break;
              case MOD: res = l % r; break;
              case AND: res = l & r; break;
              case OR: res = l | r; break;
              case XOR: res = l ^ r; break;
              case SHL: res = l << r; break;
              case SHR: res = l >> r; break;
              case LAND: res = l && r; break;
              case LOR: res = l || r; break;
              case LT: res = l < r; break;
              case LE: res = l <= r; break;
              case EQ: res = l == r; break;
              case NE: res = l != r; break;
              case GE: res = l >= r; break;
              case GT: res = l > r; break;
              }
            });
            x.trans(A.size());
            if (!e.empty())
              x.fail("unexpected error", e);
            else
              judge(x, res, o, a, b, A, B, false);
          }
        }
  }

  x.section("text, bytes and records");
  {
    std::vector<S> strs = {"", S(1, '\0'), S("\0a", 2), S("a\0", 2)};
    for (const S &u : {S("a"), S("b"), S("~"), S("\xc3\xa9"), S("\xf0\x9f\x98\x80")}) {
      strs.push_back(u);
      for (const S &w : {S("a"), S("b"), S("\xc3\xa9")}) {
        strs.push_back(u + w);
        strs.push_back(u + w + "a");
      }
    }
    for (size_t n : {14, 15, 16, 17, 40})
      for (const char *t : {"", "a", "b"})
        strs.push_back(S(n, 'a') + t);
    auto ascii = [](const S &s) {
      for (unsigned char c : s)
        if (c >= 128)
          return false;
      return true;
    };
    for (size_t i = 0; i < strs.size(); ++i) {
      if (!x.unit())
        continue;
      for (size_t j = 0; j < strs.size(); ++j)
        for (int lay = 0; lay < 3; ++lay) {
          const S &s = strs[i], &t = strs[j];
          MC_CASE_S(x, mc::fmt("compare %s %s %d", mc::quote(s).c_str(), mc::quote(t).c_str(), lay));
          int got[6];
          bool bad = false;
          S opt = lay == 2 ? "?" : "";
          for (int o = LT; o <= GT; ++o) {
            V a = V::Str(s), b = V::Str(t), g;
            S e = run([&] {
              nd::array l, r;
              if (lay == 1) {
                V la = V::List(), lb = V::List();
                la.k = {V::Str("zz"), a};
                lb.k = {V::Str(""), b};
                l = build(ty("2 * string"), la);
                r = build(ty("2 * string"), lb);
                g = read(op_fn(o)(l, r));
                g = V(g.k.at(1));
              } else
                g = read(op_fn(o)(build(ty(opt + "string"), a), build(ty(opt + "string"), b)));
            });
            x.trans();
            if (!e.empty() || g.kind != V::BOOL) {
              x.fail("unexpected error", e + g.str());
              bad = true;
              break;
            }
            got[o - LT] = (int)g.i;
          }
          if (bad)
            continue;
          bool lt = got[0], le = got[1], eq = got[2], ne = got[3], ge = got[4], gt = got[5];
          x.check(eq == (s == t) && ne == (s != t), "wrong equality", mc::fmt("%d %d", eq, ne));
          x.check(lt + gt + eq == 1 && le == (lt || eq) && ge == (gt || eq), "the orderings disagree", mc::fmt("%d%d%d%d%d%d", lt, le, eq, ne, ge, gt));
          if (ascii(s) && ascii(t))
            x.check(lt == (s < t), "wrong order", mc::fmt("%d", lt));
          if (!lay) {
            V g;
            S e = run([&] { g = read(nd::total_order(build(ty("string"), V::Str(s)), build(ty("string"), V::Str(t)))); });
            x.check(e.empty() && (g.i != 0) == lt, "total order disagrees with less", e + g.str());
            // bytes
            V g1, g2;
            e = run([&] { g1 = read(nd::equal(build(ty("bytes"), V::Str(s)), build(ty("bytes"), V::Str(t)))); });
            x.check(e.empty() && g1 == V::Bool(s == t), "wrong equality of bytes", e + g1.str());
          }
        }
      // transitivity with everything (the order of non-ASCII text is not fixed, but it is an order)
      for (size_t j = 0; j < strs.size(); ++j)
        for (size_t k = 0; k < strs.size(); ++k) {
          if (ascii(strs[i]) && ascii(strs[j]) && ascii(strs[k]))
            continue;
          MC_CASE_S(x, mc::fmt("transitive %zu %zu %zu", i, j, k));
          auto lt = [&](size_t p, size_t q) {
            static std::map<std::pair<size_t, size_t>, bool> memo;
            auto it = memo.find({p, q});
            if (it != memo.end())
              return it->second;
            bool r = read(nd::less(build(ty("string"), V::Str(strs[p])), build(ty("string"), V::Str(strs[q])))).i;
            return memo[{p, q}] = r;
          };
          x.trans();
          if (lt(i, j) && lt(j, k))
            x.check(lt(i, k), "not transitive", strs[i] + " " + strs[j] + " " + strs[k]);
        }
    }
    // records and tuples: equal when all fields are
    const char *rts[] = {"{x: int32, y: string}", "(int32, string)", "{x: int32, y: {p: string, q: float64}}", "(int8, bool, int64, string)"};
    for (const char *rt : rts) {
      if (!x.unit())
        continue;
      std::vector<V> vs;
      const ndt::type &t = ty(rt);
      // every field takes one of two or three values
      std::function<std::vector<V>(const ndt::type &)> all = [&](const ndt::type &tt) {
        std::vector<V> r;
        if (tt.get_id() == struct_id || tt.get_id() == tuple_id) {
          bool st = tt.get_id() == struct_id;
          intptr_t nf = st ? tt.extended<ndt::struct_type>()->get_field_count() : tt.extended<ndt::tuple_type>()->get_field_count();
          r.push_back(V::List());
          for (intptr_t i = 0; i < nf; ++i) {
            std::vector<V> n;
            for (const V &h : r)
              for (const V &f : all(st ? tt.extended<ndt::struct_type>()->get_field_type(i) : tt.extended<ndt::tuple_type>()->get_field_type(i))) {
                n.push_back(h);
                n.back().k.push_back(f);
              }
            r = n;
          }
          return r;
        }
        if (tt.get_id() == string_id)
          return std::vector<V>{V::Str(""), V::Str("abc"), V::Str("a string longer than the inline buffer")};
        if (tt.get_id() == bool_id)
          return std::vector<V>{V::Bool(false), V::Bool(true)};
        if (tt.get_id() == float64_id)
          return std::vector<V>{V::Real(0.5), V::Real(-2)};
        return std::vector<V>{V::Int(1), V::Int(-1)};
      };
      vs = all(t);
      for (const V &p : vs)
        for (const V &q : vs) {
          MC_CASE_S(x, S(rt) + " " + p.str() + " " + q.str());
          V g1, g2;
          S e = run([&] {
            g1 = read(nd::equal(build(t, p), build(t, q)));
            g2 = read(nd::not_equal(build(t, p), build(t, q)));
          });
          x.trans(2);
          x.check(e.empty() && g1 == V::Bool(p == q) && g2 == V::Bool(p != q), "wrong equality", e + g1.str() + g2.str());
        }
    }
    // types
    const char *tts[] = {"int32", "int64", "string", "3 * int32", "4 * int32", "var * int32", "{x: int32}", "{y: int32}", "(int32) -> int64", "?int32"};
    for (const char *t1 : tts) {
      if (!x.unit())
        continue;
      for (const char *t2 : tts) {
        MC_CASE_S(x, S("types ") + t1 + ", " + t2);
        V g1, g2;
        S e = run([&] {
          nd::array a(ty(t1)), b(ty(t2));
          g1 = read(nd::equal(a, b));
          g2 = read(nd::not_equal(a, b));
        });
        x.trans(2);
        x.check(e.empty() && g1 == V::Bool(S(t1) == t2) && g2 == V::Bool(S(t1) != t2), "wrong equality", e + g1.str() + g2.str());
      }
    }
    // total order of integers and truth values
    if (x.unit())
      for (int i : {INT32_MIN, -2, -1, 0, 1, 2, INT32_MAX})
        for (int j : {INT32_MIN, -2, -1, 0, 1, 2, INT32_MAX}) {
          MC_CASE_S(x, mc::fmt("total order %d %d", i, j));
          V g1, g2;
          S e = run([&] {
            g1 = read(nd::total_order(nd::array(i), nd::array(j)));
            g2 = read(nd::total_order(nd::array(i > 0), nd::array(j > 0)));
          });
          x.check(e.empty() && (g1.i != 0) == (i < j) && (g2.i != 0) == ((i > 0) < (j > 0)), "wrong order", e + g1.str() + g2.str());
        }
  }

  x.section("operands of other types");
  {
    const char *ts[] = {"string", "bytes", "{x: int32}", "(int32, int32)", "int32", "bool", "complex[float64]", "type", "char", "fixed_string[4]", "fixed_bytes[4]", "3 * string",
                        "var * {x: int32}", "?string", "int128", "uint128", "float16", "2 * int32", "?float64", "pointer[int32]", "void", "2 * ?string"};
    for (int o = 0; o < NOPS; ++o)
      for (const char *t1 : ts) {
        if (!x.unit())
          continue;
        for (const char *t2 : ts) {
          MC_CASE_S(x, S(op_name[o]) + " " + t1 + ", " + t2);
          S r = "value";
          S e = run([&] {
            nd::array a = nd::empty(ty(t1)), b = nd::empty(ty(t2));
            if (!S(t1).find("pointer") || !S(t2).find("pointer"))
              return;
            op_fn(o)(a, b);
          });
          x.trans();
          x.outcome(e.empty() ? r : "error");
        }
      }
  }
}
MC_MAIN(body)
