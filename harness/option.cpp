// Missing values: the sentinel of each type, is_na / assign_na over every pattern of missing elements and layout, and
// conversions between option and plain types.  The oracle defines the sentinels itself and takes the conversion of a
// single available value from the plain scalar assignment.
#include "model.hpp"
#include <dynd/exceptions.hpp>
#include <dynd/functional.hpp>
#include <dynd/option.hpp>
#include <cmath>
using namespace mv;

static std::map<S, ndt::type> type_cache;
static const ndt::type &ty(const S &s) {
  auto it = type_cache.find(s);
  if (it == type_cache.end())
    it = type_cache.insert({s, ndt::type(s)}).first;
  return it->second;
}
template <class F>
static S run(F f) {
  try {
    f();
    return "";
  } catch (const std::exception &e) {
    return S("exception: ") + e.what() + " ";
  } catch (const dynd_exception &e) {
    return S("exception: ") + e.what() + " ";
  }
}

enum Kind { BOOL, SINT, UINT, FLT, CPLX, STR, BYT };
struct T {
  const char *n;
  Kind k;
  int size;
};
static const T types[] = {{"bool", BOOL, 1},    {"int8", SINT, 1},      {"int16", SINT, 2},
                          {"int32", SINT, 4},   {"int64", SINT, 8},     {"int128", SINT, 16},
                          {"uint8", UINT, 1},   {"uint16", UINT, 2},    {"uint32", UINT, 4},
                          {"uint64", UINT, 8},  {"uint128", UINT, 16},  {"float32", FLT, 4},
                          {"float64", FLT, 8},  {"complex[float32]", CPLX, 8}, {"complex[float64]", CPLX, 16},
                          {"string", STR, 16},  {"bytes", BYT, 16}};
enum { NT = 17, NNUM = 15 };

// an element: its bytes, or the text of a string; missing
struct E {
  S raw;
  bool na = false;
};
static bool nan_bits(const char *p, int size) {
  if (size == 4) {
    uint32_t u = rd<uint32_t>(p);
    return (u & 0x7f800000u) == 0x7f800000u && (u & 0x7fffffu);
  }
  uint64_t u = rd<uint64_t>(p);
  return (u & 0x7ff0000000000000ull) == 0x7ff0000000000000ull && (u & 0xfffffffffffffull);
}
static S na_bits(const T &t) {
  S r(t.size, '\0');
  if (t.k == BOOL)
    r[0] = 2;
  else if (t.k == SINT)
    r[t.size - 1] = (char)0x80;
  else if (t.k == UINT)
    r.assign(t.size, (char)0xff);
  else if (t.k == FLT || t.k == CPLX) {
    int c = t.k == FLT ? t.size : t.size / 2;
    S one(c, '\0');
    if (c == 4)
      wr<uint32_t>(&one[0], 0x7f8007a2u);
    else
      wr<uint64_t>(&one[0], 0x7ff00000000007a2ull);
    r = t.k == FLT ? one : one + one;
  }
  return r;
}
static bool is_missing(const T &t, const S &raw) {
  if (t.k == BOOL)
    return (unsigned char)raw[0] > 1;
  if (t.k == FLT)
    return nan_bits(raw.data(), t.size);
  return raw == na_bits(t);
}
static E elem(const T &t, S raw) {
  E e;
  e.raw = raw;
  e.na = t.k < STR && is_missing(t, raw);
  return e;
}
static E missing(const T &t) {
  E e;
  e.na = true;
  if (t.k < STR)
    e.raw = na_bits(t);
  return e;
}
static E num(const T &t, __int128 v) {
  S r(t.size, '\0');
  memcpy(&r[0], &v, t.size);
  return elem(t, r);
}
static E real(const T &t, double a, double b = 0) {
  S r(t.size, '\0');
  int c = t.k == FLT ? t.size : t.size / 2;
  if (c == 4)
    wr<float>(&r[0], (float)a);
  else
    wr<double>(&r[0], a);
  if (t.k == CPLX) {
    if (c == 4)
      wr<float>(&r[c], (float)b);
    else
      wr<double>(&r[c], b);
  }
  return elem(t, r);
}
static E text(S s) {
  E e;
  e.raw = s;
  return e;
}
static S show(const T &t, const E &e) {
  if (e.na)
    return "NA";
  if (t.k >= STR)
    return mc::quote(e.raw);
  S r = "0x";
  for (int i = (int)e.raw.size() - 1; i >= 0; --i)
    r += mc::fmt("%02x", (unsigned char)e.raw[i]);
  return r;
}
// every bit pattern of the small types, boundary patterns of the others
static std::vector<E> all_values(const T &t) {
  std::vector<E> r;
  if (t.k == BOOL) {
    for (int i = 0; i < 3; ++i)
      r.push_back(num(t, i));
  } else if (t.k == SINT || t.k == UINT) {
    if (t.size == 1 || t.size == 2) {
      int n = t.size == 1 ? 256 : 65536, step = 1;
      for (int i = 0; i < n; i += step) {
        r.push_back(num(t, i));
        step = t.size == 1 || i < 300 || (i > 0x7f00 && i < 0x8100) || i > 0xfe00 ? 1 : 97;
      }
    } else {
      __int128 one = 1;
      for (int b = 0; b < t.size * 8; ++b)
        for (int d = -1; d <= 1; ++d) {
          r.push_back(num(t, (one << b) + d));
          r.push_back(num(t, -(one << b) + d));
        }
      r.push_back(num(t, -1));
      r.push_back(num(t, -2));
      r.push_back(num(t, 0));
    }
  } else if (t.k == FLT) {
    for (double d : {0.0, -0.0, 1.0, -1.5, 1e30, -1e-30, (double)INFINITY, -(double)INFINITY, (double)NAN, -(double)NAN})
      r.push_back(real(t, d));
    // every single-bit and all-ones mantissa below an exponent of all ones, and of one less
    for (int s = 0; s < 2; ++s)
      for (int m = -1; m < (t.size == 4 ? 23 : 52); ++m)
        for (int ex = 0; ex < 2; ++ex) {
          S x(t.size, '\0');
          if (t.size == 4)
            wr<uint32_t>(&x[0], (uint32_t)s << 31 | (ex ? 0x7f800000u : 0x7f000000u) | (m < 0 ? 0u : 1u << m));
          else
            wr<uint64_t>(&x[0], (uint64_t)s << 63 | (ex ? 0x7ff0000000000000ull : 0x7fe0000000000000ull) | (m < 0 ? 0ull : 1ull << m));
          r.push_back(elem(t, x));
        }
    r.push_back(missing(t));
  } else if (t.k == CPLX) {
    int c = t.size / 2;
    S na = na_bits(t).substr(0, c);
    std::vector<S> p;
    for (double d : {0.0, 1.0, -2.5, (double)INFINITY, (double)NAN})
      p.push_back(real(t, d).raw.substr(0, c));
    p.push_back(na);
    for (auto &a : p)
      for (auto &b : p)
        r.push_back(elem(t, a + b));
  } else {
    for (const char *s : {"", "a", "NA", "NULL", "null", "fourteen chars", "fifteen chars..", "sixteen chars...", "None", "a longer text that is kept on the heap"})
      r.push_back(text(s));
    r.push_back(text(S("\0", 1)));
    r.push_back(missing(t));
  }
  return r;
}
// few distinct available values, usable with every other type
static std::vector<E> few_values(const T &t) {
  std::vector<E> r;
  if (t.k <= UINT) {
    for (int i : {1, 0, 1})
      r.push_back(num(t, i));
    if (t.k != BOOL) {
      for (int i : {2, 100, 3, 127})
        r.push_back(num(t, i));
      if (t.k == SINT)
        r.push_back(num(t, -1)), r.push_back(num(t, -127));
      else
        r.push_back(num(t, 200)), r.push_back(num(t, 128));
      __int128 one = 1;
      if (t.size > 1)
        r.push_back(num(t, 255)), r.push_back(num(t, (one << (8 * t.size - 1)) - 1)), r.push_back(num(t, -2));
    }
  } else if (t.k == FLT || t.k == CPLX) {
    for (double d : {1.0, 0.0, 2.0, 100.0, -1.0, 0.5, 127.0, 255.0, 1e10})
      r.push_back(real(t, d));
    if (t.k == CPLX) {
      r.push_back(real(t, 1, 2));
      S n = na_bits(t).substr(0, t.size / 2), z(t.size / 2, '\0');
      r.push_back(elem(t, n + z)); // only one part
      r.push_back(elem(t, z + n));
    }
  } else {
    for (const char *s : {"a", "", "NA", "sixteen chars...", "b"})
      r.push_back(text(s));
  }
  return r;
}

static void put(const T &t, char *p, const E &e) {
  if (t.k < STR)
    memcpy(p, e.raw.data(), t.size);
  else if (t.k == STR) {
    dynd::string *s = reinterpret_cast<dynd::string *>(p);
    if (e.na)
      s->assign_na();
    else
      s->assign(e.raw.data(), e.raw.size());
  } else {
    dynd::bytes *s = reinterpret_cast<dynd::bytes *>(p);
    if (e.na)
      s->assign_na();
    else
      s->assign(e.raw.data(), e.raw.size());
  }
}
static E get(const T &t, const char *p, bool opt) {
  E e;
  if (t.k < STR) {
    e.raw.assign(p, t.size);
    e.na = opt && is_missing(t, e.raw);
  } else if (t.k == STR) {
    const dynd::string *s = reinterpret_cast<const dynd::string *>(p);
    e.na = s->is_na();
    if (!e.na)
      e.raw.assign(s->begin(), s->size());
  } else {
    const dynd::bytes *s = reinterpret_cast<const dynd::bytes *>(p);
    e.na = s->is_na();
    if (!e.na)
      e.raw.assign(s->data(), s->size());
  }
  return e;
}
static bool eq(const E &a, const E &b) { return a.na == b.na && (a.na || a.raw == b.raw); }

// ---- arrays in several layouts: `whole` owns, `a` is the view; at[i] is the address of element i, and gap[] those between
enum Lay { CONTIG, GAPS, REVERSED, VAR, NLAY };
static const char *lay_name[] = {"contiguous", "with gaps", "reversed", "var"};
struct Arr {
  nd::array whole, a;
  std::vector<char *> at, gap;
};
static S elt(const T &t, bool opt) { return S(opt ? "?" : "") + t.n; }
static Arr make(const T &t, bool opt, const std::vector<E> &v, int lay, const E &fill) {
  size_t n = v.size();
  Arr r;
  if (lay == VAR) {
    r.a = r.whole = nd::empty(ty("var * " + elt(t, opt)));
    auto *d = reinterpret_cast<ndt::var_dim_type::data_type *>(r.a.data());
    const auto *md = reinterpret_cast<const ndt::var_dim_type::metadata_type *>(r.a->metadata());
    d->begin = md->blockref->alloc(n);
    d->size = n;
    for (size_t i = 0; i < n; ++i)
      r.at.push_back(d->begin + i * md->stride);
  } else {
    size_t step = lay == GAPS ? 2 : 1, m = n * step;
    r.whole = nd::empty(ty(mc::fmt("%zu * ", m) + elt(t, opt)));
    for (size_t i = 0; i < m; ++i) {
      char *p = r.whole.data() + (lay == REVERSED ? m - 1 - i : i) * t.size;
      (i % step ? r.gap : r.at).push_back(p);
    }
    r.a = lay == GAPS ? r.whole(irange().by(2)) : lay == REVERSED ? r.whole(irange().by(-1)) : r.whole;
  }
  for (size_t i = 0; i < n; ++i)
    put(t, r.at[i], v[i]);
  for (char *p : r.gap)
    put(t, p, fill);
  return r;
}
static nd::array scalar(const T &t, bool opt, const E &e) {
  nd::array a = nd::empty(ty(elt(t, opt)));
  put(t, a.data(), e);
  return a;
}
static S pattern(const T &t, const std::vector<E> &v) {
  S r;
  if (v.size() > 8) {
    size_t na = 0;
    for (auto &e : v)
      na += e.na;
    return mc::fmt("%zu elements, %zu missing", v.size(), na);
  }
  for (auto &e : v)
    r += (r.empty() ? "" : ",") + show(t, e);
  return "[" + r + "]";
}
// the truth values of an array of bool of any dimension types
static bool bools(const nd::array &a, std::vector<int> &out, S &dt) {
  out.clear();
  ndt::type t = a.get_type();
  const char *md = a->metadata();
  std::vector<const char *> cur(1, a.cdata());
  while (t.get_id() == fixed_dim_id || t.get_id() == var_dim_id) {
    std::vector<const char *> nx;
    if (t.get_id() == fixed_dim_id) {
      const size_stride_t *m = reinterpret_cast<const size_stride_t *>(md);
      for (const char *q : cur)
        for (intptr_t i = 0; i < m->dim_size; ++i)
          nx.push_back(q + i * m->stride);
      t = ndt::type(t.extended<ndt::fixed_dim_type>()->get_element_type());
      md += sizeof(size_stride_t);
    } else {
      const auto *m = reinterpret_cast<const ndt::var_dim_type::metadata_type *>(md);
      for (const char *q : cur) {
        const auto *d = reinterpret_cast<const ndt::var_dim_type::data_type *>(q);
        for (size_t i = 0; i < d->size; ++i)
          nx.push_back(d->begin + m->offset + i * m->stride);
      }
      t = ndt::type(t.extended<ndt::var_dim_type>()->get_element_type());
      md += sizeof(ndt::var_dim_type::metadata_type);
    }
    cur = nx;
  }
  dt = tstr(t);
  if (dt != "bool")
    return false;
  for (const char *q : cur)
    out.push_back(*(const unsigned char *)q);
  return true;
}

// ---------------------------------------------------------------------------------------------------------------------
static void values(mc::X &x) {
  x.section("values");
  for (const T &t : types) {
    if (!x.unit())
      continue;
    E other = few_values(t)[0];
    for (const E &v : all_values(t)) {
      MC_CASE(x, "?%s holding %s", t.n, show(t, v).c_str());
      S o = S("?") + t.n + ": ";
      nd::array a = scalar(t, true, v);
      S e = run([&] {
        x.trans();
        x.check(a.is_na() == v.na, "array::is_na", o + "array::is_na is wrong");
        x.check(nd::old_is_avail(a.get_type(), a->metadata(), a.cdata()) == !v.na, "is_avail", o + "old_is_avail is wrong");
        nd::array r = nd::is_na(a);
        x.check(tstr(r.get_type()) == "bool", "is_na type", o + "nd::is_na gave " + tstr(r.get_type()));
        x.check((*(const unsigned char *)r.cdata()) == (v.na ? 1 : 0), "nd::is_na", o + "nd::is_na is wrong");
        nd::array d = nd::empty(ty("bool"));
        *d.data() = v.na ? 0 : 1;
        nd::is_na({a}, {{"dst", d}});
        x.check((*(const unsigned char *)d.cdata()) == (v.na ? 1 : 0), "is_na dst", o + "nd::is_na into a given bool is wrong");
        x.check(t.k >= STR ? eq(get(t, a.cdata(), true), v) : S(a.cdata(), t.size) == v.raw, "changed", o + "asking changed the value");
        if (t.k < STR) {
          std::ostringstream s;
          a.get_type().print_data(s, a->metadata(), a.cdata());
          x.check((s.str() == "NA") == v.na, "print", o + "prints as " + s.str());
        }
      });
      x.check(e == "", "values error", o + e);
      // an option to itself
      e = run([&] {
        nd::array b = scalar(t, true, other);
        b.assign(a);
        E g = get(t, b.cdata(), true);
        x.check(eq(g, v), "copy", o + "copied it became " + show(t, g));
        nd::array c = scalar(t, true, missing(t));
        c.assign(a);
        x.check(eq(get(t, c.cdata(), true), v), "copy over NA", o + "copied over a missing value it became " + show(t, get(t, c.cdata(), true)));
        nd::array k = a.eval_copy();
        x.check(tstr(k.get_type()) == S("?") + t.n && eq(get(t, k.cdata(), true), v), "eval_copy", o + "eval_copy changed it");
      });
      x.check(e == "", "copy error", o + e);
      // taking the value out
      nd::array p = nd::empty(ty(t.n));
      put(t, p.data(), other);
      e = run([&] { p.assign(a); });
      if (v.na)
        x.check(e != "", "NA to value", o + "a missing value was assigned to a " + t.n);
      else {
        x.check(e == "", "value out error", o + e);
        x.check(S(e != "" ? "" : get(t, p.cdata(), false).raw) == v.raw, "value out", o + "value taken out became " + show(t, get(t, p.cdata(), false)));
      }
      x.outcome(mc::fmt("%s:%d", t.n, v.na));
      // making it missing, three ways, and available again
      for (int how = 0; how < 3; ++how) {
        e = run([&] {
          nd::array b = scalar(t, true, v);
          x.trans();
          if (how == 0)
            b.assign_na();
          else if (how == 1)
            nd::assign_na({}, {{"dst", b}});
          else
            nd::old_assign_na(b.get_type(), b->metadata(), b.data());
          S w = S(" after ") + (how == 0 ? "array::assign_na" : how == 1 ? "nd::assign_na" : "old_assign_na");
          x.check(get(t, b.cdata(), true).na, "assign_na sentinel", o + "not the missing value" + w);
          x.check(b.is_na(), "assign_na is_na", o + "is_na is false" + w);
          x.check(*(const unsigned char *)nd::is_na(b).cdata() == 1, "assign_na nd::is_na", o + "nd::is_na is false" + w);
          nd::array src = scalar(t, false, v.na ? other : v);
          b.assign(src);
          E g = get(t, b.cdata(), true);
          x.check(eq(g, v.na ? other : v), "reassign", o + "assigned a value it became " + show(t, g));
          x.check(!b.is_na(), "reassign is_na", o + "is_na after a value was assigned");
        });
        x.check(e == "", "assign_na error", o + e);
      }
    }
  }
}

static void arrays(mc::X &x) {
  x.section("arrays");
  for (const T &t : types)
    for (int lay = 0; lay < NLAY; ++lay) {
      if (!x.unit())
        continue;
      std::vector<E> vals = few_values(t);
      int maxn = x.thorough() ? 7 : 5;
      for (int n = 0; n <= maxn; ++n)
        for (int m = 0; m < 1 << n; ++m) {
          std::vector<E> v;
          for (int i = 0; i < n; ++i)
            v.push_back(m >> i & 1 ? missing(t) : vals[i % vals.size()]);
          MC_CASE(x, "is_na of %s ?%s %s", lay_name[lay], t.n, pattern(t, v).c_str());
          S o = S("?") + t.n + " " + lay_name[lay] + ": ";
          S e = run([&] {
            Arr a = make(t, true, v, lay, missing(t));
            x.trans();
            nd::array r = nd::is_na(a.a);
            std::vector<int> g;
            S dt;
            x.check(bools(r, g, dt), "is_na type", o + "is_na gave " + tstr(r.get_type()));
            std::vector<int> want;
            for (auto &q : v)
              want.push_back(q.na);
            x.check(g == want, "is_na array", o + "is_na gave " + mc::join(g) + ", expected " + mc::join(want));
            for (size_t i = 0; i < v.size(); ++i)
              x.check(eq(get(t, a.at[i], true), v[i]), "is_na changed", o + "is_na changed an element");
            for (int i = 0; lay != VAR && i < n; ++i)
              x.check(a.a(i).is_na() == v[i].na, "element is_na", o + mc::fmt("is_na of element %d", i));
            if (lay != VAR) {
              nd::array d = nd::empty(ty(mc::fmt("%d * bool", n)));
              memset(d.data(), 1, n);
              nd::is_na({a.a}, {{"dst", d}});
              x.check(bools(d, g, dt) && g == want, "is_na dst", o + "is_na into a given array gave " + mc::join(g));
            }
          });
          x.check(e == "", "arrays error", o + e);
        }
      // assign_na of every slice of an array with values everywhere
      for (int n = 0; n <= maxn; ++n)
        for (int b = 0; b < n + (lay == VAR); ++b)
          for (int c = b; c <= n; ++c)
            for (int step = 1; step <= 2; ++step) {
              if (lay == VAR ? b != 0 || c != n || step != 1 : n == 0)
                continue;
              MC_CASE(x, "assign_na to [%d:%d:%d] of %d %s ?%s", b, c, step, n, lay_name[lay], t.n);
              S o = S("?") + t.n + " " + lay_name[lay] + ": ";
              std::vector<E> v;
              for (int i = 0; i < n; ++i)
                v.push_back(vals[i % vals.size()]);
              S e = run([&] {
                Arr a = make(t, true, v, lay, vals[0]);
                nd::array s = lay == VAR ? a.a : a.a(irange(b, c).by(step));
                x.trans();
                nd::assign_na({}, {{"dst", s}});
                for (int i = 0; i < n; ++i) {
                  bool in = i >= b && i < c && (i - b) % step == 0;
                  E g = get(t, a.at[i], true);
                  x.check(in ? g.na : eq(g, v[i]), "assign_na slice", o + mc::fmt("element %d is ", i) + show(t, g));
                }
                for (char *p : a.gap)
                  x.check(eq(get(t, p, true), vals[0]), "assign_na gap", o + "an element outside the destination changed");
              });
              x.check(e == "", "assign_na array error", o + e);
            }
    }
  // two and three dimensions
  x.section("dims");
  for (const T &t : types)
    for (int kind = 0; kind < 4; ++kind) {
      if (!x.unit())
        continue;
      const char *dims[] = {"2 * 3 * ", "3 * 2 * ", "2 * var * ", "var * 2 * "};
      std::vector<E> vals = few_values(t);
      for (int m = 0; m < 64; ++m) {
        MC_CASE(x, "%s?%s pattern %d", dims[kind], t.n, m);
        S o = S(dims[kind]) + "?" + t.n + ": ";
        S e = run([&] {
          nd::array a = nd::empty(ty(dims[kind] + elt(t, true)));
          std::vector<char *> at;
          if (kind < 2)
            for (int i = 0; i < 6; ++i)
              at.push_back(a.data() + i * t.size);
          else if (kind == 2) {
            const auto *md = reinterpret_cast<const ndt::var_dim_type::metadata_type *>(a->metadata() + sizeof(size_stride_t));
            int len[2] = {m % 4 == 0 ? 0 : 2, 3};
            for (int r = 0; r < 2; ++r) {
              auto *d = reinterpret_cast<ndt::var_dim_type::data_type *>(a.data() + r * sizeof(ndt::var_dim_type::data_type));
              d->begin = md->blockref->alloc(len[r]);
              d->size = len[r];
              for (int i = 0; i < len[r]; ++i)
                at.push_back(d->begin + i * t.size);
            }
          } else {
            const auto *md = reinterpret_cast<const ndt::var_dim_type::metadata_type *>(a->metadata());
            auto *d = reinterpret_cast<ndt::var_dim_type::data_type *>(a.data());
            d->begin = md->blockref->alloc(3);
            d->size = 3;
            for (int i = 0; i < 6; ++i)
              at.push_back(d->begin + i * t.size);
          }
          std::vector<int> want, g;
          std::vector<E> v;
          for (size_t i = 0; i < at.size(); ++i) {
            v.push_back(m >> i & 1 ? missing(t) : vals[i % vals.size()]);
            put(t, at[i], v[i]);
            want.push_back(v[i].na);
          }
          x.trans();
          nd::array r = nd::is_na(a);
          S dt;
          x.check(bools(r, g, dt) && g == want, "is_na dims", o + "is_na gave " + mc::join(g) + ", expected " + mc::join(want));
          // a copy keeps the pattern
          nd::array c = nd::empty(a.get_type());
          if (kind != 2 && kind != 3) {
            c.assign(a);
            for (size_t i = 0; i < at.size(); ++i)
              x.check(eq(get(t, c.data() + i * t.size, true), v[i]), "copy dims", o + "copy changed an element");
          } else {
            c.assign(a);
            x.check(bools(nd::is_na(c), g, dt) && g == want, "copy var dims", o + "is_na of a copy gave " + mc::join(g));
          }
          if (kind < 2) {
            nd::array tr = kind == 0 ? a(irange(), 1) : a(irange(), 1);
            int inner = kind == 0 ? 3 : 2, outer = 6 / inner;
            nd::assign_na({}, {{"dst", tr}});
            for (int i = 0; i < 6; ++i)
              x.check(i % inner == 1 ? get(t, at[i], true).na : eq(get(t, at[i], true), v[i]), "assign_na column",
                      o + mc::fmt("assign_na of a column (of %d): element %d", outer, i));
          }
          nd::assign_na({}, {{"dst", a}});
          for (char *p : at)
            x.check(get(t, p, true).na, "assign_na dims", o + "an element is not missing after assign_na");
        });
        x.check(e == "", "dims error", o + e);
      }
    }
}

// ---------------------------------------------------------------------------------------------------------------------
// the plain conversion of single values, by the library
struct Conv {
  bool ok = false;
  E e;
};
static Conv convert_one(const T &s, const T &d, const E &v, assign_error_mode m = assign_error_fractional) {
  Conv c;
  nd::array a = scalar(s, false, v), b = nd::empty(ty(d.n));
  c.ok = run([&] { b.assign(a, m); }) == "";
  if (c.ok)
    c.e = get(d, b.cdata(), false);
  return c;
}
static std::vector<size_t> big_sizes(bool th) {
  std::vector<size_t> r = {127, 128, 129, 255, 256, 257};
  if (th)
    for (size_t n : {130, 254, 258, 383, 384, 385, 512, 600})
      r.push_back(n);
  return r;
}
static void conversions(mc::X &x) {
  x.section("conversions");
  for (int si = 0; si < NT; ++si)
    for (int di = 0; di < NT; ++di)
      for (int mode = 0; mode < 3; ++mode) { // 0 option to option, 1 value to option, 2 option to value
        if (!x.unit())
          continue;
        const T &s = types[si], &d = types[di];
        bool sopt = mode != 1, dopt = mode != 2;
        S name = elt(s, sopt) + " to " + elt(d, dopt);
        // the values that convert, and one that does not
        std::vector<std::pair<E, E>> good;
        std::vector<E> bad;
        for (const E &v : few_values(s)) {
          Conv c = convert_one(s, d, v);
          if (!c.ok)
            bad.push_back(v);
          else {
            E g = c.e;
            if (dopt && d.k < STR && is_missing(d, g.raw))
              continue; // would read as missing
            if (good.empty() || g.raw != good.back().second.raw)
              good.push_back({v, g});
          }
        }
        bool none = good.empty();
        if (none && sopt && dopt) { // nothing converts: an error, whatever it is, but never a crash
          MC_CASE(x, "%s: no conversion", name.c_str());
          nd::array a = scalar(s, sopt, few_values(s)[0]), b = nd::empty(ty(elt(d, dopt)));
          S e = run([&] { b.assign(a); });
          x.check(e != "", "no conversion", name + ": an assignment succeeded although the value types do not convert");
          continue;
        }
        if (none)
          continue;
        auto expect = [&](const std::vector<int> &pick, std::vector<E> &src, std::vector<E> &want) { // -1 missing, -2 bad
          bool err = false;
          src.clear();
          want.clear();
          for (size_t i = 0; i < pick.size(); ++i) {
            if (pick[i] == -1) {
              src.push_back(missing(s));
              want.push_back(missing(d));
              err |= !dopt;
            } else if (pick[i] == -2) {
              src.push_back(bad[0]);
              want.push_back(missing(d));
              err = true;
            } else {
              src.push_back(good[pick[i] % good.size()].first);
              want.push_back(good[pick[i] % good.size()].second);
            }
          }
          return err;
        };
        auto trial = [&](const std::vector<int> &pick, int sl, int dl) {
          std::vector<E> src, want;
          bool err = expect(pick, src, want);
          S o = name + " (" + lay_name[sl] + " to " + lay_name[dl] + "): ";
          Arr a = make(s, sopt, src, sl, few_values(s)[0]);
          for (int pre = 0; pre < 2; ++pre) { // the destination was available, or missing
            E fill = pre && dopt ? missing(d) : few_values(d)[0];
            Arr b = make(d, dopt, std::vector<E>(pick.size(), fill), dl, fill);
            x.trans();
            S e = run([&] { b.a.assign(a.a); });
            if (err) {
              x.check(e != "", "error due", o + pattern(s, src) + " was assigned without an error");
            } else {
              x.check(e == "", "conversion error", o + pattern(s, src) + " " + e);
              if (e == "")
                for (size_t i = 0; i < want.size(); ++i) {
                  E g = get(d, b.at[i], dopt);
                  if (!eq(g, want[i])) {
                    x.check(false, "conversion", o + pattern(s, src) + mc::fmt(": element %zu became ", i) + show(d, g) + ", expected " + show(d, want[i]));
                    break;
                  }
                }
            }
            for (char *p : b.gap)
              x.check(eq(get(d, p, dopt), fill), "gap written", o + "an element outside the destination changed");
          }
          for (size_t i = 0; i < src.size(); ++i)
            if (!eq(get(s, a.at[i], sopt), src[i])) {
              x.check(false, "source changed", o + "the source changed");
              break;
            }
        };
        int nl = 3;
        for (int n = 1; n <= 4; ++n) {
          int total = 1;
          for (int i = 0; i < n; ++i)
            total *= 2;
          for (int m = 0; m < (sopt ? total : 1); ++m)
            for (int sl = 0; sl < NLAY; ++sl)
              for (int dl = 0; dl < nl; ++dl) {
                if (n == 4 && (sl + dl) % 2 && !x.thorough())
                  continue;
                MC_CASE(x, "%s: n %d missing %d, %s to %s", name.c_str(), n, m, lay_name[sl], lay_name[dl]);
                std::vector<int> pick;
                for (int i = 0; i < n; ++i)
                  pick.push_back(m >> i & 1 ? -1 : i);
                trial(pick, sl, dl);
                x.outcome(mc::fmt("%d %d", mode, m != 0));
              }
        }
        // every value that converts, next to a missing one
        for (size_t g = 0; g < good.size(); ++g) {
          MC_CASE(x, "%s: value %s", name.c_str(), show(s, good[g].first).c_str());
          trial({(int)g}, 0, 0);
          if (sopt)
            trial({-1, (int)g, -1}, 0, 0);
          // as scalars
          nd::array a = scalar(s, sopt, good[g].first), b = scalar(d, dopt, dopt ? missing(d) : few_values(d)[0]);
          S e = run([&] { b.assign(a); });
          x.check(e == "" && eq(get(d, b.cdata(), dopt), good[g].second), "scalar", name + ": scalar " + show(s, good[g].first) + " became " + show(d, get(d, b.cdata(), dopt)) + " " + e);
        }
        if (sopt) {
          MC_CASE(x, "%s: missing scalar", name.c_str());
          nd::array a = scalar(s, true, missing(s)), b = scalar(d, dopt, few_values(d)[0]);
          S e = run([&] { b.assign(a); });
          if (dopt)
            x.check(e == "" && get(d, b.cdata(), true).na, "scalar NA", name + ": a missing scalar became " + show(d, get(d, b.cdata(), true)) + " " + e);
          else
            x.check(e != "", "scalar NA to value", name + ": a missing scalar was assigned");
          // broadcast
          Arr r = make(d, dopt, std::vector<E>(3, few_values(d)[0]), GAPS, few_values(d)[0]);
          e = run([&] { r.a.assign(a); });
          if (dopt) {
            x.check(e == "", "broadcast NA error", name + ": broadcasting a missing scalar " + e);
            for (char *p : r.at)
              x.check(get(d, p, true).na, "broadcast NA", name + ": a missing scalar broadcast to an array is not missing");
            for (char *p : r.gap)
              x.check(eq(get(d, p, true), few_values(d)[0]), "broadcast gap", name + ": an element outside the destination changed");
          } else
            x.check(e != "", "broadcast NA to value", name + ": a missing scalar was broadcast to plain values");
        }
        {
          MC_CASE(x, "%s: scalar to array", name.c_str());
          nd::array a = scalar(s, sopt, good[0].first);
          Arr r = make(d, dopt, std::vector<E>(3, few_values(d)[0]), REVERSED, few_values(d)[0]);
          S e = run([&] { r.a.assign(a); });
          x.check(e == "", "broadcast error", name + ": broadcast " + e);
          for (char *p : r.at)
            x.check(eq(get(d, p, dopt), good[0].second), "broadcast", name + ": a scalar broadcast to an array became " + show(d, get(d, p, dopt)));
        }
        if (!bad.empty())
          for (int n = 1; n <= 3; ++n)
            for (int at = 0; at < n; ++at)
              for (int m = 0; m < (sopt ? 2 : 1); ++m) {
                MC_CASE(x, "%s: n %d with an inconvertible value at %d, others %d", name.c_str(), n, at, m);
                std::vector<int> pick(n, m ? -1 : 0);
                pick[at] = -2;
                trial(pick, 0, 0);
              }
        // around the chunk size of the kernels
        for (size_t n : big_sizes(x.thorough()))
          for (int sl = 0; sl < 2; ++sl) {
            std::vector<std::vector<int>> ps;
            std::vector<int> base;
            for (size_t i = 0; i < n; ++i)
              base.push_back((int)i);
            ps.push_back(base);
            if (sopt) {
              ps.push_back(std::vector<int>(n, -1));
              for (int ph = 0; ph < 2; ++ph) {
                auto p = base;
                for (size_t i = ph; i < n; i += 2)
                  p[i] = -1;
                ps.push_back(p);
              }
              for (size_t at : {(size_t)0, (size_t)126, (size_t)127, (size_t)128, (size_t)129, (size_t)255, (size_t)256, n - 1})
                if (at < n) {
                  auto p = base;
                  p[at] = -1;
                  ps.push_back(p);
                  if (!dopt)
                    continue;
                  for (size_t i = 0; i < n; ++i)
                    p[i] = i == at ? (int)i : -1;
                  ps.push_back(p);
                  for (size_t i = 0; i < n; ++i)
                    p[i] = i >= at ? (int)i : -1;
                  ps.push_back(p);
                }
            }
            for (size_t k = 0; k < ps.size(); ++k) {
              MC_CASE(x, "%s: %zu elements %s, pattern %zu", name.c_str(), n, lay_name[sl], k);
              trial(ps[k], sl, sl);
            }
          }
      }
  // the error modes reach the value conversion inside an option
  x.section("modes");
  static const assign_error_mode modes[] = {assign_error_nocheck, assign_error_overflow, assign_error_fractional, assign_error_inexact};
  static const char *mode_name[] = {"nocheck", "overflow", "fractional", "inexact"};
  for (int si = 0; si < NNUM; ++si)
    for (int di = 0; di < NNUM; ++di) {
      if (!x.unit())
        continue;
      const T &s = types[si], &d = types[di];
      std::vector<E> vs = few_values(s);
      __int128 one = 1;
      if (s.k == SINT || s.k == UINT)
        for (int b = 6; b < 8 * s.size; ++b)
          for (int dl = -1; dl <= 1; ++dl) {
            vs.push_back(num(s, (one << b) + dl));
            if (s.k == SINT)
              vs.push_back(num(s, -(one << b) + dl));
          }
      else if (s.k == FLT || s.k == CPLX)
        for (double f : {0.1, -0.5, 1e-30, 128.0, 256.0, 32768.0, 65536.0, 2147483648.0, -2147483648.0, 16777217.0, 1e19, 1e300, 3.5e38})
          vs.push_back(real(s, f));
      for (int m = 0; m < 4; ++m)
        for (const E &v : vs) {
          if (v.na)
            continue;
          if (m == 0 && s.k >= FLT && d.k < FLT)
            continue; // unchecked, out of range: no defined result
          Conv c = convert_one(s, d, v, modes[m]);
          for (int k = 0; k < 3; ++k) { // value to option, option to value, option to option
            bool sopt = k != 0, dopt = k != 1;
            MC_CASE(x, "%s %s of %s to %s", mode_name[m], show(s, v).c_str(), elt(s, sopt).c_str(), elt(d, dopt).c_str());
            S o = elt(s, sopt) + " to " + elt(d, dopt) + " " + mode_name[m] + ": " + show(s, v);
            for (int n = 0; n < 4; n += 3) {
              E fill = few_values(d)[0];
              std::vector<E> src(n, v);
              if (n && sopt && dopt)
                src[0] = missing(s);
              Arr a = make(s, sopt, src, CONTIG, v), b = make(d, dopt, std::vector<E>(n, fill), GAPS, fill);
              nd::array sa = n ? a.a : scalar(s, sopt, v), sb = n ? b.a : scalar(d, dopt, fill);
              x.trans();
              S e = run([&] { sb.assign(sa, modes[m]); });
              if ((e == "") != c.ok) {
                x.check(false, "mode", o + (c.ok ? " " + e : S(" was assigned without an error")));
                continue;
              }
              if (!c.ok || (dopt && is_missing(d, c.e.raw)))
                continue;
              for (int i = 0; i < (n ? n : 1); ++i) {
                E g = get(d, n ? b.at[i] : sb.cdata(), dopt);
                E w = n && src[i].na ? missing(d) : c.e;
                x.check(eq(g, w), "mode value", o + " became " + show(d, g) + ", expected " + show(d, w));
              }
            }
          }
        }
    }
  // any NaN of a float is missing once it is an option
  x.section("nan");
  for (int si = 11; si <= 12; ++si)
    for (int di = 0; di < NNUM; ++di) {
      if (!x.unit())
        continue;
      const T &s = types[si], &d = types[di];
      if (!convert_one(s, d, real(s, 1)).ok)
        continue;
      for (const E &v : all_values(s)) {
        if (!v.na)
          continue;
        for (int sopt = 0; sopt < 2; ++sopt)
          for (int n = 0; n < 4; ++n) {
            MC_CASE(x, "NaN of %s%s to ?%s, n %d", sopt ? "?" : "", s.n, d.n, n);
            S o = elt(s, sopt) + " to " + elt(d, true) + ": ";
            std::vector<E> src(n, real(s, 1));
            if (n)
              src[n / 2] = v;
            Arr a = make(s, sopt, src, n % 3, v), b = make(d, true, std::vector<E>(n, few_values(d)[0]), n % 2, few_values(d)[0]);
            nd::array sa = n ? a.a : scalar(s, sopt, v), sb = n ? b.a : scalar(d, true, few_values(d)[0]);
            S e = run([&] { sb.assign(sa); });
            x.check(e == "", "nan error", o + e);
            x.check(get(d, n ? b.at[n / 2] : sb.cdata(), true).na, "nan", o + "a NaN did not become a missing value");
          }
      }
    }
}

// ---------------------------------------------------------------------------------------------------------------------
static bool ieq(const S &a, const char *b) {
  if (a.size() != strlen(b))
    return false;
  for (size_t i = 0; i < a.size(); ++i)
    if (tolower((unsigned char)a[i]) != b[i])
      return false;
  return true;
}
static bool na_word(const S &s) { return s == "" || s == "NA" || ieq(s, "null") || s == "None"; }
static void texts(mc::X &x) {
  x.section("text");
  std::vector<S> words = {"",      "NA",   "na",    "Na",   "nA",   "NAN",  "nan",  "NaN",    "N",     "A",    "NAA",  " NA",  "NA ",
                          "null",  "NULL", "Null",  "nUlL", "nul",  "nulll", "NULL ", "None", "none",  "NONE", "Non",  "Nonee", "0",
                          "1",     "-1",   "2",     "7",    "127",  "128",  "-128", "-127",   "1.5",   "1e3",  "true", "false", "True",
                          "FALSE", "yes",  "no",    "on",   "off",  "x",    "1x",   "inf",    "-inf",  "32768", "2147483648", "9223372036854775808"};
  // every change of case of the three words
  for (const char *w : {"na", "null", "none"})
    for (int m = 0; m < 1 << strlen(w); ++m) {
      S s = w;
      for (size_t i = 0; i < s.size(); ++i)
        if (m >> i & 1)
          s[i] = (char)toupper(s[i]);
      words.push_back(s);
    }
  std::sort(words.begin(), words.end());
  words.erase(std::unique(words.begin(), words.end()), words.end());
  const char *stypes[] = {"string", "?string", "fixed_string[24]", "fixed_string[24,'utf16']"};
  for (const T &t : types)
    for (int st = 0; st < 4; ++st) {
      if (!x.unit() || t.k == BYT)
        continue;
      // whether there is any conversion of text
      auto src = [&](const S &w) {
        nd::array a = nd::empty(ty(stypes[st]));
        if (st < 2)
          reinterpret_cast<dynd::string *>(a.data())->assign(w.data(), w.size());
        else
          a.assign(nd::array(w));
        return a;
      };
      bool any = false;
      for (const S &w : words) {
        nd::array a = src(w), b = nd::empty(ty(t.n));
        any |= run([&] { b.assign(a); }) == "";
      }
      for (const S &w : words) {
        MC_CASE(x, "text %s of %s to ?%s", mc::quote(w).c_str(), stypes[st], t.n);
        S o = S(stypes[st]) + " " + mc::quote(w) + " to ?" + t.n + ": ";
        nd::array a = src(w), b = nd::empty(ty(t.n));
        bool ok = run([&] { b.assign(a); }) == "";
        E plain = ok ? get(t, b.cdata(), false) : E();
        E other = few_values(t)[0];
        nd::array c = scalar(t, true, other);
        x.trans();
        S e = run([&] { c.assign(a); });
        E g = get(t, c.cdata(), true);
        if (!any)
          x.check(e != "" || (na_word(w) && g.na), "no text conversion", o + "succeeded though text does not convert to " + t.n);
        else if (t.k == STR)
          x.check(e == "" && !g.na && g.raw == w, "text to ?string", o + "became " + show(t, g) + " " + e);
        else if (na_word(w) && st != 0) // only plain strings have to recognize the words
          x.check(e != "" || g.na, "NA word", o + "became " + show(t, g));
        else if (na_word(w))
          x.check(e == "" && g.na, "NA word", o + "became " + show(t, g) + " " + e);
        else if (ok) {
          if (!is_missing(t, plain.raw))
            x.check(e == "" && eq(g, plain), "word", o + "became " + show(t, g) + ", expected " + show(t, plain) + " " + e);
          else
            x.check(e != "" || g.na, "sentinel", o + "became " + show(t, g));
        } else
          x.check(e != "", "bad word", o + "became " + show(t, g) + " without an error");
        if (any && st == 0) { // in arrays
          for (int sl = 0; sl < 3; ++sl) {
            Arr d = make(t, true, std::vector<E>(3, other), sl, other);
            nd::array sa = nd::empty(ty("3 * string"));
            S one = t.k == STR ? "one" : "1";
            for (int i = 0; i < 3; ++i)
              reinterpret_cast<dynd::string *>(sa.data())[i].assign(i == 1 ? w.data() : one.data(), i == 1 ? w.size() : one.size());
            S e2 = run([&] { d.a.assign(sa); });
            x.check((e == "") == (e2 == ""), "array of text", o + "as an element of an array: " + e2);
            if (e2 == "") {
              x.check(eq(get(t, d.at[1], true), g), "text element", o + "as an element of an array became " + show(t, get(t, d.at[1], true)));
              x.check(!get(t, d.at[0], true).na && eq(get(t, d.at[0], true), get(t, d.at[2], true)), "text neighbours", o + "neighbours");
            }
            for (char *p : d.gap)
              x.check(eq(get(t, p, true), other), "text gap", o + "an element outside the destination changed");
          }
        }
        if (st == 0 && t.k != STR) {
          nd::array u = scalar(t, true, other);
          S e3 = run([&] { nd::set_option_from_utf8_string(u.get_type(), u->metadata(), u.data(), w, &eval::default_eval_context); });
          E h = get(t, u.cdata(), true);
          if (na_word(w))
            x.check(e3 == "" && h.na, "set NA word", o + "set_option_from_utf8_string gave " + show(t, h) + " " + e3);
          else if (any && ok && !is_missing(t, plain.raw))
            x.check(e3 == "" && eq(h, plain), "set word", o + "set_option_from_utf8_string gave " + show(t, h) + " " + e3);
          else if (any && !ok)
            x.check(e3 != "", "set bad word", o + "set_option_from_utf8_string gave " + show(t, h) + " without an error");
        }
      }
    }
}

// records and tuples with optional fields, alone and in arrays
static void records(mc::X &x) {
  x.section("records");
  struct P {
    int a, b;
  };
  std::vector<P> pairs = {{3, 12}, {1, 4}, {0, 15}, {15, 3}, {12, 13}, {16, 0}, {7, 11}, {5, 1}};
  for (auto &p : pairs)
    for (int tup = 0; tup < 2; ++tup)
      for (int other = 0; other < 2; ++other) {
        if (!x.unit())
          continue;
        const T &A = types[p.a], &B = types[p.b];
        auto rec = [&](bool oa, bool ob) {
          return tup ? "(" + elt(A, oa) + ", " + elt(B, ob) + ")" : "{x: " + elt(A, oa) + ", y: " + elt(B, ob) + "}";
        };
        // the destination fields are options too, or plain
        for (int dk = 0; dk < 4; ++dk)
          for (int n = 0; n <= 2; ++n)
            for (int m = 0; m < 1 << (2 * (n ? n : 1)); ++m) {
              S st = (n ? mc::fmt("%d * ", n) : S(n == 0 ? "" : "")) + rec(true, true);
              S dt = (n ? mc::fmt("%d * ", n) : S("")) + rec(dk & 1, dk & 2);
              if (other && n)
                dt = "var * " + rec(dk & 1, dk & 2);
              if (other && !n)
                continue;
              MC_CASE(x, "%s to %s pattern %d", st.c_str(), dt.c_str(), m);
              S o = st + " to " + dt + ": ";
              int k = n ? n : 1;
              bool err = false;
              std::vector<E> v, w;
              S e = run([&] {
                nd::array a = nd::empty(ty(st)), b = nd::empty(ty(dt));
                auto offs = [&](const ndt::type &t0, const char *md0, size_t *of) {
                  const char *md = md0;
                  ndt::type t = t0;
                  if (t.get_id() == fixed_dim_id) {
                    t = ndt::type(t.extended<ndt::fixed_dim_type>()->get_element_type());
                    md += sizeof(size_stride_t);
                  } else if (t.get_id() == var_dim_id) {
                    t = ndt::type(t.extended<ndt::var_dim_type>()->get_element_type());
                    md += sizeof(ndt::var_dim_type::metadata_type);
                  }
                  const uintptr_t *q = reinterpret_cast<const uintptr_t *>(md);
                  of[0] = q[0];
                  of[1] = q[1];
                  size_t stride = 0;
                  if (t0.get_id() == fixed_dim_id)
                    stride = reinterpret_cast<const size_stride_t *>(md0)->stride;
                  else if (t0.get_id() == var_dim_id)
                    stride = reinterpret_cast<const ndt::var_dim_type::metadata_type *>(md0)->stride;
                  return stride;
                };
                size_t so[2], dof[2];
                size_t ss = offs(a.get_type(), a->metadata(), so), ds = offs(b.get_type(), b->metadata(), dof);
                std::vector<E> va = few_values(A), vb = few_values(B);
                for (int i = 0; i < k; ++i)
                  for (int f = 0; f < 2; ++f) {
                    bool na = m >> (2 * i + f) & 1;
                    const T &t = f ? B : A;
                    E q = na ? missing(t) : f ? vb[i % vb.size()] : va[(i + 1) % va.size()];
                    v.push_back(q);
                    put(t, a.data() + i * ss + so[f], q);
                    err |= na && !(dk >> f & 1);
                  }
                x.trans();
                b.assign(a);
                if (err)
                  return;
                const char *bd = b.cdata();
                if (b.get_type().get_id() == var_dim_id) {
                  const auto *d = reinterpret_cast<const ndt::var_dim_type::data_type *>(bd);
                  x.check(d->size == (size_t)k, "record var size", o + mc::fmt("size %zu", d->size));
                  if (d->size != (size_t)k)
                    return;
                  bd = d->begin;
                }
                for (int i = 0; i < k; ++i)
                  for (int f = 0; f < 2; ++f) {
                    const T &t = f ? B : A;
                    E g = get(t, bd + i * ds + dof[f], dk >> f & 1);
                    x.check(eq(g, v[2 * i + f]), "record field", o + mc::fmt("row %d field %d became ", i, f) + show(t, g) + ", expected " + show(t, v[2 * i + f]));
                  }
              });
              if (err)
                x.check(e != "", "record error due", o + "a missing field was assigned to a plain field");
              else
                x.check(e == "", "record error", o + e);
            }
      }
}

static void body(mc::X &x) {
  values(x);
  arrays(x);
  conversions(x);
  texts(x);
  records(x);
}
MC_MAIN(body)
