// What types say about their structure, and the types made from them: every tree of concrete types within the bounds,
// compared with the same operations on the tree.
#include "mc.hpp"
#include <dynd/array.hpp>
#include <dynd/exceptions.hpp>
#include <dynd/index.hpp>
#include <dynd/types/fixed_dim_type.hpp>
#include <dynd/types/option_type.hpp>
#include <dynd/types/struct_type.hpp>
#include <dynd/types/tuple_type.hpp>
#include <dynd/types/var_dim_type.hpp>
#include <functional>
#include <memory>
using namespace dynd;
typedef std::string S;

enum K { SC, FIX, VAR, TUP, STR };
struct Node;
typedef std::shared_ptr<const Node> P;
struct Node {
  K k;
  S name; // of a scalar
  int n;  // of a fixed dimension
  std::vector<P> kids;
};
struct Scalar {
  const char *name;
  size_t size, align;
  bool pod;
};
static const Scalar scalars[] = {{"int8", 1, 1, true},
                                 {"float64", 8, 8, true},
                                 {"string", 0, 8, false},
                                 {"int16", 2, 2, true},
                                 {"bool", 1, 1, true},
                                 {"int32", 4, 4, true},
                                 {"complex[float64]", 16, 8, true},
                                 {"?int32", 4, 4, true},
                                 {"fixed_string[3, 'utf16']", 6, 2, true},
                                 {"fixed_bytes[6, align=2]", 6, 2, true},
                                 {"bytes", 0, 8, false},
                                 {"?int64", 8, 8, true},
                                 {"uint16", 2, 2, true},
                                 {"complex[float32]", 8, 4, true},
                                 {"float32", 4, 4, true},
                                 {"uint64", 8, 8, true}};
static const int NS = sizeof scalars / sizeof *scalars;
static P sc(const S &n) { return P(new Node{SC, n, 0, {}}); }
static P fix(int n, P e) { return P(new Node{FIX, "", n, {e}}); }
static P var(P e) { return P(new Node{VAR, "", 0, {e}}); }
static P rec(K k, std::vector<P> v) { return P(new Node{k, "", 0, v}); }
static S field(size_t i) { return mc::fmt("%c%zu", (char)('a' + i % 26), i); }
static S text(const P &p, const std::vector<int> *fields = nullptr) {
  switch (p->k) {
  case SC:
    return p->name;
  case FIX:
    return mc::fmt("%d * ", p->n) + text(p->kids[0]);
  case VAR:
    return "var * " + text(p->kids[0]);
  default: {
    S r = p->k == TUP ? "(" : "{";
    for (size_t i = 0; i < p->kids.size(); ++i)
      r += (i ? ", " : "") + (p->k == STR ? field(i) + ": " : S()) + text(p->kids[i]);
    return r + (p->k == TUP ? ")" : "}");
  }
  }
}
static bool dim(const P &p) { return p->k == FIX || p->k == VAR; }
static int ndim(const P &p) { return dim(p) ? 1 + ndim(p->kids[0]) : 0; }
static int strided(const P &p) { return p->k == FIX ? 1 + strided(p->kids[0]) : 0; }
static P strip(const P &p, int n) { return n ? strip(p->kids[0], n - 1) : p; }
static P with(const P &p, int keep, const P &in) { // the dtype below the first `keep` dimensions replaced
  if (!keep)
    return in;
  return p->k == FIX ? fix(p->n, with(p->kids[0], keep - 1, in)) : var(with(p->kids[0], keep - 1, in));
}
static bool any(const P &p, const std::function<bool(const Node &)> &f) {
  if (f(*p))
    return true;
  for (auto &c : p->kids)
    if (any(c, f))
      return true;
  return false;
}
static const Scalar *scalar(const S &n) {
  for (auto &s : scalars)
    if (n == s.name)
      return &s;
  return nullptr;
}
static size_t align(const P &p) {
  if (p->k == SC)
    return scalar(p->name)->align;
  if (p->k == VAR)
    return alignof(void *);
  size_t a = 1;
  for (auto &c : p->kids)
    a = std::max(a, align(c));
  return a;
}
// the size in the default layout, with the sizes of the few kinds whose layout is the library's own taken from it
static size_t size(const P &p) {
  switch (p->k) {
  case SC:
    return scalar(p->name)->size ? scalar(p->name)->size : ndt::type(p->name).get_data_size();
  case FIX:
    return p->n * size(p->kids[0]);
  case VAR:
    return 2 * sizeof(void *);
  default: {
    size_t o = 0;
    for (auto &c : p->kids) {
      o = (o + align(c) - 1) / align(c) * align(c);
      o += size(c);
    }
    return (o + align(p) - 1) / align(p) * align(p);
  }
  }
}
static ndt::type parse(const S &s) { return ndt::type(s.data(), s.data() + s.size()); }
template <class Fn>
static bool error(Fn fn, S *w = nullptr) {
  try {
    fn();
  } catch (const std::exception &e) {
    if (w)
      *w = e.what();
    return true;
  } catch (const dynd_exception &e) {
    if (w)
      *w = e.what();
    return true;
  }
  return false;
}
static bool is(mc::X &x, const char *cls, const S &what, const std::function<ndt::type()> &fn, const P &want) {
  ndt::type r;
  S w;
  x.trans();
  if (!x.check(!error([&] { r = fn(); }, &w), cls, what + " is refused: " + w))
    return false;
  S t = text(want);
  return x.check(r.str() == t, cls, what + " is " + r.str() + " instead of " + t) && x.check(r == parse(t), cls, what + " does not equal " + t);
}
static bool refused(mc::X &x, const char *cls, const S &what, const std::function<ndt::type()> &fn) {
  ndt::type r;
  x.trans();
  return x.check(error([&] { r = fn(); }), cls, what + " is " + r.str() + " instead of an error");
}

// --- indexing ---
struct Ix {
  int kind; // 0 integer, 1 everything, 2 a slice
  int a, b, s;
  irange r() const { return kind == 0 ? irange(a) : kind == 1 ? irange() : irange(a, b, s); }
  S str() const { return kind == 0 ? mc::fmt("%d", a) : kind == 1 ? ":" : mc::fmt("%d:%d:%d", a, b, s); }
};
static const Ix ixs[] = {{0, 0, 0, 0}, {0, 1, 0, 0}, {0, -1, 0, 0}, {1, 0, 0, 0}, {2, 0, 1, 1}, {2, 1, 3, 1}, {0, 2, 0, 0}, {0, -3, 0, 0}, {2, 0, 3, 2}};
// 0: nothing known, 1: an error, 2: the type in `out`
static int index(const P &p, const std::vector<Ix> &ix, size_t at, bool leading, P &out) {
  if (at == ix.size()) {
    out = p;
    return 2;
  }
  const Ix &i = ix[at];
  switch (p->k) {
  case SC:
    return p->name[0] == 'i' || p->name[0] == 'f' || p->name[0] == 'b' || p->name[0] == 's' || p->name[0] == 'u' ? 1 : 0;
  case FIX:
    if (i.kind == 0) {
      if (i.a >= p->n || i.a < -p->n)
        return 1;
      return index(p->kids[0], ix, at + 1, leading, out);
    }
    {
      P e;
      if (i.kind == 2) // slices as C01 has them; here, only those within
        if (i.b > p->n)
          return 0;
      int r = index(p->kids[0], ix, at + 1, false, e);
      if (r == 2)
        out = fix(i.kind == 1 ? p->n : (i.b - i.a + i.s - 1) / i.s, e);
      return r;
    }
  case VAR:
    if (i.kind == 0) {
      if (!leading)
        return 0;
      return index(p->kids[0], ix, at + 1, true, out);
    }
    if (i.kind == 1) {
      P e;
      int r = index(p->kids[0], ix, at + 1, false, e);
      if (r == 2)
        out = var(e);
      return r;
    }
    return 0;
  default: {
    int n = p->kids.size();
    if (i.kind == 0) {
      if (i.a >= n || i.a < -n)
        return 1;
      return index(p->kids[i.a < 0 ? i.a + n : i.a], ix, at + 1, leading, out);
    }
    return 0;
  }
  }
}

static bool builtin(const P &p) { return p->k == SC && ndt::type(p->name).is_builtin(); }

static void layout(mc::X &x, const P &p, const ndt::type &t, const char *arrmeta, size_t &meta) {
  switch (p->k) {
  case FIX: {
    const size_stride_t *m = reinterpret_cast<const size_stride_t *>(arrmeta);
    x.check(m->dim_size == p->n, "default layout", mc::fmt("dimension of %ld instead of %d", (long)m->dim_size, p->n));
    x.check(p->n < 2 || m->stride == (intptr_t)size(p->kids[0]), "default layout", mc::fmt("stride %ld of elements of %zu bytes", (long)m->stride, size(p->kids[0])));
    layout(x, p->kids[0], t.extended<ndt::base_dim_type>()->get_element_type(), arrmeta + sizeof(size_stride_t), meta);
    break;
  }
  case TUP:
  case STR: {
    const uintptr_t *o = reinterpret_cast<const uintptr_t *>(arrmeta);
    size_t end = 0;
    const std::vector<uintptr_t> &mo = p->k == TUP ? t.extended<ndt::tuple_type>()->get_arrmeta_offsets() : t.extended<ndt::struct_type>()->get_arrmeta_offsets();
    for (size_t i = 0; i < p->kids.size(); ++i) {
      size_t a = align(p->kids[i]);
      end = (end + a - 1) / a * a;
      x.check(o[i] == end, "default layout", mc::fmt("field %zu is at %zu instead of %zu", i, (size_t)o[i], end));
      end += size(p->kids[i]);
      ndt::type f = p->k == TUP ? t.extended<ndt::tuple_type>()->get_field_type(i) : t.extended<ndt::struct_type>()->get_field_type(i);
      layout(x, p->kids[i], f, arrmeta + mo[i], meta);
    }
    break;
  }
  default:
    break;
  }
}

static const P &repl(int i) {
  static const P r[] = {sc("int16"), fix(2, sc("float32")), rec(STR, {sc("string")}), var(sc("int8")), rec(TUP, {})};
  return r[i];
}

static void one(mc::X &x, const P &p) {
  S s = text(p);
  ndt::type t = parse(s);
  int n = ndim(p);
  x.state(mc::h64(s));
  x.check((int)t.get_ndim() == n, "number of dimensions", mc::fmt("%ld dimensions instead of %d", (long)t.get_ndim(), n));
  x.check((int)t.get_strided_ndim() == strided(p), "number of strided dimensions", mc::fmt("%ld instead of %d", (long)t.get_strided_ndim(), strided(p)));
  x.check(t.get_data_alignment() == align(p), "alignment", mc::fmt("alignment %zu instead of %zu", t.get_data_alignment(), align(p)));
  x.check(t.get_default_data_size() == size(p), "size", mc::fmt("default size %zu instead of %zu", t.get_default_data_size(), size(p)));
  x.check(!t.is_symbolic() && !t.is_variadic() && !t.is_expression(), "kind", "a concrete type is said to be symbolic, variadic or an expression");
  is(x, "canonical type", "the canonical type", [&] { return t.get_canonical_type(); }, p);
  is(x, "canonical type", "the type without memory type", [&] { return t.without_memory_type(); }, p);
  is(x, "canonical type", "the value type", [&] { return t.value_type(); }, p);
  is(x, "canonical type", "the storage type", [&] { return t.storage_type(); }, p);
  // at each dimension
  for (int i = 0; i <= n; ++i) {
    is(x, "type below dimensions", mc::fmt("the type below %d dimensions", i), [&] { return t.get_type_at_dimension(nullptr, i); }, strip(p, i));
    is(x, "type below dimensions", mc::fmt("the dtype with %d dimensions", n - i), [&] { return t.get_dtype(n - i); }, strip(p, i));
    x.check(t.is_type_subarray(parse(text(strip(p, i)))), "subarray", text(strip(p, i)) + " is not taken for a part");
    for (int r = 0; r < 5; ++r)
      is(x, "replaced dtype", mc::fmt("with %s for the dtype of %d dimensions", text(repl(r)).c_str(), i), [&] { return t.with_replaced_dtype(parse(text(repl(r))), i); },
         with(p, n - i, repl(r)));
    for (int m = 1; m <= 2; ++m) {
      P w = strip(p, i);
      for (int k = 0; k < m; ++k)
        w = fix(1, w);
      is(x, "new axis", mc::fmt("with %d axes at %d", m, i), [&] { return t.with_new_axis(i, m); }, with(p, i, w));
    }
  }
  for (int e = 1; e <= 2; ++e) {
    refused(x, "type below dimensions", mc::fmt("the type below %d dimensions", n + e), [&] { return t.get_type_at_dimension(nullptr, n + e); });
    refused(x, "type below dimensions", mc::fmt("the dtype with %d dimensions", n + e), [&] { return t.get_dtype(n + e); });
    refused(x, "replaced dtype", mc::fmt("with another dtype of %d dimensions", n + e), [&] { return t.with_replaced_dtype(parse("int16"), n + e); });
  }
  for (int r = 0; r < 5; ++r) {
    bool part = false;
    for (int i = 0; i <= n; ++i)
      part |= text(strip(p, i)) == text(repl(r));
    x.check(t.is_type_subarray(parse(text(repl(r)))) == part, "subarray", text(repl(r)) + (part ? " is not taken for a part" : " is taken for a part"));
  }
  // indexed
  for (size_t a = 0; a < sizeof ixs / sizeof *ixs; ++a)
    for (size_t b = 0; b <= sizeof ixs / sizeof *ixs; ++b) {
      std::vector<Ix> ix = {ixs[a]};
      if (b)
        ix.push_back(ixs[b - 1]);
      P want;
      int r = index(p, ix, 0, true, want);
      std::vector<irange> rr;
      S w = "indexed with ";
      for (auto &i : ix) {
        rr.push_back(i.r());
        w += (rr.size() > 1 ? "," : "") + i.str();
      }
      auto fn = [&] { return t.at_array(rr.size(), rr.data()); };
      if (r == 2)
        is(x, "indexed", w, fn, want);
      else if (r == 1)
        refused(x, "indexed", w, fn);
      else
        error(fn);
    }
  // layout
  size_t meta = 0;
  {
    nd::array a = nd::empty(t);
    layout(x, p, t, a.get()->metadata(), meta);
    x.check(reinterpret_cast<uintptr_t>(a.cdata()) % align(p) == 0, "default layout", "an array that is not aligned");
    // contiguous: certainly said of several numbers in the default layout, and never of a layout that is not
    bool numbers = strided(p) == n && n && builtin(strip(p, n)), several = numbers;
    for (int i = 0; several && i < n; ++i)
      several = strip(p, i)->n > 1;
    if (several)
      x.check(t.is_c_contiguous(a.get()->metadata()), "contiguous", "a new array is said not to be C contiguous");
    if (p->k == FIX && p->n > 1 && size(p)) {
      nd::array r = a(irange().by(-1));
      x.check(!r.get_type().is_c_contiguous(r.get()->metadata()), "contiguous", "a reversed array is said to be C contiguous");
      if (p->n > 2) {
        nd::array e = a(irange().by(2));
        x.check(!e.get_type().is_c_contiguous(e.get()->metadata()), "contiguous", "every other element is said to be C contiguous");
      }
      if (strided(p) > 1 && p->kids[0]->n > 1) {
        intptr_t ax[8] = {1, 0, 2, 3, 4, 5, 6, 7};
        nd::array u = a.permute(n, ax);
        x.check(!u.get_type().is_c_contiguous(u.get()->metadata()), "contiguous", "a transposed array is said to be C contiguous");
      }
    }
    if (dim(p)) {
      if (p->k == FIX)
        x.check(t.get_dim_size(a.get()->metadata(), a.cdata()) == p->n, "size", "the size of the dimension");
    } else if (p->k == SC)
      x.check(error([&] { t.get_dim_size(a.get()->metadata(), a.cdata()); }), "size", "the dimension of a scalar has a size");
  }
  bool refs = any(p, [](const Node &q) { return q.k == VAR || (q.k == SC && !scalar(q.name)->pod); });
  if (size(p) && p->k != TUP && p->k != STR)
    x.check(t.is_pod() == !refs || !t.get_data_size(), "plain data", refs ? "a type with references is said to be plain data" : "plain data is said not to be");
  // properties
  S w;
  bool ok = !error([&] {
    if (dim(p)) {
      x.check(t.p<ndt::type>("element_type") == parse(text(p->kids[0])), "property", "element_type");
      if (p->k == FIX)
        x.check(t.p<intptr_t>("fixed_dim_size") == p->n, "property", "fixed_dim_size");
    } else if (p->k == TUP || p->k == STR) {
      const std::vector<ndt::type> &f = p->k == TUP ? t.extended<ndt::tuple_type>()->get_field_types() : t.extended<ndt::struct_type>()->get_field_types();
      x.check(f.size() == p->kids.size(), "property", "number of fields");
      for (size_t i = 0; i < f.size(); ++i) {
        x.check(f[i] == parse(text(p->kids[i])), "property", mc::fmt("field %zu", i));
        if (p->k == STR) {
          x.check(t.extended<ndt::struct_type>()->get_field_name(i) == field(i), "property", mc::fmt("name of field %zu", i));
          x.check(t.extended<ndt::struct_type>()->get_field_index(field(i)) == (intptr_t)i, "property", mc::fmt("index of field %zu", i));
        }
      }
      if (p->k == STR)
        x.check(t.extended<ndt::struct_type>()->get_field_index("none") < 0, "property", "a field that is not there has an index");
    }
  }, &w);
  x.check(ok, "property", w);
}

static void body(mc::X &x) {
  bool th = x.thorough();
  std::vector<P> lv[5];
  for (auto &s : scalars)
    lv[0].push_back(sc(s.name));
  auto some = [](const std::vector<P> &v, size_t k) {
    std::vector<P> r;
    for (size_t i = 0; i < v.size() && r.size() < k; i += std::max<size_t>(1, v.size() / k))
      r.push_back(v[i]);
    return r;
  };
  auto over = [&](const std::vector<P> &one, const std::vector<P> &two, const std::vector<P> &three, std::vector<P> &out) {
    for (K k : {TUP, STR})
      out.push_back(rec(k, {}));
    for (auto &a : one) {
      for (int n : {0, 1, 2, 3})
        out.push_back(fix(n, a));
      out.push_back(var(a));
      for (K k : {TUP, STR})
        out.push_back(rec(k, {a}));
    }
    for (auto &a : two)
      for (auto &b : two)
        for (K k : {TUP, STR})
          out.push_back(rec(k, {a, b}));
    for (auto &a : three)
      for (auto &b : three)
        for (auto &c : three)
          out.push_back(rec(STR, {a, b, c}));
  };
  over(lv[0], lv[0], some(lv[0], th ? 12 : 6), lv[1]);
  std::vector<P> mix = some(lv[1], th ? 20 : 10);
  mix.push_back(lv[0][0]);
  mix.push_back(lv[0][1]);
  over(lv[1], mix, some(mix, th ? 8 : 5), lv[2]);
  over(some(lv[2], th ? 3000 : 300), some(lv[2], th ? 20 : 9), some(lv[2], th ? 8 : 4), lv[3]);
  over(some(lv[3], th ? 3000 : 200), {}, {}, lv[4]);
  // dimensions of every kind one over the other
  std::function<void(P, int)> stack = [&](P p, int d) {
    if (d > 1)
      lv[4].push_back(p);
    if (d == (th ? 6 : 5))
      return;
    stack(fix(d % 3 + 1, p), d + 1);
    stack(var(p), d + 1);
  };
  for (int s : {0, 1, 2, 7})
    stack(lv[0][s], 0);
  stack(rec(STR, {lv[0][0], lv[0][1]}), 0);
  x.section("structure of types");
  for (int l = 0; l < 5; ++l)
    for (size_t k0 = 0; k0 < lv[l].size(); k0 += 20) {
      if (!x.unit())
        continue;
      for (size_t k = k0; k < std::min(k0 + 20, lv[l].size()); ++k) {
        MC_CASE_S(x, text(lv[l][k]));
        one(x, lv[l][k]);
      }
    }
  x.section("records of many fields");
  for (int n = 0; n <= (th ? 80 : 40); ++n) {
    if (!x.unit())
      continue;
    for (int r = 0; r < 2 * NS; ++r) {
      std::vector<P> f;
      for (int i = 0; i < n; ++i)
        f.push_back(lv[0][(r % NS + i * (r / NS + 1) * 3) % NS]);
      P p = rec(r % 2 ? TUP : STR, f);
      MC_CASE(x, "%d fields, pattern %d", n, r);
      one(x, p);
    }
  }

  x.section("lossless conversions");
  {
    // of numbers: exactly the mathematical inclusions the library promises to know: never claimed where a value may be lost
    struct N {
      const char *name;
      int kind, bits, prec; // kind: 0 bool, 1 int, 2 uint, 3 float, 4 complex
    };
    static const N ns[] = {{"bool", 0, 1, 0},    {"int8", 1, 7, 0},    {"int16", 1, 15, 0},  {"int32", 1, 31, 0},   {"int64", 1, 63, 0},
                           {"uint8", 2, 8, 0},   {"uint16", 2, 16, 0}, {"uint32", 2, 32, 0}, {"uint64", 2, 64, 0},  {"float32", 3, 24, 8},
                           {"float64", 3, 53, 11}, {"complex[float32]", 4, 24, 8}, {"complex[float64]", 4, 53, 11}};
    for (auto &d : ns) {
      if (!x.unit())
        continue;
      for (auto &s : ns) {
        MC_CASE(x, "%s from %s", d.name, s.name);
        bool fits;
        if (s.kind == 0)
          fits = true;
        else if (d.kind == 0)
          fits = false;
        else if (s.kind <= 2)
          fits = d.kind == 1 ? d.bits >= s.bits : d.kind == 2 ? s.kind == 2 && d.bits >= s.bits : d.bits >= s.bits;
        else
          fits = d.kind >= s.kind && d.bits >= s.bits;
        for (int o = 0; o < 4; ++o) { // options of them: a missing value has no place in a plain number
          x.trans();
          bool got = is_lossless_assignment(parse(S(o & 1 ? "?" : "") + d.name), parse(S(o & 2 ? "?" : "") + s.name)), want = fits && o != 2;
          x.check(got == want, "lossless", S(o & 1 ? "to an option, " : "") + (o & 2 ? "from an option, " : "") + (got ? "is said to keep every value" : "is said not to keep every value"));
        }
        x.state(mc::h64(S(d.name) + s.name));
      }
    }
  }
}
MC_MAIN(body)
