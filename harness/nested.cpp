// Indexing of arrays with ragged dimensions, tuples and structs at any depth, and views of such views: every scalar
// of the result must be, by its address, the scalar of the base array that the index arithmetic names.
#include "mc.hpp"
#include <dynd/array.hpp>
#include <dynd/exceptions.hpp>
#include <dynd/json_parser.hpp>
#include <dynd/types/fixed_dim_type.hpp>
#include <dynd/types/pointer_type.hpp>
#include <dynd/types/struct_type.hpp>
#include <dynd/types/tuple_type.hpp>
#include <dynd/types/var_dim_type.hpp>
using namespace dynd;
typedef std::string S;
const intptr_t OPEN_LO = std::numeric_limits<intptr_t>::min(), OPEN_HI = std::numeric_limits<intptr_t>::max();

struct Ix {
  intptr_t a, b, s;
  irange r() const { return s == 0 ? irange(a) : irange(a, b, s); }
  bool nop() const { return a == OPEN_LO && b == OPEN_HI && s == 1; }
  S str() const {
    if (s == 0)
      return mc::fmt("%ld", (long)a);
    S x = a == OPEN_LO ? "" : mc::fmt("%ld", (long)a), y = b == OPEN_HI ? "" : mc::fmt("%ld", (long)b);
    return x + ":" + y + (s == 1 ? "" : mc::fmt(":%ld", (long)s));
  }
};
// positions selected on an axis of size n; false if out of bounds
static bool pick(intptr_t n, const Ix &x, std::vector<intptr_t> &out) {
  intptr_t a = x.a, b = x.b, step = x.s;
  out.clear();
  if (step == 0) {
    if (a < -n || a >= n)
      return false;
    out.push_back(a < 0 ? a + n : a);
    return true;
  }
  if (step > 0) {
    if (a >= n)
      return false; // a start beyond the last element is an error, one before the first means the first
    a = a < -n ? 0 : a < 0 ? a + n : a;
    if (b < -n)
      return false;
    b = b > n ? n : b < 0 ? b + n : b;
    for (intptr_t i = a; i < b; i += step)
      out.push_back(i);
  } else {
    if (a == OPEN_LO)
      a = n - 1;
    else if (a < -n || a >= n)
      return false;
    else
      a = a < 0 ? a + n : a;
    if (b == OPEN_HI)
      b = -1;
    else if (b >= n)
      return false;
    else
      b = b < -n ? -1 : b < 0 ? b + n : b;
    for (intptr_t i = a; i > b; i += step)
      out.push_back(i);
  }
  return true;
}
// a value: a leaf with its number, or a list
struct N {
  bool leaf = true;
  long id = 0;
  std::vector<N> c;
  S str() const {
    if (leaf)
      return mc::fmt("%ld", id);
    S s = "[";
    for (size_t i = 0; i < c.size(); ++i)
      s += (i ? "," : "") + c[i].str();
    return s + "]";
  }
};
// a type: leaf, fixed, var, tuple or struct
struct Y {
  char k = 'i';
  intptr_t n = 0;
  std::vector<Y> f;
  std::vector<S> names;
  bool ptr = false; // reached through a pointer, which indexing does not collapse
  S str() const {
    switch (k) {
    case 'f':
      return mc::fmt("%ld * ", (long)n) + f[0].str();
    case 'v':
      return "var * " + f[0].str();
    case 't':
    case 's': {
      S s = k == 't' ? "(" : "{";
      for (size_t i = 0; i < f.size(); ++i)
        s += (i ? ", " : "") + (k == 's' ? names[i] + ": " : S()) + f[i].str();
      return s + (k == 't' ? ")" : "}");
    }
    }
    return "int32";
  }
};
static Y I() { return Y(); }
static Y F(intptr_t n, Y e) {
  Y y;
  y.k = 'f';
  y.n = n;
  y.f = {e};
  return y;
}
static Y W(Y e) {
  Y y;
  y.k = 'v';
  y.f = {e};
  return y;
}
static Y Tu(std::vector<Y> f) {
  Y y;
  y.k = 't';
  y.f = f;
  return y;
}
static Y St(std::vector<Y> f) {
  Y y;
  y.k = 's';
  y.f = f;
  for (size_t i = 0; i < f.size(); ++i)
    y.names.push_back(S(1, "abcd"[i]));
  return y;
}
// numbers the leaves in order; var dimensions take the sizes given in turn
static N make(const Y &y, const std::vector<int> &sizes, size_t &is, long &id) {
  N n;
  if (y.k == 'i') {
    n.id = ++id;
    return n;
  }
  n.leaf = false;
  size_t m = y.k == 'f' ? y.n : y.k == 'v' ? sizes[is++ % sizes.size()] : y.f.size();
  for (size_t i = 0; i < m; ++i)
    n.c.push_back(make(y.k == 'f' || y.k == 'v' ? y.f[0] : y.f[i], sizes, is, id));
  return n;
}
// The type of the result; st is set to 'x' where the type alone makes it an error, to 'u' where a slice of a var
// dimension or the end of an inner one is wanted, which dynd may reject as not implemented
static Y tindex(const Y &y, const std::vector<Ix> &ix, size_t i, bool leading, char &st);
static Y tindex1(const Y &y, const std::vector<Ix> &ix, size_t i, bool leading, char &st) {
  if (i == ix.size())
    return y;
  if (y.k == 'i') {
    st = 'x';
    return y;
  }
  std::vector<intptr_t> p;
  if (y.k == 'v') {
    if (ix[i].s == 0) {
      if (!leading && ix[i].a < 0 && st != 'x')
        st = 'u';
      Y r = tindex(y.f[0], ix, i + 1, leading, st);
      r.ptr = r.ptr || !leading;
      return r;
    }
    if (!ix[i].nop() && st != 'x')
      st = 'u';
    Y r = y;
    r.f[0] = tindex(y.f[0], ix, i + 1, false, st);
    return r;
  }
  if (!pick(y.k == 'f' ? y.n : (intptr_t)y.f.size(), ix[i], p)) {
    st = 'x';
    return y;
  }
  if (ix[i].s == 0)
    return tindex(y.k == 'f' ? y.f[0] : y.f[p[0]], ix, i + 1, leading, st);
  Y r = y;
  if (y.k == 'f') {
    r.n = p.size();
    r.f[0] = tindex(y.f[0], ix, i + 1, false, st);
    return r;
  }
  r.f.clear();
  r.names.clear();
  for (intptr_t q : p) {
    r.f.push_back(tindex(y.f[q], ix, i + 1, false, st));
    if (y.k == 's')
      r.names.push_back(y.names[q]);
  }
  return r;
}
static Y tindex(const Y &y, const std::vector<Ix> &ix, size_t i, bool leading, char &st) {
  Y r = tindex1(y, ix, i, leading && !y.ptr, st);
  r.ptr = r.ptr || y.ptr;
  return r;
}
// The value of the result; inner is set where an index of a var dimension below another kept dimension is out of
// bounds, oob where it is out of bounds with nothing kept above
static N vindex(const Y &y, const N &n, const std::vector<Ix> &ix, size_t i, bool leading, bool &oob, bool &inner) {
  leading = leading && !y.ptr;
  if (i == ix.size() || n.leaf)
    return n;
  std::vector<intptr_t> p;
  if (!pick(n.c.size(), ix[i], p)) {
    (leading ? oob : inner) = true;
    return n;
  }
  if (ix[i].s == 0)
    return vindex(y.k == 'f' || y.k == 'v' ? y.f[0] : y.f[p[0]], n.c[p[0]], ix, i + 1, leading, oob, inner);
  N r;
  r.leaf = false;
  for (intptr_t q : p)
    r.c.push_back(vindex(y.k == 'f' || y.k == 'v' ? y.f[0] : y.f[q], n.c[q], ix, i + 1, false, oob, inner));
  return r;
}
// the scalars of an array by address; names each by the number of the base scalar at that address, or -1
typedef std::map<const char *, long> Addr;
static N walk(const ndt::type &tp, const char *am, const char *d, Addr &at, bool add) {
  N n;
  const ndt::base_type *e = tp.extended();
  if (tp.is_builtin()) {
    if (add) {
      long id = at.size() + 1;
      at[d] = id;
    }
    auto it = at.find(d);
    n.id = it == at.end() ? -1 : it->second;
    return n;
  }
  if (tp.get_id() == pointer_id) {
    auto *md = reinterpret_cast<const pointer_type_arrmeta *>(am);
    return walk(static_cast<const ndt::pointer_type *>(e)->get_target_type(), am + sizeof(*md),
                *reinterpret_cast<char *const *>(d) + md->offset, at, add);
  }
  n.leaf = false;
  if (tp.get_id() == fixed_dim_id) {
    auto *md = reinterpret_cast<const fixed_dim_type_arrmeta *>(am);
    for (intptr_t i = 0; i < md->dim_size; ++i)
      n.c.push_back(walk(static_cast<const ndt::fixed_dim_type *>(e)->get_element_type(), am + sizeof(*md),
                         d + i * md->stride, at, add));
  } else if (tp.get_id() == var_dim_id) {
    auto *md = reinterpret_cast<const ndt::var_dim_type::metadata_type *>(am);
    auto *v = reinterpret_cast<const ndt::var_dim_type::data_type *>(d);
    for (size_t i = 0; i < v->size; ++i)
      n.c.push_back(walk(static_cast<const ndt::var_dim_type *>(e)->get_element_type(), am + sizeof(*md),
                         v->begin + md->offset + i * md->stride, at, add));
  } else if (tp.get_id() == tuple_id) {
    auto *t = static_cast<const ndt::tuple_type *>(e);
    for (intptr_t i = 0; i < t->get_field_count(); ++i)
      n.c.push_back(walk(t->get_field_type(i), am + t->get_arrmeta_offset(i),
                         d + reinterpret_cast<const uintptr_t *>(am)[i], at, add));
  } else if (tp.get_id() == struct_id) {
    auto *t = static_cast<const ndt::struct_type *>(e);
    for (intptr_t i = 0; i < t->get_field_count(); ++i)
      n.c.push_back(walk(t->get_field_type(i), am + t->get_arrmeta_offset(i),
                         d + reinterpret_cast<const uintptr_t *>(am)[i], at, add));
  } else {
    n.id = -2;
  }
  return n;
}
static N walk(const nd::array &a, Addr &at, bool add) {
  return walk(a.get_type(), a.get()->metadata(), a.cdata(), at, add);
}
static S tstr(const ndt::type &tp) {
  std::ostringstream o;
  o << tp;
  S s = o.str(), r;
  for (size_t p; (p = s.find("pointer[")) != S::npos;)
    s.erase(p, 8);
  for (char c : s)
    if (c != ']')
      r += c;
  return r;
}
// what printing shows, without white space
static S shown(const nd::array &a) {
  std::ostringstream o;
  o << a;
  S s = o.str(), r;
  size_t p = s.find("array("), q = s.rfind(",\n");
  for (char c : p == S::npos || q == S::npos ? s : s.substr(p + 6, q - p - 6))
    if (c != ' ' && c != '\n')
      r += c;
  return r;
}
struct Base {
  Y y;
  std::vector<int> sizes;
};
static const std::vector<Base> &bases() {
  static std::vector<Base> b = {
      {W(I()), {3}},
      {W(I()), {0}},
      {F(2, W(I())), {3, 2}},
      {W(F(3, I())), {2}},
      {W(W(I())), {2, 3, 1}},
      {W(W(I())), {2, 0, 2}},
      {F(2, F(2, W(I()))), {1, 2, 3, 2}},
      {F(2, W(F(2, I()))), {2, 1}},
      {W(F(2, W(I()))), {2, 1, 2, 3, 2}},
      {F(1, W(W(I()))), {2, 2, 2}},
      {Tu({F(3, I()), F(2, I())}), {1}},
      {St({F(3, I()), F(2, I())}), {1}},
      {Tu({F(2, F(3, I())), F(3, F(2, I())), F(2, F(2, I()))}), {1}},
      {F(2, St({W(I()), I()})), {2, 1}},
      {W(St({I(), F(2, I())})), {2}},
      {Tu({St({I(), F(2, I())}), F(3, I())}), {1}},
      {F(2, Tu({I(), F(2, Tu({I(), I()}))})), {1}},
      {St({F(2, W(I())), W(F(2, I()))}), {2, 3, 2}},
      {Tu({W(I()), W(W(I())), F(2, I())}), {2, 2, 1, 2}},
      {St({W(St({F(2, I()), I()})), I(), F(2, St({I()}))}), {2}},
      {W(Tu({W(I()), F(2, I())})), {2, 2, 3}},
      {F(2, F(3, Tu({F(2, I()), I()}))), {1}},
  };
  return b;
}
struct World {
  Y y;
  N n;
  nd::array a;
  Addr at;
};
static World world(const Base &b) {
  World w;
  w.y = b.y;
  size_t is = 0;
  long id = 0;
  w.n = make(b.y, b.sizes, is, id);
  S t = w.n.str();
  if (b.y.k == 's' || t.size()) {
    // structs are accepted as lists
    w.a = parse_json(ndt::type(b.y.str()), t, &dynd::eval::default_eval_context);
  }
  walk(w.a, w.at, true);
  return w;
}
static std::vector<Ix> alphabet(bool large) {
  std::vector<Ix> v = {{OPEN_LO, OPEN_HI, 1}, {0, 0, 0}, {1, 0, 0}, {-1, 0, 0}, {OPEN_LO, OPEN_HI, -1}, {1, OPEN_HI, 1},
                       {2, 0, 0}, {0, 1, 1}};
  if (large) {
    for (Ix x : std::vector<Ix>{{-2, 0, 0}, {3, 0, 0}, {-3, 0, 0}, {-4, 0, 0}, {OPEN_LO, 0, 1}, {-2, OPEN_HI, 1},
                                {OPEN_LO, OPEN_HI, 2}, {1, 2, 1}})
      v.push_back(x);
  }
  return v;
}
// the n-th sequence of indices of length 1..len over v
static std::vector<Ix> seq(const std::vector<Ix> &v, size_t k) {
  std::vector<Ix> r;
  size_t len = 1, m = v.size();
  while (k >= m) {
    k -= m;
    m *= v.size();
    ++len;
  }
  for (size_t i = 0; i < len; ++i, k /= v.size())
    r.push_back(v[k % v.size()]);
  return r;
}
static size_t nseq(size_t v, int len) {
  size_t n = 0, m = 1;
  for (int i = 0; i < len; ++i)
    n += (m *= v);
  return n;
}
static S name(const std::vector<Ix> &ix) {
  S s = "(";
  for (size_t i = 0; i < ix.size(); ++i)
    s += (i ? ", " : "") + ix[i].str();
  return s + ")";
}
// One index operation on an array with known type and value. Returns false when there is nothing to go on with.
static bool step(mc::X &x, World &w, Y &y, N &n, nd::array &a, const std::vector<Ix> &ix, bool collapse) {
  char st = '.';
  bool oob = false, inner = false;
  Y ty = tindex(y, ix, 0, collapse, st);
  N tn;
  if (st != 'x')
    tn = vindex(y, n, ix, 0, collapse, oob, inner);
  std::vector<irange> r;
  for (const Ix &i : ix)
    r.push_back(i.r());
  bool threw = false;
  S what;
  nd::array b;
  try {
    b = a.at_array(r.size(), r.data(), collapse);
  } catch (const dynd_exception &e) {
    threw = true;
    what = e.what();
  } catch (const std::exception &e) {
    threw = true;
    what = e.what();
  }
  x.trans();
  x.outcome(threw ? "error" : "view");
  if (st == 'x' || oob) {
    x.check(threw, "an index out of bounds or one too many is not reported", threw ? "" : tstr(b.get_type()));
    return false;
  }
  if (threw) {
    if (!inner && st != 'u')
      x.fail("a valid index is rejected", what.substr(0, 150));
    return false;
  }
  if (inner) {
    x.fail("an index beyond the end of an inner var dimension is not reported", tstr(b.get_type()));
    return false;
  }
  if (!x.check(tstr(b.get_type()) == ty.str(), "result has the wrong type", tstr(b.get_type()) + " for " + ty.str()))
    return false;
  N got = walk(b, w.at, false);
  if (!x.check(got.str() == tn.str(), "result does not denote the right elements", got.str() + " for " + tn.str()))
    return false;
  y = ty;
  n = tn;
  a = b;
  return true;
}
// what the library reads through the view, and that the view keeps the memory alive
static void use(mc::X &x, World &w, const N &n, nd::array &a) {
  w.a = nd::array();
  S want = n.str(), got = shown(a);
  x.check(got == want, "reading through the view", got + " for " + want);
}

static void body(mc::X &x) {
  size_t nb = bases().size();
  x.section("indices of nested arrays");
  {
    std::vector<Ix> v = alphabet(true);
    size_t ns = nseq(v.size(), x.thorough() ? 4 : 3), block = 512;
    for (size_t b = 0; b < nb; ++b) {
      for (size_t k0 = 0; k0 < ns; k0 += block) {
        if (!x.unit())
          continue;
        for (size_t k = k0; k < std::min(ns, k0 + block); ++k) {
          std::vector<Ix> ix = seq(v, k);
          for (int collapse = 0; collapse < 2; ++collapse) {
            MC_CASE_S(x, bases()[b].y.str() + " " + mc::fmt("#%d ", (int)b) + name(ix) + (collapse ? "" : " kept"));
            World w = world(bases()[b]);
            Y y = w.y;
            N n = w.n;
            nd::array a = w.a;
            if (step(x, w, y, n, a, ix, collapse)) {
              x.state(mc::h64(y.str() + n.str()));
              use(x, w, n, a);
            }
          }
        }
      }
    }
  }
  for (int deep = 0; deep < 2; ++deep) {
    // long sequences over few indices reach the dimensions behind the first one through two views
    x.section(deep ? "views of views of nested arrays, three indices" : "views of views of nested arrays");
    std::vector<Ix> v = alphabet(x.thorough());
    if (deep)
      v = x.thorough() ? std::vector<Ix>(v.begin(), v.begin() + 6) : std::vector<Ix>{v[0], v[1], v[2], v[5]};
    size_t ns = nseq(v.size(), deep ? 3 : 2);
    for (size_t b = 0; b < nb; ++b) {
      for (size_t k = 0; k < ns; ++k) {
        if (!x.unit())
          continue;
        std::vector<Ix> i1 = seq(v, k);
        for (size_t l = 0; l < ns; ++l) {
          std::vector<Ix> i2 = seq(v, l);
          MC_CASE_S(x, bases()[b].y.str() + " " + mc::fmt("#%d ", (int)b) + name(i1) + name(i2));
          World w = world(bases()[b]);
          Y y = w.y;
          N n = w.n;
          nd::array a = w.a;
          char st = '.';
          bool o1 = false, o2 = false;
          tindex(y, i1, 0, true, st);
          if (st != 'x')
            vindex(y, n, i1, 0, true, o1, o2);
          if (st == 'x' || o1 || o2)
            break; // section 1 has these
          if (step(x, w, y, n, a, i1, true) && step(x, w, y, n, a, i2, true)) {
            x.state(mc::h64(y.str() + n.str()));
            use(x, w, n, a);
          }
        }
      }
    }
  }
}
MC_MAIN(body)
