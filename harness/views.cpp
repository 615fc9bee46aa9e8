// Indexing, slicing and axis manipulation of arrays against a model that keeps, for every view, its shape and
// which element of the base array each position denotes.
#include "mc.hpp"
#include <dynd/array.hpp>
#include <dynd/array_iter.hpp>
#include <dynd/types/string_type.hpp>
#include <dynd/types/struct_type.hpp>
#include <dynd/types/var_dim_type.hpp>
#include <dynd/view.hpp>
using namespace dynd;
typedef std::string S;
typedef std::vector<intptr_t> Shape;
const intptr_t OPEN_LO = std::numeric_limits<intptr_t>::min(), OPEN_HI = std::numeric_limits<intptr_t>::max();

struct M {
  Shape shape;
  std::vector<int> ids;
  bool alias = true; // still shares memory with the base
  bool ok = true;
};
static intptr_t count(const Shape &s) {
  intptr_t n = 1;
  for (intptr_t v : s)
    n *= v;
  return n;
}
// positions selected by one index expression on an axis of size n; false if it is out of bounds
static bool select(intptr_t n, intptr_t a, intptr_t b, intptr_t step, std::vector<intptr_t> &out) {
  out.clear();
  if (step == 0) {
    if (a < -n || a >= n)
      return false;
    out.push_back(a < 0 ? a + n : a);
    return true;
  }
  if (step > 0) {
    if (a >= n)
      return false; // a start beyond the last element is an error, one before the first means the first
    a = a < -n ? 0 : a < 0 ? a + n : a;
    if (b < -n)
      return false;
    b = b > n ? n : b < 0 ? b + n : b;
    for (intptr_t i = a; i < b; i += step)
      out.push_back(i);
  } else {
    if (a == OPEN_LO)
      a = n - 1;
    else if (a < -n || a >= n)
      return false;
    else if (a < 0)
      a += n;
    if (b == OPEN_HI)
      b = -1;
    else if (b >= n)
      return false;
    else if (b >= -n)
      b = b < 0 ? b + n : b;
    else
      b = -1;
    for (intptr_t i = a; i > b; i += step)
      out.push_back(i);
  }
  return true;
}
struct Ix {
  intptr_t a, b, s;
  irange r() const { return s == 0 ? irange(a) : irange(a, b, s); }
  S str() const {
    if (s == 0)
      return mc::fmt("%ld", (long)a);
    S x = a == OPEN_LO ? "" : mc::fmt("%ld", (long)a), y = b == OPEN_HI ? "" : mc::fmt("%ld", (long)b);
    return x + ":" + y + (s == 1 ? "" : mc::fmt(":%ld", (long)s));
  }
};
static const Ix NOP = {OPEN_LO, OPEN_HI, 1};

static M m_index(const M &m, const std::vector<Ix> &ix) {
  M r;
  r.alias = m.alias;
  size_t nd = m.shape.size();
  if (ix.size() > nd) {
    r.ok = false;
    return r;
  }
  std::vector<std::vector<intptr_t>> sel(nd);
  for (size_t k = 0; k < nd; ++k) {
    Ix i = k < ix.size() ? ix[k] : NOP;
    if (!select(m.shape[k], i.a, i.b, i.s, sel[k])) {
      r.ok = false;
      return r;
    }
    if (i.s != 0)
      r.shape.push_back(sel[k].size());
  }
  intptr_t total = 1;
  for (auto &v : sel)
    total *= v.size();
  for (intptr_t q = 0; q < total; ++q) {
    intptr_t t = q, off = 0, mul = 1;
    for (int k = (int)nd - 1; k >= 0; --k) {
      off += sel[k][t % sel[k].size()] * mul;
      t /= sel[k].size();
      mul *= m.shape[k];
    }
    r.ids.push_back(m.ids[off]);
  }
  return r;
}
static M m_permute(const M &m, const std::vector<intptr_t> &ax) { // axes for the leading dims
  M r = m;
  size_t nd = m.shape.size();
  std::vector<intptr_t> p(nd);
  std::vector<int> seen(nd, 0);
  if (ax.size() > nd) {
    r.ok = false;
    return r;
  }
  for (size_t k = 0; k < nd; ++k) {
    p[k] = k < ax.size() ? ax[k] : k;
    if (p[k] < 0 || p[k] >= (intptr_t)nd || (k < ax.size() && p[k] >= (intptr_t)ax.size()) || seen[p[k]]++) {
      r.ok = false;
      return r;
    }
  }
  for (size_t k = 0; k < nd; ++k)
    r.shape[k] = m.shape[p[k]];
  std::vector<intptr_t> st(nd, 1);
  for (int k = (int)nd - 2; k >= 0; --k)
    st[k] = st[k + 1] * m.shape[k + 1];
  for (intptr_t q = 0; q < (intptr_t)m.ids.size(); ++q) {
    intptr_t t = q, off = 0;
    for (int k = (int)nd - 1; k >= 0; --k) {
      off += (t % r.shape[k]) * st[p[k]];
      t /= r.shape[k];
    }
    r.ids[q] = m.ids[off];
  }
  return r;
}

// --- element kinds ---
enum { INT, STR, REC };
static const char *kind_name[] = {"int32", "string", "{a: int32, b: string}"};
static S sval(int id) { return id % 2 ? mc::fmt("s%d", id) : mc::fmt("a heap allocated string %d", id); }

struct Base {
  nd::array a;
  char *data;
  intptr_t n, esize, off_a = 0, off_b = 0;
  int kind;
};
static ndt::type shape_type(const Shape &sh, const ndt::type &dt) {
  ndt::type t = dt;
  for (int k = (int)sh.size() - 1; k >= 0; --k)
    t = ndt::make_fixed_dim(sh[k], t);
  return t;
}
static ndt::type kind_type(int kind) {
  static ndt::type t[3] = {ndt::type("int32"), ndt::type("string"), ndt::type("{a: int32, b: string}")};
  return t[kind];
}
static Base make_base(const Shape &sh, int kind) {
  Base b;
  b.kind = kind;
  b.a = nd::empty(shape_type(sh, kind_type(kind)));
  b.n = count(sh);
  b.data = const_cast<char *>(b.a.cdata());
  b.esize = kind == INT ? 4 : kind == STR ? sizeof(dynd::string) : 0;
  if (kind == REC) {
    const uintptr_t *offs = reinterpret_cast<const uintptr_t *>(b.a->metadata() + sh.size() * sizeof(size_stride_t));
    b.off_a = offs[0];
    b.off_b = offs[1];
    std::vector<intptr_t> st = b.a.get_strides();
    b.esize = sh.empty() ? 24 : st.back() ? st.back() : 24;
  }
  for (int i = 0; i < b.n; ++i) {
    char *p = b.data + i * b.esize;
    if (kind == INT)
      *(int *)p = i;
    else if (kind == STR)
      *(dynd::string *)p = dynd::string(sval(i));
    else {
      *(int *)(p + b.off_a) = i;
      *(dynd::string *)(p + b.off_b) = dynd::string(sval(i));
    }
  }
  return b;
}
static bool elem_is(const Base &b, const char *p, int id) {
  if (b.kind == INT)
    return *(const int *)p == id;
  if (b.kind == STR) {
    const dynd::string *s = (const dynd::string *)p;
    return S(s->begin(), s->end()) == sval(id);
  }
  const dynd::string *s = (const dynd::string *)(p + b.off_b);
  return *(const int *)(p + b.off_a) == id && S(s->begin(), s->end()) == sval(id);
}

// Everything that can be observed through the view must agree with the model.
static S verify(const Base &b, const nd::array &v, const M &m, bool cheap) {
  if (v.get_ndim() != (intptr_t)m.shape.size())
    return mc::fmt("ndim %ld, expected %zu", (long)v.get_ndim(), m.shape.size());
  if (v.get_type() != shape_type(m.shape, kind_type(b.kind))) {
    std::ostringstream o;
    o << "type " << v.get_type();
    return o.str();
  }
  size_t nd_ = m.shape.size();
  std::vector<intptr_t> sh(nd_ + 1), st(nd_ + 1);
  v.get_shape(sh.data());
  v.get_strides(st.data());
  for (size_t k = 0; k < nd_; ++k)
    if (sh[k] != m.shape[k] || v.get_dim_size(k) != m.shape[k])
      return mc::fmt("dimension %zu has size %ld, expected %ld", k, (long)sh[k], (long)m.shape[k]);
  // strided walk over the raw memory
  for (size_t q = 0; q < m.ids.size(); ++q) {
    intptr_t t = q;
    const char *p = v.cdata();
    for (int k = (int)nd_ - 1; k >= 0; --k) {
      p += (t % sh[k]) * st[k];
      t /= sh[k];
    }
    if (!elem_is(b, p, m.ids[q]))
      return mc::fmt("element %zu (through the strides) is not base element %d", q, m.ids[q]);
    if (m.alias && p != b.data + m.ids[q] * b.esize)
      return mc::fmt("element %zu does not alias base element %d", q, m.ids[q]);
  }
  if (cheap)
    return "";
  // scalar indexing, with non-negative and negative indices
  for (size_t q = 0; q < m.ids.size() && nd_ > 0; ++q) {
    irange ix[8];
    intptr_t t = q;
    for (int k = (int)nd_ - 1; k >= 0; --k) {
      intptr_t i = t % sh[k];
      ix[k] = irange((q + k) % 2 ? i : i - sh[k]);
      t /= sh[k];
    }
    nd::array e = v.at_array(nd_, ix);
    if (e.get_ndim() != 0 || !elem_is(b, e.cdata(), m.ids[q]))
      return mc::fmt("element %zu (through indexing) is not base element %d", q, m.ids[q]);
  }
  // iteration over the leading axis
  if (nd_ > 0) {
    intptr_t per = m.shape[0] ? m.ids.size() / m.shape[0] : 0;
    for (intptr_t i = 0; i < m.shape[0]; ++i) {
      nd::array row = v(i);
      if (row.get_ndim() != (intptr_t)nd_ - 1 || (per && row.cdata() != v.cdata() + i * st[0]))
        return mc::fmt("row %ld is misplaced", (long)i);
    }
  }
  // a copy has the same values and shares nothing
  nd::array c = nd::empty(v.get_type());
  c.assign(v);
  {
    std::vector<intptr_t> cs(nd_ + 1);
    c.get_strides(cs.data());
    for (size_t q = 0; q < m.ids.size(); ++q) {
      intptr_t t = q, off = 0;
      for (int k = (int)nd_ - 1; k >= 0; --k) {
        off += (t % sh[k]) * cs[k];
        t /= sh[k];
      }
      if (!elem_is(b, c.cdata() + off, m.ids[q]))
        return mc::fmt("element %zu of a copy is not base element %d", q, m.ids[q]);
    }
  }
  if (b.kind == INT) {
    if (!v.equals_exact(c))
      return "a copy does not compare equal";
    if (!m.ids.empty() && nd_ > 0) {
      // change the last element of the copy: no longer equal
      char *p = c.data();
      std::vector<intptr_t> cs(nd_);
      c.get_strides(cs.data());
      for (size_t k = 0; k < nd_; ++k)
        p += cs[k] * (sh[k] - 1);
      *(int *)p = -7;
      if (v.equals_exact(c))
        return "a modified copy still compares equal";
    }
    if (nd_ == 1 && !m.ids.empty()) {
      const dynd::fixed<int> &f = const_cast<nd::array &>(v).view<dynd::fixed<int>>();
      for (size_t q = 0; q < m.ids.size(); ++q)
        if (f[q] != m.ids[q])
          return "typed view disagrees";
    }
  }
  return "";
}
// Assigning through the view changes exactly the elements it denotes.
static S write_through(const Base &b, const nd::array &v, const M &m) {
  if (!m.alias || b.kind != INT || m.ids.empty())
    return "";
  v.assign(nd::array(-5));
  std::vector<char> in(b.n, 0);
  for (int i : m.ids)
    in[i] = 1;
  for (int i = 0; i < b.n; ++i) {
    int x = ((int *)b.data)[i];
    if (x != (in[i] ? -5 : i))
      return mc::fmt("after assigning -5 through the view, base element %d is %d", i, x);
  }
  for (int i = 0; i < b.n; ++i)
    ((int *)b.data)[i] = i;
  return "";
}

// --- operations ---
struct Op {
  int kind;
  std::vector<Ix> ix;
  std::vector<intptr_t> p;
};
enum { INDEX, PERMUTE, ROTATE, TRANSPOSE, NEWAXIS, COPY, RESHAPE, VIEW };
static S opstr(const Op &o) {
  S s;
  switch (o.kind) {
  case INDEX: {
    s = "[";
    for (size_t i = 0; i < o.ix.size(); ++i)
      s += (i ? "," : "") + o.ix[i].str();
    return s + "]";
  }
  case PERMUTE:
    s = ".permute(";
    break;
  case ROTATE:
    s = ".rotate(";
    break;
  case TRANSPOSE:
    s = ".transpose(";
    break;
  case NEWAXIS:
    s = ".new_axis(";
    break;
  case COPY:
    s = ".eval_copy(";
    break;
  case RESHAPE:
    s = ".reshape(";
    break;
  case VIEW:
    s = ".view(";
    break;
  }
  for (size_t i = 0; i < o.p.size(); ++i)
    s += mc::fmt("%s%ld", i ? "," : "", (long)o.p[i]);
  return s + ")";
}
static M m_apply(const M &m, const Op &o) {
  M r = m;
  size_t nd = m.shape.size();
  switch (o.kind) {
  case INDEX:
    return m_index(m, o.ix);
  case PERMUTE:
    return m_permute(m, o.p);
  case TRANSPOSE: {
    std::vector<intptr_t> p;
    for (size_t i = 0; i < nd; ++i)
      p.push_back(nd - 1 - i);
    return m_permute(m, p);
  }
  case ROTATE: {
    intptr_t to = o.p[0], from = o.p[1];
    std::vector<intptr_t> p;
    for (intptr_t i = 0; i < (intptr_t)nd; ++i)
      if (i != from)
        p.push_back(i);
    p.insert(p.begin() + to, from);
    return m_permute(m, p);
  }
  case NEWAXIS:
    r.shape.insert(r.shape.begin() + o.p[0], o.p[1], 1);
    return r;
  case COPY:
    r.alias = false;
    return r;
  case RESHAPE:
    r.shape = o.p;
    return r;
  case VIEW:
    return r;
  }
  return r;
}
static nd::array apply(const nd::array &v, const Op &o) {
  switch (o.kind) {
  case INDEX: {
    std::vector<irange> r;
    for (auto &i : o.ix)
      r.push_back(i.r());
    return v.at_array(r.size(), r.data());
  }
  case PERMUTE:
    return v.permute(o.p.size(), o.p.data());
  case TRANSPOSE:
    return v.transpose();
  case ROTATE:
    return v.rotate(o.p[0], o.p[1]);
  case NEWAXIS:
    return v.new_axis(o.p[0], o.p[1]);
  case COPY:
    return v.eval_copy();
  case RESHAPE: {
    nd::array sh = nd::empty((intptr_t)o.p.size(), ndt::make_type<intptr_t>());
    for (size_t i = 0; i < o.p.size(); ++i)
      ((intptr_t *)sh.data())[i] = o.p[i];
    return nd::reshape(v, sh);
  }
  case VIEW: {
    S t;
    ndt::type dt = v.get_dtype();
    for (intptr_t i = 0; i < v.get_ndim(); ++i)
      t += "Fixed * ";
    std::ostringstream s;
    s << t << dt;
    return v.get_ndim() ? nd::old_view(v, ndt::type(s.str())) : v;
  }
  }
  throw std::logic_error("op");
}
static std::vector<Op> ops_for(const M &m, int kind, bool last) {
  std::vector<Op> r;
  size_t nd = m.shape.size();
  for (size_t k = 0; k < nd; ++k) {
    intptr_t n = m.shape[k];
    std::vector<Ix> c = {{0, 0, 0},      {-1, 0, 0},         {n / 2, 0, 0},       {n, 0, 0},          {-n - 1, 0, 0},
                         {1, OPEN_HI, 1}, {OPEN_LO, -1, 1},   {OPEN_LO, OPEN_HI, 2}, {OPEN_LO, OPEN_HI, -1},
                         {1, 1, 1},       {OPEN_LO, OPEN_HI, -2}, {-1, 0, -1},       {n, OPEN_HI, 1},  {1, n + 5, 1},
                         {-2, OPEN_HI, 1}};
    if (last) {
      c.push_back({-n - 3, n, 1});
      c.push_back({OPEN_LO, n, 3});
      c.push_back({n - 1, -n - 4, -2});
      c.push_back({OPEN_LO, -n - 1, 1});
      c.push_back({OPEN_LO, n + 3, -1});
    }
    for (auto &i : c) {
      Op o{INDEX, {}, {}};
      for (size_t j = 0; j < k; ++j)
        o.ix.push_back(NOP);
      o.ix.push_back(i);
      r.push_back(o);
    }
  }
  // two axes at once
  if (nd >= 2) {
    for (Ix i : {Ix{-1, 0, 0}, Ix{OPEN_LO, OPEN_HI, -1}, Ix{1, OPEN_HI, 1}})
      for (Ix j : {Ix{0, 0, 0}, Ix{OPEN_LO, OPEN_HI, 2}, Ix{OPEN_LO, OPEN_HI, -1}}) {
        r.push_back(Op{INDEX, {i, j}, {}});
        if (nd >= 3)
          r.push_back(Op{INDEX, {i, NOP, j}, {}});
      }
  }
  if (kind != REC) // a record may be indexed further, by field
    r.push_back(Op{INDEX, std::vector<Ix>(nd + 1, NOP), {}}); // too many
  r.push_back(Op{INDEX, {}, {}});
  if (nd >= 1) {
    for (size_t w = 2; w <= nd; ++w) {
      std::vector<intptr_t> p(w);
      for (size_t i = 0; i < w; ++i)
        p[i] = i;
      do
        r.push_back(Op{PERMUTE, {}, p});
      while (std::next_permutation(p.begin(), p.end()));
    }
    if (nd >= 2) {
      r.push_back(Op{PERMUTE, {}, {0, 0}});
      r.push_back(Op{PERMUTE, {}, {0, 2}});
    }
    std::vector<intptr_t> too(nd + 1);
    for (size_t i = 0; i <= nd; ++i)
      too[i] = nd - i;
    r.push_back(Op{PERMUTE, {}, too});
    r.push_back(Op{TRANSPOSE, {}, {}});
    for (size_t t = 0; t < nd; ++t)
      for (size_t f = 0; f < nd; ++f)
        r.push_back(Op{ROTATE, {}, {(intptr_t)t, (intptr_t)f}});
  }
  if (nd < 4)
    for (size_t i = 0; i <= nd; ++i)
      for (intptr_t n = 1; n <= (nd < 3 ? 2 : 1); ++n)
        if (nd > 0)
          r.push_back(Op{NEWAXIS, {}, {(intptr_t)i, n}});
  if (nd > 0) {
    r.push_back(Op{COPY, {}, {}});
    r.push_back(Op{VIEW, {}, {}});
  }
  if (last && kind == INT && nd > 0) {
    intptr_t n = count(m.shape);
    r.push_back(Op{RESHAPE, {}, {n}});
    r.push_back(Op{RESHAPE, {}, {1, n}});
    r.push_back(Op{RESHAPE, {}, {n, 1}});
    if (n % 2 == 0)
      r.push_back(Op{RESHAPE, {}, {n / 2, 2}});
    if (n % 3 == 0)
      r.push_back(Op{RESHAPE, {}, {3, n / 3}});
  }
  return r;
}

static S shstr(const Shape &s) { return mc::join(s); }
static void history(mc::X &x, const Base &b, const nd::array &v, const M &m, int depth, const S &h, int readonly,
                    std::set<S> &seen, bool root, size_t part, size_t parts) {
  std::vector<Op> ops = ops_for(m, b.kind, depth == 1);
  for (size_t i = root ? part : 0; i < ops.size(); i += root ? parts : 1) {
    const Op &o = ops[i];
    S hh = h + opstr(o);
    MC_CASE_S(x, hh);
    M nm = m_apply(m, o);
    nd::array nv;
    bool threw = false;
    S what;
    try {
      nv = apply(v, o);
    } catch (const std::exception &e) {
      threw = true;
      what = e.what();
    } catch (const dynd::dynd_exception &e) {
      threw = true;
      what = e.what();
    }
    x.trans();
    if (!nm.ok) {
      x.check(threw, "accepted", "an invalid operation was accepted");
      x.outcome("rejected");
      continue;
    }
    if (!x.check(!threw, "rejected", "threw: " + what))
      continue;
    if (o.kind == RESHAPE)
      nm.alias = nm.alias && nv.cdata() >= b.data && nv.cdata() < b.data + b.n * b.esize;
    if (readonly && nm.alias) {
      bool wr = true;
      try {
        nv.data();
      } catch (...) {
        wr = false;
      }
      x.check(!wr, "writable", "a view of a read-only array is writable");
    }
    S e = verify(b, nv, nm, false);
    if (!x.check(e.empty(), "view", e))
      continue;
    if (!readonly) {
      e = write_through(b, nv, nm);
      x.check(e.empty(), "write", e);
    }
    // what can be observed later: shape, elements, strides, sharing
    std::vector<intptr_t> st(nv.get_ndim() + 1);
    nv.get_strides(st.data());
    S key = shstr(nm.shape) + mc::join(nm.ids) + mc::join(st) + (nm.alias ? "A" : "-");
    x.state(key + char('0' + b.kind));
    x.outcome(mc::fmt("%zu dims", nm.shape.size()));
    if (depth > 1 && nm.shape.size() > 0 && seen.insert(mc::fmt("%d|", depth) + key).second)
      history(x, b, nv, nm, depth - 1, hh, readonly, seen, false, 0, 1);
  }
}

static M model_of(const Shape &sh) {
  M m;
  m.shape = sh;
  for (int i = 0; i < count(sh); ++i)
    m.ids.push_back(i);
  return m;
}

static void body(mc::X &x) {
  bool t = x.thorough();
  // 1. every slice of one axis
  x.section("slices 1d");
  for (int n = 0; n <= (t ? 9 : 6); ++n)
    for (int kind = 0; kind < 3; ++kind)
      for (int step = -4; step <= 4; ++step) {
        if (!x.unit())
          continue;
        Base b = make_base({n}, kind);
        M m = model_of({n});
        std::vector<intptr_t> as, bs;
        for (intptr_t i = -n - 3; i <= n + 3; ++i)
          as.push_back(i), bs.push_back(i);
        as.push_back(OPEN_LO);
        bs.push_back(OPEN_HI);
        if (step == 0) {
          bs = {0};
          as.pop_back();
        }
        for (intptr_t a : as)
          for (intptr_t e : bs) {
            Ix ix{a, e, step};
            MC_CASE_S(x, mc::fmt("%d * ", n) + kind_name[kind] + "[" + ix.str() + "]");
            M nm = m_index(m, {ix});
            bool threw = false;
            nd::array v;
            try {
              v = b.a(ix.r());
            } catch (...) {
              threw = true;
            }
            x.trans();
            if (!x.check(threw == !nm.ok, nm.ok ? "rejected" : "accepted", "bounds check of an index or slice"))
              continue;
            x.state(mc::fmt("%d %d ", n, kind) + ix.str());
            x.outcome(nm.ok ? mc::fmt("%zu selected", nm.ids.size()) : "rejected");
            if (threw)
              continue;
            S err = verify(b, v, nm, false);
            x.check(err.empty(), "view", err);
            err = write_through(b, v, nm);
            x.check(err.empty(), "write", err);
          }
      }
  // 2. every pair of slices of two axes
  x.section("slices 2d");
  for (int n0 = 0; n0 <= 3; ++n0)
    for (int n1 = 0; n1 <= 3; ++n1)
      for (int step0 = -2; step0 <= 2; ++step0) {
        if (!x.unit())
          continue;
        Base b = make_base({n0, n1}, INT);
        M m = model_of({n0, n1});
        auto alpha = [&](int n, int s) {
          std::vector<Ix> r;
          int ext = t ? 2 : 1;
          for (intptr_t a = -n - ext; a <= n + ext; ++a) {
            if (s == 0) {
              r.push_back({a, 0, 0});
              continue;
            }
            for (intptr_t e = -n - ext; e <= n + ext; ++e)
              r.push_back({a, e, s});
            r.push_back({a, OPEN_HI, s});
            r.push_back({OPEN_LO, a, s});
          }
          if (s)
            r.push_back({OPEN_LO, OPEN_HI, s});
          return r;
        };
        std::vector<Ix> i0 = alpha(n0, step0), i1;
        for (int s = -2; s <= 2; ++s)
          for (auto &e : alpha(n1, s))
            i1.push_back(e);
        for (auto &a : i0)
          for (auto &c : i1) {
            MC_CASE_S(x, mc::fmt("%d * %d * int32[", n0, n1) + a.str() + ", " + c.str() + "]");
            M nm = m_index(m, {a, c});
            bool threw = false;
            nd::array v;
            try {
              v = b.a(a.r(), c.r());
            } catch (...) {
              threw = true;
            }
            x.trans();
            if (!x.check(threw == !nm.ok, nm.ok ? "rejected" : "accepted", "bounds check of an index or slice"))
              continue;
            x.state(mc::fmt("%d %d ", n0, n1) + a.str() + "," + c.str());
            x.outcome(nm.ok ? mc::fmt("%zu selected", nm.ids.size()) : "rejected");
            if (threw)
              continue;
            S err = verify(b, v, nm, true);
            x.check(err.empty(), "view", err);
          }
      }
  // 3. copies of every transposed and reversed array
  x.section("copies of transposed and reversed arrays");
  for (int nd = 1; nd <= 4; ++nd) {
    int base = nd <= 3 ? 4 : 3, count = 1; // sizes 0..3, or 1..3
    for (int k = 0; k < nd; ++k)
      count *= base;
    for (int c = 0; c < count; ++c) {
      if (!x.unit())
        continue;
      Shape sh;
      for (int k = 0, r = c; k < nd; ++k, r /= base)
        sh.push_back(r % base + (nd <= 3 ? 0 : 1));
      for (int kind = 0; kind < (nd <= 2 ? 3 : 1); ++kind) {
        Base b = make_base(sh, kind);
        M m = model_of(sh);
        std::vector<intptr_t> perm;
        for (int k = 0; k < nd; ++k)
          perm.push_back(k);
        do
          for (int mask = 0; mask < 1 << nd; ++mask) {
            S d = "copy of " + shstr(sh) + " " + kind_name[kind] + mc::fmt(" permuted %s reversed %d", mc::join(perm).c_str(), mask);
            MC_CASE_S(x, d);
            std::vector<Ix> ix;
            irange ir[4];
            for (int k = 0; k < nd; ++k) {
              ix.push_back(mask >> k & 1 ? Ix{OPEN_LO, OPEN_HI, -1} : NOP);
              ir[k] = ix[k].r();
            }
            M nm = m_index(m_permute(m, perm), ix);
            bool empty_reversal = false;
            for (int k = 0; k < nd; ++k)
              if ((mask >> k & 1) && sh[perm[k]] == 0)
                empty_reversal = true;
            if (empty_reversal || !nm.ok)
              continue;
            nd::array v = b.a.permute(nd, perm.data()).at_array(nd, ir);
            nd::array q = v.eval_copy();
            x.trans(3);
            nm.alias = false;
            S err = verify(b, q, nm, false);
            x.check(err.empty(), "copy", err);
            x.check(q.get() != v.get() && (nm.ids.empty() || q.cdata() < b.data || q.cdata() >= b.data + b.n * b.esize), "copy", "the copy shares memory");
            // packed: the elements' places are 0..n-1 times the element size
            std::vector<intptr_t> vs(nd), qs(nd);
            v.get_strides(vs.data());
            q.get_strides(qs.data());
            std::set<intptr_t> places;
            for (size_t e = 0; e < nm.ids.size(); ++e) {
              intptr_t r = e, off = 0;
              for (int k = nd - 1; k >= 0; --k) {
                off += (r % nm.shape[k]) * qs[k];
                r /= nm.shape[k];
              }
              places.insert(off);
            }
            x.check(places.size() == nm.ids.size() && (places.empty() || (*places.begin() == 0 && *places.rbegin() == intptr_t(nm.ids.size() - 1) * b.esize)), "packed",
                    "the copy's elements are not packed: strides " + mc::join(qs));
            x.state(shstr(nm.shape) + mc::join(qs));
            // without reversal, the axes keep their order in memory
            for (int k = 0; k < nd && mask == 0 && !nm.ids.empty(); ++k)
              for (int l = 0; l < nd; ++l)
                if (nm.shape[k] > 1 && nm.shape[l] > 1 && vs[k] > vs[l])
                  x.check(qs[k] > qs[l], "axis order", "the copy of strides " + mc::join(vs) + " has strides " + mc::join(qs));
            x.outcome(mc::fmt("%d dimensions", nd));
          }
        while (std::next_permutation(perm.begin(), perm.end()));
      }
    }
  }
  // 4. histories of view operations
  x.section("histories", false);
  std::vector<Shape> shapes = {{3}, {0}, {1}, {2, 3}, {3, 1}, {0, 2}, {2, 3, 2}, {2, 1, 3}, {2, 2, 3, 2}};
  for (int kind = 0; kind < 3; ++kind)
    for (auto &sh : shapes)
      for (int readonly = 0; readonly < (kind == INT ? 2 : 1); ++readonly) {
        int depth = kind == INT && !readonly ? (sh.size() >= 4 ? 2 : 3) : 2;
        if (t)
          depth += sh.size() <= 3 ? 1 : (kind == INT && !readonly);
        size_t parts = 24;
        for (size_t part = 0; part < parts; ++part) {
          if (!x.unit())
            continue;
          Base b = make_base(sh, kind);
          M m = model_of(sh);
          nd::array v = b.a;
          if (readonly) {
            v = nd::make_array(b.a.get_type(), b.data, b.a, nd::read_access_flag);
            b.a.get_type()->arrmeta_copy_construct(const_cast<char *>(v->metadata()), b.a->metadata(), b.a);
          }
          // only the views keep the memory alive
          b.a = nd::array();
          std::set<S> seen;
          history(x, b, v, m, depth, S(readonly ? "read-only " : "") + shstr(sh) + " " + kind_name[kind] + ": a",
                  readonly, seen, true, part, parts);
        }
      }
}
MC_MAIN(body)
