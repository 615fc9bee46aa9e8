// Making arrays: nested C++ vectors and lists of every shape within the bounds, ragged or not, filled and empty arrays,
// concatenation, and exact equality of every pair of small arrays; the oracle is the tree of values.
#include "mc.hpp"
#include <dynd/array.hpp>
#include <dynd/exceptions.hpp>
#include <dynd/json_parser.hpp>
#include <functional>
#include <sstream>
using namespace dynd;
typedef std::string S;
struct V {
  bool leaf = true;
  S t;
  std::vector<V> c;
  S text() const {
    if (leaf)
      return t;
    S s = "[";
    for (size_t i = 0; i < c.size(); ++i)
      s += (i ? "," : "") + c[i].text();
    return s + "]";
  }
};
static S type_text(const ndt::type &t) {
  std::ostringstream o;
  o << t;
  return o.str();
}
// The elements, read through the metadata alone
static void read(const ndt::type &t, const char *m, const char *d, S &o) {
  if (t.get_id() == fixed_dim_id) {
    const size_stride_t *ss = reinterpret_cast<const size_stride_t *>(m);
    o += "[";
    for (intptr_t i = 0; i < ss->dim_size; ++i) {
      o += i ? "," : "";
      read(t.extended<ndt::base_dim_type>()->get_element_type(), m + sizeof(size_stride_t), d + i * ss->stride, o);
    }
    o += "]";
  } else if (t.get_id() == var_dim_id) {
    const ndt::var_dim_type::metadata_type *vm = reinterpret_cast<const ndt::var_dim_type::metadata_type *>(m);
    const ndt::var_dim_type::data_type *vd = reinterpret_cast<const ndt::var_dim_type::data_type *>(d);
    o += "[";
    for (size_t i = 0; i < vd->size; ++i) {
      o += i ? "," : "";
      read(t.extended<ndt::base_dim_type>()->get_element_type(), m + sizeof(*vm), vd->begin + vm->offset + i * vm->stride, o);
    }
    o += "]";
  } else if (t.get_id() == int32_id)
    o += mc::fmt("%d", *reinterpret_cast<const int32_t *>(d));
  else if (t.get_id() == int64_id)
    o += mc::fmt("%lld", (long long)*reinterpret_cast<const int64_t *>(d));
  else if (t.get_id() == int8_id)
    o += mc::fmt("%d", *reinterpret_cast<const int8_t *>(d));
  else if (t.get_id() == float64_id)
    o += mc::fmt("%g", *reinterpret_cast<const double *>(d));
  else if (t.get_id() == bool_id)
    o += *d ? "1" : "0";
  else if (t.get_id() == string_id) {
    const dynd::string *s = reinterpret_cast<const dynd::string *>(d);
    o += S(s->begin(), s->end());
  } else
    o += "?" + type_text(t);
}
static S elements(const nd::array &a) {
  S o;
  read(a.get_type(), a.get()->metadata(), a.cdata(), o);
  return o;
}
template <class Fn>
static bool run(mc::X &x, nd::array &r, const char *cls, Fn fn) {
  S w;
  bool ok = false;
  try {
    r = fn();
    ok = true;
  } catch (const std::exception &e) {
    w = e.what();
  } catch (const dynd_exception &e) {
    w = e.what();
  }
  return x.check(ok, cls, w);
}
// The type an array of nested containers has: a size where all agree, var where they do not
static void sizes(const V &v, size_t depth, std::vector<int> &d) {
  d.assign(depth, 0);
  d[0] = (int)v.c.size();
  if (depth == 1)
    return;
  for (size_t i = 0; i < v.c.size(); ++i) {
    std::vector<int> k;
    sizes(v.c[i], depth - 1, k);
    for (size_t j = 0; j < k.size(); ++j)
      d[j + 1] = i == 0 || d[j + 1] == k[j] ? k[j] : -1;
  }
}
static S dims(const std::vector<int> &d) {
  S s;
  for (int k : d)
    s += k < 0 ? "var * " : mc::fmt("%d * ", k);
  return s;
}
template <class T>
struct El;
template <>
struct El<int32_t> {
  static const char *name() { return "int32"; }
  static int32_t get(const S &s) { return atoi(s.c_str()); }
  static S text(long k) { return mc::fmt("%ld", k * 7 - 3); }
};
template <>
struct El<int8_t> {
  static const char *name() { return "int8"; }
  static int8_t get(const S &s) { return (int8_t)atoi(s.c_str()); }
  static S text(long k) { return mc::fmt("%ld", k % 100 - 50); }
};
template <>
struct El<double> {
  static const char *name() { return "float64"; }
  static double get(const S &s) { return atof(s.c_str()); }
  static S text(long k) { return mc::fmt("%g", k * 0.5 - 2); }
};
template <>
struct El<S> {
  static const char *name() { return "string"; }
  static S get(const S &s) { return s; }
  static S text(long k) { // with zero bytes, and with bytes that are not ASCII
    S r = mc::fmt(k % 3 ? "e%ld" : "an element that does not fit in place %ld", k);
    if (k % 5 == 1)
      r.insert(r.size() / 2, 1, '\0');
    if (k % 7 == 2)
      r = S(1, '\0') + r + S(1, '\0');
    if (k % 4 == 3)
      r += "\xc3\xa9";
    return r;
  }
};
template <>
struct El<const char *> {
  static const char *name() { return "string"; }
  static const char *get(const S &s) { return s.c_str(); }
  static S text(long k) { return mc::fmt(k % 3 == 1 ? "" : k % 3 ? "e%ld" : "an element that does not fit in place %ld", k); }
};
template <class T, int D>
struct Nest {
  typedef std::vector<typename Nest<T, D - 1>::type> type;
  static void make(const V &v, type &r) {
    for (const V &k : v.c) {
      r.emplace_back();
      Nest<T, D - 1>::make(k, r.back());
    }
  }
};
template <class T>
struct Nest<T, 0> {
  typedef T type;
  static void make(const V &v, T &r) { r = El<T>::get(v.t); }
};
// All trees of the depth with up to n[i] children at level i
static void trees(const std::vector<int> &n, size_t i, std::vector<V> &out) {
  if (i == n.size()) {
    out.push_back(V());
    return;
  }
  std::vector<V> kids;
  trees(n, i + 1, kids);
  std::vector<V> level(1);
  level[0].leaf = false;
  for (int c = 0;; ++c) {
    out.insert(out.end(), level.begin(), level.end());
    if (c == n[i])
      return;
    std::vector<V> next;
    for (const V &v : level)
      for (const V &k : kids) {
        next.push_back(v);
        next.back().c.push_back(k);
      }
    level.swap(next);
  }
}
template <class T>
static void number(V &v, long &k) {
  if (v.leaf)
    v.t = El<T>::text(++k);
  for (V &c : v.c)
    number<T>(c, k);
}
static void judge(mc::X &x, const nd::array &r, const S &type, const S &want) {
  x.check(type_text(r.get_type()) == type, "an array made from C++ values has the wrong type",
          type_text(r.get_type()) + " for " + type);
  S got = elements(r);
  x.check(got == want, "an array made from C++ values has the wrong elements", got + " for " + want);
  x.state(mc::h64(type + want));
  x.outcome(type.find("var") != S::npos ? "ragged" : "regular");
}
template <class T, int D>
static void vectors(mc::X &x, const std::vector<int> &n) {
  std::vector<V> all;
  trees(n, 0, all);
  for (size_t i = 0; i < all.size(); ++i) {
    if (i % 64 == 0 && !x.unit()) {
      i += 63;
      continue;
    }
    V v = all[i];
    long k = 0;
    number<T>(v, k);
    MC_CASE_S(x, S("vectors of ") + El<T>::name() + " " + v.text());
    x.trans();
    typename Nest<T, D>::type c;
    Nest<T, D>::make(v, c);
    nd::array r;
    if (!run(x, r, "an array of C++ values is refused", [&] { return nd::array(c); }))
      continue;
    std::vector<int> d;
    sizes(v, D, d);
    judge(x, r, dims(d) + El<T>::name(), v.text());
  }
}
// Lists: the shapes are those of the trees; lists are built from static lists, as they hold no memory of their own
typedef std::initializer_list<int> L1;
typedef std::initializer_list<L1> L2;
static const L1 lists1[4] = {{}, {5}, {-7, 9}, {1, 2, 3}};
static V tree1(int i) {
  V v;
  v.leaf = false;
  for (int k : lists1[i]) {
    V e;
    e.t = mc::fmt("%d", k);
    v.c.push_back(e);
  }
  return v;
}
template <class L>
static nd::array list_of(const std::vector<L> &v) {
  switch (v.size()) {
  case 1:
    return nd::array(std::initializer_list<L>{v[0]});
  case 2:
    return nd::array(std::initializer_list<L>{v[0], v[1]});
  case 3:
    return nd::array(std::initializer_list<L>{v[0], v[1], v[2]});
  }
  return nd::array(std::initializer_list<L>{});
}
static void lists(mc::X &x) {
  static const L2 two[] = {{},
                           {lists1[0]},
                           {lists1[1]},
                           {lists1[3]},
                           {lists1[0], lists1[0]},
                           {lists1[2], lists1[2]},
                           {lists1[1], lists1[2]},
                           {lists1[3], lists1[0]},
                           {lists1[0], lists1[3], lists1[1]},
                           {lists1[1], lists1[1], lists1[1]}};
  const int ntwo = sizeof(two) / sizeof(two[0]);
  auto judge_list = [&](const std::vector<V> &kids, size_t depth, const nd::array &r) {
    V v;
    v.leaf = false;
    v.c = kids;
    std::vector<int> d;
    sizes(v, depth, d);
    judge(x, r, dims(d) + "int32", v.text());
  };
  auto tree2 = [&](int i) {
    V v;
    v.leaf = false;
    for (const L1 &l : two[i])
      v.c.push_back(tree1((int)l.size()));
    return v;
  };
  for (int n = 0; n <= 3; ++n)
    for (int c = 0; c < (n == 0 ? 1 : n == 1 ? 4 : n == 2 ? 16 : 64); ++c) {
      if (!x.unit())
        continue;
      std::vector<L1> v;
      std::vector<V> kids;
      for (int i = 0, k = c; i < n; ++i, k /= 4) {
        v.push_back(lists1[k % 4]);
        kids.push_back(tree1(k % 4));
      }
      MC_CASE(x, "list of %d lists, number %d", n, c);
      x.trans();
      nd::array r;
      if (run(x, r, "an array of C++ values is refused", [&] { return list_of(v); }))
        judge_list(kids, 2, r);
    }
  for (int n = 0; n <= 3; ++n)
    for (int c = 0; c < (n == 0 ? 1 : n == 1 ? ntwo : n == 2 ? ntwo * ntwo : ntwo * ntwo * ntwo); ++c) {
      if (!x.unit())
        continue;
      std::vector<L2> v;
      std::vector<V> kids;
      for (int i = 0, k = c; i < n; ++i, k /= ntwo) {
        v.push_back(two[k % ntwo]);
        kids.push_back(tree2(k % ntwo));
      }
      MC_CASE(x, "list of %d lists of lists, number %d", n, c);
      x.trans();
      nd::array r;
      if (run(x, r, "an array of C++ values is refused", [&] { return list_of(v); }))
        judge_list(kids, 3, r);
    }
}
static S filled(const std::vector<intptr_t> &s, size_t i, const S &e) {
  if (i == s.size())
    return e;
  S r = "[";
  for (intptr_t k = 0; k < s[i]; ++k)
    r += (k ? "," : "") + filled(s, i + 1, e);
  return r + "]";
}
// Gives every element its own value and reads them back: the elements must not overlap
static void distinct(mc::X &x, const nd::array &a, const std::vector<intptr_t> &s, const char *e) {
  std::vector<intptr_t> st = a.get_strides();
  long k = 0;
  std::function<void(size_t, char *)> put = [&](size_t i, char *p) {
    if (i == s.size()) {
      ++k;
      if (!strcmp(e, "int8"))
        *reinterpret_cast<int8_t *>(p) = (int8_t)k;
      else if (!strcmp(e, "int32"))
        *reinterpret_cast<int32_t *>(p) = (int32_t)k;
      else if (!strcmp(e, "int64"))
        *reinterpret_cast<int64_t *>(p) = k;
      else
        *reinterpret_cast<double *>(p) = (double)k;
      return;
    }
    for (intptr_t j = 0; j < s[i]; ++j)
      put(i + 1, p + j * st[i]);
  };
  put(0, a.data());
  long n = 0;
  std::function<S(size_t)> want = [&](size_t i) {
    if (i == s.size())
      return mc::fmt("%ld", ++n);
    S r = "[";
    for (intptr_t j = 0; j < s[i]; ++j)
      r += (j ? "," : "") + want(i + 1);
    return r + "]";
  };
  S w = want(0), g = elements(a);
  x.check(g == w, "the elements of an empty array overlap", g + " for " + w);
}
static void fills(mc::X &x) {
  std::vector<std::vector<intptr_t>> sh = {{}};
  int m = x.thorough() ? 4 : 3;
  for (size_t i = 0; i < sh.size(); ++i)
    if (sh[i].size() < 3)
      for (int k = 0; k <= m; ++k) {
        sh.push_back(sh[i]);
        sh.back().push_back(k);
      }
  for (const std::vector<intptr_t> &s : sh) {
    if (!x.unit())
      continue;
    for (const char *e : {"int8", "int32", "int64", "float64"}) {
      S t, dn;
      for (intptr_t k : s)
        t += mc::fmt("%ld * ", (long)k);
      t += e;
      ndt::type et{S(e)};
      do {
        MC_CASE_S(x, "filled " + t);
        x.trans();
        nd::array r;
        auto jud = [&](const S &w) {
          x.check(type_text(r.get_type()) == t, "a filled array has the wrong type", type_text(r.get_type()));
          x.check(elements(r) == w, "a filled array has the wrong elements", elements(r));
        };
        const intptr_t none = 0, *p = s.empty() ? &none : &s[0];
        if (run(x, r, "a filled array is refused", [&] { return nd::dtyped_zeros(s.size(), p, et); }))
          jud(filled(s, 0, "0"));
        if (run(x, r, "a filled array is refused", [&] { return nd::dtyped_ones(s.size(), p, et); }))
          jud(filled(s, 0, "1"));
        if (s.size() == 1 || s.size() == 2) {
          if (run(x, r, "a filled array is refused",
                  [&] { return s.size() == 1 ? nd::zeros(s[0], et) : nd::zeros(s[0], s[1], et); }))
            jud(filled(s, 0, "0"));
          if (run(x, r, "a filled array is refused",
                  [&] { return s.size() == 1 ? nd::ones(s[0], et) : nd::ones(s[0], s[1], et); }))
            jud(filled(s, 0, "1"));
        }
        if (!s.empty() &&
            run(x, r, "an empty array is refused", [&] {
              return s.size() == 1 ? nd::empty(s[0], et) : s.size() == 2 ? nd::empty(s[0], s[1], et) : nd::empty(s[0], s[1], s[2], et);
            })) {
          x.check(type_text(r.get_type()) == t, "an empty array has the wrong type", type_text(r.get_type()));
          distinct(x, r, s, e);
        }
      } while (0);
      // The same shape as another array, however that is laid out
      std::vector<intptr_t> perm;
      for (size_t i = 0; i < s.size(); ++i)
        perm.push_back(i);
      do {
        for (int rev = 0; rev < 3; ++rev)
          do {
            S ps;
            for (intptr_t k : perm)
              ps += mc::fmt("%ld", (long)k);
            MC_CASE_S(x, "like " + t + " permuted " + ps + mc::fmt(" layout %d", rev));
            x.trans();
            nd::array r, a = nd::empty(ndt::type(t));
            std::vector<intptr_t> q;
            for (intptr_t k : perm)
              q.push_back(s[k]);
            if (!s.empty()) {
              a = a.permute((intptr_t)perm.size(), perm.data());
              if (rev == 1)
                a = a(irange().by(-1));
              else if (rev == 2) {
                a = a(irange().by(2));
                q[0] = (q[0] + 1) / 2;
              }
            }
            S qt;
            for (intptr_t k : q)
              qt += mc::fmt("%ld * ", (long)k);
            if (run(x, r, "an array like another one is refused", [&] { return nd::empty_like(a); })) {
              x.check(type_text(r.get_type()) == qt + e, "an array like another one has the wrong type", type_text(r.get_type()));
              distinct(x, r, q, e);
            }
            for (const char *e2 : {"int8", "int64"})
              if (run(x, r, "an array like another one is refused", [&] { return nd::empty_like(a, ndt::type(S(e2))); })) {
                x.check(type_text(r.get_type()) == qt + e2, "an array like another one has the wrong type", type_text(r.get_type()));
                distinct(x, r, q, e2);
              }
          } while (0);
      } while (std::next_permutation(perm.begin(), perm.end()));
    }
  }
}
static nd::array json(const S &t, const S &v) { return parse_json(ndt::type(t), v, &dynd::eval::default_eval_context); }
static void concatenations(mc::X &x) {
  int m = x.thorough() ? 9 : 5;
  for (int a = 0; a <= m; ++a)
    for (int b = 0; b <= m; ++b) {
      if (!x.unit())
        continue;
      for (int str = 0; str < 2; ++str)
        for (int va = 0; va < 4; ++va)
          for (int vb = 0; vb < 4; ++vb) {
            MC_CASE(x, "concatenate %d and %d %s, layouts %d %d", a, b, str ? "strings" : "integers", va, vb);
            x.trans();
            S w = "[";
            long k = 0;
            nd::array p[2];
            for (int i = 0; i < 2; ++i) {
              int n = i ? b : a, l = i ? vb : va;
              std::vector<S> e;
              for (int j = 0; j < n; ++j) {
                e.push_back(str ? (++k, mc::fmt(k % 3 ? "e%d" : "an element that does not fit in place %d", (int)k)) : El<int32_t>::text(++k));
                w += (w.size() > 1 ? "," : "") + e.back();
              }
              if (l == 2)
                std::reverse(e.begin(), e.end());
              S js = "[";
              for (size_t j = 0; j < e.size(); ++j) {
                S q = str ? mc::quote(e[j]) : e[j];
                js += (j ? "," : "") + q + (l == 3 ? "," + q : "");
              }
              js += "]";
              p[i] = json((l == 1 ? S("var * ") : mc::fmt("%d * ", l == 3 ? 2 * n : n)) + (str ? "string" : "int32"), js);
              if (l == 2)
                p[i] = p[i](irange().by(-1));
              if (l == 3)
                p[i] = p[i](irange().by(2));
            }
            w += "]";
            nd::array r;
            if (!run(x, r, "a concatenation is refused", [&] { return nd::concatenate(p[0], p[1]); }))
              continue;
            S t = mc::fmt("%d * ", a + b) + (str ? "string" : "int32");
            x.check(type_text(r.get_type()) == t, "a concatenation has the wrong type", type_text(r.get_type()));
            x.check(elements(r) == w, "a concatenation has the wrong elements", elements(r) + " for " + w);
            x.state(mc::h64(w));
          }
    }
}
static void equalities(mc::X &x) {
  // Every array of the types with elements 0 and 1 (or two strings)
  struct A {
    S type, text;
    nd::array a;
  };
  std::vector<A> v;
  std::vector<S> dn = {"", "0 * ", "1 * ", "2 * ", "3 * ", "var * ", "1 * 2 * ", "2 * 1 * ", "2 * 2 * ", "0 * 2 * ",
                       "2 * 0 * ", "0 * 0 * ", "var * 1 * ", "var * 2 * ", "1 * var * ", "2 * var * ", "var * var * "};
  for (const S &d : dn)
    for (int str = 0; str < 2; ++str) {
      std::vector<V> tr;
      std::vector<int> n, fixed;
      for (size_t p = 0; p < d.size();) {
        size_t q = d.find(" * ", p);
        S k = d.substr(p, q - p);
        fixed.push_back(k == "var" ? -1 : atoi(k.c_str()));
        n.push_back(k == "var" ? 2 : atoi(k.c_str()));
        p = q + 3;
      }
      trees(n, 0, tr);
      std::function<bool(const V &, size_t)> fits = [&](const V &t, size_t i) {
        if (i == fixed.size())
          return true;
        if (fixed[i] >= 0 && t.c.size() != (size_t)fixed[i])
          return false;
        for (const V &k : t.c)
          if (!fits(k, i + 1))
            return false;
        return true;
      };
      for (const V &t : tr) {
        if (!fits(t, 0))
          continue;
        std::function<int(const V &)> leaves = [&](const V &u) {
          int c = u.leaf;
          for (const V &k : u.c)
            c += leaves(k);
          return c;
        };
        int c = leaves(t);
        for (int bits = 0; bits < (1 << c); ++bits) {
          V u = t;
          int b = 0;
          std::function<void(V &)> set = [&](V &w) {
            if (w.leaf) {
              int k = bits >> b++ & 1;
              w.t = str ? (k ? "\"a string that does not fit in place\"" : "\"\"") : mc::fmt("%d", k);
            }
            for (V &k : w.c)
              set(k);
          };
          set(u);
          A a;
          a.type = d + (str ? "string" : "int64");
          a.text = u.text();
          v.push_back(a);
        }
      }
    }
  for (A &i : v) {
    if (!x.unit())
      continue;
    nd::array a = json(i.type, i.text);
    for (A &j : v) {
      bool want = i.type == j.type && i.text == j.text;
      if (!x.thorough() && i.type != j.type && i.text != j.text)
        continue;
      for (int view = 0; view < 2; ++view) {
        MC_CASE_S(x, i.type + " " + i.text + " and " + j.type + " " + j.text + (view ? " viewed" : ""));
        x.trans();
        nd::array b = json(j.type, j.text);
        if (view) {
          // Two copies of the elements in a row, every other one of which is taken
          if (j.type.find("fixed") != S::npos || !isdigit(j.type[0]) || b.get_dim_size() == 0)
            continue;
          nd::array big = nd::empty(2 * b.get_dim_size(), b.get_type().extended<ndt::base_dim_type>()->get_element_type());
          b = big(irange().by(2)).assign(b);
          if (type_text(b.get_type()) != j.type)
            continue;
        }
        bool got = false, threw = false;
        S w;
        try {
          got = a.equals_exact(b);
        } catch (const std::exception &e) {
          threw = true;
          w = e.what();
        } catch (const dynd_exception &e) {
          threw = true;
          w = e.what();
        }
        x.check(!threw, "exact equality is refused", w);
        if (!threw)
          x.check(got == want, got ? "different arrays are exactly equal" : "equal arrays are not exactly equal", "");
        x.outcome(got ? "equal" : "different");
      }
    }
    x.state(mc::h64(i.type + i.text));
  }
}
static void body(mc::X &x) {
  x.section("arrays of C++ vectors");
  bool t = x.thorough();
  vectors<int32_t, 1>(x, {t ? 40 : 20});
  vectors<S, 1>(x, {t ? 40 : 20});
  vectors<int8_t, 2>(x, {t ? 5 : 4, 3});
  vectors<int32_t, 2>(x, {4, t ? 5 : 3});
  vectors<double, 2>(x, {3, 3});
  vectors<S, 2>(x, {4, 3});
  vectors<const char *, 2>(x, {3, 3});
  vectors<int32_t, 3>(x, {t ? 4 : 3, 2, 2});
  vectors<S, 3>(x, {t ? 3 : 2, 2, 2});
  vectors<int32_t, 4>(x, {2, 2, 1, 2});
  x.section("arrays of C++ lists");
  lists(x);
  x.section("filled and empty arrays");
  fills(x);
  x.section("concatenation");
  concatenations(x);
  x.section("exact equality");
  equalities(x);
}
MC_MAIN(body)
