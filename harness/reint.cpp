// Views of an array as another type: the same bytes, each where it was, or a refusal.
#include "mc.hpp"
#include <dynd/array.hpp>
#include <dynd/exceptions.hpp>
#include <dynd/index.hpp>
#include <dynd/types/fixed_bytes_type.hpp>
#include <dynd/types/fixed_dim_type.hpp>
#include <dynd/types/struct_type.hpp>
#include <dynd/types/var_dim_type.hpp>
#include <dynd/view.hpp>
#include <functional>
using namespace dynd;
typedef std::string S;

template <class Fn>
static bool error(Fn fn, S *w = nullptr) {
  try {
    fn();
  } catch (const std::exception &e) {
    if (w)
      *w = e.what();
    return true;
  } catch (const dynd_exception &e) {
    if (w)
      *w = e.what();
    return true;
  }
  return false;
}
struct E {
  const char *name;
  size_t size, align;
  bool pod;
};
static const E els[] = {{"int32", 4, 4, true},
                        {"float32", 4, 4, true},
                        {"int8", 1, 1, true},
                        {"float64", 8, 8, true},
                        {"int16", 2, 2, true},
                        {"complex[float32]", 8, 4, true},
                        {"uint64", 8, 8, true},
                        {"uint8", 1, 1, true},
                        {"fixed_bytes[4]", 4, 1, true},
                        {"fixed_bytes[8, align=8]", 8, 8, true},
                        {"fixed_bytes[3]", 3, 1, true},
                        {"fixed_bytes[6, align=2]", 6, 2, true},
                        {"?int32", 4, 4, true},
                        {"?float64", 8, 8, true},
                        {"complex[float64]", 16, 8, true},
                        {"uint128", 16, 8, true},
                        {"string", 16, 8, false},
                        {"bytes", 16, 8, false},
                        {"type", 8, 8, false},
                        {"{x: int32}", 4, 4, false},
                        {"(int32, int32)", 8, 4, false},
                        {"pointer[int32]", 8, 8, false}};
static const size_t NE = sizeof els / sizeof *els;
static ndt::type parse(const S &s) { return ndt::type(s.data(), s.data() + s.size()); }

struct Src {
  nd::array a;
  std::vector<intptr_t> shape;
  bool var;
  S what;
};
static void each(const std::vector<intptr_t> &shape, const std::function<void(const std::vector<intptr_t> &)> &f) {
  std::vector<intptr_t> i(shape.size(), 0);
  for (intptr_t n : shape)
    if (!n)
      return;
  for (;;) {
    f(i);
    size_t k = shape.size();
    while (k && ++i[k - 1] == shape[k - 1])
      i[--k] = 0;
    if (!k)
      return;
  }
}
static nd::array elem_at(nd::array a, const std::vector<intptr_t> &i) {
  for (intptr_t k : i)
    a = a(k);
  return a;
}
static const char *addr(const nd::array &a, const std::vector<intptr_t> &i) { return elem_at(a, i).cdata(); }
static S dims(const std::vector<intptr_t> &s) {
  S r;
  for (intptr_t n : s)
    r += std::to_string(n) + " * ";
  return r;
}
// a memory of its own for every source: the bytes are a counter
static int counter;
static nd::array fresh(const S &tp, const E &e) {
  nd::array a = nd::empty(parse(tp));
  if (e.pod) {
    // the bytes of an array that was just made follow one another
    size_t n = a.get_type().get_default_data_size();
    for (size_t i = 0; i < n; ++i)
      a.data()[i] = (char)(1 + counter++ % 251);
  }
  return a;
}
static const int NSRC = 17;
static bool source(int k, const E &e, Src &s) {
  S t = e.name;
  s.var = false;
  switch (k) {
  case 0:
    s = {fresh(t, e), {}, false, "scalar"};
    return true;
  case 1:
  case 2:
  case 3:
  case 4: {
    static const intptr_t ns[] = {0, 1, 2, 4};
    intptr_t n = ns[k - 1];
    s = {fresh(std::to_string(n) + " * " + t, e), {n}, false, ""};
    break;
  }
  case 5:
    s = {fresh("5 * " + t, e)(irange(1, 4)), {3}, false, "[1:4]"};
    break;
  case 6:
    s = {fresh("4 * " + t, e)(irange().by(2)), {2}, false, "[::2]"};
    break;
  case 7:
    s = {fresh("3 * " + t, e)(irange().by(-1)), {3}, false, "[::-1]"};
    break;
  case 8:
    s = {fresh("2 * 3 * " + t, e), {2, 3}, false, ""};
    break;
  case 9:
    s = {fresh("2 * 3 * " + t, e).transpose(), {3, 2}, false, "transposed"};
    break;
  case 10:
    s = {fresh("3 * 4 * " + t, e)(irange().by(-1), irange(1, 3)), {3, 2}, false, "[::-1, 1:3]"};
    break;
  case 11:
    s = {fresh("2 * 3 * " + t, e)(irange(), 1), {2}, false, "[:, 1]"};
    break;
  case 12:
    s = {fresh("2 * 2 * 2 * " + t, e), {2, 2, 2}, false, ""};
    break;
  case 13: {
    nd::array r = nd::empty(parse("{a: int8, b: 3 * " + t + "}"));
    if (e.pod)
      for (size_t i = 0; i < r.get_type().get_default_data_size(); ++i)
        r.data()[i] = (char)(1 + counter++ % 251);
    s = {r.p("b"), {3}, false, "field"};
    break;
  }
  case 14: {
    nd::array r = nd::empty(parse("3 * {a: int8, b: " + t + "}"));
    if (e.pod)
      for (size_t i = 0; i < r.get_type().get_default_data_size(); ++i)
        r.data()[i] = (char)(1 + counter++ % 251);
    s = {r.p("b"), {3}, false, "field of elements"};
    break;
  }
  case 15: {
    nd::array v = nd::empty(parse("var * " + t));
    v.assign(fresh("3 * " + t, e));
    s = {v, {3}, true, ""};
    break;
  }
  default: {
    nd::array v = fresh("4 * " + t, e);
    s = {v.eval_copy(nd::read_access_flag | nd::immutable_access_flag), {4}, false, "immutable"};
    break;
  }
  }
  s.what += (s.what.empty() ? "" : " ") + s.a.get_type().str();
  return true;
}
// the view r of s: elements of type e, each where it was
static bool same(mc::X &x, const S &op, Src &s, const nd::array &r, const S &want, const E &e) {
  if (!x.check(r.get_type().str() == parse(want).str(), "a view has another type", op + " has type " + r.get_type().str() + " instead of " + want))
    return false;
  if (!x.check(r.get_flags() == s.a.get_flags(), "a view changes the access to the array", op))
    return false;
  bool ok = true;
  each(s.shape, [&](const std::vector<intptr_t> &i) {
    ok = ok && x.check(addr(r, i) == addr(s.a, i), "an element of a view is elsewhere", op);
  });
  (void)e;
  return ok;
}
// the view outlives the array
static void outlive(mc::X &x, const S &op, Src &s, nd::array &r, const std::vector<intptr_t> &shape, const E &e) {
  std::vector<S> before;
  each(shape, [&](const std::vector<intptr_t> &i) { before.push_back(S(addr(r, i), e.size)); });
  s.a = nd::array();
  size_t k = 0;
  bool ok = true;
  each(shape, [&](const std::vector<intptr_t> &i) { ok = ok && S(addr(r, i), e.size) == before[k++]; });
  x.check(ok, "a view changes when the array is released", op);
}

static void body(mc::X &x) {
  x.section("views");
  for (size_t ti = 0; ti < NE; ++ti)
    for (int k = 0; k < NSRC; ++k) {
      if (!x.unit())
        continue;
      const E &t = els[ti];
      for (size_t ei = 0; ei < NE; ++ei)
        for (int op = 0; op < 10; ++op) {
          const E &e = els[ei];
          static const char *ops[] = {"view as the same shape", "view as Fixed",  "uview",         "view_scalars",    "replace_dtype",
                                      "view as more elements",  "view as fewer dimensions", "storage", "a copy", "replace_dtype of a row"};
          MC_CASE(x, "%s of source %d of %s, as %s", ops[op], k, t.name, e.name);
          x.trans();
          Src s;
          if (S(t.name).find("pointer") == 0 || !source(k, t, s)) // pointers cannot be filled
            continue;
          S w, what = S(ops[op]) + " as " + e.name + " of " + s.what;
          nd::array r;
          size_t nd = s.shape.size();
          S own = dims(s.shape) + e.name, keep = s.var ? "var * " + S(e.name) : own;
          bool equal = S(t.name) == e.name;
          bool compat = equal || (t.pod && e.pod && t.size == e.size && t.align >= e.align);
          bool refused;
          switch (op) {
          case 0: {
            refused = error([&] { r = s.a.view(parse(own)); }, &w);
            x.outcome(mc::fmt("view %s", compat ? "accepted" : "refused"));
            if (!x.check(refused == !compat, refused ? "a view is refused" : "a view of other data is accepted", what + " " + w))
              continue;
            if (!refused && same(x, what, s, r, own, e))
              for (size_t e3 = 0; e3 < NE; ++e3) { // views of the view
                const E &u = els[e3];
                x.trans();
                nd::array r2;
                S own2 = dims(s.shape) + u.name, what2 = what + ", as " + u.name;
                bool c2 = S(u.name) == e.name || (e.pod && u.pod && e.size == u.size && e.align >= u.align);
                refused = error([&] { r2 = r.view(parse(own2)); }, &w);
                if (x.check(refused == !c2, refused ? "a view is refused" : "a view of other data is accepted", what2 + " " + w) && !refused)
                  same(x, what2, s, r2, own2, u);
              }
            refused = error([&] { r = s.a.view(parse(own)); }, &w);
            if (!refused && same(x, what, s, r, own, e))
              outlive(x, what, s, r, std::vector<intptr_t>(s.shape), e);
            break;
          }
          case 1: {
            S f;
            for (size_t i = 0; i < nd; ++i)
              f += "Fixed * ";
            refused = error([&] { r = s.a.view(parse(f + e.name)); }, &w);
            if (!x.check(refused == !compat, refused ? "a view is refused" : "a view of other data is accepted", what + " " + w))
              continue;
            if (!refused)
              same(x, what, s, r, own, e);
            break;
          }
          case 2: {
            // a var dimension keeps its kind: its elements can only be viewed as what they are
            refused = error([&] { r = s.a.uview(parse(e.name), 0); }, &w);
            bool c = s.var ? equal : compat;
            if (!x.check(refused == !c, refused ? "a view is refused" : "a view of other data is accepted", what + " " + w))
              continue;
            if (!refused)
              same(x, what, s, r, keep, e);
            break;
          }
          case 3: {
            if (!t.pod && equal)
              continue;
            refused = error([&] { r = s.a.view_scalars(parse(e.name)); }, &w);
            bool strings = (S(t.name) == "string" || S(t.name) == "bytes") && (S(e.name) == "string" || S(e.name) == "bytes");
            if (S(t.name).find_first_of("{(") != S::npos || S(t.name).find("pointer") == 0) {
              // not scalars
              if (!refused)
                same(x, what, s, r, keep, e);
              continue;
            }
            bool row = nd == 1 && !s.var && t.pod && s.shape[0] > 1 && addr(s.a, {1}) - addr(s.a, {0}) == (intptr_t)t.size;
            if (row) {
              size_t bytes = s.shape[0] * t.size;
              bool c = e.pod && bytes % e.size == 0 && (size_t)s.a.cdata() % e.align == 0;
              if (!x.check(refused == !c, refused ? "a view is refused" : "a view of other data is accepted", what + " " + w))
                continue;
              if (refused)
                continue;
              intptr_t n = bytes / e.size;
              if (!x.check(r.get_type() == parse(std::to_string(n) + " * " + e.name), "a view has another type", what + " " + r.get_type().str()))
                continue;
              x.check(r.get_flags() == s.a.get_flags(), "a view changes the access to the array", what);
              const char *p = s.a.cdata();
              for (intptr_t i = 0; i < n; ++i)
                x.check(addr(r, {i}) == p + i * e.size, "an element of a view is elsewhere", what);
              outlive(x, what, s, r, {n}, e);
            } else {
              bool c = (t.pod && e.pod && t.size == e.size) || strings;
              bool few = nd == 1 && !s.var && s.shape[0] <= 1;
              if (few && t.size != e.size)
                continue; // of at most one element: nobody's contract
              if (few && c && t.align < e.align)
                continue;
              if (!x.check(refused == !c, refused ? "a view is refused" : "a view of other data is accepted", what + " " + w))
                continue;
              if (!refused && same(x, what, s, r, keep, e))
                outlive(x, what, s, r, std::vector<intptr_t>(s.shape), e);
            }
            break;
          }
          case 4: {
            refused = error([&] { r = s.a.replace_dtype(parse(e.name)); }, &w);
            bool strings = (S(t.name) == "string" || S(t.name) == "bytes") && (S(e.name) == "string" || S(e.name) == "bytes");
            bool c = equal || (t.pod && e.pod && t.size == e.size) || strings;
            if (!x.check(refused == !c, refused ? "a view is refused" : "a view of other data is accepted", what + " " + w))
              continue;
            if (!refused && same(x, what, s, r, keep, e))
              outlive(x, what, s, r, std::vector<intptr_t>(s.shape), e);
            break;
          }
          case 5: {
            if (!nd)
              continue;
            for (size_t d = 0; d < nd; ++d)
              for (int by : {1, -1}) {
                std::vector<intptr_t> o = s.shape;
                o[d] += by;
                if (o[d] < 0)
                  continue;
                x.check(error([&] { r = s.a.view(parse(dims(o) + e.name)); }), "a view of other data is accepted", what);
              }
            break;
          }
          case 6: {
            if (!nd)
              continue;
            x.check(error([&] { r = s.a.view(parse(e.name)); }), "a view of other data is accepted", what);
            x.check(error([&] { r = s.a.view(parse("1 * " + own)); }), "a view of other data is accepted", what);
            break;
          }
          case 7: {
            if (ei)
              continue;
            if (!x.check(!error([&] { r = s.a.storage(); }, &w), "a view is refused", what + " " + w))
              continue;
            S st = t.pod ? mc::fmt("fixed_bytes[%zu, align=%zu]", t.size, t.align) : S(t.name) == "string" ? "bytes" : "";
            if (st.empty())
              continue;
            E se{st.c_str(), t.size, t.align, t.pod};
            if (same(x, what, s, r, (s.var ? "var * " : dims(s.shape)) + st, se))
              outlive(x, what, s, r, std::vector<intptr_t>(s.shape), se);
            break;
          }
          case 8: { // copies of the source in an array of the other type
            bool fb = S(t.name).find("fixed_bytes") == 0 && S(e.name).find("fixed_bytes") == 0;
            if (!t.pod || !(equal || fb))
              continue;
            r = nd::empty(parse(own));
            refused = error([&] { r.assign(s.a); }, &w);
            if (!x.check(refused == (t.size != e.size), refused ? "a copy is refused" : "a copy of other data is accepted", what + " " + w))
              continue;
            bool num = S(t.name).find("fixed_bytes") == 0 || S(t.name).find("int") != S::npos;
            if (!refused && num)
              each(s.shape, [&](const std::vector<intptr_t> &i) {
                x.check(!memcmp(addr(r, i), addr(s.a, i), t.size), "a copy has other bytes", what);
              });
            break;
          }
          default: {
            if (nd < 2)
              continue;
            S row = std::to_string(s.shape[nd - 1]) + " * " + e.name;
            refused = error([&] { r = s.a.replace_dtype(parse(row), 1); }, &w);
            bool strings = (S(t.name) == "string" || S(t.name) == "bytes") && (S(e.name) == "string" || S(e.name) == "bytes");
            // rows with a layout: elements of the same layout only
            bool c = equal || (t.pod && e.pod && t.size == e.size) || strings;
            if (!x.check(refused == !c, refused ? "a view is refused" : "a view of other data is accepted", what + " " + w))
              continue;
            if (!refused)
              same(x, what, s, r, own, e);
            x.check(error([&] { r = s.a.replace_dtype(parse(std::to_string(s.shape[nd - 1] + 1) + " * " + e.name), 1); }),
                    "a view of other data is accepted", what);
          }
          }
        }
    }
  x.section("raw data");
  // arrays laid over existing memory
  for (size_t ti = 0; ti < NE; ++ti) {
    if (!x.unit())
      continue;
    const E &t = els[ti];
    if (!t.pod || t.align > 8)
      continue;
    static const intptr_t sizes[] = {0, 1, 2, 3};
    for (int nd = 0; nd <= 2; ++nd)
      for (int s0 = 0; s0 < 4; ++s0)
        for (int s1 = 0; s1 < 4; ++s1)
          for (int lay = 0; lay < 5; ++lay) {
            MC_CASE(x, "%d dimensions %d %d of %s, layout %d", nd, s0, s1, t.name, lay);
            x.trans();
            intptr_t shape[2] = {sizes[s0], sizes[s1]}, n = t.size;
            // C order, reversed rows, transposed, with gaps, every row the same
            intptr_t st[5][2] = {{3 * n, n}, {-3 * n, n}, {n, 3 * n}, {8 * n, 2 * n}, {0, n}};
            nd::array mem = nd::empty(parse(std::to_string(40 * n / 8 + 8) + " * float64"));
            char *p = mem.data() + (lay == 1 ? 2 * 3 * n / 8 * 8 + 8 : 0);
            p += (t.align - ((size_t)p % t.align)) % t.align;
            if (lay == 1)
              p = mem.data() + 6 * n;
            nd::array r;
            S w;
            if (!x.check(!error([&] {
                           r = nd::make_strided_array_from_data(parse(t.name), nd, shape, st[lay], nd::read_access_flag | nd::write_access_flag, p,
                                                                mem);
                         },
                         &w),
                         "existing memory is refused", w))
              continue;
            std::vector<intptr_t> sh(shape, shape + nd);
            x.check(r.get_type() == parse(dims(sh) + t.name), "existing memory has another type", r.get_type().str());
            x.check((r.get_flags() & nd::write_access_flag) != 0, "a view changes the access to the array", "");
            bool ok = true;
            each(sh, [&](const std::vector<intptr_t> &i) {
              const char *q = p;
              for (int d = 0; d < nd; ++d)
                q += i[d] * st[lay][d];
              ok = ok && x.check(addr(r, i) == q, "an element of a view is elsewhere", "");
            });
            mem = nd::array();
            each(sh, [&](const std::vector<intptr_t> &i) { memset(elem_at(r, i).data(), 7, n); });
          }
  }
}
MC_MAIN(body)
