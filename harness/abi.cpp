// Types of the C ABI: every tree of types within the bounds, made from arrays of parameters that are gone afterwards, and
// every sequence of references taken and dropped, on the real library. AddressSanitizer tells what has been released.
#include "mc.hpp"
#include <dynd/abi/array.h>
#include <dynd/abi/metadata.h>
#include <dynd/abi/refcount.h>
#include <dynd/abi/type.h>
#include <dynd/abi/type_constructor.h>
#include <dynd/abi/types/dense.h>
#include <dynd/abi/types/primitive.h>
#include <dynd/abi/types/sparse.h>
#include <dynd/abi/types/tuple.h>
#include <dynd/abi/version.h>
#include <algorithm>
#include <functional>
#include <malloc.h>
#include <memory>
#include <sanitizer/asan_interface.h>
typedef std::string S;

struct Builtin {
  const char *name;
  dynd_type *tp;
  size_t size, align;
};
static const Builtin builtins[] = {
    {"int8", &dynd_type_int8, 1, 1},       {"int16", &dynd_type_int16, 2, 2},
    {"int32", &dynd_type_int32, 4, 4},     {"int64", &dynd_type_int64, 8, 8},
    {"uint8", &dynd_type_uint8, 1, 1},     {"uint16", &dynd_type_uint16, 2, 2},
    {"uint32", &dynd_type_uint32, 4, 4},   {"uint64", &dynd_type_uint64, 8, 8},
    {"float16", &dynd_type_float16, 2, 2}, {"float32", &dynd_type_float32, 4, 4},
    {"float64", &dynd_type_float64, 8, 8}, {"size_t", &dynd_type_size_t, sizeof(size_t), alignof(size_t)},
};
static const int NB = 12;
static dynd_type_constructor *const ctors[3] = {&dynd_type_dense, &dynd_type_sparse, &dynd_type_tuple};
static const char *const cnames[3] = {"dense", "sparse", "tuple"};

// The model of a type: a builtin or a constructor with parameters
struct Node {
  int kind; // -1 builtin, else the constructor
  int b;
  std::vector<std::shared_ptr<Node>> p;
  size_t align() const {
    if (kind < 0)
      return builtins[b].align;
    size_t a = 1;
    for (auto &c : p)
      a = std::max(a, c->align());
    return a;
  }
  S str() const {
    if (kind < 0)
      return builtins[b].name;
    S r = S(cnames[kind]) + "(";
    for (size_t i = 0; i < p.size(); ++i)
      r += (i ? ", " : "") + p[i]->str();
    return r + ")";
  }
};
typedef std::shared_ptr<Node> N;
static N leaf(int b) { return N(new Node{-1, b, {}}); }
static N node(int k, std::vector<N> p) { return N(new Node{k, 0, p}); }

static size_t count(dynd_type *t) { return dynd_atomic_load(&t->refcount.refcount, dynd_memory_order_relaxed); }
static bool gone(void *p) { return __asan_address_is_poisoned(p); }

// All there is to see of one type
static bool look(mc::X &x, dynd_type *t, const Node &n, const std::vector<dynd_type *> &par) {
  x.trans(5);
  dynd_type_range r = t->header.vtable->entries.parameters(&t->header);
  bool ok = x.check(size_t(r.end - r.begin) == par.size(), "number of parameters", mc::fmt("%ld instead of %zu", (long)(r.end - r.begin), par.size()));
  for (size_t i = 0; ok && i < par.size(); ++i)
    ok = x.check(r.begin[i] == par[i], "parameter", mc::fmt("parameter %zu of %s is another type", i, n.str().c_str()));
  size_t a = t->header.vtable->entries.alignment(&t->header);
  ok = x.check(a == n.align(), "alignment", mc::fmt("alignment of %s is %zu instead of %zu", n.str().c_str(), a, n.align())) && ok;
  dynd_type_range s = t->header.vtable->entries.superclasses(&t->header);
  ok = x.check(s.begin == s.end, "superclasses", "a type without superclasses has some") && ok;
  ok = x.check(t->header.constructor == (n.kind < 0 ? &dynd_type_make_primitive : ctors[n.kind]), "constructor", "constructor of " + n.str()) && ok;
  if (n.kind >= 0)
    ok = x.check(t->header.allocated.base_ptr == t && t->header.allocated.size == malloc_usable_size(t), "allocation",
                 mc::fmt("the allocation is described as %zu bytes at %s instead of %zu bytes at the type", (size_t)t->header.allocated.size,
                         t->header.allocated.base_ptr == t ? "the type" : "another address", malloc_usable_size(t))) && ok;
  return ok;
}
static dynd_type *make(int kind, const std::vector<dynd_type *> &par) {
  // the array of the parameters is overwritten and gone once the type is made
  dynd_type **a = (dynd_type **)malloc(par.size() * sizeof(dynd_type *) + 1);
  std::copy(par.begin(), par.end(), a);
  dynd_type_constructor *c = ctors[kind];
  dynd_type *t = c->header.vtable->entries.make(&c->header, dynd_type_range{a, a + par.size()});
  for (size_t i = 0; i < par.size(); ++i)
    a[i] = nullptr;
  free(a);
  return t;
}
struct Made {
  dynd_type *t;
  const Node *n;
  std::vector<dynd_type *> par;
};
// Makes a tree of types; nodes that are shared are shared
static dynd_type *build(const N &n, std::vector<Made> &out) {
  if (n->kind < 0)
    return builtins[n->b].tp;
  for (auto &m : out)
    if (m.n == n.get())
      return m.t;
  std::vector<dynd_type *> par;
  for (auto &c : n->p)
    par.push_back(build(c, out));
  dynd_type *t = make(n->kind, par);
  out.push_back(Made{t, n.get(), par});
  return t;
}
static void tree(mc::X &x, const N &n) {
  std::vector<Made> all;
  size_t before[NB];
  for (int b = 0; b < NB; ++b)
    before[b] = count(builtins[b].tp);
  build(n, all);
  for (auto &m : all) {
    x.check(count(m.t) >= 1, "reference count", "a type that was just made has no reference");
    look(x, m.t, *m.n, m.par);
  }
  x.state(mc::h64(n->str()));
  // dropped from the outside in; each is gone then, and nothing else is
  for (size_t i = all.size(); i--;) {
    std::vector<size_t> c;
    dynd_decref(&all[i].t->refcount);
    x.trans();
    if (!x.check(gone(all[i].t), "kept", "a type is still there when its last reference was dropped: " + all[i].n->str()))
      return;
    for (size_t j = 0; j < i; ++j)
      if (!x.check(!gone(all[j].t) && count(all[j].t) == 1, "released", "dropping " + all[i].n->str() + " takes with it " + all[j].n->str()))
        return;
    for (size_t j = 0; j < i; ++j)
      look(x, all[j].t, *all[j].n, all[j].par);
  }
  for (int b = 0; b < NB; ++b)
    x.check(count(builtins[b].tp) == before[b], "builtin", S("references to ") + builtins[b].name + " are left over");
}

static int released;
static void *releasedof;
static void note(dynd_resource *r) noexcept {
  ++released;
  releasedof = r;
}

static void body(mc::X &x) {
  x.section("builtin types");
  for (int b = 0; b < NB; ++b) {
    if (!x.unit())
      continue;
    for (int reps = 0; reps < 4; ++reps) {
      MC_CASE(x, "%s with %d references taken and dropped", builtins[b].name, reps);
      const Builtin &u = builtins[b];
      auto meta = [&] { return (dynd_type_primitive_typemeta *)dynd_type_metadata(&u.tp->header); };
      x.check(meta()->size == u.size, "size", mc::fmt("size of %s is %zu", u.name, (size_t)meta()->size));
      look(x, u.tp, Node{-1, b, {}}, {});
      for (int i = 0; i < reps; ++i)
        dynd_incref(&u.tp->refcount);
      x.check(count(u.tp) == size_t(1 + reps), "reference count", mc::fmt("%zu references instead of %d", count(u.tp), 1 + reps));
      for (int i = 0; i < reps; ++i)
        dynd_decref(&u.tp->refcount);
      x.check(count(u.tp) == 1, "reference count", mc::fmt("%zu references instead of 1", count(u.tp)));
      look(x, u.tp, Node{-1, b, {}}, {});
      x.state(b * 8 + reps);
    }
  }

  x.section("types of types");
  {
    // level 1: every constructor over builtins; level 2 and 3 over those
    std::vector<N> lv[4];
    for (int b = 0; b < NB; ++b)
      lv[0].push_back(leaf(b));
    auto some = [](const std::vector<N> &v, size_t k) {
      std::vector<N> r;
      for (size_t i = 0; i < v.size() && r.size() < k; i += std::max<size_t>(1, v.size() / k))
        r.push_back(v[i]);
      return r;
    };
    auto over = [&](const std::vector<N> &one, const std::vector<N> &two, const std::vector<N> &three, std::vector<N> &out) {
      out.push_back(node(2, {}));
      for (auto &a : one)
        for (int k = 0; k < 3; ++k)
          out.push_back(node(k, {a}));
      for (auto &a : two)
        for (auto &b : two)
          out.push_back(node(2, {a, b}));
      for (auto &a : three)
        for (auto &b : three)
          for (auto &c : three)
            out.push_back(node(2, {a, b, c}));
    };
    bool th = x.thorough();
    over(lv[0], lv[0], some(lv[0], th ? 12 : 7), lv[1]);
    std::vector<N> m = some(lv[1], th ? 24 : 12);
    m.push_back(lv[0][2]);
    m.push_back(lv[0][0]);
    over(lv[1], m, some(m, th ? 10 : 6), lv[2]);
    std::vector<N> q = some(lv[2], th ? 30 : 15);
    q.push_back(lv[1][0]);
    q.push_back(lv[0][1]);
    over(th ? lv[2] : some(lv[2], 400), q, some(q, th ? 12 : 6), lv[3]);
    for (int l = 1; l < 4; ++l)
      for (size_t k0 = 0; k0 < lv[l].size(); k0 += 200) {
        if (!x.unit())
          continue;
        for (size_t k = k0; k < std::min(k0 + 200, lv[l].size()); ++k) {
          MC_CASE_S(x, lv[l][k]->str());
          tree(x, lv[l][k]);
        }
      }
  }

  x.section("long tuples");
  for (int n = 0; n <= (x.thorough() ? 300 : 70); ++n) {
    if (!x.unit())
      continue;
    for (int at = 0; at <= n; ++at) // where the widest one is
      for (int w = 0; w < 4; ++w) {
        MC_CASE(x, "tuple of %d, of alignment 1 except %d at %d", n, 1 << w, at);
        std::vector<N> p;
        for (int i = 0; i < n; ++i)
          p.push_back(leaf(i == at ? w : (i % 2 ? 0 : 4)));
        tree(x, node(2, p));
      }
  }

  x.section("references");
  {
    // every sequence of references taken and dropped until there is none
    int L = x.thorough() ? 21 : 17;
    for (int kind = 0; kind < 6; ++kind) {
      if (!x.unit())
        continue;
      std::function<void(S, int)> go = [&](S s, int c) {
        if (c == 0) {
          do {
            MC_CASE(x, "%s: %s", kind < 3 ? cnames[kind] : kind == 3 ? "empty tuple" : kind == 4 ? "dense of dense" : "resource", s.c_str());
            if (kind == 5) {
              dynd_refcounted r;
              dynd_atomic_store(&r.refcount, dynd_size_t(1), dynd_memory_order_relaxed);
              r.resource.release = &note;
              released = 0;
              int k = 1;
              bool ok = true;
              for (char o : s) {
                if (o == '+')
                  dynd_incref(&r), ++k;
                else
                  dynd_decref(&r), --k;
                x.trans();
                ok = ok && x.check(released == (k == 0), "released", mc::fmt("released %d times with %d references", released, k));
              }
              x.check(releasedof == &r.resource, "resource", "the release function gets another resource");
              x.state(mc::h64(s));
              break;
            }
            dynd_type *in = kind == 4 ? make(0, {&dynd_type_int32}) : nullptr;
            std::vector<dynd_type *> par;
            if (kind != 3)
              par.push_back(in ? in : &dynd_type_int16);
            N n = kind == 3 ? node(2, {}) : node(kind == 4 ? 0 : kind, {in ? node(0, {leaf(2)}) : leaf(1)});
            dynd_type *t = make(n->kind, par);
            int k = 1;
            for (char o : s) {
              if (o == '+')
                dynd_incref(&t->refcount), ++k;
              else
                dynd_decref(&t->refcount), --k;
              x.trans();
              if (!x.check(gone(t) == (k == 0), k ? "released" : "kept", mc::fmt("%d references are left", k)))
                break;
              if (k && !(x.check(count(t) == size_t(k), "reference count", mc::fmt("%zu references instead of %d", count(t), k)) && look(x, t, *n, par)))
                break;
            }
            if (in)
              dynd_decref(&in->refcount);
            x.state(mc::h64(s));
          } while (0);
          return;
        }
        if ((int)s.size() + c > L)
          return;
        go(s + "+", c + 1);
        go(s + "-", c - 1);
      };
      go("", 1);
    }
  }

  x.section("orders of release");
  {
    // four types over each other in every way of sharing, released in every order
    for (int shape = 0; shape < 81; ++shape) {
      if (!x.unit())
        continue;
      int ord[4] = {0, 1, 2, 3};
      do {
        MC_CASE(x, "sharing %d, order %d%d%d%d", shape, ord[0], ord[1], ord[2], ord[3]);
        dynd_type *t[4];
        t[0] = make(0, {&dynd_type_int64});
        t[1] = make(shape % 3, {t[0]});
        t[2] = shape / 3 % 3 == 2 ? make(2, {t[0], t[1]}) : make(shape / 3 % 3, {shape / 9 % 3 ? t[1] : t[0]});
        t[3] = shape / 27 % 3 == 0 ? make(2, {t[2], t[2]}) : shape / 27 % 3 == 1 ? make(2, {t[0], t[1], t[2]}) : make(2, {});
        for (int i = 0; i < 4; ++i)
          dynd_incref(&t[ord[i]]->refcount);
        for (int i = 0; i < 4; ++i)
          dynd_decref(&t[i]->refcount);
        bool dropped[4] = {};
        for (int i = 0; i < 4; ++i) {
          dynd_decref(&t[ord[i]]->refcount);
          dropped[ord[i]] = true;
          x.trans();
          for (int j = 0; j < 4; ++j)
            if (!dropped[j])
              x.check(!gone(t[j]), "released", mc::fmt("type %d was released with type %d", j, ord[i]));
        }
        for (int j = 0; j < 4; ++j)
          x.check(gone(t[j]), "kept", mc::fmt("type %d was never released", j));
        x.state(shape * 32 + ord[0] * 8 + ord[1] * 2 + (ord[2] > ord[3]));
      } while (std::next_permutation(ord, ord + 4));
    }
  }

  x.section("buffers");
  for (size_t n0 = sizeof(dynd_buffer); n0 < (x.thorough() ? 40000u : 4200u); n0 += 100) {
    if (!x.unit())
      continue;
    for (size_t n = n0; n < n0 + 100; ++n) {
      MC_CASE(x, "%zu bytes", n);
      dynd_buffer *b = dynd_malloc_buffer(n);
      x.trans(2);
      x.check(b->allocated.base_ptr == b && b->allocated.size == n && malloc_usable_size(b) >= n, "allocation",
              mc::fmt("described as %zu bytes", (size_t)b->allocated.size));
      memset(b + 1, 0x5a, n - sizeof *b);
      b->resource.release(&b->resource);
      x.check(gone(b), "kept", "a released buffer is still there");
      x.state(n);
    }
  }
}
MC_MAIN(body)
