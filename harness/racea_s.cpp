// Scenarios for race.cpp: types of the C ABI and other refcounted objects, shared by a few threads.
// Compiled with -fsanitize=thread.
#include "race.hpp"
#include <dynd/abi/metadata.h>
#include <dynd/abi/refcount.h>
#include <dynd/abi/type.h>
#include <dynd/abi/type_constructor.h>
#include <dynd/abi/types/dense.h>
#include <dynd/abi/types/primitive.h>
#include <dynd/abi/types/sparse.h>
#include <dynd/abi/types/tuple.h>
#include <memory>
#include <sstream>
#include <cstdlib>

typedef std::string S;
typedef std::function<S()> Body;
typedef std::vector<Body> Bodies;

static dynd_type_constructor *const ctors[3] = {&dynd_type_dense, &dynd_type_sparse, &dynd_type_tuple};
static const char *const cnames[3] = {"dense", "sparse", "tuple"};

static dynd_type *make(int k, std::initializer_list<dynd_type *> p) {
  dynd_type *a[4];
  size_t n = 0;
  for (dynd_type *t : p)
    a[n++] = t;
  return ctors[k]->header.vtable->entries.make(&ctors[k]->header, dynd_type_range{a, a + n});
}
static size_t count(dynd_refcounted *r) { return dynd_atomic_load(&r->refcount, dynd_memory_order_relaxed); }
static S seen(dynd_type *t) {
  std::ostringstream o;
  dynd_type_range r = t->header.vtable->entries.parameters(&t->header);
  o << r.end - r.begin << '/' << t->header.vtable->entries.alignment(&t->header) << '/' << t->header.allocated.size;
  for (dynd_type **p = r.begin; p != r.end; ++p)
    o << ',' << (*p)->header.vtable->entries.alignment(&(*p)->header);
  return o.str();
}
static void up(dynd_type *t) { dynd_incref(&t->refcount); }
static void down(dynd_type *t) { dynd_decref(&t->refcount); }

// what the threads share; each execution is a process of its own
static dynd_type *T, *U, *V;

// an object of the user's, released by the user's function, which reads what the threads have left in it
struct Obj {
  dynd_refcounted ref;
  int part[4];
};
static int releases;
static long sum;
static void release_obj(dynd_resource *r) noexcept {
  Obj *o = reinterpret_cast<Obj *>(reinterpret_cast<char *>(r) - offsetof(dynd_refcounted, resource));
  ++releases;
  for (int v : o->part)
    sum = sum * 10 + v;
  free(o);
}
static Obj *obj(int refs) {
  Obj *o = (Obj *)malloc(sizeof(Obj));
  dynd_atomic_store(&o->ref.refcount, dynd_size_t(refs), dynd_memory_order_relaxed);
  o->ref.resource.release = &release_obj;
  for (int &v : o->part)
    v = 0;
  return o;
}
static Obj *O;

std::vector<Scenario> scenarios() {
  std::vector<Scenario> r;
  S group = "references to types of the C ABI";
  auto add = [&](S name, std::function<Bodies()> setup, std::function<S()> after, int q, int t) {
    Scenario s;
    s.name = name;
    s.group = group;
    s.setup = setup;
    s.after = [after] { return after ? after() : S(); };
    s.quick = q;
    s.thorough = t;
    r.push_back(s);
  };
  auto one = [](dynd_type *const *t) {
    return [t]() -> S {
      size_t k = count(&(*t)->refcount);
      down(*t);
      return k == 1 ? S() : "reference count " + std::to_string(k) + " instead of 1";
    };
  };
  for (int k = 0; k < 3; ++k) {
    S n = cnames[k];
    add("last drop: " + n, [k] {
      T = make(k, {&dynd_type_int32});
      up(T);
      return Bodies{[] { S s = seen(T); down(T); return s; }, [] { S s = seen(T); down(T); return s; }};
    }, nullptr, 4, 8);
    add("last drop of three: " + n, [k] {
      T = make(k, {&dynd_type_int64});
      up(T);
      up(T);
      return Bodies{[] { S s = seen(T); down(T); return s; }, [] { down(T); return S(); }, [] { S s = seen(T); down(T); return s; }};
    }, nullptr, 3, 4);
    add("copy and drop: " + n, [k] {
      T = make(k, {&dynd_type_float32});
      return Bodies{[] { up(T); S s = seen(T); down(T); return s; }, [] { up(T); up(T); down(T); S s = seen(T); down(T); return s; }};
    }, one(&T), 4, 8);
    add("a reference for another: " + n, [k] {
      // each holds a reference; one takes another from its own and drops both
      T = make(k, {&dynd_type_int8});
      up(T);
      return Bodies{[] { up(T); down(T); S s = seen(T); down(T); return s; }, [] { S s = seen(T); up(T); down(T); down(T); return s; }};
    }, nullptr, 4, 8);
    add("over a shared type: " + n, [k] {
      // types over one parameter, which outlives them
      T = make(0, {&dynd_type_int16});
      return Bodies{[k] { dynd_type *t = make(k, {T}); S s = seen(t); down(t); return s; },
                    [k] { dynd_type *t = make(k, {T}); up(t); S s = seen(t); down(t); down(t); return s + seen(T); }};
    }, one(&T), 2, 4);
  }
  add("whole and part", [] {
    T = make(0, {&dynd_type_int32});
    U = make(2, {T, T, &dynd_type_int8});
    up(T);
    up(U);
    return Bodies{[] { S s = seen(U); down(U); return s; }, [] { S s = seen(T); down(U); down(T); return s; }};
  }, one(&T), 3, 6);
  add("empty tuples", [] {
    T = make(2, {});
    up(T);
    return Bodies{[] { S s = seen(T); down(T); return s; }, [] { dynd_type *t = make(2, {}); S s = seen(t) + seen(T); down(T); down(t); return s; }};
  }, nullptr, 3, 6);
  add("builtin types", [] {
    return Bodies{[] { up(&dynd_type_int32); S s = seen(&dynd_type_int32); down(&dynd_type_int32); return s; },
                  [] { up(&dynd_type_int32); down(&dynd_type_int32); up(&dynd_type_size_t); S s = seen(&dynd_type_int32); down(&dynd_type_size_t); return s; }};
  }, [] { return count(&dynd_type_int32.refcount) == 1 && count(&dynd_type_size_t.refcount) == 1 ? S() : S("references are left"); }, 4, 8);
  add("two types, in opposite order", [] {
    T = make(0, {&dynd_type_int32});
    U = make(1, {&dynd_type_int64});
    up(T);
    up(U);
    return Bodies{[] { S s = seen(T); down(T); s += seen(U); down(U); return s; }, [] { S s = seen(U); down(U); s += seen(T); down(T); return s; }};
  }, nullptr, 3, 5);

  group = "references to the user's objects";
  auto released = [](int n, long want) {
    return [n, want]() -> S {
      if (releases != n)
        return "released " + std::to_string(releases) + " times";
      return sum == want ? S() : "the release function saw " + std::to_string(sum);
    };
  };
  add("written before the last drop", [] {
    O = obj(2);
    return Bodies{[] { O->part[0] = 1; dynd_decref(&O->ref); return S(); }, [] { O->part[1] = 2; dynd_decref(&O->ref); return S(); }};
  }, released(1, 1200), 6, 12);
  add("written before the last drop of three", [] {
    O = obj(3);
    return Bodies{[] { O->part[0] = 1; dynd_decref(&O->ref); return S(); }, [] { O->part[1] = 2; dynd_decref(&O->ref); return S(); },
                  [] { O->part[2] = 3; dynd_decref(&O->ref); return S(); }};
  }, released(1, 1230), 5, 9);
  add("references taken in between", [] {
    O = obj(2);
    return Bodies{[] { dynd_incref(&O->ref); O->part[0] = 1; dynd_decref(&O->ref); O->part[2] = 3; dynd_decref(&O->ref); return S(); },
                  [] { dynd_incref(&O->ref); dynd_decref(&O->ref); O->part[1] = 2; dynd_decref(&O->ref); return S(); }};
  }, released(1, 1230), 5, 9);
  add("not the last", [] {
    O = obj(3);
    return Bodies{[] { O->part[0] = 1; dynd_decref(&O->ref); return S(); }, [] { O->part[1] = 2; dynd_decref(&O->ref); return S(); }};
  }, [released]() -> S {
    if (releases)
      return "released while there is a reference";
    dynd_decref(&O->ref);
    return released(1, 1200)();
  }, 6, 12);
  return r;
}
