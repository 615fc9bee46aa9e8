// Scenarios for race.cpp: a few threads using shared objects, each in the ways that are allowed to run at once.
// Compiled with -fsanitize=thread.
#include "race.hpp"
#include <dynd/arithmetic.hpp>
#include <dynd/array.hpp>
#include <dynd/assignment.hpp>
#include <dynd/callable.hpp>
#include <dynd/comparison.hpp>
#include <dynd/functional.hpp>
#include <dynd/index.hpp>
#include <dynd/io.hpp>
#include <dynd/json_formatter.hpp>
#include <dynd/logic.hpp>
#include <dynd/math.hpp>
#include <dynd/registry.hpp>
#include <dynd/sort.hpp>
#include <dynd/json_parser.hpp>
#include <dynd/memblock/pod_memory_block.hpp>
#include <dynd/option.hpp>
#include <dynd/statistics.hpp>
#include <dynd/string.hpp>
#include <dynd/types/callable_type.hpp>
#include <dynd/types/struct_type.hpp>
#include <dynd/types/tuple_type.hpp>
#include <dynd/view.hpp>
#include <sstream>

using namespace dynd;
typedef std::string S;
typedef std::function<S()> Body;
typedef std::vector<Body> Bodies;

static S show(const nd::array &a) {
  nd::array j = nd::empty(ndt::type("string"));
  return dynd::format_json(a).as<S>();
}
template <class T>
static S str(const T &v) {
  std::ostringstream o;
  o << v;
  return o.str();
}
static nd::array pj(const char *t, const char *j) {
  return parse_json(ndt::type(t, t + strlen(t)), S(j), &eval::default_eval_context);
}

template <class Fn>
static S error(Fn f) {
  try {
    f();
  } catch (const std::exception &e) {
    return e.what();
  } catch (const dynd_exception &e) {
    return e.what();
  }
  return "no error";
}

// objects that the threads share; each execution is a process of its own
static nd::array A, B, C, D, E, G;
static ndt::type T, U;
static nd::callable F;
static nd::memory_block M;

static void drop() {
  A = B = C = D = E = G = nd::array();
  T = U = ndt::type();
  F = nd::callable();
  M = nd::memory_block();
}

std::vector<Scenario> scenarios() {
  std::vector<Scenario> r;
  S group = "ownership";
  auto add = [&](const S &name, std::function<Bodies()> setup, std::function<S()> after, int q, int t) {
    Scenario s;
    s.name = name;
    s.group = group;
    s.setup = setup;
    s.after = [after] {
      S a = after ? after() : S();
      drop();
      return a;
    };
    s.quick = q;
    s.thorough = t;
    r.push_back(s);
  };
  auto count = [](long n) {
    return [n]() -> S {
      long k = A.get()->get_use_count();
      return k == n ? S() : "use count " + std::to_string(k) + " instead of " + std::to_string(n);
    };
  };

  // --- ownership ---
  struct Kind {
    const char *name, *tp, *js;
  };
  static const Kind kinds[] = {{"numbers", "3 * int32", "[1,2,3]"},
                               {"strings", "2 * string", "[\"short\",\"long enough to be on the heap, certainly\"]"},
                               {"ragged", "2 * var * int16", "[[1],[2,3]]"},
                               {"records", "2 * {x: string, y: ?int32}", "[[\"a\",1],[\"b\",null]]"},
                               {"scalar", "float64", "2.5"}};
  for (auto &k : kinds) {
    // copies come and go while others read
    add(S("copy and drop: ") + k.name, [&k]() {
      A = pj(k.tp, k.js);
      return Bodies{[] { nd::array c = A; nd::array d = c; c = nd::array(); return str(d.get_ndim()); },
                    [] { nd::array c = A; nd::array d = std::move(c); return str(d.get_type()); }};
    }, count(1), 3, 5);
    // the last references are dropped at the same time
    add(S("last drop: ") + k.name, [&k]() {
      A = pj(k.tp, k.js);
      auto b = std::make_shared<nd::array>(A), c = std::make_shared<nd::array>(A);
      B = *b;
      C = A;
      A = nd::array();
      b.reset();
      c.reset();
      return Bodies{[] { B = nd::array(); return S(); }, [] { C = nd::array(); return S(); }};
    }, nullptr, 3, 5);
    add(S("last drop of three: ") + k.name, [&k]() {
      A = pj(k.tp, k.js);
      B = A;
      C = A;
      return Bodies{[] { B = nd::array(); return S(); }, [] { nd::array x = C; C = nd::array(); return S(); },
                    [] { A = nd::array(); return S(); }};
    }, nullptr, 2, 3);
    // views keep the data alive
    if (S(k.tp).find('*') != S::npos)
      add(S("view outlives owner: ") + k.name, [&k]() {
        A = pj(k.tp, k.js);
        B = A(1);
        return Bodies{[] { S s = show(B); B = nd::array(); return s; }, [] { nd::array c = A(0); A = nd::array(); return show(c); }};
      }, nullptr, 2, 3);
  }
  add("types: last drop", [] {
    T = ndt::type("3 * {x: int32, y: string}");
    U = T;
    return Bodies{[] { T = ndt::type(); return S(); }, [] { ndt::type v = U; U = ndt::type(); return str(v.get_ndim()); }};
  }, nullptr, 3, 5);
  add("types: element of a shared type", [] {
    T = ndt::type("3 * {x: int32, y: string}");
    U = T;
    return Bodies{[] { ndt::type e = T.get_dtype(); T = ndt::type(); return str(e); },
                  [] { ndt::type e = U.get_type_at_dimension(nullptr, 1); U = ndt::type(); return str(e); }};
  }, nullptr, 2, 3);
  add("callables: last drop", [] {
    F = nd::callable([](int a, int b) { return a * 10 + b; });
    auto g = std::make_shared<nd::callable>(F);
    return Bodies{[g] { nd::callable c = F; return str(c->get_narg()); }, [g]() mutable { nd::callable c = *g; g.reset(); return str(c->get_narg()); }};
  }, nullptr, 3, 5);
  add("memory blocks: last drop", [] {
    M = nd::make_memory_block<nd::pod_memory_block>(ndt::type("int32"), 64);
    static nd::memory_block N;
    N = M;
    return Bodies{[] { M = nd::memory_block(); return S(); }, [] { nd::memory_block x = N; N = nd::memory_block(); return S(); }};
  }, nullptr, 3, 5);

  // --- computing: the same callables, the same operands ---
  struct Op {
    const char *name;
    std::function<S()> f, g;
  };
  static const std::vector<Op> ops = {
      {"add and add", [] { return show(nd::add(A, B)); }, [] { return show(nd::add(A, B)); }},
      {"add and multiply", [] { return show(A + B); }, [] { return show(A * B); }},
      {"different element types", [] { return show(nd::add(A, B)); }, [] { return show(nd::add(A, C)); }},
      {"compare", [] { return show(nd::less(A, B)); }, [] { return show(nd::less(A, C)); }},
      {"sum", [] { return show(nd::sum(A)); }, [] { return show(nd::sum(C)); }},
      {"convert", [] { nd::array r = nd::empty(ndt::type("3 * float64")); r.assign(A); return show(r); },
       [] { nd::array r = nd::empty(ndt::type("3 * float32")); r.assign(C); return show(r); }},
      {"missing values", [] { return show(nd::is_na(D)); }, [] { return show(nd::is_na(D)); }},
      {"callable", [] { return show(F(2, 3)); }, [] { return show(F(4, 5)); }},
      {"lifted callable", [] { return show(nd::functional::elwise(F)(A, B)); }, [] { return show(nd::functional::elwise(F)(A, 1)); }},
      {"parse types", [] { return str(ndt::type("3 * {x: ?int32}")); }, [] { return str(ndt::type("(N * T, ... * string) -> var * Any")); }},
      {"match", [] { return str(ndt::type("N * Scalar").match(A.get_type())); }, [] { return str(ndt::type("Dims... * T").match(A.get_type())); }},
      {"json", [] { return show(pj("2 * var * int32", "[[1],[2,3]]")); }, [] { return show(pj("{x: string}", "{\"x\": \"y\"}")); }},
      {"print", [] { return str(A); }, [] { return str(C); }},
      {"index", [] { return show(A(irange().by(-1))); }, [] { return show(A(1)); }},
      {"fields", [] { return show(pj("{x: int32, y: int8}", "[1,2]").p("y")); }, [] { return show(pj("{x: int32, y: int8}", "[1,2]").p("x")); }},
      {"properties", [] { return str(ndt::type("3 * {x: ?int32}").p<ndt::type>("element_type")); }, [] { return str(A.get_type().p<ndt::type>("element_type")); }},
      {"strings", [] { return show(nd::string_concatenation(nd::array("ab"), nd::array("cd"))); }, [] { return show(nd::string_count(nd::array("abab"), nd::array("b"))); }},
      {"copy", [] { return show(A.eval_copy()); }, [] { return show(C.eval_copy()); }},
      {"sort", [] { nd::array r = A.eval_copy(); nd::sort(r); return show(r); }, [] { nd::array r = C.eval_copy(); nd::sort(r); return show(r); }},
      {"take", [] { return show(nd::take(A, nd::array{intptr_t(2), intptr_t(0)})); }, [] { return show(nd::take(C, nd::array{bool1(true), bool1(false), bool1(true)})); }},
      {"records", [] { nd::array r = nd::empty(ndt::type("2 * {x: string, y: ?int32}")); r.assign(E); return show(r); },
       [] { return show(E(1).p("x")) + show(E.p("y")); }},
      {"ragged", [] { nd::array r = nd::empty(ndt::type("2 * var * int16")); r.assign(G); return show(r); },
       [] { return show(nd::add(G, A(0))); }},
      {"equality", [] { return str(nd::all_equal(A, B)); }, [] { return str(A.equals_exact(A)) + str(A.get_type() == B.get_type()); }},
      {"bits and negation", [] { return show(A & B) + show(-A); }, [] { return show(A | B) + show(!A); }},
      {"option arithmetic", [] { return show(nd::add(D, D)); }, [] { return show(nd::add(D, 1)); }},
      {"compound", [] { nd::array r = A.eval_copy(); r += B; return show(r); }, [] { nd::array r = C.eval_copy(); r += C; return show(r); }},
      {"reductions", [] { return show(nd::max(A)); }, [] { return show(nd::min(C)) + show(nd::sum(A)); }},
      {"math", [] { return show(nd::sin(C)); }, [] { return show(nd::sqrt(C)); }},
      {"disjoint writes", [] { B(0).assign(7); return show(B(0)); }, [] { B(irange(1, 3)).assign(8); return show(B(2)); }},
      {"wrong calls", [] { return error([] { nd::add(A, E); }); }, [] { return error([] { A(5); }) + error([] { ndt::type("3 * * int32"); }); }},
      {"substitute", [] { std::map<S, ndt::type> v; bool m = ndt::type("N * T").match(A.get_type(), v); return str(m) + str(v["N"]) + str(v["T"]); },
       [] { std::map<S, ndt::type> v; ndt::type("Dims... * {x: T, y: U}").match(E.get_type(), v); return str(v["T"]) + str(v["U"]); }},
      {"bytes", [] { return str(nd::array(bytes("abc", 3)).view(ndt::type("bytes"))); }, [] { return str(nd::array(bytes("abc", 3))); }},
      {"registry", [] { return str(registered()["dynd.nd.add"].value()->get_narg()); }, [] { return str(registered()["dynd.nd.sum"].value()->get_narg()); }},
      {"default types", [] { return str(ndt::make_type<ndt::fixed_dim_type>(3, ndt::make_type<int>())); }, [] { return str(ndt::type_for(1.5)); }},
  };
  for (int warm = 0; warm < 2; ++warm) {
    group = warm ? "used before" : "first use";
    for (auto &o : ops)
      add(S(o.name) + (warm ? ", used before" : ", first use"), [&o, warm] {
        A = nd::array{1, 2, 3};
        B = nd::array{10, 20, 30};
        C = nd::array{0.5, 1.5, 2.5};
        D = pj("2 * ?int32", "[1,null]");
        E = pj("2 * {x: string, y: ?int32}", "[[\"a\",1],[\"some longer text, on the heap\",null]]");
        G = pj("2 * var * int16", "[[1],[2,3]]");
        F = nd::callable([](int a, int b) { return a * 10 + b; });
        if (warm) {
          o.f();
          o.g();
        }
        return Bodies{o.f, o.g};
      }, count(1), 1, 2);
  }
  return r;
}
