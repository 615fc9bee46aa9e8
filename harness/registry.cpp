// What is registered by name: type constructors with the arguments written in a datashape, type ids, functions.
#include "mc.hpp"
#include <dynd/array.hpp>
#include <dynd/arithmetic.hpp>
#include <dynd/callable.hpp>
#include <dynd/comparison.hpp>
#include <dynd/exceptions.hpp>
#include <dynd/functional.hpp>
#include <dynd/index.hpp>
#include <dynd/option.hpp>
#include <dynd/range.hpp>
#include <dynd/registry.hpp>
#include <dynd/type_registry.hpp>
#include <dynd/types/datashape_parser.hpp>
#include <dynd/types/fixed_dim_type.hpp>
#include <dynd/types/option_type.hpp>
#include <dynd/types/struct_type.hpp>
#include <dynd/types/tuple_type.hpp>
#include <dynd/types/type_type.hpp>
#include <functional>
#include <memory>
using namespace dynd;
typedef std::string S;

template <class Fn>
static bool error(Fn fn, S *w = nullptr) {
  try {
    fn();
  } catch (const std::exception &e) {
    if (w)
      *w = e.what();
    return true;
  } catch (const dynd_exception &e) {
    if (w)
      *w = e.what();
    return true;
  }
  return false;
}

// ---- the arguments as written, and as the constructor gets them ----
static S quote(const S &s) { return "'" + s + "'"; }
static S show(const nd::array &a) {
  const ndt::type &tp = a.get_type();
  switch (tp.get_id()) {
  case int64_id:
    return std::to_string((long long)a.as<int64_t>());
  case string_id:
    return quote(a.as<S>());
  case type_id:
    return "<" + a.as<ndt::type>().str() + ">";
  case fixed_dim_id: {
    S r = "[";
    intptr_t n = a.get_dim_size();
    if (n == 0)
      return "[]";
    for (intptr_t i = 0; i < n; ++i)
      r += (i ? "," : "") + show(a(i));
    return r + "]";
  }
  default:
    return "?" + tp.str();
  }
}
static S show_args(const nd::buffer &b) {
  nd::array a(b);
  const ndt::type &tp = a.get_type();
  if (tp.get_id() != tuple_id || tp.extended<ndt::tuple_type>()->get_field_count() != 2)
    return "not a pair: " + tp.str();
  ndt::type pt = tp.extended<ndt::tuple_type>()->get_field_type(0), kt = tp.extended<ndt::tuple_type>()->get_field_type(1);
  if (pt.get_id() != tuple_id || kt.get_id() != struct_id)
    return "not positional and keyword arguments: " + tp.str();
  S r;
  nd::array p = a(0), k = a(1);
  for (intptr_t i = 0; i < pt.extended<ndt::tuple_type>()->get_field_count(); ++i)
    r += show(p(i)) + ";";
  for (intptr_t i = 0; i < kt.extended<ndt::struct_type>()->get_field_count(); ++i)
    r += kt.extended<ndt::struct_type>()->get_field_name(i) + "=" + show(k(i)) + ";";
  return r;
}

// the grammar of argument lists, over tokens
struct Grammar {
  const std::vector<int> &t;
  size_t i = 0;
  S out;
  std::set<S> names;
  enum { OPEN, CLOSE, COMMA, COLON, INT, STR, TYPE, NAME };
  int at(size_t k) const { return k < t.size() ? t[k] : -1; }
  static const char *lit(int k) { return k == INT ? "1" : k == STR ? "'s'" : "<bool>"; }
  bool literal(int k) const { return k == INT || k == STR || k == TYPE; }
  bool arg() {
    if (literal(at(i))) {
      out += lit(at(i++));
      return true;
    }
    if (at(i) != OPEN)
      return false;
    ++i;
    out += "[";
    if (at(i) == CLOSE) {
      ++i;
      out += "]";
      return true;
    }
    int k = at(i);
    for (;;) {
      if (!literal(at(i)) || at(i) != k)
        return false;
      out += lit(k);
      ++i;
      if (at(i) == CLOSE) {
        ++i;
        out += "]";
        return true;
      }
      if (at(i) != COMMA)
        return false;
      ++i;
      out += ",";
    }
  }
  bool keyword() const { return (at(i) == NAME || at(i) == TYPE) && at(i + 1) == COLON; }
  bool all() {
    if (at(i++) != OPEN)
      return false;
    if (at(i) == CLOSE)
      return i + 1 == t.size();
    bool kw = false;
    for (;;) {
      if (keyword()) {
        kw = true;
        S n = at(i) == NAME ? "k" : "bool";
        if (!names.insert(n).second)
          return false;
        out += n + "=";
        i += 2;
      } else if (kw)
        return false;
      if (!arg())
        return false;
      out += ";";
      if (at(i) == CLOSE)
        return i + 1 == t.size();
      if (at(i) != COMMA)
        return false;
      ++i;
    }
  }
};

struct Atom {
  S text, shown;
};
static std::vector<Atom> atoms() {
  std::vector<Atom> v;
  for (const char *n : {"0", "7", "-10", "9223372036854775807", "-9223372036854775808"})
    v.push_back({n, n});
  v.push_back({"\"\"", "''"});
  v.push_back({"\"x\"", "'x'"});
  v.push_back({"\"a\\\"b\\\\c\\n]\"", "'a\"b\\c\n]'"});
  v.push_back({"\"\xc3\xa9\xe2\x82\xac, k: 1\"", "'\xc3\xa9\xe2\x82\xac, k: 1'"});
  v.push_back({"\"a text longer than fifteen bytes\"", "'a text longer than fifteen bytes'"});
  for (const char *n : {"int32", "var * string", "{x: int32, y: (int8, bool)}", "?float64", "Fixed * T", "fixed_string[3, 'utf16']",
                        "(int32, k: int8) -> bool", "3 * int32", "Dims... * R"})
    v.push_back({n, "<" + S(n) + ">"});
  v.push_back({"[]", "[]"});
  v.push_back({"[1]", "[1]"});
  v.push_back({"[1, -2, 3]", "[1,-2,3]"});
  v.push_back({"[\"x\"]", "['x']"});
  v.push_back({"[\"x\", \"a text longer than fifteen bytes\"]", "['x','a text longer than fifteen bytes']"});
  v.push_back({"[int32]", "[<int32>]"});
  v.push_back({"[var * int8, {x: int32}, bool]", "[<var * int8>,<{x: int32}>,<bool>]"});
  v.push_back({"[2 * int8, float32]", "[<2 * int8>,<float32>]"});
  return v;
}

// ---- a registered type constructor that records what it is given ----
static S got_args, got_element;
static int got_calls;
static ndt::type construct(type_id_t, const nd::buffer &args, const ndt::type &element) {
  ++got_calls;
  got_args = args.is_null() ? "none" : show_args(args);
  got_element = element.is_null() ? "none" : element.str();
  if (got_args == "'x';")
    throw std::invalid_argument("not this one");
  if (element.is_null())
    return ndt::type("(int64, int64)");
  return ndt::make_fixed_dim(5, element);
}
static S fresh(const char *p) {
  static int n = 0;
  return p + std::to_string(n++);
}

static void body(mc::X &x) {
  static const char *tok[] = {"[", "]", ",", ":", "1", "\"s\"", "bool", "k"};
  x.section("argument lists");
  int maxlen = x.thorough() ? 8 : 7;
  for (int len = 1; len <= maxlen; ++len) {
    int nfirst = len < 3 ? 1 : 64;
    for (int f = 0; f < nfirst; ++f) {
      if (!x.unit())
        continue;
      int rest = len < 3 ? len - 1 : len - 3;
      long n = 1;
      for (int i = 0; i < rest; ++i)
        n *= 8;
      for (long c = 0; c < n; ++c) {
        std::vector<int> t(1, Grammar::OPEN);
        if (len >= 3) {
          t.push_back(f / 8);
          t.push_back(f % 8);
        }
        long v = c;
        for (int i = 0; i < rest; ++i, v /= 8)
          t.push_back(v % 8);
        S text;
        for (int k : t)
          text += S(text.empty() ? "" : " ") + tok[k];
        Grammar g{t};
        bool ok = g.all();
        MC_CASE_S(x, text);
        x.trans();
        nd::buffer b;
        S w;
        bool refused = error([&] { b = datashape::parse_type_constr_args(text); }, &w);
        x.outcome(ok ? "accepted" : "refused");
        if (ok) {
          if (x.check(!refused, "arguments are refused", w))
            x.check(show_args(b) == g.out, "other arguments than written", show_args(b) + " instead of " + g.out);
        } else
          x.check(refused, "malformed arguments are accepted", refused ? "" : show_args(b));
      }
    }
  }
  std::vector<Atom> as = atoms();
  x.section("argument values");
  // up to two positional and two keyword arguments in three layouts
  static const char *sep[][4] = {{"", ",", ":", ""}, {" ", " , ", " : ", "\t"}, {"# c]\n", "# ]\n,\n ", ": # \"\n", "\n"}};
  for (int np = 0; np <= 3; ++np)
    for (int nk = 0; nk <= 2; ++nk) {
      int n = np + nk;
      if (n == 0 || n > (x.thorough() ? 3 : 2))
        continue;
      for (size_t a0 = 0; a0 < as.size(); ++a0) {
        if (!x.unit())
          continue;
        size_t total = 1;
        for (int i = 1; i < n; ++i)
          total *= as.size();
        for (size_t c = 0; c < total; ++c)
          for (auto &sp : sep) {
            size_t v = c;
            S text = "[" + S(sp[0]), want;
            for (int i = 0; i < n; ++i) {
              const Atom &a = as[i == 0 ? a0 : v % as.size()];
              if (i)
                v /= as.size();
              if (i)
                text += sp[1];
              if (i >= np) {
                S name = i == np ? "key" : "int32";
                text += name + sp[2];
                want += name + "=";
              }
              text += a.text;
              want += a.shown + ";";
            }
            text += S(sp[3]) + "]";
            MC_CASE_S(x, text);
            x.trans();
            nd::buffer b;
            S w;
            if (x.check(!error([&] { b = datashape::parse_type_constr_args(text); }, &w), "arguments are refused", w))
              x.check(show_args(b) == want, "other arguments than written", show_args(b) + " instead of " + want);
            // anything after the list is not part of it
            x.check(error([&] { datashape::parse_type_constr_args(text + " 1"); }), "malformed arguments are accepted", text + " 1");
          }
      }
    }
  x.section("constructors");
  std::vector<Atom> args = as;
  for (auto &a : args) {
    a.text = "[" + a.text + "]";
    a.shown += ";";
  }
  args.push_back({"[]", ""});
  args.push_back({"[1, int32, k: \"v\"]", "1;<int32>;k='v';"});
  args.push_back({"[k: [int8]]", "k=[<int8>];"});
  static const char *outer[] = {"%s", "?%s", "3 * %s", "var * %s", "{a: %s, b: int8}", "(%s, int16)", "{b: int8, a: %s}", "pointer[%s]"};
  for (auto &a : args) {
    if (!x.unit())
      continue;
    S name = fresh("mc_ctor");
    type_id_t id = new_id(name.c_str(), scalar_kind_id);
    register_known_type_id_constructor(id, ndt::type("(bool, bool, int8)"), &construct);
    for (int elem = 0; elem < 4; ++elem)
      for (const char *o : outer) {
        static const char *el[] = {"", " * int32", "*2 * {x: ?int8}", " * var * string"};
        static const char *elt[] = {"none", "int32", "2 * {x: ?int8}", "var * string"};
        S text = mc::fmt(o, (name + a.text + el[elem]).c_str());
        MC_CASE_S(x, text);
        x.trans();
        got_calls = 0;
        ndt::type tp;
        S w;
        bool refused = error([&] { tp = ndt::type(text); }, &w);
        if (a.shown == "'x';") {
          x.check(refused && w.find("not this one") != S::npos, "the constructor's error is lost", refused ? w : tp.str());
          continue;
        }
        if (!x.check(!refused, "a registered constructor is refused", w))
          continue;
        x.check(got_calls == 1, "constructor called another number of times", std::to_string(got_calls));
        x.check(got_args == a.shown, "other arguments than written", got_args + " instead of " + a.shown);
        x.check(got_element == elt[elem], "another element type than written", got_element + " instead of " + elt[elem]);
        S r = mc::fmt(o, elem ? ("5 * " + S(elt[elem])).c_str() : "(int64, int64)");
        x.check(tp.str() == r, "another type than constructed", tp.str() + " instead of " + r);
      }
    do {
      MC_CASE(x, "%s alone", a.text.c_str());
      x.trans();
      got_calls = 0;
      S w;
      ndt::type tp;
      if (x.check(!error([&] { tp = ndt::type(name); }, &w), "a registered name is refused", w))
        x.check(tp.str() == "(bool, bool, int8)" && !got_calls, "another type than registered", tp.str());
      if (x.check(!error([&] { tp = ndt::type(name + " * int8"); }, &w), "a registered name is refused", w))
        x.check(tp.str() == "5 * int8" && got_calls == 1 && got_args == "none" && got_element == "int8", "another type than registered",
                tp.str() + " " + got_args + " " + got_element);
      x.check(error([&] { ndt::type t(name + a.text + " )"); }), "malformed type is accepted", name + a.text + " )");
      x.check(error([&] { ndt::type t(name + a.text + " *"); }), "malformed type is accepted", name + a.text + " *");
      x.check(error([&] { ndt::type t(name + a.text.substr(0, a.text.size() - 1)); }), "malformed type is accepted", name + a.text.substr(0, a.text.size() - 1));
    } while (0);
  }

  x.section("type ids");
  // every history of registrations of two names, against a list
  struct Reg {
    S name;
    type_id_t base;
    int kind; // 0 nothing, 1 singleton, 2 constructor, 3 both
  };
  int depth = x.thorough() ? 5 : 4;
  const int NOP = 9;
  for (int d = 1; d <= depth; ++d) {
    long n = 1;
    for (int i = 0; i < d; ++i)
      n *= NOP;
    for (int part = 0; part < 16; ++part) {
      if (!x.unit())
        continue;
      for (long c = part; c < n; c += 16) {
        MC_CASE(x, "%d operations, number %ld", d, c);
        S nm[2] = {fresh("mc_id_a"), fresh("mc_id_b")};
        std::vector<Reg> model;
        type_id_t first = (type_id_t)detail::infos().size();
        long v = c;
        bool good = true;
        for (int i = 0; i < d && good; ++i, v /= NOP) {
          int op = v % NOP;
          x.trans();
          if (op < 3) { // a new id
            S name = nm[op % 2];
            type_id_t base = op == 2 ? dim_kind_id : scalar_kind_id;
            type_id_t id = new_id(name.c_str(), base);
            good = x.check((size_t)id == (size_t)first + model.size(), "another id than the next", std::to_string((int)id));
            model.push_back({name, base, 0});
          } else {
            int which = (op - 3) / 3, kind = 1 + (op - 3) % 3; // which: the first or the last id
            if (model.empty()) {
              good = x.check(error([&] { register_known_type_id_constructor((type_id_t)detail::infos().size(), ndt::type("int8"), nullptr); }),
                             "an unknown id is accepted", "");
              continue;
            }
            size_t k = which ? model.size() - 1 : 0;
            // a parser without a constructor changes nothing
            good = x.check(error([&] {
                             register_known_type_id_constructor((type_id_t)(first + k), ndt::type("int8"), nullptr, &default_parse_type_args);
                           }),
                           "a parser without a constructor is accepted", "");
            bool r = error([&] {
              register_known_type_id_constructor((type_id_t)(first + k), kind & 1 ? ndt::type("(int8, bool)") : ndt::type(),
                                                 kind & 2 ? &construct : nullptr);
            });
            good = good && x.check(r == (model[k].kind != 0), r ? "a registration is refused" : "a second registration is accepted", "");
            if (!r)
              model[k].kind = kind;
          }
          for (auto &name : nm) {
            auto r = lookup_id_by_name(name);
            size_t k = 0;
            while (k < model.size() && model[k].name != name)
              ++k;
            S w;
            ndt::type tp;
            if (k == model.size()) {
              good = good && x.check(r.first == uninitialized_id && !r.second, "a name is found that was never registered", name);
              good = good && x.check(error([&] { ndt::type t(name); }), "a name is found that was never registered", name);
            } else {
              good = good && x.check((size_t)r.first == first + k && r.second && r.second->base_id == model[k].base && r.second->name == name,
                            "a name leads to another id", name);
              bool refused = error([&] { tp = ndt::type(name); }, &w);
              good = good && x.check(refused == !(model[k].kind & 1) && (refused || tp.str() == "(int8, bool)"), "another type than registered",
                            refused ? w : tp.str());
              refused = error([&] { tp = ndt::type(name + "[1]"); }, &w);
              good = good && x.check(refused == !(model[k].kind & 2) && (refused || tp.str() == "(int64, int64)"), "another type than constructed",
                            refused ? w : tp.str());
            }
          }
        }
        x.state(mc::h64(mc::fmt("%d/%ld", d, c)));
      }
    }
  }

  x.section("functions");
  // every history of insertions and observations in a registry of names a, b, against a tree
  static nd::callable fns[] = {nd::functional::apply([](int v) { return v + 1; }), nd::functional::apply([](int v) { return v + 2; })};
  struct Tree {
    bool ns;
    int fn;
    S path;
    std::map<S, std::unique_ptr<Tree>> kids;
    int observers = 0;
  };
  struct Event {
    registry_entry *at;
    S name;
    registry_entry *entry;
  };
  static std::vector<Event> events;
  const int NF = 14;
  int fdepth = x.thorough() ? 5 : 4;
  std::function<Tree *(Tree *, const S &)> find = [&](Tree *t, const S &p) -> Tree * {
    size_t i = p.find('.');
    auto it = t->kids.find(p.substr(0, i));
    if (it == t->kids.end())
      return nullptr;
    return i == S::npos ? it->second.get() : find(it->second.get(), p.substr(i + 1));
  };
  static const char *paths[] = {"a", "b", "c", "a.a", "a.b", "a.c", "b.a", "b.b", "b.c", "a.a.a", "a.a.b", "a.a.c", "a.b.c", "b.a.c", "b.b.c",
                                "",  ".", "a.", ".a", "a..a", "A", "aa", "ab", "a b"};
  for (int d = 1; d <= fdepth; ++d) {
    long n = 1;
    for (int i = 0; i < d; ++i)
      n *= NF;
    for (int part = 0; part < 32; ++part) {
      if (!x.unit())
        continue;
      for (long c = part; c < n; c += 32) {
        MC_CASE(x, "%d operations, number %ld", d, c);
        registry_entry root(std::initializer_list<std::pair<const S, registry_entry>>{});
        Tree model{true, -1, "", {}};
        long v = c;
        bool good = true;
        for (int i = 0; i < d && good; ++i, v /= NF) {
          int op = v % NF;
          x.trans();
          events.clear();
          // 0..11: insert name a/b into the root, a or a.a: a function, or a namespace holding a function c
          // 12, 13: observe the root, a
          S at = op < 12 ? (op / 4 == 0 ? "" : op / 4 == 1 ? "a" : "a.a") : op == 12 ? "" : "a";
          Tree *m = at.empty() ? &model : find(&model, at);
          registry_entry *e = &root;
          S w;
          if (!at.empty()) {
            bool missing = error([&] { e = &root[at]; }, &w);
            good = x.check(missing == !m, missing ? "a registered name is not found" : "a name is found that was never registered", at);
            if (missing)
              continue;
          }
          if (!m->ns)
            continue; // inserting into a function is nobody's contract
          if (op >= 12) {
            e->observe([](registry_entry *s, const char *nm, registry_entry *en) { events.push_back({s, nm, en}); });
            ++m->observers;
            continue;
          }
          S name = op % 2 ? "b" : "a";
          bool ns = op / 2 % 2;
          bool clash = m->kids.count(name) != 0;
          bool refused = error(
              [&] {
                if (ns) {
                  registry_entry sub{{"c", registry_entry(fns[1])}};
                  e->insert({name, sub});
                } else
                  e->insert({name, registry_entry(fns[0])});
              },
              &w);
          if (!x.check(refused == clash, refused ? "a new name is refused" : "a registered name is replaced", name + " in " + at)) {
            good = false;
            break;
          }
          if (!refused) {
            S path = at.empty() ? name : at + "." + name;
            std::unique_ptr<Tree> t(new Tree{ns, ns ? -1 : 0, path, {}});
            if (ns)
              t->kids["c"].reset(new Tree{false, 1, path + ".c", {}});
            m->kids[name] = std::move(t);
          }
          good = x.check((int)events.size() == (refused ? 0 : m->observers), "observers told another number of times",
                         std::to_string(events.size()));
          for (auto &ev : events)
            good = good && x.check(ev.at == e && ev.name == name && ev.entry == &(*e)[name], "observers told something else", ev.name);
          for (const char *p : paths) {
            Tree *q = find(&model, p);
            registry_entry *f = nullptr;
            bool missing = error([&] { f = &root[p]; }, &w);
            good = good && x.check(missing == !q, missing ? "a registered name is not found" : "a name is found that was never registered", p);
            if (!good || !q)
              continue;
            good = x.check(f->is_namespace() == q->ns, "a function is taken for a namespace or the reverse", p);
            good = good && x.check(f->path() == q->path, "another path than registered", f->path() + " instead of " + q->path);
            if (!q->ns)
              good = good && x.check(f->value().get() == fns[q->fn].get(), "another function than registered", p);
            S k1, k2;
            for (auto &k : *f)
              k1 += k.first + " ";
            for (auto &k : q->kids)
              k2 += k.first + " ";
            good = good && x.check(k1 == k2, "a namespace lists other names", k1 + "instead of " + k2);
          }
        }
      }
    }
  }
  x.section("library functions");
  if (x.unit()) {
    // what the library registers itself
    struct {
      const char *name;
      const nd::callable *f;
    } lib[] = {{"add", &nd::add}, {"subtract", &nd::subtract}, {"multiply", &nd::multiply}, {"divide", &nd::divide}, {"mod", &nd::mod},
               {"less", &nd::less}, {"less_equal", &nd::less_equal}, {"equal", &nd::equal}, {"not_equal", &nd::not_equal},
               {"greater", &nd::greater}, {"greater_equal", &nd::greater_equal}, {"total_order", &nd::total_order},
               {"bitwise_and", &nd::bitwise_and}, {"bitwise_or", &nd::bitwise_or}, {"bitwise_xor", &nd::bitwise_xor},
               {"bitwise_not", &nd::bitwise_not}, {"left_shift", &nd::left_shift}, {"right_shift", &nd::right_shift},
               {"logical_and", &nd::logical_and}, {"logical_or", &nd::logical_or}, {"logical_xor", &nd::logical_xor},
               {"logical_not", &nd::logical_not}, {"plus", &nd::plus}, {"minus", &nd::minus}, {"is_na", &nd::is_na},
               {"assign_na", &nd::assign_na}, {"range", &nd::range}, {"take", &nd::take}, {"sum", &nd::sum}, {"pow", &nd::pow}};
    for (auto &l : lib) {
      MC_CASE(x, "dynd.nd.%s", l.name);
      x.trans();
      registry_entry *e = nullptr;
      S w, p = S("dynd.nd.") + l.name;
      if (!x.check(!error([&] { e = &registered(p); }, &w), "a registered name is not found", w))
        continue;
      x.check(e->value().get() == l.f->get(), "another function than registered", l.name);
      x.check(!e->is_namespace() && e->path() == p, "another path than registered", e->path());
      x.check(&registered("dynd.nd")[l.name] == e && &registered()["dynd"]["nd"][l.name] == e, "another path than registered", l.name);
    }
    do {
      MC_CASE(x, "all library functions");
      for (auto &k : registered("dynd.nd")) {
        x.trans();
        x.check(k.second.path() == "dynd.nd." + k.first, "another path than registered", k.second.path());
        if (!k.second.is_namespace())
          x.check(!k.second.value().is_null(), "a registered function is missing", k.first);
      }
      nd::array a = nd::array({3, 4});
      x.check(a.f("add", nd::array({10, 20}))(1).as<int>() == 24, "another function than registered", "add");
      x.check(a.f("subtract", nd::array({10, 20}))(1).as<int>() == -16, "another function than registered", "subtract");
      x.check(error([&] { a.f("dynd"); }), "a name is found that was never registered", "dynd");
    } while (0);
  }
}
MC_MAIN(body)
