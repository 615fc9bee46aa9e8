// Small syntax trees of types, with an independent recursive specification of what a pattern matches, what its
// variables are then bound to, and what substituting for them gives.
#pragma once
#include "model.hpp"
#include <dynd/callable.hpp>
#include <dynd/exceptions.hpp>
#include <dynd/types/substitute_typevars.hpp>
#include <memory>
using namespace mv;

enum K { SC, FIX, VAR, TUP, STRU, OPT, PTR, CALL, ANY, KIND, TV, TVD, FIXK, DIMK, ELL, POW };
struct Node;
typedef std::shared_ptr<const Node> P;
struct Node {
  K k;
  S name;      // of a scalar, kind, variable; of the exponent of a power
  int n = 0;   // of a fixed dimension
  P base;      // of a power: FIX, VAR, FIXK or TVD without an element
  std::vector<P> kids; // elements; of a callable: result, arguments..., keywords...
  std::vector<S> names; // of fields; of keywords
  bool variadic = false;
};
static P mk(K k, S name = "", std::vector<P> kids = {}, int n = 0, bool variadic = false, std::vector<S> names = {}, P base = nullptr) {
  auto p = std::make_shared<Node>();
  p->k = k;
  p->name = name;
  p->kids = kids;
  p->n = n;
  p->variadic = variadic;
  p->names = names;
  p->base = base;
  return p;
}
static S text(const P &p) {
  auto rest = [&] { return p->kids.empty() ? S("") : " * " + text(p->kids[0]); };
  switch (p->k) {
  case SC:
  case KIND:
  case TV:
    return p->name;
  case ANY:
    return "Any";
  case FIX:
    return mc::fmt("%d", p->n) + rest();
  case VAR:
    return "var" + rest();
  case FIXK:
    return "Fixed" + rest();
  case DIMK:
    return "Dim" + rest();
  case TVD:
    return p->name + rest();
  case ELL:
    return p->name + "..." + rest();
  case POW:
    return text(p->base) + "**" + p->name + rest();
  case OPT:
    return "?" + text(p->kids[0]);
  case PTR:
    return "pointer[" + text(p->kids[0]) + "]";
  case TUP:
  case STRU: {
    S r;
    for (size_t i = 0; i < p->kids.size(); ++i)
      r += (i ? ", " : "") + (p->k == STRU ? p->names[i] + ": " : S("")) + text(p->kids[i]);
    if (p->variadic)
      r += r.empty() ? "..." : ", ...";
    return p->k == TUP ? "(" + r + ")" : "{" + r + "}";
  }
  case CALL: {
    S r;
    size_t np = p->kids.size() - 1 - p->names.size();
    for (size_t i = 1; i < p->kids.size(); ++i)
      r += (i > 1 ? ", " : "") + (i > np ? p->names[i - 1 - np] + ": " : S("")) + text(p->kids[i]);
    return "(" + r + ") -> " + text(p->kids[0]);
  }
  }
  return "?";
}
static bool is_dim(const P &p) { return p->k == FIX || p->k == VAR; }
static int ndim(const P &p) {
  switch (p->k) {
  case FIX:
  case VAR:
  case FIXK:
  case DIMK:
  case TVD:
    return 1 + ndim(p->kids[0]);
  case PTR:
    return ndim(p->kids[0]);
  case ELL:
  case POW:
    return ndim(p->kids[0]);
  default:
    return 0;
  }
}
static bool same(const P &a, const P &b) {
  if (a->k != b->k || a->name != b->name || a->n != b->n || a->variadic != b->variadic || a->names != b->names || a->kids.size() != b->kids.size())
    return false;
  if ((a->base && !b->base) || (!a->base && b->base) || (a->base && !same(a->base, b->base)))
    return false;
  for (size_t i = 0; i < a->kids.size(); ++i)
    if (!same(a->kids[i], b->kids[i]))
      return false;
  return true;
}
// what a variable stands for
struct Bind {
  P type;                // of a type variable
  int dim = -2;          // of a dimension variable: size, or -1 for var
  std::vector<int> frag; // of dimensions
  int exponent = -1;
  int what = 0; // 1 type, 2 dimension, 3 dimensions, 4 exponent
};
typedef std::map<S, Bind> Env;

static bool in_kind(const S &kind, const S &sc) {
  auto starts = [&](const char *s) { return sc.compare(0, strlen(s), s) == 0; };
  if (kind == "Bool")
    return sc == "bool";
  if (kind == "Int")
    return starts("int");
  if (kind == "UInt")
    return starts("uint");
  if (kind == "Float")
    return starts("float");
  if (kind == "Complex")
    return starts("complex");
  if (kind == "String" || kind == "FixedString")
    return starts("fixed_string") || (kind == "String" && sc == "string");
  if (kind == "Bytes" || kind == "FixedBytes")
    return starts("fixed_bytes") || (kind == "Bytes" && starts("bytes"));
  return false;
}
static int size_of_dim(const P &c) { return c->k == FIX ? c->n : -1; }

static bool match(const P &p, const P &c, Env &env);
static bool match_dim(const P &d, const P &c, Env &env) { // one leading dimension
  if (!is_dim(c))
    return false;
  switch (d->k) {
  case FIX:
    return c->k == FIX && c->n == d->n;
  case VAR:
    return c->k == VAR;
  case FIXK:
    return c->k == FIX;
  case DIMK:
    return true;
  case TVD: {
    Bind &b = env[d->name];
    if (!b.what) {
      b.what = 2;
      b.dim = size_of_dim(c);
      return true;
    }
    return b.what == 2 && b.dim == size_of_dim(c);
  }
  default:
    return false;
  }
}
// No claim is made of whether `char` is a String.
static bool unclear(const P &p, const P &c) {
  S a = text(p), b = text(c);
  return b.find("char") != S::npos && a.find("String") != S::npos;
}
static bool match(const P &p, const P &c, Env &env) {
  switch (p->k) {
  case SC:
    return c->k == SC && c->name == p->name;
  case ANY:
    return true;
  case KIND:
    if (p->name == "Scalar")
      return ndim(c) == 0;
    return c->k == SC && in_kind(p->name, c->name);
  case TV: {
    if (ndim(c) > 0)
      return false;
    Bind &b = env[p->name];
    if (!b.what) {
      b.what = 1;
      b.type = c;
      return true;
    }
    return b.what == 1 && same(b.type, c);
  }
  case FIX:
  case VAR:
  case FIXK:
  case DIMK:
  case TVD:
    return match_dim(p, c, env) && match(p->kids[0], c->kids[0], env);
  case OPT:
  case PTR:
    return c->k == p->k && match(p->kids[0], c->kids[0], env);
  case TUP:
  case STRU:
    if (c->k != p->k || (p->variadic ? c->kids.size() < p->kids.size() : c->kids.size() != p->kids.size()))
      return false;
    for (size_t i = 0; i < p->names.size(); ++i)
      if (p->names[i] != c->names[i])
        return false;
    for (size_t i = 0; i < p->kids.size(); ++i)
      if (!match(p->kids[i], c->kids[i], env))
        return false;
    return true;
  case CALL:
    if (c->k != CALL || c->kids.size() != p->kids.size() || c->names != p->names)
      return false;
    for (size_t i = 0; i < p->kids.size(); ++i)
      if (!match(p->kids[i], c->kids[i], env))
        return false;
    return true;
  case ELL: {
    int rest = ndim(p->kids[0]), nc = ndim(c);
    if (nc < rest)
      return false;
    int m = nc - rest;
    std::vector<int> f;
    P q = c;
    for (int i = 0; i < m; ++i) {
      f.push_back(size_of_dim(q));
      q = q->kids[0];
    }
    if (!p->name.empty()) {
      Bind &b = env[p->name];
      if (!b.what) {
        b.what = 3;
        b.frag = f;
      } else if (b.what != 3)
        return false;
      else { // dimensions that broadcast together
        std::vector<int> g = b.frag;
        if (f.size() > g.size())
          g.insert(g.begin(), f.begin(), f.begin() + (f.size() - g.size()));
        for (size_t i = 0; i < f.size() && i < b.frag.size(); ++i) {
          int &t = g[g.size() - 1 - i], u = f[f.size() - 1 - i];
          if (t == u || u == 1)
            ;
          else if (t == 1)
            t = u;
          else if (t == -1)
            t = u;
          else if (u != -1)
            return false;
        }
        b.frag = g;
      }
    }
    return match(p->kids[0], q, env);
  }
  case POW: {
    int e = ndim(c) - ndim(p->kids[0]);
    if (e < 0)
      return false;
    Bind &b = env[p->name];
    if (!b.what) {
      b.what = 4;
      b.exponent = e;
    } else if (b.what != 4 || b.exponent != e)
      return false;
    P q = c;
    for (int i = 0; i < e; ++i) {
      if (!match_dim(p->base, q, env))
        return false;
      q = q->kids[0];
    }
    return match(p->kids[0], q, env);
  }
  }
  return false;
}
static P dims(const std::vector<int> &f, P e) {
  for (int i = (int)f.size() - 1; i >= 0; --i)
    e = f[i] < 0 ? mk(VAR, "", {e}) : mk(FIX, "", {e}, f[i]);
  return e;
}
// substitution; null: an error is due; `loose` is set where no claim is made
static P subst(const P &p, const Env &env, bool concrete, bool &loose) {
  auto at = [&](const S &n) {
    auto it = env.find(n);
    return it == env.end() ? nullptr : &it->second;
  };
  switch (p->k) {
  case SC:
    return p;
  case ANY:
  case KIND:
    return concrete ? nullptr : p;
  case TV:
    if (auto b = at(p->name))
      return b->what == 1 ? b->type : nullptr;
    return concrete ? nullptr : p;
  default:
    break;
  }
  if (p->k == ELL && p->name.empty())
    return nullptr;
  std::vector<P> kids;
  for (auto &q : p->kids) {
    P r = subst(q, env, concrete, loose);
    if (!r)
      return nullptr;
    kids.push_back(r);
  }
  switch (p->k) {
  case FIX:
  case VAR:
  case OPT:
  case PTR:
  case CALL:
    return mk(p->k, p->name, kids, p->n, false, p->names);
  case TUP:
  case STRU:
    return concrete && p->variadic ? nullptr : mk(p->k, "", kids, 0, p->variadic, p->names);
  case FIXK:
  case DIMK:
    return concrete ? nullptr : mk(p->k, "", kids);
  case TVD:
    if (auto b = at(p->name))
      return b->what == 2 ? dims({b->dim}, kids[0]) : nullptr;
    return concrete ? nullptr : mk(TVD, p->name, kids);
  case ELL:
    if (auto b = at(p->name))
      return b->what == 3 ? dims(b->frag, kids[0]) : nullptr;
    return concrete ? nullptr : mk(ELL, p->name, kids);
  case POW: {
    auto e = at(p->name);
    P base = p->base;
    bool base_bound = true;
    int bd = -2;
    if (base->k == TVD) {
      auto b = at(base->name);
      if (b)
        bd = b->dim;
      else
        base_bound = false;
    }
    if (!e) {
      if (concrete)
        loose = true; // the library is free to leave the exponent and still call it an error later
      if (base->k == TVD && base_bound)
        loose = true;
      return mk(POW, p->name, kids, 0, false, {}, base);
    }
    P r = kids[0];
    if (e->exponent && concrete && (!base_bound || base->k == FIXK))
      return nullptr;
    for (int i = 0; i < e->exponent; ++i)
      r = base->k == TVD ? (base_bound ? dims({bd}, r) : mk(TVD, base->name, {r})) : base->k == FIX ? mk(FIX, "", {r}, base->n) : mk(base->k, "", {r});
    return r;
  }
  default:
    return nullptr;
  }
}
static void vars(const P &p, std::set<S> &out) {
  if (p->k == TV || p->k == TVD || p->k == POW || (p->k == ELL && !p->name.empty()))
    out.insert(p->name);
  if (p->base && p->base->k == TVD)
    out.insert(p->base->name);
  for (auto &q : p->kids)
    vars(q, out);
}
static bool symbolic(const P &p) {
  if (p->k >= ANY || p->variadic)
    return true;
  if (p->k == CALL)
    return false;
  for (auto &q : p->kids)
    if (symbolic(q))
      return true;
  return false;
}

static std::map<S, ndt::type> cache;
static const ndt::type &ty(const P &p) {
  S s = text(p);
  auto it = cache.find(s);
  if (it == cache.end())
    it = cache.insert({s, ndt::type(s)}).first;
  return it->second;
}
