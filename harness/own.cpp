// Ownership, lifetime and write access of arrays: every sequence of operations over two array variables which share
// memory, against a model of the cells each variable refers to.
#include "model.hpp"
#include <dynd/callable.hpp>
#include <dynd/memblock/external_memory_block.hpp>
#include <functional>
#include <memory>
#include <set>
extern "C" size_t __sanitizer_get_current_allocated_bytes();
using namespace mv;

enum { RD = 1, WR = 2, IM = 4 };

// ---- model ---------------------------------------------------------------------------------------------------------
struct Ref; // what a variable, or a part of it, refers to
typedef std::shared_ptr<Ref> R;
struct Ref {
  bool leaf = false, rec = false, var = false, ptr = false;
  std::shared_ptr<V> cell;
  std::vector<R> k;
};
static R leafR(const V &v) {
  R r = std::make_shared<Ref>();
  r->leaf = true;
  r->cell = std::make_shared<V>(v);
  return r;
}
static V val(const R &r) {
  if (r->leaf)
    return *r->cell;
  V v = V::List();
  for (auto &c : r->k)
    v.k.push_back(val(c));
  return v;
}
static R deep(const R &r) {
  R q = std::make_shared<Ref>(*r);
  if (r->leaf)
    q->cell = std::make_shared<V>(*r->cell);
  for (auto &c : q->k)
    c = deep(c);
  return q;
}
struct Slot {
  R r;
  int ndim = 0, flags = 0;
  bool rec = false;   // the elements are records
  bool ptr = false;   // reached through a pointer
  bool tup = false;   // a tuple of pointers
  int leafk = 0;      // 0 integers, 1 strings
  std::set<std::shared_ptr<int>> ext; // external resources it keeps alive
};
// r seen with one dimension less: dimension d at depth
static R each(const R &r, int depth, const std::function<R(const R &)> &f) {
  if (!depth)
    return f(r);
  R q = std::make_shared<Ref>(*r);
  for (auto &c : q->k)
    c = each(c, depth - 1, f);
  return q;
}

struct Kind {
  const char *name;
  const char *tp;
  int ndim;
  bool rec;
  int leafk;
  int flags;
  int ext; // external memory
};
static const Kind kinds[] = {
    {"3 * int32", "3 * int32", 1, false, 0, RD | WR, 0},
    {"2 * 2 * int32", "2 * 2 * int32", 2, false, 0, RD | WR, 0},
    {"2 * string", "2 * string", 1, false, 1, RD | WR, 0},
    {"2 * {x: int32, y: string}", "2 * {x: int32, y: string}", 1, true, 0, RD | WR, 0},
    {"2 * var * int32", "2 * var * int32", 2, false, 0, RD | WR, 0},
    {"2 * var * string", "2 * var * string", 2, false, 1, RD | WR, 0},
    {"var * string", "var * string", 1, false, 1, RD | WR, 0},
    {"an immutable int32", "int32", 0, false, 0, RD | IM, 0},
    {"an immutable string", "string", 0, false, 1, RD | IM, 0},
    {"external 3 * int32, writable", "3 * int32", 1, false, 0, RD | WR, 1},
    {"external 2 * 2 * int32, read-only", "2 * 2 * int32", 2, false, 0, RD, 1},
    {"external 3 * int32, immutable", "3 * int32", 1, false, 0, RD | IM, 1},
};
static const char *LONG = " and a tail that does not fit inside";
static R freshR(const ndt::type &tp, int &salt, const Kind &k) {
  switch (tp.get_id()) {
  case int32_id:
    return leafR(V::Int(++salt));
  case string_id:
    return ++salt, leafR(V::Str(mc::fmt("%d%s", salt, salt % 2 ? LONG : "")));
  case fixed_dim_id: {
    R r = std::make_shared<Ref>();
    for (int i = 0; i < tp.extended<ndt::fixed_dim_type>()->get_fixed_dim_size(); ++i)
      r->k.push_back(freshR(tp.extended<ndt::base_dim_type>()->get_element_type(), salt, k));
    return r;
  }
  case var_dim_id: {
    R r = std::make_shared<Ref>();
    r->var = true;
    int n = 1 + salt % 2;
    for (int i = 0; i < n; ++i)
      r->k.push_back(freshR(tp.extended<ndt::base_dim_type>()->get_element_type(), salt, k));
    return r;
  }
  case struct_id: {
    R r = std::make_shared<Ref>();
    r->rec = true;
    for (int i = 0; i < 2; ++i)
      r->k.push_back(freshR(tp.extended<ndt::struct_type>()->get_field_type(i), salt, k));
    return r;
  }
  default:
    throw std::logic_error("freshR");
  }
}

enum Op {
  DROP,
  COPY,
  MOVE,
  FIRST,
  LAST,
  TAIL,
  REV,
  FIELD,
  EVAL,
  ECOPY,
  ECOPY_RO,
  VIEW,
  PERM,
  NEWAX,
  HOLD,
  W_ASSIGN,
  W_VALS,
  W_FILL,
  W_ADD,
  W_FROM,
  TUPLE,
  NOPS
};
static const char *opn[] = {"drop", "copy", "move", "first", "last", "tail", "reverse", "field", "eval",
                            "eval_copy", "eval_copy read-only", "view", "permute", "new_axis", "hold owner",
                            "assign element", "element vals =", "fill", "element +=", "assign all", "tuple"};
struct Step {
  int op, i;
  S str() const {
    int j = 1 - i;
    if (op == COPY || op == MOVE || op == W_FROM)
      return mc::fmt("a%d %s a%d", i, opn[op], j);
    return mc::fmt("a%d %s", i, opn[op]);
  }
};
struct Model {
  Slot s[2];
  std::set<std::shared_ptr<int>> held;
  int salt = 100;

  static void cells(const R &r, std::set<V *> &o) {
    if (r->leaf)
      o.insert(r->cell.get());
    for (auto &c : r->k)
      cells(c, o);
  }
  static bool alike(const R &a, const R &b) {
    if (a->leaf != b->leaf || a->rec != b->rec || a->var != b->var || a->k.size() != b->k.size())
      return false;
    for (size_t i = 0; i < a->k.size(); ++i)
      if (!alike(a->k[i], b->k[i]))
        return false;
    return !a->leaf || a->cell->kind == b->cell->kind;
  }
  static R first_leaf(R r) {
    while (!r->leaf) {
      if (r->k.empty())
        return R();
      r = r->k[0];
    }
    return r;
  }
  static void copy_into(const R &d, const R &s) {
    if (d->leaf)
      *d->cell = *s->cell;
    for (size_t i = 0; i < d->k.size(); ++i)
      copy_into(d->k[i], s->k[i]);
  }
  V newval(int k) {
    ++salt;
    return k ? V::Str(mc::fmt("%d%s", salt, salt % 2 ? LONG : "")) : V::Int(salt);
  }
  // the step on the model; false if it does not apply. `v` is the value written, `denied` that it may not be.
  bool step(const Step &t, V &v, bool &denied) {
    Slot &a = s[t.i], &b = s[1 - t.i];
    denied = false;
    v = V();
    if (t.op == COPY) {
      a = b;
      return true;
    }
    if (t.op == MOVE) {
      a = b;
      b = Slot();
      return true;
    }
    if (!a.r)
      return false;
    auto wr = [&]() { denied = !(a.flags & WR); };
    switch (t.op) {
    case DROP:
      a = Slot();
      return true;
    case FIRST:
    case LAST:
      if (a.tup) {
        Slot n = a;
        n.r = a.r->k[t.op == FIRST ? 0 : 1];
        n.tup = false;
        n.ptr = true;
        a = n;
        // what a part of a tuple refers to is as before
        a.ndim = 0;
        R q = a.r;
        while (!q->leaf && !q->rec) {
          ++a.ndim;
          if (q->k.empty())
            break;
          q = q->k[0];
        }
        a.rec = q->rec;
        return true;
      }
      if (!a.ndim || a.r->k.empty() || (t.op == LAST && a.r->var))
        return false;
      if (a.ptr && a.r->var)
        return false;
      a.r = t.op == FIRST ? a.r->k[0] : a.r->k.back();
      --a.ndim;
      return true;
    case TAIL:
    case REV:
      if (!a.ndim || a.r->var || a.r->k.size() < (t.op == TAIL ? 2u : 1u) || a.tup)
        return false;
      a.r = std::make_shared<Ref>(*a.r);
      if (t.op == TAIL)
        a.r->k.erase(a.r->k.begin());
      else
        std::reverse(a.r->k.begin(), a.r->k.end());
      return true;
    case FIELD:
      if (!a.rec || a.ptr || a.tup)
        return false;
      a.r = each(a.r, a.ndim, [](const R &r) { return r->k[1]; });
      a.rec = false;
      a.leafk = 1;
      return true;
    case EVAL:
    case VIEW:
      return !a.tup && !a.ptr;
    case ECOPY:
    case ECOPY_RO:
      if (a.tup || a.ptr)
        return false;
      a.r = deep(a.r);
      a.flags = t.op == ECOPY ? RD | WR : RD | IM;
      a.ext.clear();
      return true;
    case PERM:
      if (a.ndim != 2 || a.ptr || a.tup)
        return false;
      for (auto &c : a.r->k)
        if (c->var || c->k.size() != a.r->k[0]->k.size())
          return false;
      if (a.r->k.empty() || a.r->var)
        return false;
      {
        R q = std::make_shared<Ref>();
        for (size_t i = 0; i < a.r->k[0]->k.size(); ++i) {
          R c = std::make_shared<Ref>();
          for (auto &row : a.r->k)
            c->k.push_back(row->k[i]);
          q->k.push_back(c);
        }
        a.r = q;
      }
      return true;
    case NEWAX:
      if (a.ndim > 2 || a.ptr || a.tup)
        return false;
      {
        R q = std::make_shared<Ref>();
        q->k.push_back(a.r);
        a.r = q;
        ++a.ndim;
      }
      return true;
    case HOLD:
      if (a.tup)
        return false; // its data is its own, the references are in its metadata
      held.insert(a.ext.begin(), a.ext.end());
      return true;
    case W_ASSIGN:
    case W_VALS:
    case W_ADD: {
      if (a.ptr || a.tup)
        return false;
      R l = first_leaf(a.r);
      if (!l || (t.op == W_ADD && l->cell->kind != V::INT))
        return false;
      v = newval(l->cell->kind == V::STR);
      wr();
      if (!denied) {
        if (t.op == W_ADD)
          l->cell->i += v.i;
        else
          *l->cell = v;
      }
      return true;
    }
    case W_FILL: {
      if (a.ptr || a.tup || a.rec || !a.ndim)
        return false;
      R l = first_leaf(a.r);
      if (!l)
        return false;
      v = newval(l->cell->kind == V::STR);
      wr();
      if (!denied) {
        std::set<V *> cs;
        cells(a.r, cs);
        for (V *c : cs)
          *c = v;
      }
      return true;
    }
    case W_FROM: {
      if (!b.r || a.ptr || a.tup || b.ptr || b.tup || !alike(a.r, b.r))
        return false;
      std::set<V *> ca, cb;
      cells(a.r, ca);
      cells(b.r, cb);
      for (V *c : ca)
        if (cb.count(c))
          return false; // overlapping copies are not specified
      wr();
      if (!denied)
        copy_into(a.r, b.r);
      return true;
    }
    case TUPLE: {
      if (!b.r || a.ptr || a.tup || b.ptr || b.tup)
        return false;
      Slot n;
      n.r = std::make_shared<Ref>();
      n.r->k = {a.r, b.r};
      n.tup = true;
      n.flags = a.flags & b.flags;
      n.ext = a.ext;
      n.ext.insert(b.ext.begin(), b.ext.end());
      a = n;
      return true;
    }
    }
    return false;
  }
};

// ---- the real thing ------------------------------------------------------------------------------------------------
struct Ext {
  int *freed;
  char *mem;
};
static void ext_free(void *p) {
  Ext *e = static_cast<Ext *>(p);
  ++*e->freed;
  free(e->mem);
  delete e;
}
static int freed[2];

static nd::array real_base(const Kind &k, const V &v, int i) {
  S t = k.tp;
  if (k.ext) {
    ndt::type tp(t);
    std::vector<intptr_t> shape, strides;
    if (k.ndim == 1)
      shape = {3}, strides = {4};
    else
      shape = {2, 2}, strides = {8, 4};
    Ext *e = new Ext;
    e->freed = &freed[i];
    size_t n = k.ndim == 1 ? 12 : 16;
    e->mem = (char *)malloc(n);
    nd::memory_block mb = nd::make_memory_block<nd::external_memory_block>((void *)e, &ext_free);
    nd::array a = nd::make_strided_array_from_data(ndt::make_type<int32_t>(), k.ndim, shape.data(), strides.data(),
                                                   k.flags, e->mem, mb, NULL);
    fill_raw(a.get_type(), a->metadata(), const_cast<char *>(a.cdata()), v);
    return a;
  }
  if (!k.ndim) // scalars made from C++ values are immutable
    return k.leafk ? nd::array(v.s) : nd::array((int)v.i);
  return build(ndt::type(t), v);
}
static nd::array real_val(const V &v) { return v.kind == V::STR ? nd::array(v.s) : nd::array((int)v.i); }

struct Real {
  nd::array a[2];
  std::vector<nd::memory_block> held;

  nd::array leaf(nd::array t) {
    for (;;) {
      if (t.get_ndim() > 0 || t.get_type().get_id() == struct_id)
        t = t(0);
      else
        return t;
    }
  }
  // "" or what went wrong
  S step(const Step &st, const V &v, bool denied) {
    nd::array &x = a[st.i], &y = a[1 - st.i];
    bool threw = false;
    S what;
    try {
      switch (st.op) {
      case DROP:
        x = nd::array();
        break;
      case COPY:
        x = y;
        break;
      case MOVE:
        x = std::move(y);
        if (!y.is_null())
          return "the source of a move still refers to something";
        break;
      case FIRST:
        x = x(0);
        break;
      case LAST:
        x = x.get_type().get_id() == tuple_id ? x(1) : x(-1);
        break;
      case TAIL:
        x = x(irange(1, std::numeric_limits<intptr_t>::max()));
        break;
      case REV:
        x = x(irange().by(-1));
        break;
      case FIELD:
        x = x.p("y");
        break;
      case EVAL:
        x = x.eval();
        break;
      case ECOPY:
        x = x.eval_copy();
        break;
      case ECOPY_RO:
        x = x.eval_copy(nd::read_access_flag);
        break;
      case VIEW:
        x = x.view(x.get_type());
        break;
      case PERM: {
        intptr_t ax[2] = {1, 0};
        x = x.permute(2, ax);
        break;
      }
      case NEWAX:
        x = x.new_axis(0);
        break;
      case HOLD:
        held.push_back(x.get_owner());
        break;
      case W_ASSIGN:
        leaf(x).assign(real_val(v));
        break;
      case W_VALS:
        leaf(x).vals() = real_val(v);
        break;
      case W_FILL:
        x.assign(real_val(v));
        break;
      case W_ADD: {
        nd::array t = leaf(x);
        t += real_val(v);
        break;
      }
      case W_FROM:
        x.assign(y);
        break;
      case TUPLE: {
        nd::array f[2] = {x, y};
        x = nd::combine_into_tuple(2, f);
        break;
      }
      }
    } catch (const dynd::dynd_exception &e) {
      threw = true;
      what = e.what();
    } catch (const std::exception &e) {
      threw = true;
      what = e.what();
    }
    if (threw && !denied)
      return "exception: " + what;
    if (!threw && denied)
      return "write to an array that is not writable";
    return "";
  }
};

static bool is_write(int op) { return op >= W_ASSIGN && op <= W_FROM; }

struct Run {
  const Kind &k;
  std::shared_ptr<int> tok[2];
  Model m;
  Real r;
  V none;

  Run(const Kind &kk, bool impl) : k(kk) {
    ndt::type tp{S(k.tp)};
    for (int i = 0; i < 2; ++i) {
      freed[i] = 0;
      tok[i] = std::make_shared<int>(i);
      int salt = 10 * (i + 1) + i;
      Slot &s = m.s[i];
      s.r = freshR(tp, salt, k);
      s.ndim = k.ndim;
      s.flags = k.flags;
      s.rec = k.rec;
      s.leafk = k.leafk;
      if (k.ext)
        s.ext.insert(tok[i]);
      if (impl)
        r.a[i] = real_base(k, val(s.r), i);
    }
  }
  S verify(S &cls) {
    for (int i = 0; i < 2; ++i) {
      Slot &s = m.s[i];
      nd::array &a = r.a[i];
      if (s.r == nullptr) {
        if (!a.is_null()) {
          cls = "contents";
          return mc::fmt("a%d is not null", i);
        }
        continue;
      }
      if (a.is_null()) {
        cls = "contents";
        return mc::fmt("a%d is null", i);
      }
      V got = read(a), want = val(s.r);
      if (!(got == want)) {
        cls = "contents";
        return mc::fmt("a%d holds %s, expected %s", i, got.str().c_str(), want.str().c_str());
      }
      if ((int)a.get_flags() != s.flags) {
        cls = "flags";
        return mc::fmt("a%d has flags %d, expected %d", i, (int)a.get_flags(), s.flags);
      }
      if (a.is_immutable() != !!(s.flags & IM)) {
        cls = "flags";
        return mc::fmt("a%d: is_immutable", i);
      }
      bool threw = false;
      char *d = nullptr;
      try {
        d = a.data();
      } catch (const std::exception &) {
        threw = true;
      }
      if (threw != !(s.flags & WR) || (!threw && d != a.cdata())) {
        cls = "flags";
        return mc::fmt("a%d: data() %s", i, threw ? "throws" : "gives write access");
      }
    }
    if (k.ext)
      for (int i = 0; i < 2; ++i) {
        bool live = m.held.count(tok[i]) || m.s[0].ext.count(tok[i]) || m.s[1].ext.count(tok[i]);
        if (freed[i] != !live) {
          cls = "external memory";
          return mc::fmt("external memory %d was freed %d times, %s", i, freed[i],
                         live ? "and is in use" : "and is not used any more");
        }
      }
    return "";
  }
};

static void explore(mc::X &x, const Kind &k, const std::vector<int> &ops, std::vector<Step> &seq, size_t depth,
                    const std::function<bool(const std::vector<Step> &)> &mine);

static void one(mc::X &x, const Kind &k, const std::vector<Step> &seq) {
  long diff = 0;
  for (int attempt = 0; attempt < 2; ++attempt) {
    S e, cls;
    uint64_t h = mc::h64(k.name, strlen(k.name));
    size_t before = __sanitizer_get_current_allocated_bytes();
    {
      Run run(k, true);
      for (size_t i = 0; i < seq.size() && e.empty(); ++i) {
        V v;
        bool denied;
        run.m.step(seq[i], v, denied);
        e = run.r.step(seq[i], v, denied);
        if (!e.empty())
          cls = denied ? "write to read-only" : is_write(seq[i].op) ? "write" : "operation";
      }
      if (e.empty())
        e = run.verify(cls);
      if (!e.empty() && !attempt) {
        x.fail(cls.c_str(), e);
      }
      if (!attempt) {
        for (auto &s : run.m.s) {
          S t = s.r ? val(s.r).str() : "null";
          h = mc::h64(t.data(), t.size(), h);
          h = mc::h64(&s.flags, sizeof s.flags, h);
        }
        x.state(h);
      }
      if (e.empty() && k.ext) {
        // the last references go: what is held by nothing must be freed, once
        int want[2];
        run.r.a[0] = nd::array();
        run.r.a[1] = nd::array();
        for (int i = 0; i < 2; ++i) {
          want[i] = !run.m.held.count(run.tok[i]);
          if (freed[i] != want[i]) {
            e = mc::fmt("external memory %d freed %d times after the arrays went", i, freed[i]);
            x.fail("external memory", e);
          }
        }
        run.r.held.clear();
        for (int i = 0; i < 2 && e.empty(); ++i)
          if (freed[i] != 1)
            x.fail("external memory", e = mc::fmt("external memory %d freed %d times at the end", i, freed[i]));
      }
      if (!e.empty())
        return;
    }
    diff = (long)__sanitizer_get_current_allocated_bytes() - (long)before;
    if (!diff)
      return; // (the first time, statics may have been created)
  }
  x.fail("leak", mc::fmt("%ld bytes still allocated at the end", diff));
}

static void explore(mc::X &x, const Kind &k, const std::vector<int> &ops, std::vector<Step> &seq, size_t depth) {
  for (int i = 0; i < 2; ++i)
    for (int op : ops) {
      Step st{op, i};
      // legal?
      Run run(k, false);
      V v;
      bool denied, ok = true;
      for (auto &q : seq)
        run.m.step(q, v, denied);
      ok = run.m.step(st, v, denied);
      if (!ok)
        continue;
      seq.push_back(st);
      do {
        MC_CASE_S(x, [&] {
          S s = k.name;
          for (auto &q : seq)
            s += "; " + q.str();
          return s;
        }());
        x.trans(seq.size());
        one(x, k, seq);
      } while (0);
      if (seq.size() < depth)
        explore(x, k, ops, seq, depth);
      seq.pop_back();
    }
}

static void body(mc::X &x) {
  std::vector<int> all, sharing;
  for (int i = 0; i < NOPS; ++i)
    all.push_back(i);
  // few operations, longer sequences
  sharing = {DROP, COPY, MOVE, FIRST, REV, ECOPY, HOLD, W_ASSIGN};
  x.section("all operations");
  for (auto &k : kinds)
    for (int i = 0; i < 2; ++i)
      for (int op : all) {
        if (!x.unit())
          continue;
        Run run(k, false);
        V v;
        bool denied;
        Step st{op, i};
        if (!run.m.step(st, v, denied))
          continue;
        std::vector<Step> seq{st};
        do {
          MC_CASE_S(x, S(k.name) + "; " + st.str());
          x.trans(1);
          one(x, k, seq);
        } while (0);
        explore(x, k, all, seq, x.thorough() ? 4 : 3);
      }
  x.section("sharing");
  for (auto &k : kinds)
    for (int i = 0; i < 2; ++i)
      for (int op : sharing) {
        if (!x.unit())
          continue;
        Run run(k, false);
        V v;
        bool denied;
        Step st{op, i};
        if (!run.m.step(st, v, denied))
          continue;
        std::vector<Step> seq{st};
        explore(x, k, sharing, seq, x.thorough() ? 6 : 4);
      }
}
MC_MAIN(body)
