// Memory blocks: every sequence of alloc / resize / reset / finalize, against a model of the live allocations.
#include "model.hpp"
#include <dynd/memblock/external_memory_block.hpp>
#include <dynd/memblock/memmap_memory_block.hpp>
#include <dynd/memblock/objectarray_memory_block.hpp>
#include <dynd/memblock/pod_memory_block.hpp>
#include <dynd/memblock/zeroinit_memory_block.hpp>
extern "C" size_t __sanitizer_get_current_allocated_bytes();
using namespace mv;

enum Kind { POD, ZERO, OBJ };
struct Cfg {
  const char *name;
  Kind kind;
  const char *tp;
  int initial; // bytes, or elements of an object array
  std::vector<int> counts;
};
struct Live {
  char *p;
  size_t n;
  int salt;
};
struct Block {
  Kind kind;
  ndt::type tp;
  size_t sz, al;
  nd::memory_block mb;
  std::vector<char> arrmeta;
  std::vector<Live> live;
  int salt = 0;
  bool fin = false;

  Block(const Cfg &c) : kind(c.kind), tp(ndt::type(c.tp, c.tp + strlen(c.tp))) {
    sz = tp.get_default_data_size();
    al = tp.get_data_alignment();
    if (kind == POD)
      mb = nd::make_memory_block<nd::pod_memory_block>(tp, c.initial);
    else if (kind == ZERO)
      mb = nd::make_memory_block<nd::zeroinit_memory_block>(tp, c.initial);
    else {
      // the element metadata follows a (zero sized) header of the owner
      arrmeta.resize(16 + tp.get_arrmeta_size());
      if (!tp.is_builtin())
        tp.extended()->arrmeta_default_construct(arrmeta.data() + 16, true);
      mb = nd::make_memory_block<nd::objectarray_memory_block>(tp, 16, arrmeta.data(), (intptr_t)sz, c.initial);
    }
  }
  ~Block() {
    mb = nd::memory_block();
    if (!arrmeta.empty() && !tp.is_builtin())
      tp.extended()->arrmeta_destruct(arrmeta.data() + 16);
  }
  V val(int s, size_t i) {
    // object values: strings, some on the heap
    S t = mc::fmt("%d:%zu", s, i);
    if ((i + s) % 3 == 0)
      t += " and a tail that does not fit inside";
    return V::Str(t);
  }
  V elem(int s, size_t i) {
    if (tp.get_id() == struct_id) {
      V v = V::List();
      v.k.push_back(V::Int((int)(s * 1000 + i)));
      v.k.push_back(val(s, i));
      return v;
    }
    return val(s, i);
  }
  void write(const Live &l, size_t from) {
    for (size_t i = from; i < l.n; ++i) {
      char *q = l.p + i * sz;
      if (kind == OBJ)
        fill_raw(tp, arrmeta.data() + 16, q, elem(l.salt, i));
      else
        for (size_t b = 0; b < sz; ++b)
          q[b] = (char)(1 + (l.salt * 31 + i * 7 + b) % 251);
    }
  }
  S verify(const Live &l, size_t n) {
    for (size_t i = 0; i < n; ++i) {
      char *q = l.p + i * sz;
      if (kind == OBJ) {
        V v = read_raw(tp, arrmeta.data() + 16, q);
        if (v != elem(l.salt, i))
          return mc::fmt("element %zu is %s, not %s", i, v.str().c_str(), elem(l.salt, i).str().c_str());
      } else
        for (size_t b = 0; b < sz; ++b)
          if (q[b] != (char)(1 + (l.salt * 31 + i * 7 + b) % 251))
            return mc::fmt("byte %zu of element %zu differs", b, i);
    }
    return "";
  }
  S zeros(const Live &l, size_t from) {
    if (kind == POD)
      return "";
    for (size_t i = from * sz; i < l.n * sz; ++i)
      if (l.p[i])
        return mc::fmt("byte %zu of element %zu is not zero", i % sz, i / sz);
    return "";
  }
  S placed(const Live &l) {
    if ((uintptr_t)l.p % al)
      return "misaligned";
    for (auto &o : live)
      if (&o != &l && o.n && l.n && l.p < o.p + o.n * sz && o.p < l.p + l.n * sz)
        return "overlaps another live allocation";
    return "";
  }
  S all() {
    for (size_t i = 0; i < live.size(); ++i) {
      S e = verify(live[i], live[i].n);
      if (!e.empty())
        return mc::fmt("allocation %zu: ", i) + e;
    }
    return "";
  }
  S alloc(size_t n) {
    Live l{mb->alloc(n), n, ++salt};
    live.push_back(l);
    S e = placed(live.back());
    if (e.empty())
      e = zeros(l, 0);
    if (!e.empty())
      return "new memory " + e;
    write(l, 0);
    return all();
  }
  // elements are destroyed by the block itself when an object array shrinks
  S resize(size_t n) {
    Live &l = live.back();
    size_t old = l.n;
    l.p = mb->resize(l.p, n);
    l.n = n;
    S e = placed(l);
    if (e.empty())
      e = verify(l, std::min(n, old));
    if (e.empty() && n > old)
      e = zeros(l, old);
    if (!e.empty())
      return mc::fmt("resized from %zu to %zu: ", old, n) + e;
    if (n > old)
      write(l, old);
    return all();
  }
  S reset() {
    mb->reset();
    live.clear();
    return "";
  }
};

static void body(mc::X &x) {
  const std::vector<Cfg> cfgs = {
      {"POD of 8 byte elements", POD, "int64", 64, {0, 1, 4, 8, 9, 40}},
      {"POD of single bytes", POD, "int8", 16, {0, 1, 7, 16, 17, 70}},
      {"POD with padding", POD, "fixed_bytes[12, align=4]", 48, {0, 1, 3, 4, 5, 20}},
      {"zero initialized", ZERO, "int64", 64, {0, 1, 4, 8, 9, 40}},
      {"zero initialized bytes", ZERO, "int8", 16, {0, 1, 7, 16, 17, 70}},
      {"zero initialized var dims", ZERO, "var * int32", 64, {0, 1, 2, 4, 5, 20}},
      {"strings", OBJ, "string", 4, {0, 1, 3, 4, 5, 20}},
      {"structures with a string", OBJ, "{a: int32, b: string}", 4, {0, 1, 3, 4, 5, 20}},
      {"default POD", POD, "int64", 2048, {1, 255, 256, 257, 600}},
      {"default zero initialized", ZERO, "int64", 2048, {1, 255, 256, 257, 600}},
      {"default strings", OBJ, "string", 64, {1, 63, 64, 65, 200}},
  };
  const int depth = x.thorough() ? 6 : 5;
  for (auto &c : cfgs) {
    x.section(c.name);
    bool big = !strncmp(c.name, "default", 7);
    int d = big ? depth - 2 : depth;
    int na = (int)c.counts.size(), nops = 2 * na + 1;
    auto opname = [&](int o) { return o < na ? mc::fmt("alloc %d", c.counts[o]) : o < 2 * na ? mc::fmt("resize %d", c.counts[o - na]) : S("reset"); };
    for (int len = 1; len <= d; ++len)
      for (int a = 0; a < nops; ++a)
        for (int b = 0; b < (len > 1 ? nops : 1); ++b) {
          if (!x.unit())
            continue;
          uint64_t total = 1;
          for (int i = 2; i < len; ++i)
            total *= nops;
          for (uint64_t k = 0; k < total; ++k) {
            int seq[8] = {a, b};
            uint64_t q = k;
            for (int i = len - 1; i >= 2; --i) {
              seq[i] = q % nops;
              q /= nops;
            }
            // a resize needs an allocation
            int have = 0;
            bool legal = true;
            for (int i = 0; i < len; ++i) {
              if (seq[i] < na)
                ++have;
              else if (seq[i] < 2 * na)
                legal = legal && have;
              else
                have = 0;
            }
            if (!legal)
              continue;
            MC_CASE(x, "%s", [&] {
              S s;
              for (int i = 0; i < len; ++i)
                s += (i ? "; " : "") + opname(seq[i]);
              return s;
            }().c_str());
            x.trans(len);
            size_t before = __sanitizer_get_current_allocated_bytes();
            S e;
            uint64_t sh = 0;
            {
              Block w(c);
              for (int i = 0; i < len && e.empty(); ++i) {
                int o = seq[i];
                e = o < na ? w.alloc(c.counts[o]) : o < 2 * na ? w.resize(c.counts[o - na]) : w.reset();
              }
              if (!e.empty()) {
                x.fail("content", e);
              } else {
                w.mb->finalize();
                e = w.all();
                x.check(e.empty(), "finalize changes content", e);
              }
              sh = mc::h64(c.name, strlen(c.name));
              for (auto &l : w.live)
                sh = mc::h64(&l.n, sizeof l.n, sh);
            }
            size_t after = __sanitizer_get_current_allocated_bytes();
            x.state(sh);
            if (e.empty())
              x.check(after == before, "leak", mc::fmt("%ld bytes still allocated", (long)(after - before)));
          }
        }
  }
  x.section("reuse after reset");
  for (auto &c : cfgs) {
    if (!x.unit())
      continue;
    for (int n : c.counts)
      for (int m : c.counts)
        for (int k = 0; k < 4; ++k) {
          MC_CASE(x, "%s: alloc %d, %s %d, reset, again and again", c.name, n, k % 2 ? "resize" : "alloc", m);
          Block w(c);
          S e;
          size_t mid = 0;
          for (int i = 0; i < 60 && e.empty(); ++i) {
            x.trans(3);
            e = w.alloc(n);
            if (e.empty())
              e = k % 2 ? w.resize(m) : w.alloc(m);
            if (k / 2 && e.empty())
              e = w.all();
            w.reset();
            if (i == 9)
              mid = __sanitizer_get_current_allocated_bytes();
          }
          x.check(e.empty(), "content", e);
          size_t end = __sanitizer_get_current_allocated_bytes();
          x.check(end <= mid, "memory grows although the block is reset", mc::fmt("%ld bytes", (long)(end - mid)));
        }
  }
  x.section("external blocks");
  {
    // the free function runs exactly once, when the last reference goes
    static int freed;
    for (int refs = 1; refs <= 4; ++refs) {
      if (!x.unit())
        continue;
      for (int order = 0; order < 24; ++order) {
        MC_CASE(x, "%d references dropped in order %d", refs, order);
        std::vector<int> perm;
        for (int i = 0; i < refs; ++i)
          perm.push_back(i);
        for (int i = 0; i < order; ++i)
          std::next_permutation(perm.begin(), perm.end());
        freed = 0;
        int dummy;
        std::vector<nd::memory_block> v(refs);
        v[0] = nd::make_memory_block<nd::external_memory_block>(&dummy, [](void *) { ++freed; });
        for (int i = 1; i < refs; ++i)
          v[i] = v[i - 1];
        x.trans(refs);
        for (int i = 0; i < refs; ++i) {
          x.check(freed == 0, "freed while referenced", "");
          x.check(v[perm[i]]->get_use_count() == refs - i, "use count", "");
          v[perm[i]] = nd::memory_block();
        }
        x.check(freed == 1, "not freed exactly once", mc::fmt("%d", freed));
      }
    }
  }
  x.section("clipping of file ranges");
  {
    // clip_begin_end(size, begin, end) follows the slices of a sequence
    for (int size = 0; size <= 6; ++size) {
      if (!x.unit())
        continue;
      std::vector<intptr_t> e = {std::numeric_limits<intptr_t>::min(), std::numeric_limits<intptr_t>::max()};
      for (int i = -9; i <= 9; ++i)
        e.push_back(i);
      for (intptr_t b : e)
        for (intptr_t f : e) {
          MC_CASE(x, "size %d [%ld:%ld]", size, (long)b, (long)f);
          x.trans(1);
          intptr_t rb = b < 0 ? (b < -size ? 0 : b + size) : std::min<intptr_t>(b, size);
          intptr_t re = f < 0 ? (f < -size ? 0 : f + size) : std::min<intptr_t>(f, size);
          re = std::max(re, rb);
          intptr_t gb = b, ge = f;
          clip_begin_end(size, gb, ge);
          x.check(gb == rb && ge == re, "range", mc::fmt("[%ld:%ld] expected [%ld:%ld]", (long)gb, (long)ge, (long)rb, (long)re));
        }
    }
  }
}
MC_MAIN(body)
