// dynd::string and dynd::bytes as values: every sequence of operations on two objects, against std::string.
#include "mc.hpp"
#include <dynd/bytes.hpp>
#include <dynd/types/string_type.hpp>
#include <dynd/types/bytes_type.hpp>
extern "C" size_t __sanitizer_get_current_allocated_bytes();
typedef std::string S;

struct Op {
  const char *name;
  int kind, obj, len;
};
enum { ASSIGN, APPEND, RESIZE, RESERVE, RESIZE_GROW, CLEAR, COPY, MOVE, COPYCTOR, MOVECTOR, APPENDO, PLUSASSIGN, SELFASSIGN, SELFAPPEND, SWAP, RESET, CTOR, SUBASSIGN };

static std::vector<Op> alphabet(int rich) {
  std::vector<Op> r;
  std::vector<int> lens = rich == 2   ? std::vector<int>{0, 1, 7, 8, 13, 14, 15, 16, 17, 30}
                          : rich == 1 ? std::vector<int>{0, 1, 9, 14, 15, 16, 30}
                                      : std::vector<int>{1, 15, 16};
  for (int o = 0; o < 2; ++o) {
    for (int l : lens) {
      r.push_back({"assign", ASSIGN, o, l});
      r.push_back({"append", APPEND, o, l});
      r.push_back({"resize", RESIZE, o, l});
    }
    for (int l : rich ? std::vector<int>{0, 14, 15, 16, 40} : std::vector<int>{16, 40})
      r.push_back({"reserve", RESERVE, o, l});
    for (int l : rich ? std::vector<int>{3, 15, 16, 33} : std::vector<int>{16})
      r.push_back({"resize_grow", RESIZE_GROW, o, l});
    for (int l : rich ? std::vector<int>{0, 9, 14, 15, 16} : std::vector<int>{9, 15})
      r.push_back({"construct", CTOR, o, l});
    r.push_back({"clear", CLEAR, o, 0});
    r.push_back({"copy-assign-other", COPY, o, 0});
    r.push_back({"move-assign-other", MOVE, o, 0});
    r.push_back({"copy-construct-other", COPYCTOR, o, 0});
    r.push_back({"move-construct-other", MOVECTOR, o, 0});
    r.push_back({"append-other", APPENDO, o, 0});
    r.push_back({"plus-other", PLUSASSIGN, o, 0});
    r.push_back({"self-assign", SELFASSIGN, o, 0});
    r.push_back({"self-append", SELFAPPEND, o, 0});
    r.push_back({"assign-own-tail", SUBASSIGN, o, 2});
  }
  r.push_back({"swap", SWAP, 0, 0});
  return r;
}

// distinct, position dependent content
static S content(int len, int salt) {
  S s(len, 0);
  for (int i = 0; i < len; ++i)
    s[i] = (char)((i * 37 + salt * 101 + 1) & 0x7f);
  return s;
}

template <class T>
struct Pair {
  alignas(T) char mem[2][sizeof(T)];
  S model[2];
  int salt = 0;
  T &at(int i) { return *reinterpret_cast<T *>(mem[i]); }
  Pair() {
    new (mem[0]) T();
    new (mem[1]) T();
  }
  ~Pair() {
    at(0).~T();
    at(1).~T();
  }
  void fill(int o, size_t old) {
    // grown bytes are unspecified until written
    for (size_t i = old; i < at(o).size(); ++i)
      at(o).data()[i] = model[o][i] = (char)('A' + i);
  }
  void apply(const Op &op) {
    int o = op.obj, p = 1 - o;
    ++salt;
    T &a = at(o), &b = at(p);
    S &ma = model[o], &mb = model[p];
    S c = op.kind == ASSIGN || op.kind == APPEND || op.kind == CTOR ? content(op.len, salt) : S();
    size_t old = ma.size();
    switch (op.kind) {
    case ASSIGN:
      a.assign(c.data(), c.size());
      ma = c;
      break;
    case APPEND:
      a.append(c.data(), c.size());
      ma += c;
      break;
    case RESIZE:
      a.resize(op.len);
      ma.resize(op.len);
      fill(o, old);
      break;
    case RESIZE_GROW:
      a.resize_grow(op.len);
      ma.resize(op.len);
      fill(o, old);
      break;
    case RESERVE:
      a.reserve(op.len);
      break;
    case CTOR:
      a.~T();
      new (&a) T(c.data(), c.size());
      ma = c;
      break;
    case CLEAR:
      a.clear();
      ma.clear();
      break;
    case COPY:
      a = b;
      ma = mb;
      break;
    case MOVE:
      a = std::move(b);
      ma = mb;
      mb.clear();
      break;
    case COPYCTOR:
      a.~T();
      new (&a) T(b);
      ma = mb;
      break;
    case MOVECTOR: {
      a.~T();
      new (&a) T(std::move(b));
      ma = mb;
      // what remains in the source is a valid value; take it over
      S rest(b.begin(), b.end());
      if (rest != mb)
        mb.clear();
      break;
    }
    case APPENDO:
      a += b;
      ma += mb;
      break;
    case PLUSASSIGN: {
      T t = a + b;
      a = t;
      ma = ma + mb;
      break;
    }
    case SELFASSIGN: {
      T &r = a;
      a = r;
      break;
    }
    case SELFAPPEND: {
      T &r = a;
      a += r;
      ma += S(ma);
      break;
    }
    case SUBASSIGN:
      if (ma.size() >= 2) {
        a.assign(a.data() + 2, a.size() - 2);
        ma = ma.substr(2);
      }
      break;
    case SWAP:
      std::swap(a, b);
      std::swap(ma, mb);
      break;
    }
  }
  // returns "" if everything observable agrees with the model
  S verify(bool nul) {
    for (int o = 0; o < 2; ++o) {
      const T &a = at(o);
      const S &m = model[o];
      if (a.size() != m.size())
        return mc::fmt("object %d has size %zu, expected %zu", o, a.size(), m.size());
      if (a.end() - a.begin() != (ptrdiff_t)m.size() || a.empty() != m.empty() || a.capacity() < m.size())
        return mc::fmt("object %d: inconsistent range, emptiness or capacity", o);
      if (memcmp(a.data(), m.data(), m.size()) != 0)
        return mc::fmt("object %d holds ", o) + mc::quote(S(a.begin(), a.end())) + ", expected " + mc::quote(m);
      if (nul && a.data()[m.size()] != 0)
        return mc::fmt("object %d is not NUL terminated", o);
    }
    if ((at(0) == at(1)) != (model[0] == model[1]) || (at(0) != at(1)) != (model[0] != model[1]))
      return "equality of the two objects";
    return "";
  }
};
static bool order(const dynd::string &a, const dynd::string &b, const S &x, const S &y) {
  return (a < b) == (x < y) && (a <= b) == (x <= y) && (a > b) == (x > y) && (a >= b) == (x >= y);
}
static bool order(const dynd::bytes &, const dynd::bytes &, const S &, const S &) { return true; }

static char st[256];
template <class T>
static void seqs(mc::X &x, const char *name, bool nul, int depth, int rich) {
  x.section(name);
  std::vector<Op> al = alphabet(rich);
  int n = al.size();
  auto opname = [&](int i) { return mc::fmt("%s(%d%s)", al[i].name, al[i].obj, al[i].len ? mc::fmt(",%d", al[i].len).c_str() : ""); };
  // units: first two operations; the rest is enumerated inside
  for (int a = 0; a < n; ++a)
    for (int b = 0; b < n; ++b) {
      if (!x.unit())
        continue;
      int rest = depth - 2;
      uint64_t total = 1;
      for (int i = 0; i < rest; ++i)
        total *= n;
      for (uint64_t k = 0; k < total; ++k) {
        int seq[8] = {a, b};
        uint64_t q = k;
        for (int i = depth - 1; i >= 2; --i) {
          seq[i] = q % n;
          q /= n;
        }
        auto desc = [&] {
          S s;
          for (int i = 0; i < depth; ++i)
            s += (i ? "; " : "") + opname(seq[i]);
          return s;
        };
        MC_CASE_S(x, desc());
        size_t before = __sanitizer_get_current_allocated_bytes();
        bool good = true;
        {
        Pair<T> w;
        for (int i = 0; i < depth; ++i) {
          w.apply(al[seq[i]]);
          // earlier prefixes are checked by the sequences that end there
          if (i + 1 < depth && k != 0)
            continue;
          S e = w.verify(nul);
          x.trans();
          if (!x.check(e.empty(), "content", e)) {
            good = false;
            break;
          }
        }
        if (good)
          good = x.check(order(w.at(0), w.at(1), w.model[0], w.model[1]), "order", "ordering comparison disagrees");
        snprintf(st, sizeof st, "%zu %zu %zu %zu %d", w.at(0).size(), w.at(0).capacity(), w.at(1).size(), w.at(1).capacity(),
                        w.model[0].compare(w.model[1]) < 0);
        }
        size_t after = __sanitizer_get_current_allocated_bytes();
        if (good)
          x.check(after == before, "leak", mc::fmt("%ld bytes still allocated", (long)(after - before)));
        x.state(mc::h64(st, strlen(st)));
        x.outcome(st);
      }
    }
}

static void body(mc::X &x) {
  bool t = x.thorough();
  seqs<dynd::string>(x, "string", true, 3, 2);
  seqs<dynd::bytes>(x, "bytes", false, 3, 2);
  seqs<dynd::string>(x, "string deep", true, 4, t ? 1 : 0);
  seqs<dynd::bytes>(x, "bytes deep", false, 4, t ? 1 : 0);
  if (t) {
    seqs<dynd::string>(x, "string deeper", true, 5, 0);
    seqs<dynd::bytes>(x, "bytes deeper", false, 5, 0);
  }
}
MC_MAIN(body)
