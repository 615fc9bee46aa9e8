// String search, replacement, splitting and concatenation against the naive definition.
#include "mc.hpp"
#include <dynd/array.hpp>
#include <dynd/callable.hpp>
#include <dynd/string.hpp>
#include <dynd/types/string_type.hpp>
#include <dynd/types/var_dim_type.hpp>

using namespace dynd;
typedef std::string S;

// --- reference model: leftmost, non-overlapping; an empty needle matches nowhere ---
static std::vector<size_t> ref_matches(const S &h, const S &n) {
  std::vector<size_t> r;
  if (n.empty())
    return r;
  for (size_t i = 0; i + n.size() <= h.size();) {
    if (h.compare(i, n.size(), n) == 0) {
      r.push_back(i);
      i += n.size();
    } else
      ++i;
  }
  return r;
}
static intptr_t ref_find(const S &h, const S &n) {
  auto m = ref_matches(h, n);
  return m.empty() ? -1 : (intptr_t)m[0];
}
static intptr_t ref_rfind(const S &h, const S &n) {
  if (n.empty() || n.size() > h.size())
    return -1;
  for (intptr_t i = h.size() - n.size(); i >= 0; --i)
    if (h.compare(i, n.size(), n) == 0)
      return i;
  return -1;
}
static std::vector<S> ref_split(const S &h, const S &n) {
  std::vector<S> r;
  size_t last = 0;
  for (size_t m : ref_matches(h, n)) {
    r.push_back(h.substr(last, m - last));
    last = m + n.size();
  }
  r.push_back(h.substr(last));
  return r;
}
static S ref_replace(const S &h, const S &o, const S &n) {
  S r;
  size_t last = 0;
  for (size_t m : ref_matches(h, o)) {
    r += h.substr(last, m - last) + n;
    last = m + o.size();
  }
  return r + h.substr(last);
}

static S nth(uint64_t i, int len, const S &alpha) {
  S s(len, 0);
  for (int k = len - 1; k >= 0; --k) {
    s[k] = alpha[i % alpha.size()];
    i /= alpha.size();
  }
  return s;
}
static uint64_t ipow(uint64_t b, int e) {
  uint64_t r = 1;
  while (e--)
    r *= b;
  return r;
}
static std::vector<S> all_upto(int maxlen, const S &alpha, int minlen = 0) {
  std::vector<S> r;
  for (int l = minlen; l <= maxlen; ++l)
    for (uint64_t i = 0, n = ipow(alpha.size(), l); i < n; ++i)
      r.push_back(nth(i, l, alpha));
  return r;
}
static S str(const dynd::string &s) { return S(s.begin(), s.end()); }

static void one_search(mc::X &x, const S &h, const S &n, const dynd::string &dh, const dynd::string &dn) {
  intptr_t f = dynd::string_find(dh, dn), rf = ref_find(h, n);
  x.check(f == rf, "find", mc::fmt("find returned %ld, expected %ld", (long)f, (long)rf));
  intptr_t r = dynd::string_rfind(dh, dn), rr = ref_rfind(h, n);
  x.check(r == rr, "rfind", mc::fmt("rfind returned %ld, expected %ld", (long)r, (long)rr));
  intptr_t c = dynd::string_count(dh, dn), rc = ref_matches(h, n).size();
  x.check(c == rc, "count", mc::fmt("count returned %ld, expected %ld", (long)c, (long)rc));
  bool k = dynd::string_contains(dh, dn);
  x.check(k == (rf >= 0), "contains", mc::fmt("contains returned %d, expected %d", k, rf >= 0));
  bool sw = dynd::string_startswith(dh, dn), ew = dynd::string_endswith(dh, dn);
  bool rsw = h.size() >= n.size() && h.compare(0, n.size(), n) == 0;
  bool rew = h.size() >= n.size() && h.compare(h.size() - n.size(), n.size(), n) == 0;
  x.check(sw == rsw, "startswith", mc::fmt("startswith returned %d, expected %d", sw, rsw));
  x.check(ew == rew, "endswith", mc::fmt("endswith returned %d, expected %d", ew, rew));
  x.trans(6);
  x.outcome(mc::fmt("find=%ld count=%ld", (long)rf, (long)rc));
}

static void search(mc::X &x, const char *name, const S &alpha, int maxh, int maxn) {
  x.section(name);
  std::vector<S> needles = all_upto(maxn, alpha);
  for (int l = 0; l <= maxh; ++l) {
    uint64_t total = ipow(alpha.size(), l), step = 64;
    for (uint64_t b = 0; b < total; b += step) {
      if (!x.unit())
        continue;
      for (uint64_t i = b; i < b + step && i < total; ++i) {
        S h = nth(i, l, alpha);
        dynd::string dh(h);
        x.state(mc::h64(h));
        for (const S &n : needles) {
          MC_CASE_S(x, "haystack=" + mc::quote(h) + " needle=" + mc::quote(n));
          dynd::string dn(n);
          one_search(x, h, n, dh, dn);
        }
      }
    }
  }
}

static void body(mc::X &x);
static const S junk[3] = {"", "junk!", "some longer heap allocated junk"};

static void replace(mc::X &x, const char *name, const S &alpha, int maxh, int maxo, int maxnew) {
  x.section(name);
  std::vector<S> olds = all_upto(maxo, alpha), news = all_upto(maxnew, alpha);
  std::vector<S> hs = all_upto(maxh, alpha);
  for (size_t b = 0; b < hs.size(); b += 16) {
    if (!x.unit())
      continue;
    for (size_t i = b; i < b + 16 && i < hs.size(); ++i) {
      const S &h = hs[i];
      dynd::string dh(h);
      for (const S &o : olds)
        for (const S &n : news) {
          MC_CASE_S(x, "src=" + mc::quote(h) + " old=" + mc::quote(o) + " new=" + mc::quote(n));
          S want = ref_replace(h, o, n);
          x.state(mc::h64(h + "|" + o + "|" + n));
          dynd::string dold(o), dnew(n);
          for (const S &j : junk) {
            dynd::string dst(j);
            dynd::string_replace(dst, dh, dold, dnew);
            x.trans();
            x.check(str(dst) == want, "replace",
                    "into " + mc::quote(j) + " gave " + mc::quote(str(dst)) + ", expected " + mc::quote(want));
          }
        }
    }
  }
}

static void concat(mc::X &x) {
  x.section("concat");
  // lengths around the inline capacity, and the combinations of the operands' and the destination's storage
  std::vector<int> lens = {0, 1, 2, 6, 7, 8, 12, 13, 14, 15, 16, 17, 24, 31, 40};
  for (int la : lens) {
    if (!x.unit())
      continue;
    for (int lb : lens)
      for (int lc : lens)
        for (int j = 0; j < 3; ++j) {
          MC_CASE(x, "len0=%d len1=%d len2=%d dst=%d", la, lb, lc, j);
          x.state(mc::fmt("%d %d %d %d", la, lb, lc, j));
          S a, b, c;
          for (int i = 0; i < la; ++i)
            a += char('a' + i % 26);
          for (int i = 0; i < lb; ++i)
            b += char('A' + i % 26);
          for (int i = 0; i < lc; ++i)
            c += char('0' + i % 10);
          dynd::string da(a), db(b), dc(c), dst(junk[j]);
          const dynd::string *ops[3] = {&da, &db, &dc};
          dynd::string_concat(3, dst, ops);
          x.check(str(dst) == a + b + c, "concat", "gave " + mc::quote(str(dst)));
          dynd::string d2(junk[j]);
          dynd::string_concat(2, d2, ops);
          x.check(str(d2) == a + b, "concat", "gave " + mc::quote(str(d2)));
          dynd::string p = da + db;
          x.check(str(p) == a + b, "plus", "gave " + mc::quote(str(p)));
          dynd::string q(da);
          q += db;
          q += dc;
          x.check(str(q) == a + b + c, "append", "gave " + mc::quote(str(q)));
          // comparison of the pieces
          x.check((da < db) == (a < b) && (da <= db) == (a <= b) && (da > db) == (a > b) && (da >= db) == (a >= b) &&
                      (da == db) == (a == b) && (da != db) == (a != b),
                  "compare", "ordering of operands 0 and 1 disagrees");
          x.trans(6);
        }
  }
}

// The same operations through the callables, over arrays, including broadcasting of the needle.
static void lifted(mc::X &x) {
  x.section("callables");
  int ml = x.thorough() ? 7 : 5;
  std::vector<S> hs = all_upto(ml, "ab");
  hs.push_back("0123456789bb");
  hs.push_back("aabaabaabaabaabaabaab");
  std::vector<S> ns = all_upto(3, "ab");
  std::vector<S> reps = {"", "a", "bb", "aba", "a long replacement text"};
  nd::array H = nd::empty((intptr_t)hs.size(), ndt::make_type<dynd::string>());
  for (size_t i = 0; i < hs.size(); ++i)
    reinterpret_cast<dynd::string *>(H.data())[i] = dynd::string(hs[i]);
  for (const S &n : ns) {
    if (!x.unit())
      continue;
    nd::array N = nd::empty(ndt::make_type<dynd::string>());
    *reinterpret_cast<dynd::string *>(N.data()) = dynd::string(n);
    for (int step = -2; step <= 2; ++step) {
      if (step == 0)
        continue;
      MC_CASE_S(x, mc::fmt("array step=%d needle=", step) + mc::quote(n));
      x.state(mc::fmt("%d ", step) + n);
      nd::array h = H(irange().by(step));
      std::vector<S> hv;
      if (step > 0)
        for (size_t i = 0; i < hs.size(); i += step)
          hv.push_back(hs[i]);
      else
        for (intptr_t i = hs.size() - 1; i >= 0; i += step)
          hv.push_back(hs[i]);
      if (!x.check(h.get_dim_size() == (intptr_t)hv.size(), "view", "wrong view size"))
        continue;
      nd::array f = nd::string_find(h, N), r = nd::string_rfind(h, N), c = nd::string_count(h, N),
                k = nd::string_contains(h, N), s = nd::string_startswith(h, N), e = nd::string_endswith(h, N),
                sp = nd::string_split(h, N), cc = nd::string_concatenation(h, N);
      x.trans(8);
      std::vector<nd::array> rp;
      for (const S &p : reps)
        rp.push_back(nd::string_replace(h, N, nd::array(p)));
      x.trans(rp.size());
      for (size_t i = 0; i < hv.size(); ++i) {
        const S &g = hv[i];
        x.check(f(i).as<intptr_t>() == ref_find(g, n), "c-find", "at " + mc::quote(g));
        x.check(r(i).as<intptr_t>() == ref_rfind(g, n), "c-rfind", "at " + mc::quote(g));
        x.check(c(i).as<intptr_t>() == (intptr_t)ref_matches(g, n).size(), "c-count", "at " + mc::quote(g));
        x.check(k(i).as<bool>() == (ref_find(g, n) >= 0), "c-contains", "at " + mc::quote(g));
        x.check(s(i).as<bool>() == (g.compare(0, n.size(), n) == 0), "c-startswith", "at " + mc::quote(g));
        x.check(e(i).as<bool>() == (g.size() >= n.size() && g.compare(g.size() - n.size(), n.size(), n) == 0),
                "c-endswith", "at " + mc::quote(g));
        x.check(cc(i).as<std::string>() == g + n, "c-concat", "at " + mc::quote(g));
        std::vector<S> want = ref_split(g, n);
        nd::array got = sp(i);
        if (x.check(got.get_dim_size() == (intptr_t)want.size(), "c-split",
                    mc::fmt("%ld parts, expected %zu, at ", (long)got.get_dim_size(), want.size()) + mc::quote(g)))
          for (size_t q = 0; q < want.size(); ++q)
            x.check(got(q).as<std::string>() == want[q], "c-split", mc::fmt("part %zu at ", q) + mc::quote(g));
        for (size_t q = 0; q < reps.size(); ++q)
          x.check(rp[q](i).as<std::string>() == ref_replace(g, n, reps[q]), "c-replace",
                  "by " + mc::quote(reps[q]) + " at " + mc::quote(g) + " gave " + mc::quote(rp[q](i).as<std::string>()));
        x.tick();
      }
    }
  }
}

static void body(mc::X &x) {
  bool t = x.thorough();
  search(x, "search ab", "ab", t ? 17 : 13, t ? 5 : 4);
  search(x, "search abc", "abc", t ? 9 : 7, t ? 4 : 3);
  // 'a' and '!' share a bit of the bloom filter; NUL and a high byte are ordinary characters
  search(x, "search bloom", "a!b", t ? 9 : 7, t ? 4 : 3);
  search(x, "search bytes", S("\0\xc3z", 3), t ? 8 : 6, 3);
  // long haystacks made of blocks, for needles longer than the inline capacity
  {
    x.section("search blocks");
    const char *blk[3] = {"aaaaa", "aabaa", "b"};
    int d = t ? 8 : 6;
    for (int l = 0; l <= d; ++l)
      for (uint64_t i = 0, n = ipow(3, l); i < n; ++i) {
        if (!x.unit())
          continue;
        S h;
        S c = nth(i, l, "012");
        for (char ch : c)
          h += blk[ch - '0'];
        for (int nl = 0; nl <= 3; ++nl)
          for (uint64_t k = 0, m = ipow(3, nl); k < m; ++k) {
            S nd_;
            for (char ch : nth(k, nl, "012"))
              nd_ += blk[ch - '0'];
            MC_CASE_S(x, "haystack=" + mc::quote(h) + " needle=" + mc::quote(nd_));
            x.state(mc::h64(h));
            one_search(x, h, nd_, dynd::string(h), dynd::string(nd_));
          }
      }
  }
  replace(x, "replace ab", "ab", t ? 9 : 7, 3, 3);
  replace(x, "replace abc", "abc", t ? 6 : 5, 2, t ? 3 : 2);
  // growth across the inline capacity
  {
    x.section("replace grow");
    for (int l = 0; l <= 20; ++l) {
      if (!x.unit())
        continue;
      for (uint64_t m = 0; m < 64; ++m)
        for (int ol = 1; ol <= 3; ++ol)
          for (int nl = 0; nl <= 17; ++nl) {
            S h = S(l, 'x');
            // up to 6 marks spread over the string
            for (int k = 0; k < 6; ++k)
              if (m >> k & 1 && (size_t)(k * 3 + ol) <= h.size())
                for (int q = 0; q < ol; ++q)
                  h[k * 3 + q] = 'm';
            S o(ol, 'm'), n(nl, 'n');
            MC_CASE_S(x, "src=" + mc::quote(h) + " old=" + mc::quote(o) + " new=" + mc::quote(n));
            x.state(mc::h64(h + o + n));
            dynd::string dst, dh(h), dold(o), dnew(n);
            dynd::string_replace(dst, dh, dold, dnew);
            x.trans();
            S want = ref_replace(h, o, n);
            x.check(str(dst) == want, "replace", "gave " + mc::quote(str(dst)) + ", expected " + mc::quote(want));
          }
    }
  }
  concat(x);
  lifted(x);
}

MC_MAIN(body)
