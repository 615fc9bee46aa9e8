// Printing arrays: every shape of up to three dimensions and every width of element within the bounds is printed and
// the text read back. It must show the elements, all or the first and last ones around an ellipsis, in order.
#include "mc.hpp"
#include <dynd/array.hpp>
#include <dynd/json_parser.hpp>
#include <sstream>
using namespace dynd;
typedef std::string S;
// What the text shows: a leaf, or a list with at most one gap
struct P {
  bool leaf = true;
  S text;
  std::vector<P> c;
  long gap = -1; // index of the first element after the gap
};
struct Read {
  const char *p, *e;
  S err;
  void ws() {
    while (p < e && (*p == ' ' || *p == '\n'))
      ++p;
  }
  bool eat(char c) {
    ws();
    if (p < e && *p == c)
      return ++p, true;
    return false;
  }
  bool fail(const S &m) {
    if (err.empty())
      err = m;
    return false;
  }
  bool item(P &r) {
    ws();
    if (p < e && *p == '[') {
      ++p;
      r.leaf = false;
      ws();
      if (eat(']'))
        return true;
      for (;;) {
        P k;
        if (!item(k))
          return false;
        r.c.push_back(k);
        if (eat(']'))
          return true;
        if (!eat(','))
          return fail("elements without a comma between them");
        ws();
        if (e - p >= 3 && S(p, 3) == "...") {
          p += 3;
          if (r.gap >= 0)
            return fail("two gaps");
          r.gap = (long)r.c.size();
        }
      }
    }
    const char *b = p;
    if (p < e && *p == '"') {
      for (++p; p < e && *p != '"'; ++p)
        ;
      ++p;
    } else {
      while (p < e && *p != ',' && *p != ']' && *p != ' ' && *p != '\n')
        ++p;
    }
    if (p == b || p > e)
      return fail("an element is missing");
    r.text = S(b, p);
    return true;
  }
};
struct V {
  bool leaf = true;
  S text, in; // as printed, and as read where that is not the same
  std::vector<V> c;
  S json() const {
    if (leaf)
      return in.empty() ? text : in;
    S s = "[";
    for (size_t i = 0; i < c.size(); ++i)
      s += (i ? "," : "") + c[i].json();
    return s + "]";
  }
};
static S compare(const P &p, const V &v, int depth = 0) {
  if (p.leaf != v.leaf)
    return "wrong nesting";
  if (p.leaf)
    return p.text == v.text ? "" : p.text + " for " + v.text;
  size_t n = p.c.size(), g = p.gap < 0 ? n : (size_t)p.gap;
  if (p.gap < 0 ? n != v.c.size() : n >= v.c.size() || g == 0 || g == n)
    return mc::fmt("%zu of %zu elements with the gap at %ld", n, v.c.size(), p.gap);
  for (size_t i = 0; i < n; ++i) {
    S s = compare(p.c[i], v.c[i < g ? i : i + v.c.size() - n], depth + 1);
    if (!s.empty())
      return s;
  }
  return "";
}
static void check(mc::X &x, const S &type, const V &v) {
  nd::array a = parse_json(ndt::type(type), v.json(), &dynd::eval::default_eval_context);
  std::ostringstream o;
  o << a;
  x.trans();
  S s = o.str();
  size_t b = s.find("array("), q = s.rfind(",\n      type=\"");
  if (!x.check(b == 0 && q != S::npos && s.substr(q + 14) == type + "\")", "the frame of the printed array", s.substr(0, 200)))
    return;
  s = s.substr(6, q - 6);
  Read r{s.data(), s.data() + s.size(), ""};
  P p;
  bool ok = r.item(p);
  r.ws();
  if (!x.check(ok && r.p == r.e, "a printed array cannot be read", r.err + ": " + s.substr(0, 300)))
    return;
  S d = compare(p, v);
  x.check(d.empty(), "a printed array shows the wrong elements", d + ": " + s.substr(0, 300));
  x.outcome(p.gap < 0 ? "all" : "gap");
  x.state(mc::h64(s));
}
static S leaf(int kind, int width, long k) {
  if (kind == 1)
    return "\"" + S(std::max(width - 2, 0), char('a' + k % 26)) + "\"";
  S s = mc::fmt("%ld", k % 10);
  return width > 1 ? S(1, char('1' + k % 9)) + S(width - 2, char('0' + (k / 9) % 10)) + s : s;
}
static V make(const std::vector<int> &shape, size_t i, int kind, int width, int ragged, long &k) {
  V v;
  if (i == shape.size()) {
    v.text = leaf(kind, ragged == 2 && k % 3 ? 1 + (kind == 1) : width, k);
    ++k;
    return v;
  }
  v.leaf = false;
  int n = shape[i];
  if (ragged == 1 && i)
    n = (int)((k + 1) % (n + 1));
  for (int j = 0; j < n; ++j)
    v.c.push_back(make(shape, i + 1, kind, width, ragged, k));
  if (n == 0)
    ++k;
  return v;
}
static void one(mc::X &x, const std::vector<int> &shape, int kind, int width, int ragged) {
  S t;
  for (size_t i = 0; i < shape.size(); ++i)
    t += ragged == 1 && i ? "var * " : mc::fmt("%d * ", shape[i]);
  t += kind == 1 ? "string" : "int64";
  do {
    MC_CASE_S(x, t + mc::fmt(" of width %d%s", width, ragged == 2 ? " and less" : ""));
    long k = 0;
    check(x, t, make(shape, 0, kind, width, ragged, k));
  } while (0);
}
static void parse_value(const char *&p, V &v) {
  if (*p == '[') {
    v.leaf = false;
    for (++p; *p != ']';) {
      V k;
      parse_value(p, k);
      v.c.push_back(k);
      if (*p == ',')
        ++p;
    }
    ++p;
    return;
  }
  const char *b = p;
  bool q = *p == '"';
  for (p += q; q ? *p != '"' : *p && *p != ',' && *p != ']' && *p != '|'; ++p)
    ;
  p += q;
  v.text = v.in = S(b, p);
  if (*p == '|') {
    for (b = ++p; *p && *p != ',' && *p != ']'; ++p)
      ;
    v.text = S(b, p);
  }
}
static void body(mc::X &x) {
  int m = x.thorough() ? 2 : 1;
  x.section("one dimension");
  for (int n = 0; n <= 200 * m; ++n) {
    if (!x.unit())
      continue;
    for (int kind = 0; kind < 2; ++kind)
      for (int w = 1 + kind; w <= (kind ? 100 : 18); ++w)
        for (int r = 0; r < 3; r += 2)
          one(x, {n}, kind, w, r);
  }
  x.section("two dimensions");
  for (int n = 0; n <= 14 * m; ++n)
    for (int k = 0; k <= 24 * m; ++k) {
      if (!x.unit())
        continue;
      for (int kind = 0; kind < 2; ++kind)
        for (int w : {1, 2, 3, 5, 7, 8, 12, 18, 29, 31, 36, 40, 73, 80})
          if (w > kind && (kind || w < 19))
            for (int r = 0; r < 3; ++r)
              one(x, {n, k}, kind, w, r);
    }
  x.section("three dimensions");
  for (int n = 0; n <= 12; ++n)
    for (int k = 0; k <= 8 * m; ++k)
      for (int l = 0; l <= 6 * m; ++l) {
        if (!x.unit())
          continue;
        for (int w : {1, 3, 7, 12, 18})
          for (int r = 0; r < 2; ++r)
            one(x, {n, k, l}, 0, w, r);
      }
  x.section("records, missing values and other elements");
  {
    // the type of an element and its values: the JSON text and, after a bar, what is printed
    struct E {
      const char *type;
      std::vector<const char *> v;
    };
    static const std::vector<E> el = {
        {"int8", {"-128", "127", "0", "65"}},
        {"uint8", {"255", "0", "65"}},
        {"int16", {"-32768", "32767"}},
        {"uint16", {"65535", "1"}},
        {"int32", {"-2147483648", "2147483647"}},
        {"uint32", {"4294967295", "7"}},
        {"int64", {"-9223372036854775808", "9223372036854775807"}},
        {"uint64", {"18446744073709551615", "0"}},
        {"bool", {"true|True", "false|False"}},
        {"float64", {"0.5", "-1.25", "1e+100", "0"}},
        {"float32", {"0.5", "-1024", "0"}},
        {"?int32", {"null|NA", "5", "-1"}},
        {"?bool", {"null|NA", "true|True"}},
        {"?string", {"null|NA", "\"a,b]\"", "\"\""}},
        {"string", {"\"[,\"", "\" \"", "\"...\""}},
        {"fixed_string[4]", {"\"abcd\"", "\"\""}},
        {"{a: int8, b: string}", {"[1,\"x\"]", "[-1,\"yy\"]"}},
        {"(bool, ?int32)", {"[true|True,null|NA]", "[false|False,3]"}},
        {"{a: 2 * int32, b: var * uint8}", {"[[1,2],[]]", "[[3,4],[255]]", "[[5,6],[1,2,3]]"}},
        {"(2 * {c: int64}, string)", {"[[[1],[2]],\"s\"]"}},
    };
    for (const E &e : el)
      for (int n = 0; n <= 40; ++n) {
        if (!x.unit())
          continue;
        for (size_t rot = 0; rot < e.v.size(); ++rot)
          for (int var = 0; var < 2; ++var)
            do {
              S t = (var ? S("var * ") : mc::fmt("%d * ", n)) + e.type;
              MC_CASE_S(x, t + mc::fmt(" of %d, from value %zu", n, rot));
              V v;
              v.leaf = false;
              for (int i = 0; i < n; ++i) {
                V k;
                S s = e.v[(i + rot) % e.v.size()];
                const char *c = s.c_str();
                parse_value(c, k);
                v.c.push_back(k);
              }
              check(x, t, v);
            } while (0);
      }
  }
}
MC_MAIN(body)
