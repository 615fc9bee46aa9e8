// JSON: dynd::parse_json / validate_json / format_json against an independent reference reader of RFC 8259.
//
// Every document is read by the reference into a tree, the tree is decoded for the target type, and the library must
// accept exactly the documents that denote a value of that type, and produce exactly that value.
#include "model.hpp"
#include <cmath>
#include <dynd/json_formatter.hpp>
#include <dynd/json_parser.hpp>
#include <dynd/parse.hpp>
using namespace mv;

// ---- reference reader ----------------------------------------------------------------------------------------------
struct J {
  enum K { NUL, TRUE_, FALSE_, NUM, STR, ARR, OBJ } k = NUL;
  S s;          // number lexeme or string bytes
  bool odd = false; // string holding a lone surrogate escape or invalid UTF-8
  std::vector<J> a;
  std::vector<std::pair<S, J>> o;
};
static int utf8_len(const S &s, size_t i) { // length of the well formed sequence at i, or 0
  unsigned char c = s[i];
  auto cont = [&](size_t j, unsigned lo, unsigned hi) { return j < s.size() && (unsigned char)s[j] >= lo && (unsigned char)s[j] <= hi; };
  if (c < 0x80)
    return 1;
  if (c >= 0xc2 && c <= 0xdf)
    return cont(i + 1, 0x80, 0xbf) ? 2 : 0;
  if (c >= 0xe0 && c <= 0xef)
    return cont(i + 1, c == 0xe0 ? 0xa0 : 0x80, c == 0xed ? 0x9f : 0xbf) && cont(i + 2, 0x80, 0xbf) ? 3 : 0;
  if (c >= 0xf0 && c <= 0xf4)
    return cont(i + 1, c == 0xf0 ? 0x90 : 0x80, c == 0xf4 ? 0x8f : 0xbf) && cont(i + 2, 0x80, 0xbf) && cont(i + 3, 0x80, 0xbf) ? 4 : 0;
  return 0;
}
static bool utf8_ok(const S &s) {
  for (size_t i = 0; i < s.size();) {
    int n = utf8_len(s, i);
    if (!n)
      return false;
    i += n;
  }
  return true;
}
static void put_cp(uint32_t cp, S &o) {
  if (cp < 0x80)
    o += (char)cp;
  else if (cp < 0x800) {
    o += (char)(0xc0 | cp >> 6);
    o += (char)(0x80 | (cp & 0x3f));
  } else if (cp < 0x10000) {
    o += (char)(0xe0 | cp >> 12);
    o += (char)(0x80 | (cp >> 6 & 0x3f));
    o += (char)(0x80 | (cp & 0x3f));
  } else {
    o += (char)(0xf0 | cp >> 18);
    o += (char)(0x80 | (cp >> 12 & 0x3f));
    o += (char)(0x80 | (cp >> 6 & 0x3f));
    o += (char)(0x80 | (cp & 0x3f));
  }
}
struct Rd {
  const S &t;
  size_t p = 0;
  bool ext = false;    // the document uses something RFC 8259 does not have
  bool short_ = false; // the text ended too early (the prefix is viable)
  explicit Rd(const S &t) : t(t) {}
  void ws() {
    while (p < t.size()) {
      char c = t[p];
      if (c == '\v' || c == '\f')
        ext = true;
      else if (c != ' ' && c != '\t' && c != '\n' && c != '\r')
        return;
      ++p;
    }
  }
  bool end() { return p >= t.size() ? (short_ = true) : false; }
  bool hex(int n, uint32_t &v) {
    v = 0;
    for (int i = 0; i < n; ++i) {
      if (end())
        return false;
      char c = t[p];
      if (!isxdigit((unsigned char)c))
        return false;
      v = v * 16 + (isdigit((unsigned char)c) ? c - '0' : (c | 32) - 'a' + 10);
      ++p;
    }
    return true;
  }
  bool str(J &j) {
    j.k = J::STR;
    if (end() || t[p] != '"')
      return false;
    ++p;
    for (;;) {
      if (end())
        return false;
      unsigned char c = t[p++];
      if (c == '"')
        break;
      if (c == '\\') {
        if (end())
          return false;
        c = t[p++];
        static const char from[] = "\"\\/bfnrt", to[] = "\"\\/\b\f\n\r\t";
        const char *q = c ? strchr(from, c) : nullptr;
        if (q)
          j.s += to[q - from];
        else if (c == 'u') {
          uint32_t v, w;
          if (!hex(4, v))
            return false;
          if (v >= 0xd800 && v < 0xdc00 && p + 1 < t.size() && t[p] == '\\' && t[p + 1] == 'u') {
            size_t save = p;
            p += 2;
            if (!hex(4, w))
              return false;
            if (w >= 0xdc00 && w < 0xe000)
              v = 0x10000 + ((v - 0xd800) << 10) + (w - 0xdc00);
            else
              p = save;
          }
          if (v >= 0xd800 && v < 0xe000)
            j.odd = true;
          put_cp(v, j.s);
        } else if (c == 'U') {
          uint32_t v;
          if (!hex(8, v))
            return false;
          ext = true;
          if (v > 0x10ffff || (v >= 0xd800 && v < 0xe000))
            j.odd = true;
          else
            put_cp(v, j.s);
        } else
          return false;
      } else {
        if (c < 0x20)
          ext = true;
        j.s += (char)c;
      }
    }
    if (!utf8_ok(j.s))
      j.odd = true;
    return true;
  }
  bool lit(const char *l, J &j, J::K k) {
    j.k = k;
    for (; *l; ++l, ++p) {
      if (end() || t[p] != *l)
        return false;
    }
    return true;
  }
  bool digits() {
    if (end() || !isdigit((unsigned char)t[p]))
      return false;
    while (p < t.size() && isdigit((unsigned char)t[p]))
      ++p;
    return true;
  }
  bool num(J &j) {
    j.k = J::NUM;
    size_t b = p;
    if (t[p] == '-')
      ++p;
    if (end())
      return false;
    if (t[p] == '0')
      ++p;
    else if (!digits())
      return false;
    if (p < t.size() && t[p] == '.') {
      ++p;
      if (!digits())
        return false;
    }
    if (p < t.size() && (t[p] == 'e' || t[p] == 'E')) {
      ++p;
      if (p < t.size() && (t[p] == '+' || t[p] == '-'))
        ++p;
      if (!digits())
        return false;
    }
    j.s = t.substr(b, p - b);
    return true;
  }
  bool value(J &j) {
    ws();
    if (end())
      return false;
    switch (t[p]) {
    case '"':
      return str(j);
    case 'n':
      return lit("null", j, J::NUL);
    case 't':
      return lit("true", j, J::TRUE_);
    case 'f':
      return lit("false", j, J::FALSE_);
    case '[':
      j.k = J::ARR;
      ++p;
      ws();
      if (end())
        return false;
      if (t[p] == ']') {
        ++p;
        return true;
      }
      for (;;) {
        j.a.emplace_back();
        if (!value(j.a.back()))
          return false;
        ws();
        if (end())
          return false;
        if (t[p] == ']') {
          ++p;
          return true;
        }
        if (t[p] != ',')
          return false;
        ++p;
      }
    case '{':
      j.k = J::OBJ;
      ++p;
      ws();
      if (end())
        return false;
      if (t[p] == '}') {
        ++p;
        return true;
      }
      for (;;) {
        J name;
        ws();
        if (!str(name))
          return false;
        ws();
        if (end() || t[p] != ':')
          return false;
        ++p;
        j.o.emplace_back(name.s, J());
        if (name.odd)
          ext = true;
        if (!value(j.o.back().second))
          return false;
        ws();
        if (end())
          return false;
        if (t[p] == '}') {
          ++p;
          return true;
        }
        if (t[p] != ',')
          return false;
        ++p;
      }
    default:
      if (t[p] == '-' || isdigit((unsigned char)t[p]))
        return num(j);
      return false;
    }
  }
  bool doc(J &j) {
    if (!value(j))
      return false;
    ws();
    return p == t.size();
  }
};

// ---- decoding for a type -------------------------------------------------------------------------------------------
enum St { MUST, MAY, ANY, REJ }; // accept with this value; accept with it or reject; unconstrained; reject
static St worse(St a, St b) { return std::max(a, b); }

struct T {
  enum K { BOOL, INT, UINT, F32, F64, STR, FSTR, TYPE, OPT, FIX, VAR, ST, TU } k;
  int n = 0; // bits / size
  std::vector<T> f;
  std::vector<S> names;
};
static T mk(const ndt::type &tp) {
  T t;
  switch (tp.get_id()) {
  case bool_id:
    t.k = T::BOOL;
    break;
  case int8_id:
  case int16_id:
  case int32_id:
  case int64_id:
    t.k = T::INT;
    t.n = 8 * tp.get_data_size();
    break;
  case uint8_id:
  case uint16_id:
  case uint32_id:
  case uint64_id:
    t.k = T::UINT;
    t.n = 8 * tp.get_data_size();
    break;
  case float32_id:
    t.k = T::F32;
    break;
  case float64_id:
    t.k = T::F64;
    break;
  case string_id:
    t.k = T::STR;
    break;
  case fixed_string_id:
    t.k = T::FSTR;
    t.n = tp.get_data_size();
    break;
  case type_id:
    t.k = T::TYPE;
    break;
  case option_id:
    t.k = T::OPT;
    t.f.push_back(mk(tp.extended<ndt::option_type>()->get_value_type()));
    break;
  case fixed_dim_id:
    t.k = T::FIX;
    t.n = tp.extended<ndt::fixed_dim_type>()->get_fixed_dim_size();
    t.f.push_back(mk(tp.extended<ndt::fixed_dim_type>()->get_element_type()));
    break;
  case var_dim_id:
    t.k = T::VAR;
    t.f.push_back(mk(tp.extended<ndt::var_dim_type>()->get_element_type()));
    break;
  case struct_id:
    t.k = T::ST;
    for (int i = 0; i < tp.extended<ndt::struct_type>()->get_field_count(); ++i) {
      t.f.push_back(mk(tp.extended<ndt::struct_type>()->get_field_type(i)));
      t.names.push_back(tp.extended<ndt::struct_type>()->get_field_name(i));
    }
    break;
  case tuple_id:
    t.k = T::TU;
    for (int i = 0; i < tp.extended<ndt::tuple_type>()->get_field_count(); ++i)
      t.f.push_back(mk(tp.extended<ndt::tuple_type>()->get_field_type(i)));
    break;
  default:
    throw std::logic_error("mk");
  }
  return t;
}
static bool is_num_text(const S &s, bool integer_only) {
  Rd r(s);
  J j;
  if (s.empty() || !(s[0] == '-' || isdigit((unsigned char)s[0])) || !r.num(j) || r.p != s.size())
    return false;
  return !integer_only || s.find_first_of(".eE") == S::npos;
}
// the exact value of a JSON number as an integer, if it is one and fits
static bool exact_int(const S &s, bool &neg, unsigned __int128 &mag) {
  neg = s[0] == '-';
  S digits;
  long ex = 0;
  size_t i = neg;
  for (; i < s.size() && isdigit((unsigned char)s[i]); ++i)
    digits += s[i];
  if (i < s.size() && s[i] == '.')
    for (++i; i < s.size() && isdigit((unsigned char)s[i]); ++i) {
      digits += s[i];
      --ex;
    }
  if (i < s.size())
    ex += strtol(s.c_str() + i + 1, nullptr, 10);
  while (digits.size() > 1 && digits.back() == '0') {
    digits.pop_back();
    ++ex;
  }
  size_t z = 0;
  while (z + 1 < digits.size() && digits[z] == '0')
    ++z;
  digits = digits.substr(z);
  if (digits == "0") {
    mag = 0;
    return true;
  }
  if (ex < 0 || digits.size() + ex > 38)
    return false;
  mag = 0;
  for (char c : digits)
    mag = mag * 10 + (c - '0');
  for (; ex > 0; --ex)
    mag *= 10;
  return true;
}
static St dec_int(const S &s, const T &t, V &v) {
  bool neg;
  unsigned __int128 mag;
  if (!exact_int(s, neg, mag))
    return REJ;
  unsigned __int128 lim = t.k == T::INT ? ((unsigned __int128)1 << (t.n - 1)) - (neg ? 0 : 1) : neg ? 0 : ((unsigned __int128)1 << t.n) - 1;
  if (mag > lim)
    return REJ;
  v = V::Int((int64_t)(neg ? -(uint64_t)mag : (uint64_t)mag));
  return s.find_first_of(".eE") == S::npos ? MUST : MAY;
}
static St dec_real(const S &s, const T &t, V &v) {
  double d = strtod(s.c_str(), nullptr);
  if (t.k == T::F32) {
    float f = strtof(s.c_str(), nullptr);
    if (std::isinf(f) || (float)d != f) {
      v = V::Real(f);
      return ANY;
    }
    v = V::Real(f);
    return MUST;
  }
  v = V::Real(d);
  return std::isinf(d) ? MAY : MUST;
}
static bool na_token(const S &s) {
  S l;
  for (char c : s)
    l += tolower((unsigned char)c);
  return s.empty() || l == "null" || s == "NA" || s == "None";
}
static St dec(const J &j, const T &t, V &v);
static St dec_scalar_text(const S &s, const T &t, V &v) { // a string standing for a number or boolean
  if (t.k == T::BOOL) {
    if (s == "true" || s == "false") {
      v = V::Bool(s == "true");
      return MAY;
    }
    S l;
    for (char c : s)
      if (!isspace((unsigned char)c))
        l += tolower((unsigned char)c);
    for (const char *w : {"true", "t", "yes", "y", "on", "1", "false", "f", "no", "n", "off", "0"})
      if (l == w)
        return ANY;
    return REJ;
  }
  bool in = t.k == T::INT || t.k == T::UINT;
  if (is_num_text(s, false))
    return in ? dec_int(s, t, v) : dec_real(s, t, v);
  S l;
  for (char c : s)
    if (!isspace((unsigned char)c))
      l += tolower((unsigned char)c);
  if (in) {
    // leading zeros, signs and spaces are not decided here
    size_t b = l.size() && (l[0] == '-' || l[0] == '+') ? 1 : 0;
    if (l.size() > b && isdigit((unsigned char)l[b]))
      return ANY;
    return REJ;
  }
  const char *e = nullptr;
  S c = s;
  strtod(c.c_str(), const_cast<char **>(&e));
  if (e != c.c_str() || l.find("nan") != S::npos || l.find("inf") != S::npos || l.find("#") != S::npos)
    return ANY;
  return REJ;
}
static St dec_list(const std::vector<J> &a, const std::function<const T &(size_t)> &f, V &v) {
  St st = MUST;
  v = V::List();
  for (size_t i = 0; i < a.size(); ++i) {
    V e;
    St s = dec(a[i], f(i), e);
    st = worse(st, s);
    v.k.push_back(e);
  }
  return st;
}
static St dec(const J &j, const T &t, V &v) {
  switch (t.k) {
  case T::BOOL:
    if (j.k == J::TRUE_ || j.k == J::FALSE_) {
      v = V::Bool(j.k == J::TRUE_);
      return MUST;
    }
    if (j.k == J::NUM) {
      if (j.s == "0" || j.s == "1") {
        v = V::Bool(j.s == "1");
        return MUST;
      }
      return REJ;
    }
    return j.k == J::STR ? dec_scalar_text(j.s, t, v) : REJ;
  case T::INT:
  case T::UINT:
    if (j.k == J::NUM)
      return dec_int(j.s, t, v);
    return j.k == J::STR ? dec_scalar_text(j.s, t, v) : REJ;
  case T::F32:
  case T::F64:
    if (j.k == J::NUM)
      return dec_real(j.s, t, v);
    return j.k == J::STR ? dec_scalar_text(j.s, t, v) : REJ;
  case T::STR:
    if (j.k != J::STR)
      return REJ;
    v = V::Str(j.s);
    return j.odd ? ANY : MUST;
  case T::FSTR:
    if (j.k != J::STR)
      return REJ;
    if (j.odd || j.s.find('\0') != S::npos)
      return ANY;
    v = V::Str(j.s);
    return j.s.size() <= (size_t)t.n ? MUST : REJ;
  case T::TYPE:
    if (j.k != J::STR)
      return REJ;
    try {
      v.kind = V::OTHER;
      v.s = tstr(ndt::type(j.s));
      return MUST;
    } catch (...) {
      return REJ;
    }
  case T::OPT:
    if (j.k == J::NUL) {
      v = V::NA();
      return MUST;
    }
    if (j.k == J::STR && t.f[0].k != T::STR && t.f[0].k != T::FSTR && na_token(j.s)) {
      v = V::NA();
      return MUST;
    }
    {
      St s = dec(j, t.f[0], v);
      // the bit pattern of the missing value is not available to values
      if (s == MUST && (t.f[0].k == T::INT) && v.i == (t.f[0].n == 64 ? INT64_MIN : -((int64_t)1 << (t.f[0].n - 1))))
        return ANY;
      if (s == MUST && t.f[0].k == T::UINT && v.i == (t.f[0].n == 64 ? (int64_t)-1 : ((int64_t)1 << t.f[0].n) - 1))
        return ANY;
      return s;
    }
  case T::FIX:
    if (j.k != J::ARR || j.a.size() != (size_t)t.n)
      return REJ;
    return dec_list(j.a, [&](size_t) -> const T & { return t.f[0]; }, v);
  case T::VAR:
    if (j.k != J::ARR)
      return REJ;
    return dec_list(j.a, [&](size_t) -> const T & { return t.f[0]; }, v);
  case T::TU:
    if (j.k != J::ARR || j.a.size() != t.f.size())
      return REJ;
    return dec_list(j.a, [&](size_t i) -> const T & { return t.f[i]; }, v);
  case T::ST: {
    if (j.k == J::ARR) {
      if (j.a.size() != t.f.size())
        return REJ;
      return dec_list(j.a, [&](size_t i) -> const T & { return t.f[i]; }, v);
    }
    if (j.k != J::OBJ)
      return REJ;
    v = V::List();
    v.k.resize(t.f.size());
    std::vector<char> seen(t.f.size());
    St st = MUST;
    for (auto &p : j.o)
      for (size_t i = 0; i < t.f.size(); ++i)
        if (t.names[i] == p.first) {
          V e;
          st = worse(st, dec(p.second, t.f[i], e));
          v.k[i] = e;
          seen[i] = 1;
        }
    for (size_t i = 0; i < t.f.size(); ++i)
      if (!seen[i]) {
        if (t.f[i].k != T::OPT)
          return REJ;
        v.k[i] = V::NA();
      }
    return st;
  }
  }
  return ANY;
}

// ---- running the library -------------------------------------------------------------------------------------------
struct Out {
  bool ok = false;
  V v;
  S err;
};
template <class F>
static Out guard(F f) {
  Out o;
  try {
    o.v = f();
    o.ok = true;
  } catch (const std::exception &e) {
    o.err = e.what();
  } catch (const dynd::dynd_exception &e) {
    o.err = e.what();
  }
  return o;
}
struct Ty {
  S text;
  ndt::type tp;
  T t;
};
static Ty ty(const S &s) {
  Ty r;
  r.text = s;
  r.tp = ndt::type(s);
  r.t = mk(r.tp);
  return r;
}
static Out run(const Ty &ty, const S &doc) {
  // an exact-sized heap buffer, so that reading past the end is seen
  std::unique_ptr<char[]> b(new char[doc.size()]);
  memcpy(b.get(), doc.data(), doc.size());
  return guard([&] { return read(parse_json(ty.tp, b.get(), b.get() + doc.size(), &eval::default_eval_context)); });
}
static const char *judge(const Ty &ty, const S &doc, const Out &o, S &detail, int *accepted = nullptr) {
  J j;
  Rd r(doc);
  V v;
  St st = REJ;
  bool good = r.doc(j);
  if (good)
    st = dec(j, ty.t, v);
  if (accepted)
    *accepted = good ? (int)st : 4;
  if (good && r.ext && st == MUST)
    st = MAY;
  if (st == ANY)
    return nullptr;
  if (st == REJ) {
    if (o.ok) {
      detail = "gives " + o.v.str();
      return good ? "document that denotes no value of the type is accepted" : "text that is not JSON is accepted";
    }
    return nullptr;
  }
  if (!o.ok) {
    if (st == MAY)
      return nullptr;
    detail = "expected " + v.str() + ", error: " + o.err.substr(0, 300);
    return "valid document is rejected";
  }
  if (o.v != v) {
    detail = "expected " + v.str() + ", got " + o.v.str();
    return "wrong value";
  }
  return nullptr;
}
static void one(mc::X &x, const Ty &ty, const S &doc) {
  x.trans(1);
  Out o = run(ty, doc);
  S d;
  int acc;
  if (const char *c = judge(ty, doc, o, d, &acc))
    x.fail(c, d);
  x.outcome(acc == MUST ? "value" : acc == REJ ? "no value of the type" : acc == 4 ? "not JSON" : "unconstrained");
}
static bool validates(const S &doc) {
  std::unique_ptr<char[]> b(new char[doc.size()]);
  memcpy(b.get(), doc.data(), doc.size());
  return guard([&] {
           validate_json(b.get(), b.get() + doc.size());
           return V();
         })
      .ok;
}

// ---- values of a type ----------------------------------------------------------------------------------------------
static std::vector<V> vals(const T &t, int rich) {
  std::vector<V> r;
  switch (t.k) {
  case T::BOOL:
    return {V::Bool(false), V::Bool(true)};
  case T::INT: {
    int64_t mn = t.n == 64 ? INT64_MIN : -((int64_t)1 << (t.n - 1)), mx = ~mn;
    for (int64_t i : {(int64_t)0, (int64_t)-1, mx, mn + 1, mn, (int64_t)65, (int64_t)10})
      r.push_back(V::Int(i));
    if (rich)
      for (int b = 1; b < t.n - 1; ++b) {
        r.push_back(V::Int((int64_t)1 << b));
        r.push_back(V::Int(-((int64_t)1 << b)));
        r.push_back(V::Int(((int64_t)1 << b) - 1));
      }
    break;
  }
  case T::UINT: {
    uint64_t mx = t.n == 64 ? UINT64_MAX : ((uint64_t)1 << t.n) - 1;
    for (uint64_t i : {(uint64_t)0, (uint64_t)1, mx, mx - 1, mx / 2 + 1, (uint64_t)65})
      r.push_back(V::Int((int64_t)i));
    break;
  }
  case T::F32: {
    for (float f : {0.f, -0.f, 1.5f, 0.1f, 1e-45f, 3.4028235e38f, -1.17549435e-38f, 16777217.f, 1e10f, 123456.789f})
      r.push_back(V::Real(f));
    if (rich)
      for (uint32_t e = 0; e < 255; ++e)
        for (uint32_t m : {0u, 1u, 0x2aaaaau, 0x7fffffu}) {
          uint32_t u = e << 23 | m;
          r.push_back(V::Real(rd<float>((char *)&u)));
        }
    break;
  }
  case T::F64: {
    for (double f : {0.0, -0.0, 1.5, 0.1, 5e-324, 1.7976931348623157e308, -2.2250738585072014e-308, 9007199254740993.0, 1e15, 1e16, 123456789.123456789, 1.0 / 3})
      r.push_back(V::Real(f));
    if (rich)
      for (uint64_t e = 0; e < 2047; e += rich > 1 ? 1 : 7)
        for (uint64_t m : {0ull, 1ull, 0x5555555555555ull, 0xfffffffffffffull}) {
          uint64_t u = e << 52 | m;
          r.push_back(V::Real(rd<double>((char *)&u)));
        }
    break;
  }
  case T::STR:
  case T::FSTR: {
    std::vector<S> ss = {"", "a", "null", "NA", "12", "\"", "\\", "a\"b\\c/d", "\n", "fifteen chars..", "exactly sixteen.", "a string longer than the internal buffer", "\xc3\xa9", "\xe2\x82\xac", "\xf0\x9f\x98\x80"};
    if (rich) {
      for (int c = 0; c < 128; ++c)
        ss.push_back(S(1, (char)c));
      for (int c = 0; c < 128; ++c)
        ss.push_back("x" + S(1, (char)c) + "1");
      for (uint32_t cp : {0x80u, 0x7ffu, 0x800u, 0xfffu, 0x1000u, 0xd7ffu, 0xe000u, 0xfffdu, 0xffffu, 0x10000u, 0x3ffffu, 0x40000u, 0x10ffffu}) {
        S s;
        put_cp(cp, s);
        ss.push_back(s);
        ss.push_back("a" + s + "b");
      }
      for (int b = 0; b < 20; ++b)
        for (int d = -1; d <= 1; ++d)
          ss.push_back(S((1u << b) + d, 'q'));
      for (int n = 1000; n < 1040; ++n) {
        ss.push_back(S(n, 'q'));
        ss.push_back(S(n, 'q') + "\xf0\x9f\x98\x80\x01\n" + S(n, 'r'));
      }
    }
    for (auto &s : ss)
      if (t.k == T::STR || (s.size() <= (size_t)t.n && s.find('\0') == S::npos))
        r.push_back(V::Str(s));
    break;
  }
  case T::TYPE:
    break;
  case T::OPT:
    r.push_back(V::NA());
    for (auto &v : vals(t.f[0], rich)) {
      if (t.f[0].k == T::INT && v.i == (t.f[0].n == 64 ? INT64_MIN : -((int64_t)1 << (t.f[0].n - 1))))
        continue;
      if (t.f[0].k == T::UINT && v.i == (t.f[0].n == 64 ? (int64_t)-1 : ((int64_t)1 << t.f[0].n) - 1))
        continue;
      r.push_back(v);
    }
    break;
  case T::FIX:
  case T::VAR: {
    std::vector<V> e = vals(t.f[0], 0);
    std::vector<int> sizes;
    if (t.k == T::FIX)
      sizes = {t.n};
    else
      for (int i : {0, 1, 2, 3, 7, 8, 9, 15, 16, 17, 33, 130, 600})
        if (rich || i < 4 || i == 9)
          sizes.push_back(i);
    for (int n : sizes)
      for (size_t rot = 0; rot < (rich && n < 100 ? e.size() : 2); ++rot) {
        V l = V::List();
        for (int i = 0; i < n; ++i)
          l.k.push_back(e[(i + rot) % e.size()]);
        r.push_back(l);
      }
    break;
  }
  case T::ST:
  case T::TU: {
    std::vector<std::vector<V>> e;
    size_t m = 1;
    for (auto &f : t.f) {
      e.push_back(vals(f, 0));
      m = std::max(m, e.back().size());
    }
    for (size_t rot = 0; rot < m; ++rot) {
      V l = V::List();
      for (size_t i = 0; i < e.size(); ++i)
        l.k.push_back(e[i][(rot + i) % e[i].size()]);
      r.push_back(l);
    }
    break;
  }
  }
  return r;
}

// a plain rendering of a value, used as a seed document
static S esc_json(const S &s) {
  S r = "\"";
  for (unsigned char c : s)
    if (c == '"' || c == '\\') {
      r += '\\';
      r += c;
    } else if (c < 0x20)
      r += mc::fmt("\\u%04x", c);
    else
      r += c;
  return r + "\"";
}
static S plain(const V &v, const T &t) {
  switch (v.kind) {
  case V::NONE:
    return "null";
  case V::BOOL:
    return v.i ? "true" : "false";
  case V::INT:
    return t.k == T::UINT ? mc::fmt("%llu", (unsigned long long)v.i) : mc::fmt("%lld", (long long)v.i);
  case V::REAL:
    return mc::fmt("%.17g", v.d);
  case V::STR:
    return esc_json(v.s);
  default: {
    bool st = t.k == T::ST;
    S r = st ? "{" : "[";
    for (size_t i = 0; i < v.k.size(); ++i) {
      const T &f = t.k == T::ST || t.k == T::TU ? t.f[i] : t.f[0];
      r += (i ? ", " : "") + (st ? esc_json(t.names[i]) + ": " : S()) + plain(v.k[i], f.k == T::OPT ? f.f[0] : f);
    }
    return r + (st ? "}" : "]");
  }
  }
}

static void body(mc::X &x) {
  bool th = x.thorough();
  std::vector<Ty> types;
  for (const char *s : {"bool", "int8", "int32", "int64", "uint8", "uint64", "float32", "float64", "string", "fixed_string[4]", "type", "?bool", "?int32", "?float64", "?string",
                        "0 * int32", "1 * int32", "3 * int32", "var * int32", "var * string", "var * ?int32", "2 * var * int32", "var * 2 * int32", "var * var * int32",
                        "{}", "{a: int32}", "{a: int32, b: string}", "{a: ?int32, b: ?string}", "{a: {b: int32}, b: var * int32}", "()", "(int32)", "(int32, string)", "var * {a: int32, b: ?string}",
                        "3 * ?string", "var * (int32, var * string)"})
    types.push_back(ty(s));

  x.section("token sequences");
  {
    const std::vector<S> tk = {"{", "}", "[", "]", ",", ":", "\"a\"", "\"b\"", "1", "null", "true", "-2.5", " "};
    int full = th ? 5 : 4;
    for (auto &t : types)
      for (size_t a = 0; a < tk.size(); ++a)
        for (size_t b = 0; b < tk.size(); ++b) {
          if (!x.unit())
            continue;
          // the longest ones for a third of the types, in the quick tier
          int upto = th || (&t - types.data()) % 3 == 0 ? full : full - 1;
          for (int len = 2; len <= upto; ++len) {
            size_t total = 1;
            for (int i = 2; i < len; ++i)
              total *= tk.size();
            for (size_t k = 0; k < total; ++k) {
              S d = tk[a] + tk[b];
              size_t m = k;
              for (int i = 2; i < len; ++i) {
                d += tk[m % tk.size()];
                m /= tk.size();
              }
              MC_CASE_S(x, t.text + " <- " + d);
              one(x, t, d);
            }
          }
        }
  }
  x.section("prefixes of documents");
  {
    // every viable prefix up to a depth, and every extension of it by one more token
    const std::vector<S> tk = {"{", "}", "[", "]", ",", ":", "\"a\"", "\"b\"", "1", "null", "\"z\""};
    size_t depth = th ? 9 : 7;
    for (auto &t : types)
      for (size_t a = 0; a < tk.size(); ++a)
        for (size_t b = 0; b < tk.size(); ++b) {
          if (!x.unit())
            continue;
          std::function<void(const S &, size_t)> go = [&](const S &d, size_t n) {
            Rd r(d);
            J j;
            bool ok = r.doc(j);
            bool viable = ok || r.short_;
            for (int once = 0; once < 1; ++once) {
              MC_CASE_S(x, t.text + " <- " + d);
              one(x, t, d);
            }
            if (!viable || n >= depth || (ok && r.p == d.size() && n > 1 && d[0] != '[' && d[0] != '{'))
              return;
            for (auto &k : tk)
              go(d + k, n + 1);
          };
          go(tk[a] + tk[b], 2);
        }
  }
  x.section("numbers");
  {
    const S al = "-+01259.eE";
    std::vector<Ty> nt;
    for (const char *s : {"bool", "int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64", "float32", "float64", "?int8", "?int64", "?uint8", "?float32", "?bool", "var * int64"})
      nt.push_back(ty(s));
    int L = th ? 6 : 5;
    for (auto &t : nt)
      for (char a : al)
        for (char b : al) {
          if (!x.unit())
            continue;
          bool deep = th || t.text == "int8" || t.text == "uint64" || t.text == "float64";
          for (int len = 1; len <= (deep ? L : L - 1); ++len) {
            if (len < 2 && b != al[0])
              continue;
            size_t total = 1;
            for (int i = 2; i < len; ++i)
              total *= al.size();
            for (size_t k = 0; k < total; ++k) {
              S d(1, a);
              if (len > 1)
                d += b;
              size_t m = k;
              for (int i = 2; i < len; ++i) {
                d += al[m % al.size()];
                m /= al.size();
              }
              if (t.t.k == T::VAR)
                d = "[" + d + "]";
              MC_CASE_S(x, t.text + " <- " + d);
              one(x, t, d);
            }
          }
        }
    // around every power of two and ten, quoted and not
    for (auto &t : nt) {
      if (!x.unit())
        continue;
      std::set<S> ds;
      for (int neg = 0; neg < 2; ++neg) {
        unsigned __int128 p2 = 1, p10 = 1;
        for (int e = 0; e < 70; ++e, p2 *= 2, p10 *= e < 25 ? 10 : 1)
          for (unsigned __int128 p : {p2, p10})
            for (int d = -2; d <= 2; ++d) {
              unsigned __int128 v = p + d;
              if (v > ((unsigned __int128)1 << 100))
                continue;
              S s;
              do {
                s.insert(s.begin(), '0' + (int)(v % 10));
                v /= 10;
              } while (v);
              ds.insert((neg ? "-" : "") + s);
            }
      }
      for (const char *s : {"1e400", "-1e400", "1e-400", "4.9e-324", "2.4e-324", "1.7976931348623159e308", "1e38", "3.5e38", "100000000000000000000000000000000000000000000", "0.1000000000000000055511151231257827", "1e5", "12e1", "1.0", "100e-2", "1.5e1", "0e99999999999", "1e99999999999999999999"})
        ds.insert(s);
      for (auto &d : ds)
        for (int q = 0; q < 2; ++q) {
          S e = q ? "\"" + d + "\"" : d;
          if (t.t.k == T::VAR)
            e = "[" + e + "]";
          MC_CASE_S(x, t.text + " <- " + e);
          one(x, t, e);
        }
    }
    for (auto &t : nt) {
      if (!x.unit())
        continue;
      const S qa = "-+01a.eN ";
      for (int len = 0; len <= 4; ++len) {
        size_t total = 1;
        for (int i = 0; i < len; ++i)
          total *= qa.size();
        for (size_t k = 0; k < total; ++k) {
          S d;
          size_t m = k;
          for (int i = 0; i < len; ++i) {
            d += qa[m % qa.size()];
            m /= qa.size();
          }
          d = "\"" + d + "\"";
          if (t.t.k == T::VAR)
            d = "[" + d + "]";
          MC_CASE_S(x, t.text + " <- " + d);
          one(x, t, d);
        }
      }
      for (const char *w : {"null", "NULL", "Null", "None", "none", "NA", "na", "NaN", "nan", "inf", "-inf", "Infinity", "true", "false", "TRUE", "yes", "", " ", "0x10", "1_000", "1,000", "\\u0031", "\\u00312", "1\\u0000", "\\n1"}) {
        S d = S("\"") + w + "\"";
        if (t.t.k == T::VAR)
          d = "[" + d + "]";
        MC_CASE_S(x, t.text + " <- " + d);
        one(x, t, d);
      }
    }
  }
  x.section("strings");
  {
    std::vector<Ty> st;
    for (const char *s : {"string", "?string", "fixed_string[4]", "var * string", "{a: int32}"})
      st.push_back(ty(s));
    auto wrap = [](const Ty &t, const S &s) {
      if (t.t.k == T::VAR)
        return "[" + s + "]";
      if (t.t.k == T::ST)
        return "{\"a\": 1, " + s + ": \"a\"}";
      return s;
    };
    const std::vector<S> al = {"\\", "\"", "u", "0", "d", "8", "a", "n", "/", "U", "\n", "\xc3", "\xa9", "\xe2\x82", "\x01", "\xff", "\\ud83d", "\\udE00", "\\u0061"};
    for (auto &t : st)
      for (size_t a = 0; a < al.size(); ++a)
        for (size_t b = 0; b < al.size(); ++b) {
          if (!x.unit())
            continue;
          for (int len = 1; len <= (th ? 5 : t.text == "string" ? 4 : 3); ++len) {
            if (len < 2 && b)
              continue;
            size_t total = 1;
            for (int i = 2; i < len; ++i)
              total *= al.size();
            for (size_t k = 0; k < total; ++k) {
              S d = "\"" + al[a];
              if (len > 1)
                d += al[b];
              size_t m = k;
              for (int i = 2; i < len; ++i) {
                d += al[m % al.size()];
                m /= al.size();
              }
              S e = wrap(t, d + "\"");
              MC_CASE_S(x, t.text + " <- " + mc::quote(e));
              one(x, t, e);
            }
          }
        }
    // every escape of the basic plane, and of pairs at the edges
    for (auto &t : st)
      for (int hi = 0; hi < 256; ++hi) {
        if (!x.unit())
          continue;
        for (int lo = 0; lo < 256; ++lo) {
          if (t.t.k == T::ST && lo % 16)
            continue;
          S d = wrap(t, mc::fmt(lo % 2 ? "\"\\u%02x%02X\"" : "\"\\u%02X%02x\"", hi, lo));
          MC_CASE_S(x, t.text + " <- " + d);
          one(x, t, d);
        }
      }
    for (auto &t : st) {
      if (!x.unit())
        continue;
      const std::vector<int> e = {0x0000, 0x0041, 0xd7ff, 0xd800, 0xd801, 0xd83d, 0xdbff, 0xdc00, 0xdc01, 0xde00, 0xdfff, 0xe000, 0xffff};
      for (int a : e)
        for (int b : e)
          for (int c : {-1, 0x41, 0xd83d, 0xde00}) {
            S d = mc::fmt("\"\\u%04x\\u%04x", a, b);
            if (c >= 0)
              d += mc::fmt("\\u%04x", c);
            d = wrap(t, d + "\"");
            MC_CASE_S(x, t.text + " <- " + d);
            one(x, t, d);
          }
      for (uint32_t c : {0x0u, 0x41u, 0x7fu, 0x80u, 0x7ffu, 0x800u, 0xd7ffu, 0xd800u, 0xdfffu, 0xe000u, 0xffffu, 0x10000u, 0x10ffffu, 0x110000u, 0xffffffffu, 0x80000041u}) {
        S d = wrap(t, mc::fmt("\"\\U%08x\"", c));
        MC_CASE_S(x, t.text + " <- " + d);
        one(x, t, d);
      }
    }
  }
  x.section("one byte edits");
  {
    struct Seed {
      const char *t, *d;
    };
    const Seed seeds[] = {{"bool", "true"}, {"bool", " false "}, {"int32", "-12"}, {"float64", "-1.5e+3"}, {"string", "\"a\\u00e9\\n\xc3\xa9\""}, {"fixed_string[4]", "\"ab\\t\""}, {"type", "\"int32\""},
                          {"?bool", "null"}, {"?int32", "null"}, {"?int32", "\"NA\""}, {"?string", "\"null\""}, {"3 * int32", "[1, 2, 3]"}, {"var * int32", "[1, 2,\n3]"}, {"var * string", "[\"a\", \"bc\"]"},
                          {"var * var * int32", "[[1], [], [2, 3]]"}, {"{a: int32, b: ?string}", "{\"a\": 1, \"b\": \"x\"}"}, {"{a: int32, b: ?string}", "[1, null]"},
                          {"{a: int32}", "{\"z\": [1, {\"q\": null, \"r\": true}, \"s\\\\\", -1e5, false], \"a\": 2}"}, {"(int32, string)", "[1, \"x\"]"}};
    auto docs = [&](const S &d, const std::function<void(const S &)> &f) {
      for (size_t p = 0; p <= d.size(); ++p) {
        if (p < d.size())
          f(d.substr(0, p) + d.substr(p + 1));
        f(d.substr(0, p));
        for (int c = 0; c < 256; ++c) {
          f(d.substr(0, p) + (char)c + d.substr(p));
          if (p < d.size())
            f(d.substr(0, p) + (char)c + d.substr(p + 1));
        }
        for (size_t q = p + 1; q < d.size(); ++q) {
          S e = d;
          std::swap(e[p], e[q]);
          f(e);
          f(d.substr(0, p) + d.substr(q));
        }
      }
    };
    for (auto &s : seeds) {
      if (!x.unit())
        continue;
      Ty t = ty(s.t);
      docs(s.d, [&](const S &d) {
        for (int once = 0; once < 1; ++once) {
          MC_CASE_S(x, t.text + " <- " + mc::quote(d));
          one(x, t, d);
        }
      });
    }
    x.section("validation");
    for (auto &s : seeds) {
      if (!x.unit())
        continue;
      docs(s.d, [&](const S &d) {
        for (int once = 0; once < 1; ++once) {
          MC_CASE_S(x, mc::quote(d));
          x.trans(1);
          J j;
          Rd r(d);
          bool ok = r.doc(j), got = validates(d);
          if (!(ok && r.ext))
            x.check(ok == got, ok ? "valid JSON is reported as invalid" : "invalid JSON passes validation", "");
          x.outcome(ok ? "valid" : "invalid");
        }
      });
    }
    const std::vector<S> tk = {"{", "}", "[", "]", ",", ":", "\"a\"", "1", "null", "true", "false", "-0.5e1", "\"\\u12\"", "tru", "\n"};
    for (size_t a = 0; a < tk.size(); ++a)
      for (size_t b = 0; b < tk.size(); ++b) {
        if (!x.unit())
          continue;
        for (int len = 0; len <= (th ? 6 : 4); ++len) {
          if (len < 2 && (b || (len == 0 && a)))
            continue;
          size_t total = 1;
          for (int i = 2; i < len; ++i)
            total *= tk.size();
          for (size_t k = 0; k < total; ++k) {
            S d = (len > 0 ? tk[a] : S()) + (len > 1 ? tk[b] : S());
            size_t m = k;
            for (int i = 2; i < len; ++i) {
              d += tk[m % tk.size()];
              m /= tk.size();
            }
            MC_CASE_S(x, mc::quote(d));
            x.trans(1);
            J j;
            Rd r(d);
            bool ok = r.doc(j), got = validates(d);
            x.check(ok == got, ok ? "valid JSON is reported as invalid" : "invalid JSON passes validation", "");
            x.outcome(ok ? "valid" : "invalid");
          }
        }
      }
  }
  x.section("formatting");
  {
    for (const char *ts : {"bool", "int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64", "float32", "float64", "string", "fixed_string[4]", "fixed_string[40]", "?bool", "?int8", "?int16", "?int32", "?int64", "?uint8", "?uint16", "?uint64",
                           "?uint32", "?float32", "?float64", "?string", "0 * int32", "3 * int32", "3 * ?string", "2 * 3 * float64", "var * int8", "var * int32", "var * string", "var * ?int32", "var * ?string", "var * bool",
                           "2 * var * int32", "var * 2 * int16", "var * var * int32", "var * var * string", "var * var * var * string", "{}", "{a: int32}", "{a: int32, b: string}", "{a: ?int32, b: ?string}",
                           "{'': int8, 'q\"': bool, '\\\\': string}", "{'\xc3\xa9\\n': int8}", "var * {a: int32, b: ?string}", "var * {a: string, b: var * string}", "{a: {b: int32, c: var * string}, b: var * int32}"}) {
      Ty t = ty(ts);
      std::vector<V> vs = vals(t.t, th ? 2 : 1);
      for (size_t b = 0; b < vs.size(); b += 64) {
        if (!x.unit())
          continue;
        for (size_t i = b; i < std::min(vs.size(), b + 64); ++i)
          for (int list = 0; list < 2; ++list) {
            if (list && S(ts).find('{') == S::npos)
              continue;
            MC_CASE_S(x, t.text + (list ? " (lists) " : "  ") + vs[i].str().substr(0, 300));
            x.trans(3);
            nd::array a = build(t.tp, vs[i]);
            if (!x.check(read(a) == vs[i], "harness: value not built", ""))
              continue;
            S text;
            Out o = guard([&] {
              V v = read(format_json(a, list));
              text = v.s;
              return v;
            });
            if (!x.check(o.ok, "value cannot be formatted", o.err))
              continue;
            J j;
            Rd r(text);
            if (!x.check(r.doc(j) && !r.ext, "formatted text is not JSON", mc::quote(text).substr(0, 400)))
              continue;
            V back;
            St st = dec(j, t.t, back);
            x.check((st == MUST || st == ANY) && back == vs[i], "formatted text denotes another value", text.substr(0, 400) + " denotes " + back.str().substr(0, 200));
            Out p = run(t, text);
            x.check(p.ok && p.v == vs[i], "parsing the formatted text does not give the value back", text.substr(0, 300) + (p.ok ? " gives " + p.v.str().substr(0, 200) : ": " + p.err.substr(0, 300)));
            x.check(read(a) == vs[i], "formatting changes the value", "");
            x.outcome(t.text);
          }
      }
    }
  }
  x.section("plain documents");
  {
    for (const char *ts : {"int8", "int64", "uint64", "float32", "float64", "string", "fixed_string[40]", "?bool", "?int8", "?int64", "?uint8", "?uint16", "?uint32", "?uint64", "?float32", "?string", "3 * ?string", "2 * 3 * float64", "var * int8", "var * string", "var * ?int32",
                           "var * ?string", "var * bool", "2 * var * int32", "var * 2 * int16", "var * var * int32", "var * var * string", "{a: int32, b: string}", "{a: ?int32, b: ?string}", "(int32, string)", "(var * string, ?int8)",
                           "{'q\"': bool, '\\\\': string}", "var * {a: int32, b: ?string}", "var * {a: string, b: var * string}", "var * (string, var * string)", "{a: {b: int32, c: var * string}, b: var * int32}"}) {
      Ty t = ty(ts);
      std::vector<V> vs = vals(t.t, 1);
      for (size_t b = 0; b < vs.size(); b += 64) {
        if (!x.unit())
          continue;
        for (size_t i = b; i < std::min(vs.size(), b + 64); ++i)
          for (int via = 0; via < 6; ++via) {
            S doc = plain(vs[i], t.t.k == T::OPT ? t.t.f[0] : t.t);
            static const char *vn[] = {"range", "string array", "bytes array", "fixed_string array", "utf16 array", "into an array"};
            if (via == 3 && (doc.find('\0') != S::npos || doc.empty()))
              continue;
            MC_CASE_S(x, t.text + " from " + vn[via] + ": " + doc.substr(0, 300));
            x.trans(1);
            const eval::eval_context *ec = &eval::default_eval_context;
            Out o = guard([&] {
              switch (via) {
              case 1: {
                nd::array s = nd::empty(ndt::make_type<ndt::string_type>());
                reinterpret_cast<dynd::string *>(s.data())->assign(doc.data(), doc.size());
                return read(parse_json(t.tp, s, ec));
              }
              case 2: {
                nd::array s = nd::empty(ndt::make_type<ndt::bytes_type>(1));
                reinterpret_cast<dynd::bytes *>(s.data())->assign(doc.data(), doc.size());
                return read(parse_json(t.tp, s, ec));
              }
              case 3: {
                nd::array s = nd::empty(ndt::make_type<ndt::fixed_string_type>(doc.size() + (i % 3), string_encoding_utf_8));
                memset(s.data(), 0, doc.size() + (i % 3));
                memcpy(s.data(), doc.data(), doc.size());
                return read(parse_json(t.tp, s, ec));
              }
              case 4: {
                std::u16string u;
                for (size_t p = 0; p < doc.size();) {
                  int n = utf8_len(doc, p);
                  uint32_t cp = (unsigned char)doc[p];
                  if (n > 1) {
                    cp &= 0xff >> (n + 1);
                    for (int k = 1; k < n; ++k)
                      cp = cp << 6 | (doc[p + k] & 0x3f);
                  }
                  p += n;
                  if (cp >= 0x10000) {
                    u += (char16_t)(0xd800 + ((cp - 0x10000) >> 10));
                    u += (char16_t)(0xdc00 + ((cp - 0x10000) & 0x3ff));
                  } else
                    u += (char16_t)cp;
                }
                nd::array s = nd::empty(ndt::make_type<ndt::fixed_string_type>(u.size() + (i % 3), string_encoding_utf_16));
                memset(s.data(), 0, 2 * (u.size() + (i % 3)));
                memcpy(s.data(), u.data(), 2 * u.size());
                return read(parse_json(t.tp, s, ec));
              }
              case 5: {
                nd::array a = nd::empty(t.tp);
                parse_json(a, doc.data(), doc.data() + doc.size(), ec);
                return read(a);
              }
              default:
                return read(parse_json(t.tp, doc, ec));
              }
            });
            if (x.check(o.ok, "valid document is rejected", o.err.substr(0, 400)))
              x.check(o.v == vs[i], "wrong value", o.v.str().substr(0, 400));
            x.outcome(vn[via]);
          }
      }
    }
  }
  x.section("into strided arrays");
  {
    // the destination is a part of a larger array: only that part changes
    for (const char *et : {"int32", "?int32", "string", "?string", "{a: int32, b: string}", "2 * int32"}) {
      Ty t = ty(et);
      std::vector<V> vs = vals(t.t, 0);
      for (int n = 1; n <= 5; ++n)
        for (int start = 0; start < n; ++start)
          for (int step : {1, 2, 3, -1, -2})
            for (int cnt = 1; cnt <= n; ++cnt) {
              int last = start + (cnt - 1) * step;
              if (last < 0 || last >= n)
                continue;
              if (!x.unit())
                continue;
              for (size_t rot = 0; rot < 3; ++rot) {
                MC_CASE(x, "%s: %d of %d elements from %d step %d, values %zu", et, cnt, n, start, step, rot);
                x.trans(1);
                V full = V::List(), part = V::List();
                for (int i = 0; i < n; ++i)
                  full.k.push_back(vs[i % vs.size()]);
                Ty ft = ty(mc::fmt("%d * ", n) + et);
                nd::array a = build(ft.tp, full);
                V want = full;
                for (int i = 0; i < cnt; ++i) {
                  V v = vs[(i + 1 + rot) % vs.size()];
                  part.k.push_back(v);
                  want.k[start + i * step] = v;
                }
                irange r = irange(start, step < 0 ? (last == 0 ? std::numeric_limits<intptr_t>::min() : last - 1) : last + 1).by(step);
                Out o = guard([&] {
                  nd::array b = a(r);
                  T pt;
                  pt.k = T::FIX;
                  pt.n = cnt;
                  pt.f.push_back(t.t);
                  S doc = plain(part, pt);
                  parse_json(b, doc.data(), doc.data() + doc.size(), &eval::default_eval_context);
                  return read(a);
                });
                if (x.check(o.ok, "valid document is rejected", o.err.substr(0, 300)))
                  x.check(o.v == want, "wrong value", "expected " + want.str() + ", got " + o.v.str());
              }
            }
    }
  }
  x.section("scalar parser");
  {
    // nd::json::parse, the callable based parser
    const S al = "-+01259.eE \"tn";
    std::vector<S> words = {"true", "false", "null", "\"true\"", "tru", "1 1", " 1 ", "[1]", "\"12\""};
    for (const char *ts : {"bool", "int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64"}) {
      Ty t = ty(ts);
      for (char a : al) {
        if (!x.unit())
          continue;
        for (int len = 1; len <= 4 + th; ++len) {
          size_t total = 1;
          for (int i = 1; i < len; ++i)
            total *= al.size();
          for (size_t k = 0; k < total + (a == al[0] && len == 1 ? words.size() : 0); ++k) {
            S d(1, a);
            size_t m = k;
            for (int i = 1; i < len; ++i) {
              d += al[m % al.size()];
              m /= al.size();
            }
            if (k >= total)
              d = words[k - total];
            MC_CASE_S(x, t.text + " <- " + d);
            x.trans(1);
            std::unique_ptr<char[]> b(new char[d.size()]);
            memcpy(b.get(), d.data(), d.size());
            Out o = guard([&] { return read(nd::json::parse(t.tp, b.get(), b.get() + d.size())); });
            S det;
            if (d.find('"') != S::npos && !o.ok)
              continue; // numbers in quotes need not be understood
            if (t.t.k == T::UINT && d.find('-') != S::npos && !o.ok)
              continue; // nor "-0" as an unsigned number
            if (const char *c = judge(t, d, o, det))
              x.fail(c, det);
          }
        }
      }
    }
  }
}
MC_MAIN(body)
