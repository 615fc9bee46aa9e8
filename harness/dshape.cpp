// Datashape text <-> types: every type built up to a depth, every token sequence, every short byte string and every
// one-token edit of a valid text.
#include "mc.hpp"
#include <dynd/array.hpp>
#include <dynd/type.hpp>
#include <dynd/type_registry.hpp>
#include <dynd/types/any_kind_type.hpp>
#include <dynd/types/array_type.hpp>
#include <dynd/types/bytes_type.hpp>
#include <dynd/types/callable_type.hpp>
#include <dynd/types/char_type.hpp>
#include <dynd/types/datashape_parser.hpp>
#include <dynd/types/dim_kind_type.hpp>
#include <dynd/types/ellipsis_dim_type.hpp>
#include <dynd/types/fixed_bytes_type.hpp>
#include <dynd/types/fixed_dim_kind_type.hpp>
#include <dynd/types/fixed_dim_type.hpp>
#include <dynd/types/fixed_string_type.hpp>
#include <dynd/types/option_type.hpp>
#include <dynd/types/pointer_type.hpp>
#include <dynd/types/pow_dimsym_type.hpp>
#include <dynd/types/scalar_kind_type.hpp>
#include <dynd/types/state_type.hpp>
#include <dynd/types/string_type.hpp>
#include <dynd/types/struct_type.hpp>
#include <dynd/types/tuple_type.hpp>
#include <dynd/types/type_type.hpp>
#include <dynd/types/typevar_constructed_type.hpp>
#include <dynd/types/typevar_dim_type.hpp>
#include <dynd/types/typevar_type.hpp>
#include <dynd/types/var_dim_type.hpp>
#include <dynd/types/bool_kind_type.hpp>
#include <dynd/types/bytes_kind_type.hpp>
#include <dynd/types/complex_kind_type.hpp>
#include <dynd/types/categorical_kind_type.hpp>
#include <dynd/types/fixed_bytes_kind_type.hpp>
#include <dynd/types/fixed_string_kind_type.hpp>
#include <dynd/types/float_kind_type.hpp>
#include <dynd/types/int_kind_type.hpp>
#include <dynd/types/string_kind_type.hpp>
#include <dynd/types/uint_kind_type.hpp>
using namespace dynd;
typedef std::string S;
typedef std::function<ndt::type()> Mk;

static ndt::type cal(const ndt::type &r, const ndt::type &pos, const ndt::type &kw) { return ndt::make_type<ndt::callable_type>(r, pos, kw); }
static ndt::type cal(const ndt::type &r, const ndt::type &pos) {
  // a prototype without keywords is variadic in both or in none
  return cal(r, pos, ndt::make_type<ndt::struct_type>(pos.extended<ndt::tuple_type>()->is_variadic()));
}
struct N {
  S text;
  Mk mk;
};
typedef std::vector<N> Ns;

static Ns leaves() {
  Ns r;
  auto add = [&](const S &t, Mk m) { r.push_back(N{t, m}); };
  add("void", [] { return ndt::make_type<void>(); });
  add("bool", [] { return ndt::make_type<bool>(); });
  add("int8", [] { return ndt::make_type<int8_t>(); });
  add("int16", [] { return ndt::make_type<int16_t>(); });
  add("int32", [] { return ndt::make_type<int32_t>(); });
  add("int64", [] { return ndt::make_type<int64_t>(); });
  add("int128", [] { return ndt::make_type<int128>(); });
  add("uint8", [] { return ndt::make_type<uint8_t>(); });
  add("uint16", [] { return ndt::make_type<uint16_t>(); });
  add("uint32", [] { return ndt::make_type<uint32_t>(); });
  add("uint64", [] { return ndt::make_type<uint64_t>(); });
  add("uint128", [] { return ndt::make_type<uint128>(); });
  add("float16", [] { return ndt::make_type<float16>(); });
  add("float32", [] { return ndt::make_type<float>(); });
  add("float64", [] { return ndt::make_type<double>(); });
  add("float128", [] { return ndt::make_type<float128>(); });
  add("complex[float32]", [] { return ndt::make_type<dynd::complex<float>>(); });
  add("complex[float64]", [] { return ndt::make_type<dynd::complex<double>>(); });
  add("string", [] { return ndt::make_type<ndt::string_type>(); });
  add("bytes", [] { return ndt::make_type<ndt::bytes_type>(1); });
  for (int a : {2, 4, 8, 16})
    add(mc::fmt("bytes[align=%d]", a), [a] { return ndt::make_type<ndt::bytes_type>(a); });
  add("char", [] { return ndt::make_type<ndt::char_type>(); });
  const std::pair<const char *, string_encoding_t> encs[] = {{"ascii", string_encoding_ascii}, {"ucs2", string_encoding_ucs_2}, {"utf8", string_encoding_utf_8},
                                                             {"utf16", string_encoding_utf_16}, {"utf32", string_encoding_utf_32}};
  for (auto &e : encs) {
    string_encoding_t en = e.second;
    if (en != string_encoding_utf_32)
      add(S("char['") + e.first + "']", [en] { return ndt::make_type<ndt::char_type>(en); });
    for (int n : {1, 7, 1000}) {
      if (en == string_encoding_utf_8)
        add(mc::fmt("fixed_string[%d]", n), [n] { return ndt::make_type<ndt::fixed_string_type>(n, string_encoding_utf_8); });
      else
        add(mc::fmt("fixed_string[%d, '%s']", n, e.first), [n, en] { return ndt::make_type<ndt::fixed_string_type>(n, en); });
    }
  }
  for (int n : {1, 8, 24})
    add(mc::fmt("fixed_bytes[%d]", n), [n] { return ndt::make_type<ndt::fixed_bytes_type>(n, 1); });
  for (int a : {2, 4, 8})
    add(mc::fmt("fixed_bytes[24, align=%d]", a), [a] { return ndt::make_type<ndt::fixed_bytes_type>(24, a); });
  add("fixed_bytes[3, align=2]", [] { return ndt::make_type<ndt::fixed_bytes_type>(3, 2); });
  add("fixed_bytes[4, align=3]", [] { return ndt::make_type<ndt::fixed_bytes_type>(4, 3); });
  add("type", [] { return ndt::make_type<ndt::type_type>(); });
  add("array", [] { return ndt::make_type<ndt::array_type>(); });
  add("Any", [] { return ndt::make_type<ndt::any_kind_type>(); });
  add("Scalar", [] { return ndt::make_type<ndt::scalar_kind_type>(); });
  add("Bool", [] { return ndt::make_type<ndt::bool_kind_type>(); });
  add("Int", [] { return ndt::make_type<ndt::int_kind_type>(); });
  add("UInt", [] { return ndt::make_type<ndt::uint_kind_type>(); });
  add("Float", [] { return ndt::make_type<ndt::float_kind_type>(); });
  add("Complex", [] { return ndt::make_type<ndt::complex_kind_type>(); });
  add("Bytes", [] { return ndt::make_type<ndt::bytes_kind_type>(); });
  add("FixedBytes", [] { return ndt::make_type<ndt::fixed_bytes_kind_type>(); });
  add("String", [] { return ndt::make_type<ndt::string_kind_type>(); });
  add("FixedString", [] { return ndt::make_type<ndt::fixed_string_kind_type>(); });
  add("Categorical", [] { return ndt::make_type<ndt::categorical_kind_type>(); });
  add("State", [] { return ndt::make_type<ndt::state_type>(); });
  for (const char *t : {"T", "T0", "My_Var"}) {
    S n(t);
    add(n, [n] { return ndt::make_type<ndt::typevar_type>(n); });
  }
  return r;
}

// all one-argument constructions
static void unary(const N &e, Ns &r, bool few) {
  Mk m = e.mk;
  auto add = [&](const S &t, Mk k) { r.push_back(N{t, k}); };
  add("?" + e.text, [m] { return ndt::make_type<ndt::option_type>(m()); });
  add("pointer[" + e.text + "]", [m] { return ndt::make_type<ndt::pointer_type>(m()); });
  add("3 * " + e.text, [m] { return ndt::make_fixed_dim(3, m()); });
  add("var * " + e.text, [m] { return ndt::make_type<ndt::var_dim_type>(m()); });
  add("Fixed * " + e.text, [m] { return ndt::make_type<ndt::fixed_dim_kind_type>(m()); });
  add("M * " + e.text, [m] { return ndt::make_type<ndt::typevar_dim_type>("M", m()); });
  add("... * " + e.text, [m] { return ndt::make_type<ndt::ellipsis_dim_type>(m()); });
  add("(" + e.text + ")", [m] { return ndt::make_type<ndt::tuple_type>({m()}); });
  add("{x: " + e.text + "}", [m] { return ndt::make_type<ndt::struct_type>({"x"}, {m()}); });
  add("() -> " + e.text, [m] { return cal(m(), ndt::make_type<ndt::tuple_type>()); });
  if (few)
    return;
  add("0 * " + e.text, [m] { return ndt::make_fixed_dim(0, m()); });
  add("4611686018427387904 * " + e.text, [m] { return ndt::make_fixed_dim((size_t)1 << 62, m()); });
  add("Dim * " + e.text, [m] { return ndt::make_type<ndt::dim_kind_type>(m()); });
  add("Dims... * " + e.text, [m] { return ndt::make_type<ndt::ellipsis_dim_type>("Dims", m()); });
  add("F[" + e.text + "]", [m] { return ndt::make_type<ndt::typevar_constructed_type>("F", m()); });
  add("Fixed**N * " + e.text, [m] { return ndt::make_type<ndt::pow_dimsym_type>(ndt::make_type<ndt::fixed_dim_kind_type>(ndt::make_type<void>()), "N", m()); });
  add("3**N * " + e.text, [m] { return ndt::make_type<ndt::pow_dimsym_type>(ndt::make_fixed_dim(3, ndt::make_type<void>()), "N", m()); });
  add("var**N * " + e.text, [m] { return ndt::make_type<ndt::pow_dimsym_type>(ndt::make_type<ndt::var_dim_type>(ndt::make_type<void>()), "N", m()); });
  add("M**N * " + e.text, [m] { return ndt::make_type<ndt::pow_dimsym_type>(ndt::make_type<ndt::typevar_dim_type>("M", ndt::make_type<void>()), "N", m()); });
  add("(" + e.text + ", ...)", [m] { return ndt::make_type<ndt::tuple_type>({m()}, true); });
  add("{x: " + e.text + ", ...}", [m] { return ndt::make_type<ndt::struct_type>({"x"}, {m()}, true); });
  add("(" + e.text + ") -> " + e.text, [m] { return cal(m(), ndt::make_type<ndt::tuple_type>({m()})); });
  add("(x: " + e.text + ") -> void",
      [m] { return cal(ndt::make_type<void>(), ndt::make_type<ndt::tuple_type>(), ndt::make_type<ndt::struct_type>({"x"}, {m()})); });
  add("(..., x: " + e.text + ", ...) -> void", [m] {
    return cal(ndt::make_type<void>(), ndt::make_type<ndt::tuple_type>(true), ndt::make_type<ndt::struct_type>({"x"}, {m()}, true));
  });
}
// the same constructors with other parameters
static void variants(const N &e, Ns &r) {
  Mk m = e.mk;
  auto add = [&](const S &t, Mk k) { r.push_back(N{t, k}); };
  auto v = [] { return ndt::make_type<void>(); };
  add("4 * " + e.text, [m] { return ndt::make_fixed_dim(4, m()); });
  add("4294967299 * " + e.text, [m] { return ndt::make_fixed_dim(4294967299ull, m()); });
  add("N * " + e.text, [m] { return ndt::make_type<ndt::typevar_dim_type>("N", m()); });
  add("Ma * " + e.text, [m] { return ndt::make_type<ndt::typevar_dim_type>("Ma", m()); });
  add("Dims2... * " + e.text, [m] { return ndt::make_type<ndt::ellipsis_dim_type>("Dims2", m()); });
  add("Fa[" + e.text + "]", [m] { return ndt::make_type<ndt::typevar_constructed_type>("Fa", m()); });
  for (const char *ex : {"N", "K"}) {
    S x = ex;
    for (int n : {3, 4})
      if (n == 4 || x == "K")
        add(mc::fmt("%d**", n) + x + " * " + e.text, [m, n, x, v] { return ndt::make_type<ndt::pow_dimsym_type>(ndt::make_fixed_dim(n, v()), x, m()); });
    for (const char *b : {"M", "L"}) {
      S y = b;
      if (y == "L" || x == "K")
        add(y + "**" + x + " * " + e.text, [m, x, y, v] { return ndt::make_type<ndt::pow_dimsym_type>(ndt::make_type<ndt::typevar_dim_type>(y, v()), x, m()); });
    }
    if (x == "K") {
      add("Fixed**K * " + e.text, [m, v] { return ndt::make_type<ndt::pow_dimsym_type>(ndt::make_type<ndt::fixed_dim_kind_type>(v()), "K", m()); });
      add("var**K * " + e.text, [m, v] { return ndt::make_type<ndt::pow_dimsym_type>(ndt::make_type<ndt::var_dim_type>(v()), "K", m()); });
    }
  }
  for (const char *f : {"y", "xx", "X"}) {
    S g = f;
    add("{" + g + ": " + e.text + "}", [m, g] { return ndt::make_type<ndt::struct_type>({g}, {m()}); });
    add("{" + g + ": " + e.text + ", ...}", [m, g] { return ndt::make_type<ndt::struct_type>({g}, {m()}, true); });
    add("(" + g + ": " + e.text + ") -> void",
        [m, g] { return cal(ndt::make_type<void>(), ndt::make_type<ndt::tuple_type>(), ndt::make_type<ndt::struct_type>({g}, {m()})); });
  }
  add("(" + e.text + ", " + e.text + ")", [m] { return ndt::make_type<ndt::tuple_type>({m(), m()}); });
  add("{x: " + e.text + ", y: " + e.text + "}", [m] { return ndt::make_type<ndt::struct_type>({"x", "y"}, {m(), m()}); });
  add("{y: " + e.text + ", x: " + e.text + "}", [m] { return ndt::make_type<ndt::struct_type>({"y", "x"}, {m(), m()}); });
  add("{x: " + e.text + ", z: " + e.text + "}", [m] { return ndt::make_type<ndt::struct_type>({"x", "z"}, {m(), m()}); });
  add("(" + e.text + ", " + e.text + ") -> void", [m] { return cal(ndt::make_type<void>(), ndt::make_type<ndt::tuple_type>({m(), m()})); });
}
static void binary(const N &a, const N &b, Ns &r) {
  Mk m = a.mk, n = b.mk;
  auto add = [&](const S &t, Mk k) { r.push_back(N{t, k}); };
  add("(" + a.text + ", " + b.text + ")", [m, n] { return ndt::make_type<ndt::tuple_type>({m(), n()}); });
  add("{x: " + a.text + ", y: " + b.text + "}", [m, n] { return ndt::make_type<ndt::struct_type>({"x", "y"}, {m(), n()}); });
  add("{y: " + a.text + ", x: " + b.text + ", ...}", [m, n] { return ndt::make_type<ndt::struct_type>({"y", "x"}, {m(), n()}, true); });
  add("(" + a.text + ") -> " + b.text, [m, n] { return cal(n(), ndt::make_type<ndt::tuple_type>({m()})); });
  add("(" + a.text + ", ...) -> " + b.text, [m, n] { return cal(n(), ndt::make_type<ndt::tuple_type>({m()}, true)); });
  add("(" + a.text + ", y: " + b.text + ") -> void",
      [m, n] { return cal(ndt::make_type<void>(), ndt::make_type<ndt::tuple_type>({m()}), ndt::make_type<ndt::struct_type>({"y"}, {n()})); });
  add("(" + a.text + ", ..., y: " + b.text + ") -> void",
      [m, n] { return cal(ndt::make_type<void>(), ndt::make_type<ndt::tuple_type>({m()}, true), ndt::make_type<ndt::struct_type>({"y"}, {n()})); });
}

typedef std::vector<S> Toks;
static bool wordc(char c) { return isalnum((unsigned char)c) || c == '_'; }
static Toks tokens(const S &s) {
  Toks r;
  for (size_t i = 0; i < s.size();) {
    if (isspace((unsigned char)s[i])) {
      ++i;
      continue;
    }
    size_t j = i;
    if (wordc(s[i]))
      while (j < s.size() && wordc(s[j]))
        ++j;
    else if (s[i] == '\'') {
      ++j;
      while (s[j] != '\'')
        j += s[j] == '\\' ? 2 : 1;
      ++j;
    } else if (s.compare(i, 3, "...") == 0)
      j = i + 3;
    else if (s.compare(i, 2, "->") == 0 || s.compare(i, 2, "**") == 0)
      j = i + 2;
    else
      j = i + 1;
    r.push_back(s.substr(i, j - i));
    i = j;
  }
  return r;
}
// the tokens of a text without the optional trailing commas
static Toks normal(const Toks &t) {
  Toks r;
  for (size_t i = 0; i < t.size(); ++i)
    if (t[i].size() > 2 && t[i][0] == '\'' && isalpha(t[i][1])) {
      // a field name may be quoted without need
      bool simple = i + 1 < t.size() && t[i + 1] == ":" && std::all_of(t[i].begin() + 1, t[i].end() - 1, wordc);
      r.push_back(simple ? t[i].substr(1, t[i].size() - 2) : t[i]);
    } else if (t[i] == "**" && i + 1 < t.size() && isdigit(t[i + 1][0]) && r.size()) {
      // a power with a number is spelled out
      S b = r.back();
      for (int k = atoi(t[i + 1].c_str()); k > 1; --k) {
        r.push_back("*");
        r.push_back(b);
      }
      ++i;
    } else if (t[i] == "complex" && (i + 1 == t.size() || t[i + 1] != "[")) {
      for (const char *c : {"complex", "[", "float64", "]"})
        r.push_back(c);
    } else if (!(t[i] == "," && i + 1 < t.size() && (t[i + 1] == ")" || t[i + 1] == "}")))
      r.push_back(t[i]);
  return r;
}
static S spell(const Toks &t, size_t b, size_t e) {
  S r;
  for (size_t i = b; i < e; ++i)
    r += (i > b ? " " : "") + t[i];
  return r;
}

// parse from a buffer of exactly the right size
static S parse_text(const S &text, ndt::type &out) {
  char *buf = (char *)malloc(text.size() ? text.size() : 1);
  memcpy(buf, text.data(), text.size());
  S err;
  try {
    out = type_from_datashape(buf, buf + text.size());
    if (out.is_null())
      err = "null type";
  } catch (const dynd::type_error &e) {
    err = S("type_error ") + e.what();
  } catch (const dynd::dynd_exception &e) {
    err = S("dynd_exception ") + e.what();
  } catch (const std::exception &e) {
    err = S("std ") + e.what();
  } catch (...) {
    err = "foreign exception";
  }
  free(buf);
  return err;
}
static S build_type(const Mk &m, ndt::type &out) {
  try {
    out = m();
    return "";
  } catch (const dynd::dynd_exception &e) {
    return S("error ") + e.what();
  } catch (const std::exception &e) {
    return S("error ") + e.what();
  }
}
// a rejected text must be reported as a type error; a syntax error with a line and column inside of the text
static void rejected(mc::X &x, const S &text, const S &err) {
  if (err.compare(0, 5, "type_") != 0 && err.compare(0, 5, "dynd_") != 0 && err.compare(0, 4, "std ") != 0) {
    x.fail("not reported as an error", err);
    return;
  }
  x.check(err.find("Cannot get line number") == S::npos, "position of the error out of range", err);
  int l, c;
  size_t p = err.find("at line ");
  if (p != S::npos && sscanf(err.c_str() + p, "at line %d, column %d", &l, &c) == 2) {
    std::vector<S> lines(1);
    for (char ch : text)
      if (ch == '\n')
        lines.push_back("");
      else
        lines.back() += ch;
    x.check(l >= 1 && l <= (int)lines.size() && c >= 1 && c <= (int)lines[l - 1].size() + 1, "position of the error outside of the text", err);
  }
}
static bool has_stmt(const Toks &t) {
  for (auto &s : t)
    if (s == "type" || s == "=")
      return true;
  return false;
}
// an accepted text must mean what it says: the type printed is the text, and it parses to itself
static void one_text(mc::X &x, const Toks &t, const S &text) {
  ndt::type tp;
  S err = parse_text(text, tp);
  x.trans(1);
  x.outcome(err.empty() ? "accepted" : "rejected");
  if (!err.empty())
    return rejected(x, text, err);
  S printed = tp.str();
  Toks want = normal(t), got = tokens(printed);
  ndt::type tp2;
  S err2 = parse_text(printed, tp2);
  x.check(err2.empty() && tp2 == tp, "the printed type does not parse to the type", printed + " " + err2);
  if (has_stmt(t))
    return;
  if (got != want) {
    // several statements: the type of the last one
    for (size_t k = 1; k < t.size(); ++k) {
      ndt::type a, b;
      if (parse_text(spell(t, 0, k), a).empty() && parse_text(spell(t, k, t.size()), b).empty() && b == tp)
        return;
    }
    x.fail("accepted text means something else", printed);
  }
}

static S pf(const std::vector<S> &v) {
  S s;
  for (auto &e : v)
    s += e;
  return s;
}

static void body(mc::X &x) {
  Ns L0 = leaves();
  Ns core; // few leaves for the deeper levels
  for (auto &l : L0)
    if (l.text == "int32" || l.text == "string" || l.text == "T" || l.text == "fixed_string[7, 'utf16']" || l.text == "Scalar" || l.text == "void" || l.text == "complex[float64]")
      core.push_back(l);
  {
    Ns e;
    e.push_back(N{"()", [] { return ndt::make_type<ndt::tuple_type>(); }});
    e.push_back(N{"(...)", [] { return ndt::make_type<ndt::tuple_type>(true); }});
    e.push_back(N{"{}", [] { return ndt::make_type<ndt::struct_type>(); }});
    e.push_back(N{"{...}", [] { return ndt::make_type<ndt::struct_type>(true); }});
    for (auto &n : e) {
      L0.push_back(n);
      core.push_back(n);
    }
  }
  Ns L1, C1, L2, C2;
  for (auto &l : L0)
    unary(l, L1, false);
  for (auto &a : L0)
    for (auto &b : core) {
      binary(a, b, L1);
      binary(b, a, L1);
    }
  for (auto &l : core)
    unary(l, C1, false);
  for (auto &a : core)
    for (auto &b : core)
      if (a.text <= b.text)
        binary(a, b, C1);
  for (auto &l : C1)
    unary(l, L2, false);
  for (auto &a : C1)
    for (auto &b : core) {
      binary(a, b, L2);
      binary(b, a, L2);
    }
  Ns U2;
  for (auto &l : core)
    unary(l, U2, true);
  Ns U3;
  for (auto &l : U2)
    unary(l, U3, true);
  for (auto &l : U3)
    unary(l, C2, !x.thorough());

  x.section("types built");
  std::vector<const Ns *> levels = {&L0, &L1, &L2, &C2};
  Ns extra;
  if (x.thorough()) {
    for (auto &a : U2)
      for (auto &b : C1)
        binary(a, b, extra);
    levels.push_back(&extra);
  }
  for (const Ns *lv : levels)
    for (size_t b = 0; b < lv->size(); b += 200) {
      if (!x.unit())
        continue;
      for (size_t i = b; i < std::min(lv->size(), b + 200); ++i) {
        const N &n = (*lv)[i];
        MC_CASE_S(x, n.text);
        ndt::type made, parsed;
        S e1 = build_type(n.mk, made), e2 = parse_text(n.text, parsed);
        x.trans(2);
        x.outcome(e1.empty() ? "type" : "invalid");
        if (!e1.empty() || !e2.empty()) {
          x.check(!e1.empty() == !e2.empty(), "the text and the construction disagree", e1 + " / " + e2);
          continue;
        }
        S p = made.str();
        x.state(mc::h64(p));
        x.check(p == n.text, "printed differently", p);
        x.check(made == parsed && parsed == made, "the text is parsed to another type", parsed.str());
        x.check(parsed.str() == n.text, "the parsed type is printed differently", parsed.str());
        Toks t = tokens(n.text);
        for (const char *sep : {"", " ", "\n", "\t \r", "# comment\n", " #[{(,\n "}) {
          S v = *sep == 0 ? S() : S(sep);
          for (size_t k = 0; k < t.size(); ++k)
            v += t[k] + (*sep == 0 && k + 1 < t.size() && wordc(t[k].back()) && wordc(t[k + 1][0]) ? " " : sep);
          ndt::type q;
          S e = parse_text(v, q);
          x.trans(1);
          x.check(e.empty() && q == made, "white space changes the meaning", mc::quote(v) + " " + e);
        }
      }
    }

  x.section("distinct types");
  {
    Ns all(L0);
    for (auto &n : L1)
      if (x.thorough() || (n.text.find("int32") != S::npos && mc::h64(n.text) % 2) || n.text.find("T0") != S::npos)
        all.push_back(n);
    // siblings of one constructor that differ in a parameter only
    std::set<S> have;
    for (auto &n : all)
      have.insert(n.text);
    for (auto &n : L0)
      if (n.text == "int32" || n.text == "T0" || (x.thorough() && n.text == "string")) {
        Ns u;
        unary(n, u, false);
        variants(n, u);
        for (auto &k : u)
          if (have.insert(k.text).second)
            all.push_back(k);
      }
    for (size_t i = 0; i < all.size(); ++i) {
      if (!x.unit())
        continue;
      ndt::type a;
      if (!build_type(all[i].mk, a).empty())
        continue;
      for (size_t j = 0; j < all.size(); ++j) {
        MC_CASE_S(x, all[i].text + "  /  " + all[j].text);
        ndt::type b;
        if (!build_type(all[j].mk, b).empty())
          continue;
        x.trans(1);
        bool eq = all[i].text == all[j].text;
        x.check((a == b) == eq && (a != b) == !eq, eq ? "equal types are not equal" : "different types are equal", "");
      }
    }
  }

  x.section("field names");
  {
    std::vector<S> al = {"a", "Z", "0", "_", "'", "\"", "\\", " ", ":", "/", "\n", "\t", "\x01", "\x7f", "\xc3\xa9", "\xe2\x82\xac", "\xf0\x9f\x98\x80", "}", ".", "#", "u", "\b"};
    std::vector<S> names;
    for (auto &a : al) {
      names.push_back(a);
      for (auto &b : al) {
        names.push_back(a + b);
        for (auto &c : al)
          if (x.thorough() || &a - &al[0] < 9)
            names.push_back(a + b + c);
      }
    }
    for (const char *c : {"\xc2\x80", "\xdf\xbf", "\xe0\xa0\x80", "\xed\x9f\xbf", "\xee\x80\x80", "\xef\xbf\xbf", "\xf0\x90\x80\x80", "\xf0\x90\x80\x81", "\xf0\x9f\xbf\xbf", "\xf4\x8f\xbf\xbf"}) {
      names.push_back(c);
      names.push_back(S("a") + c + "b");
    }
    for (int c = 1; c < 128; ++c)
      names.push_back(S(1, (char)c));
    names.push_back("");
    for (size_t b = 0; b < names.size(); b += 100) {
      if (!x.unit())
        continue;
      for (size_t i = b; i < std::min(names.size(), b + 100); ++i)
        for (int form = 0; form < 2; ++form) {
          const S &nm = names[i];
          // keywords are identifiers
          if (form && (nm.empty() || !std::all_of(nm.begin(), nm.end(), wordc) || isdigit(nm[0])))
            continue;
          MC_CASE_S(x, S(form ? "keyword " : "field ") + mc::quote(nm));
          ndt::type tp, q;
          S e = build_type([&] {
            ndt::type st = ndt::make_type<ndt::struct_type>({nm, form ? "xx" : "x#"}, {ndt::make_type<int>(), ndt::make_type<double>()});
            return form ? cal(ndt::make_type<void>(), ndt::make_type<ndt::tuple_type>(), st) : st;
          }, tp);
          x.trans(1);
          if (!e.empty()) {
            x.outcome("invalid");
            continue;
          }
          x.outcome("type");
          S p = tp.str();
          e = parse_text(p, q);
          x.check(e.empty() && q == tp, "the printed name does not parse to the name", p + " " + e);
        }
    }
  }

  x.section("escapes");
  {
    auto u8 = [](uint32_t c) {
      S r;
      if (c < 0x80)
        r += (char)c;
      else if (c < 0x800) {
        r += (char)(0xc0 | c >> 6);
        r += (char)(0x80 | (c & 63));
      } else if (c < 0x10000) {
        r += (char)(0xe0 | c >> 12);
        r += (char)(0x80 | (c >> 6 & 63));
        r += (char)(0x80 | (c & 63));
      } else {
        r += (char)(0xf0 | c >> 18);
        r += (char)(0x80 | (c >> 12 & 63));
        r += (char)(0x80 | (c >> 6 & 63));
        r += (char)(0x80 | (c & 63));
      }
      return r;
    };
    std::vector<std::pair<S, S>> el; // text, meaning ("\xff" for an error)
    for (int c = 1; c < 127; ++c) {
      S ch(1, (char)c), m = S("\"'\\/").find((char)c) != S::npos ? ch : c == 'b' ? "\b" : c == 'f' ? "\f" : c == 'n' ? "\n" : c == 'r' ? "\r" : c == 't' ? "\t" : "\xff";
      if (c != 'u' && c != 'U')
        el.push_back({"\\" + ch, m});
      if (c != '\\')
        el.push_back({ch, ch});
    }
    const S dg = x.thorough() ? "0189aAcdDfF" : "019aADfF";
    for (char a : dg)
      for (char b : dg)
        for (char c : dg)
          for (char d : dg) {
            S h{a, b, c, d};
            uint32_t v = strtoul(h.c_str(), nullptr, 16);
            if (v >= 0xd800 && v < 0xe000)
              continue;
            el.push_back({"\\u" + h, u8(v)});
            el.push_back({"\\U0000" + h, u8(v)});
            el.push_back({"\\U0010" + h, u8(0x100000 + v)});
            el.push_back({"\\U000a" + h, u8(0xa0000 + v)});
          }
    for (const char *t : {"\\u", "\\u1", "\\u12", "\\u123", "\\u123g", "\\u/123", "\\u:123", "\\u12@3", "\\u1`23", "\\uG000", "\\U", "\\U0000123", "\\U0000123g"})
      el.push_back({t, "\xff"});
    for (size_t b = 0; b < el.size(); b += 200) {
      if (!x.unit())
        continue;
      for (size_t i = b; i < std::min(el.size(), b + 200); ++i)
        for (int q = 0; q < 2; ++q) {
          S quote(1, q ? '"' : '\'');
          if (el[i].first == quote)
            continue;
          S text = "{" + quote + "k" + el[i].first + "z" + quote + ": int32}";
          MC_CASE_S(x, mc::quote(text));
          ndt::type tp;
          S err = parse_text(text, tp);
          x.trans(1);
          x.outcome(err.empty() ? "accepted" : "rejected");
          if (el[i].second == "\xff") {
            x.check(!err.empty(), "invalid escape accepted", tp.str());
            rejected(x, text, err.empty() ? "type_" : err);
            continue;
          }
          x.check(err.empty() && tp.get_id() == struct_id && tp.extended<ndt::struct_type>()->get_field_name(0) == "k" + el[i].second + "z", "wrong name",
                  err + (err.empty() ? tp.str() : ""));
        }
    }
  }

  x.section("numbers");
  {
    std::vector<S> nums;
    for (int k = 0; k <= 70; ++k)
      for (int d = -2; d <= 2; ++d) {
        __int128 v = ((__int128)1 << k) + d;
        if (v < 0)
          continue;
        S t;
        do {
          t = S(1, (char)('0' + (int)(v % 10))) + t;
          v /= 10;
        } while (v);
        nums.push_back(t);
      }
    for (S t : {"10", "100", "123456789", "1234567890123456789", "9999999999999999999", "99999999999999999999999999999999", "00", "01", "-1", "+1", "1.0", "1e3", "0x10", "1_0", "3u"})
      nums.push_back(t);
    // text before and after the number, as written and as printed
    const char *const ctx[][4] = {{"", " * int32", "", " * int32"},        {"fixed[", "] * int32", "", " * int32"},
                                  {"fixed_string[", "]", "fixed_string[", "]"}, {"fixed_string[", ", 'utf16']", "fixed_string[", ", 'utf16']"},
                                  {"fixed_bytes[", "]", "fixed_bytes[", "]"},   {"bytes[align=", "]", "bytes[align=", "]"},
                                  {"fixed_bytes[", ", align=1]", "fixed_bytes[", "]"}, {"fixed_bytes[9223372036854775808, align=", "]", "fixed_bytes[9223372036854775808, align=", "]"},
                                  {"", "**N * int32", "", "**N * int32"},      {"2 * ", " * ?int32", "2 * ", " * ?int32"}};
    for (auto &c : ctx) {
      if (!x.unit())
        continue;
      for (auto &n : nums) {
        MC_CASE_S(x, S(c[0]) + n + c[1]);
        ndt::type tp, tp2;
        S text = S(c[0]) + n + c[1], err = parse_text(text, tp);
        x.trans(1);
        x.outcome(err.empty() ? "accepted" : "rejected");
        if (!err.empty()) {
          rejected(x, text, err);
          // ordinary sizes are accepted
          if (n.size() < 9 && n.find_first_not_of("0123456789") == S::npos && n[0] != '0')
            x.check(c[0][0] == 'b' || S(c[0]).find("align") != S::npos, "an ordinary size is rejected", err);
          continue;
        }
        size_t z = n.find_first_not_of('0');
        S plain = z == S::npos ? "0" : n.substr(z);
        S want = S(c[2]) + plain + c[3], got = tp.str();
        if (S(c[0]).find("align") != S::npos && plain == "1")
          want = got; // not printed
        x.check(got == want, "another number than written", got);
        S e2 = parse_text(got, tp2);
        x.check(e2.empty() && tp2 == tp, "the printed type does not parse to the type", got + " " + e2);
      }
    }
  }

  x.section("token sequences");
  {
    const Toks al = {"(", ")", "{", "}", "[", "]", ",", ":", "*", "**", "...", "->", "?", "3", "x", "T", "var", "Fixed", "int32", "pointer"};
    size_t maxn = x.thorough() ? 6 : 5, A = al.size();
    for (size_t n = 0; n <= maxn; ++n) {
      size_t tot = 1;
      for (size_t i = 0; i < n; ++i)
        tot *= A;
      size_t step = n > 3 ? A * A * A : tot;
      for (size_t b = 0; b < tot; b += step) {
        if (!x.unit())
          continue;
        for (size_t c = b; c < b + step; ++c) {
          Toks t(n);
          size_t q = c;
          for (size_t i = 0; i < n; ++i) {
            t[n - 1 - i] = al[q % A];
            q /= A;
          }
          S text = spell(t, 0, n);
          MC_CASE_S(x, text);
          one_text(x, t, text);
        }
      }
    }
  }

  x.section("one token edits");
  {
    const Toks al = {"(", ")", "{", "}", "[", "]", ",", ":", "*", "**", "...", "->", "?", "3", "x", "T", "var", "Fixed", "int32", "pointer", "'a'", "=", "align", "0"};
    Ns src(L0);
    for (auto &n : C1)
      src.push_back(n);
    for (auto &n : U3)
      src.push_back(n);
    if (x.thorough())
      for (auto &n : L2)
        src.push_back(n);
    for (auto &n : src) {
      if (!x.unit())
        continue;
      ndt::type tmp;
      if (!build_type(n.mk, tmp).empty())
        continue;
      Toks t = tokens(n.text);
      for (size_t k = 0; k <= t.size(); ++k)
        for (int ed = 0; ed < 2 + 2 * (int)al.size(); ++ed) {
          if (k == t.size() && ed < 2 + (int)al.size())
            continue;
          Toks u(t);
          if (ed == 0)
            u.erase(u.begin() + k);
          else if (ed == 1)
            u.resize(k);
          else if (ed < 2 + (int)al.size())
            u[k] = al[ed - 2];
          else
            u.insert(u.begin() + k, al[ed - 2 - al.size()]);
          S text = spell(u, 0, u.size());
          MC_CASE_S(x, text);
          one_text(x, u, text);
        }
    }
  }

  x.section("byte strings");
  {
    std::vector<S> al;
    for (const char *c : {"(", ")", "{", "}", "[", "]", ",", ":", "*", ".", "-", ">", "?", "3", "x", "T", "'", "\"", "\\", "#", " ", "\n", "\xff", "\xc3", "u", "="})
      al.push_back(c);
    al.push_back(S(1, 0));
    size_t A = al.size();
    for (const char *pre : {"", "{'", "type ", "fixed_string[", "fixed_bytes[", "bytes[", "char[", "complex[", "fixed[", "option[", "categorical[", "callable", "9999999999999999999", "-1"})
      for (size_t n = 0; n <= (x.thorough() ? 4u : 3u) + (*pre == 0); ++n) {
        size_t tot = 1;
        for (size_t i = 0; i < n; ++i)
          tot *= A;
        for (size_t b = 0; b < tot; b += 20000) {
          if (!x.unit())
            continue;
          for (size_t c = b; c < std::min(tot, b + 20000); ++c) {
            S text = pre;
            size_t q = c;
            for (size_t i = 0; i < n; ++i) {
              text += al[q % A];
              q /= A;
            }
            MC_CASE_S(x, mc::quote(text));
            ndt::type tp, tp2;
            S err = parse_text(text, tp);
            x.trans(1);
            x.outcome(err.empty() ? "accepted" : "rejected");
            if (!err.empty()) {
              rejected(x, text, err);
              continue;
            }
            S p = tp.str();
            S e2 = parse_text(p, tp2);
            x.check(e2.empty() && tp2 == tp, "the printed type does not parse to the type", p + " " + e2);
          }
        }
      }
  }
}

MC_MAIN(body)
