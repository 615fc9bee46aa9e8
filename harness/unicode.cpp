// Transcoding: every code point through every encoding's decoder and encoder, every short sequence of representative
// units (well formed and not) through every decoder, and every short text of boundary code points between every pair of
// string types, at sizes just too small, exact and larger, in every error mode; against an independent encoder/decoder.
#include "model.hpp"
#include <dynd/json_formatter.hpp>
#include <dynd/string_encodings.hpp>
using namespace mv;

typedef std::vector<uint32_t> Text;
enum Enc { ASCII, UCS2, UTF8, UTF16, UTF32, NENC };
static const char *encname[] = {"ascii", "ucs2", "utf8", "utf16", "utf32"};
static const string_encoding_t encid[] = {string_encoding_ascii, string_encoding_ucs_2, string_encoding_utf_8, string_encoding_utf_16, string_encoding_utf_32};
static const int unit[] = {1, 2, 1, 2, 4};

static void put(S &o, uint32_t u, int size) {
  for (int i = 0; i < size; ++i)
    o += (char)(u >> 8 * i);
}
static bool enc1(Enc e, uint32_t c, S &o) { // false: not encodable
  if (c > 0x10ffff || (c >= 0xd800 && c < 0xe000))
    return false;
  switch (e) {
  case ASCII:
    if (c > 127)
      return false;
    o += (char)c;
    return true;
  case UCS2:
    if (c > 0xffff)
      return false;
    put(o, c, 2);
    return true;
  case UTF32:
    put(o, c, 4);
    return true;
  case UTF16:
    if (c > 0xffff) {
      put(o, 0xd800 + ((c - 0x10000) >> 10), 2);
      put(o, 0xdc00 + ((c - 0x10000) & 1023), 2);
    } else
      put(o, c, 2);
    return true;
  default:
    if (c < 0x80)
      o += (char)c;
    else if (c < 0x800) {
      o += (char)(0xc0 + (c >> 6));
      o += (char)(0x80 + (c & 63));
    } else if (c < 0x10000) {
      o += (char)(0xe0 + (c >> 12));
      o += (char)(0x80 + (c >> 6 & 63));
      o += (char)(0x80 + (c & 63));
    } else {
      o += (char)(0xf0 + (c >> 18));
      o += (char)(0x80 + (c >> 12 & 63));
      o += (char)(0x80 + (c >> 6 & 63));
      o += (char)(0x80 + (c & 63));
    }
    return true;
  }
}
static bool enc(Enc e, const Text &t, S &o) {
  for (uint32_t c : t)
    if (!enc1(e, c, o))
      return false;
  return true;
}
// the number of bytes of the well-formed code point at the start, 0 if there is none
static int dec1(Enc e, const S &b, size_t at, uint32_t &c) {
  auto u16 = [&](size_t i) { return uint32_t((uint8_t)b[i] | (uint8_t)b[i + 1] << 8); };
  size_t left = b.size() - at;
  switch (e) {
  case ASCII:
    c = (uint8_t)b[at];
    return c < 128 ? 1 : 0;
  case UCS2:
    c = u16(at);
    return c >= 0xd800 && c < 0xe000 ? 0 : 2;
  case UTF16:
    c = u16(at);
    if (c < 0xd800 || c >= 0xe000)
      return 2;
    if (c >= 0xdc00 || left < 4)
      return 0;
    {
      uint32_t d = u16(at + 2);
      if (d < 0xdc00 || d >= 0xe000)
        return 0;
      c = 0x10000 + ((c - 0xd800) << 10) + (d - 0xdc00);
      return 4;
    }
  case UTF32:
    c = u16(at) | u16(at + 2) << 16;
    return c > 0x10ffff || (c >= 0xd800 && c < 0xe000) ? 0 : 4;
  default:
    // Unicode table 3-7
    {
      uint8_t a = b[at];
      int n = a < 0x80 ? 1 : a >= 0xc2 && a <= 0xdf ? 2 : a >= 0xe0 && a <= 0xef ? 3 : a >= 0xf0 && a <= 0xf4 ? 4 : 0;
      if (n == 0 || left < (size_t)n)
        return 0;
      c = n == 1 ? a : n == 2 ? a & 31 : n == 3 ? a & 15 : a & 7;
      for (int i = 1; i < n; ++i) {
        uint8_t x = b[at + i], lo = 0x80, hi = 0xbf;
        if (i == 1 && a == 0xe0)
          lo = 0xa0;
        if (i == 1 && a == 0xed)
          hi = 0x9f;
        if (i == 1 && a == 0xf0)
          lo = 0x90;
        if (i == 1 && a == 0xf4)
          hi = 0x8f;
        if (x < lo || x > hi)
          return 0;
        c = c << 6 | (x & 63);
      }
      return n;
    }
  }
}
// the well-formed start of the text; true if that is all of it
static bool dec(Enc e, const S &b, Text &t) {
  for (size_t at = 0; at < b.size();) {
    uint32_t c;
    int n = dec1(e, b, at, c);
    if (!n)
      return false;
    t.push_back(c);
    at += n;
  }
  return true;
}
static S hex(const S &b) {
  S r;
  for (unsigned char c : b)
    r += mc::fmt("%02x ", c);
  return r;
}
static S show(const Text &t) {
  S r;
  for (uint32_t c : t)
    r += mc::fmt("U+%04X ", c);
  return r;
}
template <class F>
static S trying(const F &f) { // the error, or empty
  try {
    f();
    return "";
  } catch (const std::exception &e) {
    return S("error: ") + e.what();
  } catch (const dynd_exception &e) {
    return S("error: ") + e.what();
  }
}
static const assign_error_mode MODES[] = {assign_error_nocheck, assign_error_overflow, assign_error_fractional, assign_error_inexact, assign_error_default};
static const uint32_t MAGIC = 0x5a;

// `b` in memory of exactly its size
struct Exact {
  char *p;
  size_t n;
  Exact(const S &b) : p((char *)malloc(b.size() ? b.size() : 1)), n(b.size()) { memcpy(p, b.data(), n); }
  ~Exact() { free(p); }
};
// what a printed or JSON text stands for; false if it is not of that form
static bool unescape(const S &q, Text &out) {
  if (q.size() < 2 || q[0] != '"' || q[q.size() - 1] != '"')
    return false;
  S b = q.substr(1, q.size() - 2);
  for (size_t i = 0; i < b.size();) {
    if (b[i] == '"')
      return false;
    if (b[i] != '\\') {
      uint32_t c;
      int n = dec1(UTF8, b, i, c);
      if (!n || c < 0x20)
        return false;
      out.push_back(c);
      i += n;
      continue;
    }
    if (i + 1 >= b.size())
      return false;
    char k = b[i + 1];
    i += 2;
    const char *from = "bfnrt\"\\/'", *to = "\b\f\n\r\t\"\\/'";
    if (const char *at = strchr(from, k)) {
      out.push_back(to[at - from]);
      continue;
    }
    size_t digits = k == 'u' ? 4 : k == 'U' ? 8 : k == 'x' ? 2 : 0;
    if (!digits || i + digits > b.size())
      return false;
    uint32_t c = 0;
    for (size_t j = 0; j < digits; ++j) {
      if (!isxdigit((unsigned char)b[i + j]))
        return false;
      c = c * 16 + (isdigit((unsigned char)b[i + j]) ? b[i + j] - '0' : (b[i + j] | 32) - 'a' + 10);
    }
    i += digits;
    if (c >= 0xdc00 && c < 0xe000 && !out.empty() && out.back() >= 0xd800 && out.back() < 0xdc00)
      out.back() = 0x10000 + ((out.back() - 0xd800) << 10) + (c - 0xdc00);
    else
      out.push_back(c);
  }
  return true;
}
static ndt::type fstype(Enc e, int n) { return ndt::type(mc::fmt("fixed_string[%d, '%s']", n, encname[e])); }
static void put_fixed(const nd::array &a, const S &b) { // of a fixed string
  size_t n = a.get_type().get_data_size();
  memset(a.data(), 0, n);
  memcpy(a.data(), b.data(), std::min(n, b.size()));
}
static nd::array as_string(const S &b) {
  nd::array a = nd::empty(ndt::type("string"));
  reinterpret_cast<dynd::string *>(a.data())->assign(b.data(), b.size());
  return a;
}
static S bytes_of(const nd::array &a) {
  if (a.get_type().get_id() == string_id) {
    auto s = reinterpret_cast<const dynd::string *>(a.cdata());
    return S(s->begin(), s->end());
  }
  return S(a.cdata(), a.cdata() + a.get_type().get_data_size());
}
static S stripped(Enc e, S b) { // without the null units at the end
  while (b.size() >= (size_t)unit[e] && S(b.end() - unit[e], b.end()) == S(unit[e], '\0'))
    b.resize(b.size() - unit[e]);
  return b;
}

static void body(mc::X &x) {
  bool th = x.thorough();
  x.section("code points");
  for (uint32_t base = 0; base < 0x112000; base += 0x400) {
    if (!th && base >= 0x11000 && base % 0x10000 >= 0x800 && base % 0x10000 < 0xfc00 && base < 0x10f000)
      continue;
    if (!x.unit())
      continue;
    for (uint32_t c = base; c < base + 0x400; ++c)
      for (int e = 0; e < NENC; ++e) {
        MC_CASE(x, "U+%04X in %s", c, encname[e]);
        bool scalar = c <= 0x10ffff && !(c >= 0xd800 && c < 0xe000);
        S b;
        bool ok = enc1((Enc)e, c, b);
        for (int checked = 0; checked < 2; ++checked) {
          assign_error_mode m = checked ? assign_error_fractional : assign_error_nocheck;
          x.trans();
          if (scalar) {
            auto app = get_append_unicode_codepoint_function(encid[e], m);
            S ref = ok ? b : S();
            if (!ok && !checked)
              enc1((Enc)e, '?', ref);
            // with exactly the room needed, and with more
            for (int extra = 0; extra <= 8; extra += 8) {
              size_t need = ref.empty() ? unit[e] : ref.size();
              Exact room(S(need + extra, (char)MAGIC));
              char *it = room.p;
              S err = trying([&] { app(c, it, room.p + room.n); });
              if (ref.empty())
                x.check(err != "" && it == room.p, "encode error due", "no error from the encoder");
              else
                x.check(err == "" && it == room.p + ref.size() && S(room.p, it) == ref && S(it, room.p + room.n) == S(extra, (char)MAGIC), "encode",
                        err + " gave " + hex(S(room.p, room.n)) + ", expected " + hex(ref));
            }
          }
          if (ok) {
            auto next = get_next_unicode_codepoint_function(encid[e], m);
            for (int extra = 0; extra < 2; ++extra) {
              S in = b;
              if (extra)
                enc1((Enc)e, 'A', in);
              Exact mem(in);
              const char *it = mem.p;
              uint32_t got = 0;
              S err = trying([&] { got = next(it, mem.p + mem.n); });
              x.check(err == "" && got == c && it == mem.p + b.size(), "decode", err + mc::fmt(" gave U+%04X after %d bytes", got, (int)(it - mem.p)));
            }
          }
        }
        // in UTF-8 and back
        if (scalar) {
          S u8;
          enc1(UTF8, c, u8);
          S s;
          append_utf8_codepoint(c, s);
          x.check(s == u8, "append_utf8_codepoint", hex(s));
          if (ok) {
            Exact mem(b);
            S t;
            S err = trying([&] { t = string_range_as_utf8_string(encid[e], mem.p, mem.p + mem.n, assign_error_fractional); });
            x.check(err == "" && t == u8, "string_range_as_utf8_string", err + hex(t));
          }
        }
      }
    x.state(base);
  }

  // every sequence of up to `len` units from the representatives, through the decoder and through arrays
  x.section("sequences");
  std::vector<std::vector<uint32_t>> reps(NENC);
  reps[ASCII] = {0, 0x41, 0x7f, 0x80, 0xff};
  reps[UTF8] = {0x00, 0x41, 0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0, 0xc1, 0xc2, 0xdf, 0xe0, 0xe1, 0xec, 0xed, 0xee, 0xef, 0xf0, 0xf1, 0xf3, 0xf4, 0xf5, 0xf8, 0xfc, 0xff};
  reps[UCS2] = {0, 0x41, 0xd7ff, 0xd800, 0xdbff, 0xdc00, 0xdfff, 0xe000, 0xfffe, 0xffff};
  reps[UTF16] = reps[UCS2];
  reps[UTF32] = {0, 0x41, 0xd7ff, 0xd800, 0xdfff, 0xe000, 0xffff, 0x10000, 0x10ffff, 0x110000, 0xffffffff};
  for (int e = 0; e < NENC; ++e) {
    int len = e == UTF8 ? (th ? 5 : 4) : 4, k = reps[e].size();
    for (int first = 0; first < k; ++first)
      for (int second = -1; second < k; ++second) {
        if (!x.unit())
          continue;
        for (int n = 1; n <= len; ++n) {
          if (n == 1 ? second != -1 : second == -1)
            continue;
          std::vector<int> s(n);
          s[0] = first;
          if (n > 1)
            s[1] = second;
          for (bool more = true; more;) {
            S b;
            for (int q : s)
              put(b, reps[e][q], unit[e]);
            do {
              MC_CASE(x, "%s units %s", encname[e], hex(b).c_str());
              Text t;
              bool good = dec((Enc)e, b, t);
              x.outcome(good ? "well formed" : "malformed");
              Exact mem(b);
              for (int checked = 0; checked < 2; ++checked) {
                auto next = get_next_unicode_codepoint_function(encid[e], checked ? assign_error_fractional : assign_error_nocheck);
                Text got;
                const char *it = mem.p, *end = mem.p + mem.n;
                size_t good_bytes = 0;
                x.trans();
                S err = trying([&] {
                  while (it < end) {
                    const char *was = it;
                    got.push_back(next(it, end));
                    if (it <= was || it > end)
                      throw std::logic_error("the position did not advance inside the text");
                  }
                });
                if (good)
                  x.check(err == "" && got == t, "decode sequence", err + show(got));
                else if (checked)
                  x.check(err != "" && got == t, "malformed accepted", "decoded " + show(got) + err);
                else {
                  bool valid = err == "" && got.size() > t.size() && got.size() <= b.size() / unit[e] && std::equal(t.begin(), t.end(), got.begin()) && got[t.size()] == '?';
                  for (uint32_t c : got)
                    valid = valid && c <= 0x10ffff && !(c >= 0xd800 && c < 0xe000);
                  x.check(valid, "malformed unchecked", "decoded " + show(got) + err);
                }
                (void)good_bytes;
              }
              // through arrays: to every encoding that can hold it, with room to spare
              if (n > 3 || (e == UTF8 && n > (th ? 3 : 2)) || b.find(S(unit[e], '\0')) != S::npos)
                break;
              for (int kind = 0; kind < (e == UTF8 ? 2 : 1); ++kind)
                for (int d = 0; d <= NENC; ++d) { // NENC: string
                  if (kind == 1 && d == NENC)
                    continue; // from string to string the bytes are copied
                  nd::array src;
                  if (kind == 1)
                    src = as_string(b);
                  else {
                    src = nd::empty(fstype((Enc)e, n));
                    put_fixed(src, b);
                  }
                  Enc de = d == NENC ? UTF8 : (Enc)d;
                  S want;
                  bool encodable = enc(de, t, want);
                  for (int m = 0; m < 2; ++m) {
                    nd::array dst = nd::empty(d == NENC ? ndt::type("string") : fstype(de, 16));
                    x.trans();
                    S err = trying([&] { dst.assign(src, m ? assign_error_fractional : assign_error_nocheck); });
                    if (m) {
                      if (good && encodable)
                        x.check(err == "" && stripped(de, bytes_of(dst)) == want, "transcode", S("to ") + encname[de] + err + hex(bytes_of(dst)));
                      else
                        x.check(err != "", "bad text accepted", S("to ") + encname[de] + hex(bytes_of(dst)));
                    } else {
                      Text r;
                      x.check(err == "" && dec(de, stripped(de, bytes_of(dst)), r), "unchecked text malformed", S("to ") + encname[de] + err + hex(bytes_of(dst)));
                      if (good && encodable)
                        x.check(r == t, "transcode unchecked", S("to ") + encname[de] + show(r));
                    }
                  }
                }
            } while (0);
            int i = n - 1;
            while (i >= 2 && ++s[i] == k)
              s[i--] = 0;
            more = i >= 2;
          }
        }
      }
  }

  x.section("texts");
  std::vector<uint32_t> cps = {'A', 0x7f, 0x80, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xffff, 0x10000, 0x10ffff};
  std::vector<Text> texts = {{}};
  for (size_t i = 0, len = 0; len < 3; ++len) {
    size_t n = texts.size();
    for (; i < n; ++i)
      for (uint32_t c : cps) {
        if (len == 2 && !th && c != 'A' && c != 0x80 && c != 0xffff && c != 0x10000)
          continue;
        Text t = texts[i];
        t.push_back(c);
        texts.push_back(t);
      }
  }
  { // long ones, for the growing of the buffer
    for (uint32_t c : {uint32_t('A'), 0x800u, 0x10000u})
      for (int n : {5, 15, 16, 17, 18, 100, 600})
        texts.push_back(Text(n, c));
  }
  for (auto &t : texts)
    for (int se = 0; se <= NENC; ++se) { // NENC: string
      if (!x.unit())
        continue;
      Enc e = se == NENC ? UTF8 : (Enc)se;
      S b;
      if (!enc(e, t, b))
        continue;
      int need = std::max<int>(1, b.size() / unit[e]);
      for (int sx = 0; sx <= (se == NENC ? 0 : 2); sx += 2) {
        nd::array src;
        if (se == NENC)
          src = as_string(b);
        else {
          src = nd::empty(fstype(e, need + sx));
          put_fixed(src, b);
        }
        S u8;
        enc(UTF8, t, u8);
        do {
          MC_CASE(x, "%s text %s", se == NENC ? "string" : tstr(src.get_type()).c_str(), show(t).c_str());
          x.trans();
          S got;
          S err = trying([&] { got = src.as<std::string>(); });
          x.check(err == "" && got == u8, "as string", err + hex(got));
          std::ostringstream o;
          err = trying([&] { o << src; });
          S p = o.str();
          size_t q0 = p.find('"'), q1 = p.find(",\n");
          Text back;
          x.check(err == "" && q0 != S::npos && q1 != S::npos && unescape(p.substr(q0, q1 - q0), back) && back == t, "printed", err + p);
          nd::array js;
          err = trying([&] { js = format_json(src); });
          back.clear();
          x.check(err == "" && unescape(bytes_of(js), back) && back == t, "json", err + (js.is_null() ? S() : bytes_of(js)));
        } while (0);
        for (int d = 0; d <= NENC; ++d) {
          Enc de = d == NENC ? UTF8 : (Enc)d;
          S want;
          bool encodable = enc(de, t, want);
          S lossy; // with ? for what cannot be encoded
          for (uint32_t c : t)
            if (!enc1(de, c, lossy))
              enc1(de, '?', lossy);
          int dneed = std::max<int>(1, lossy.size() / unit[de]);
          for (int dx = d == NENC ? 0 : -2; dx <= (d == NENC ? 0 : 2); ++dx) {
            int size = dneed + dx;
            if (size < 1 || (dx == 1 && !th))
              continue;
            ndt::type dt = d == NENC ? ndt::type("string") : fstype(de, size);
            for (int m = 0; m < (th ? 5 : 3); ++m) {
              MC_CASE(x, "%s text %s to %s, mode %d", se == NENC ? "string" : tstr(src.get_type()).c_str(), show(t).c_str(), tstr(dt).c_str(), m);
              nd::array all = nd::empty(ndt::make_fixed_dim(3, dt));
              size_t el = dt.get_data_size();
              if (d == NENC) {
                for (int i = 0; i < 3; ++i)
                  reinterpret_cast<dynd::string *>(all.data() + i * el)->assign("old text that is long", i * 7);
              } else
                memset(all.data(), MAGIC, 3 * el);
              nd::array dst = all(1);
              bool fits = d == NENC || (size_t)size * unit[de] >= lossy.size();
              x.trans();
              S err = trying([&] { dst.assign(src, MODES[m]); });
              bool nocheck = MODES[m] == assign_error_nocheck;
              S raw = bytes_of(dst);
              if (d == NENC)
                x.check(bytes_of(all(0)) == "" && bytes_of(all(2)) == "old text that ", "neighbour", "another element changed");
              else
                x.check(S(all.cdata(), el) == S(el, (char)MAGIC) && S(all.cdata() + 2 * el, el) == S(el, (char)MAGIC), "neighbour", "another element changed");
              if (nocheck) {
                if (fits)
                  x.check(err == "" && stripped(de, raw) == stripped(de, lossy), "unchecked", err + hex(raw));
                else { // whole code points from the start
                  Text r, full;
                  dec(de, lossy, full);
                  x.check(err == "" && dec(de, stripped(de, raw), r) && r.size() <= full.size() && std::equal(r.begin(), r.end(), full.begin()), "unchecked cut", err + hex(raw));
                }
              } else if (encodable && fits) {
                S full = want;
                if (d != NENC)
                  full.resize(size * unit[de]);
                x.check(err == "" && raw == full, "assigned", err + " gave " + hex(raw) + ", expected " + hex(full));
              } else
                x.check(err != "", "error due", encodable ? "too long, no error" : "not encodable, no error");
            }
          }
        }
      }
      x.state(mc::h64(show(t) + encname[e]));
    }
  // arrays of texts, with and without gaps and in reverse
  x.section("arrays");
  for (int se = 0; se <= NENC; ++se)
    for (int de = 0; de <= NENC; ++de)
      for (int lay = 0; lay < 9; ++lay) {
        if (!x.unit())
          continue;
        MC_CASE(x, "array of %s to %s, layout %d", se == NENC ? "string" : encname[se], de == NENC ? "string" : encname[de], lay);
        ndt::type st = se == NENC ? ndt::type("string") : fstype((Enc)se, 6), dt = de == NENC ? ndt::type("string") : fstype((Enc)de, 6);
        bool ascii = se == ASCII || de == ASCII;
        std::vector<Text> ts = ascii ? std::vector<Text>{{'a'}, {'b', 'c', 'd', 'e', 'f', 'g'}, {}, {'h', 'i'}, {'j'}}
                                     : std::vector<Text>{{'a'}, {0xe9, 'c', 0x7ff}, {}, {0x800, 0xffff}, {'j', 'k', 'l', 'm', 'n', 'o'}};
        nd::array sa = nd::empty(ndt::make_fixed_dim(5, st)), da = nd::empty(ndt::make_fixed_dim(5, dt));
        for (int i = 0; i < 5; ++i) {
          S b;
          enc(se == NENC ? UTF8 : (Enc)se, ts[i], b);
          if (se == NENC)
            reinterpret_cast<dynd::string *>(sa(i).data())->assign(b.data(), b.size());
          else
            put_fixed(sa(i), b);
          if (de != NENC)
            memset(da(i).data(), MAGIC, dt.get_data_size());
        }
        irange ss[] = {irange(), irange().by(2), irange().by(-1)};
        irange r1 = ss[lay % 3], r2 = ss[lay / 3];
        if ((lay % 3 == 1) != (lay / 3 == 1)) { // three of five against three in a row
          (lay % 3 == 1 ? r2 : r1) = lay % 3 == 1 ? (lay / 3 == 2 ? irange(2, 5).by(1) : irange(1, 4)) : irange(1, 4);
        }
        nd::array sv = sa(r1), dv = da(r2);
        x.trans();
        S err = trying([&] { dv.assign(sv); });
        x.check(err == "", "array assign", err);
        for (int i = 0; i < (int)dv.get_dim_size(); ++i)
          x.check(trying([&] {
                    if (dv(i).as<std::string>() != sv(i).as<std::string>())
                      throw std::runtime_error(hex(bytes_of(dv(i))));
                  }) == "",
                  "array element", mc::fmt("element %d", i));
      }
}
MC_MAIN(body)
