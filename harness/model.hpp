// Values as plain trees, and arrays built from / read back into such trees by walking the documented memory layout
// (type + metadata + data), independently of the library's own indexing and printing code.
#pragma once
#include "mc.hpp"
#include <dynd/array.hpp>
#include <dynd/callable.hpp>
#include <dynd/type.hpp>
#include <dynd/types/bytes_type.hpp>
#include <dynd/types/fixed_dim_type.hpp>
#include <dynd/types/fixed_string_type.hpp>
#include <dynd/types/option_type.hpp>
#include <dynd/types/pointer_type.hpp>
#include <dynd/types/string_type.hpp>
#include <dynd/types/struct_type.hpp>
#include <dynd/types/tuple_type.hpp>
#include <dynd/types/type_type.hpp>
#include <dynd/types/var_dim_type.hpp>

namespace mv {
using namespace dynd;
typedef std::string S;

struct V {
  enum K { INT, REAL, STR, LIST, BOOL, NONE, OTHER } kind = NONE;
  int64_t i = 0;
  double d = 0;
  S s;
  std::vector<V> k;
  V() {}
  static V Int(int64_t x) {
    V v;
    v.kind = INT;
    v.i = x;
    return v;
  }
  static V Bool(bool x) {
    V v;
    v.kind = BOOL;
    v.i = x;
    return v;
  }
  static V Real(double x) {
    V v;
    v.kind = REAL;
    v.d = x;
    return v;
  }
  static V Str(const S &x) {
    V v;
    v.kind = STR;
    v.s = x;
    return v;
  }
  static V List() {
    V v;
    v.kind = LIST;
    return v;
  }
  static V NA() { return V(); }
  bool operator==(const V &o) const {
    if (kind != o.kind)
      return false;
    switch (kind) {
    case INT:
    case BOOL:
      return i == o.i;
    case REAL:
      return (d == o.d && std::signbit(d) == std::signbit(o.d)) || (d != d && o.d != o.d);
    case STR:
    case OTHER:
      return s == o.s;
    case LIST:
      return k == o.k;
    case NONE:
      return true;
    }
    return false;
  }
  bool operator!=(const V &o) const { return !(*this == o); }
  S str() const {
    switch (kind) {
    case INT:
      return mc::fmt("%lld", (long long)i);
    case BOOL:
      return i ? "true" : "false";
    case REAL:
      return mc::fmt("%.17g", d);
    case STR:
      return mc::quote(s);
    case OTHER:
      return s;
    case NONE:
      return "NA";
    case LIST: {
      S r = "[";
      for (size_t j = 0; j < k.size(); ++j)
        r += (j ? "," : "") + k[j].str();
      return r + "]";
    }
    }
    return "?";
  }
};

template <class T>
static T rd(const char *p) {
  T t;
  memcpy(&t, p, sizeof t);
  return t;
}
template <class T>
static void wr(char *p, T t) {
  memcpy(p, &t, sizeof t);
}

static V read_raw(const ndt::type &tp, const char *arrmeta, const char *data);

static V read_option(const ndt::type &vt, const char *arrmeta, const char *data) {
  switch (vt.get_id()) {
  case bool_id:
    return rd<unsigned char>(data) == 2 ? V::NA() : V::Bool(rd<unsigned char>(data) != 0);
  case int8_id:
    return rd<int8_t>(data) == INT8_MIN ? V::NA() : V::Int(rd<int8_t>(data));
  case int16_id:
    return rd<int16_t>(data) == INT16_MIN ? V::NA() : V::Int(rd<int16_t>(data));
  case int32_id:
    return rd<int32_t>(data) == INT32_MIN ? V::NA() : V::Int(rd<int32_t>(data));
  case int64_id:
    return rd<int64_t>(data) == INT64_MIN ? V::NA() : V::Int(rd<int64_t>(data));
  case uint8_id:
    return rd<uint8_t>(data) == UINT8_MAX ? V::NA() : V::Int(rd<uint8_t>(data));
  case uint16_id:
    return rd<uint16_t>(data) == UINT16_MAX ? V::NA() : V::Int(rd<uint16_t>(data));
  case uint64_id:
    return rd<uint64_t>(data) == UINT64_MAX ? V::NA() : V::Int(rd<uint64_t>(data));
  case uint32_id:
    return rd<uint32_t>(data) == UINT32_MAX ? V::NA() : V::Int(rd<uint32_t>(data));
  case float32_id:
    return rd<uint32_t>(data) == DYND_FLOAT32_NA_AS_UINT ? V::NA() : V::Real(rd<float>(data));
  case float64_id:
    return rd<uint64_t>(data) == DYND_FLOAT64_NA_AS_UINT ? V::NA() : V::Real(rd<double>(data));
  case string_id:
  case bytes_id:
    if (!is_avail_builtin(vt.get_id(), data))
      return V::NA();
    return read_raw(vt, arrmeta, data);
  default:
    return read_raw(vt, arrmeta, data);
  }
}

static V read_raw(const ndt::type &tp, const char *arrmeta, const char *data) {
  V v;
  switch (tp.get_id()) {
  case bool_id:
    return V::Bool(rd<unsigned char>(data) != 0);
  case int8_id:
    return V::Int(rd<int8_t>(data));
  case int16_id:
    return V::Int(rd<int16_t>(data));
  case int32_id:
    return V::Int(rd<int32_t>(data));
  case int64_id:
    return V::Int(rd<int64_t>(data));
  case uint8_id:
    return V::Int(rd<uint8_t>(data));
  case uint16_id:
    return V::Int(rd<uint16_t>(data));
  case uint32_id:
    return V::Int(rd<uint32_t>(data));
  case uint64_id:
    return V::Int((int64_t)rd<uint64_t>(data));
  case float32_id:
    return V::Real(rd<float>(data));
  case float64_id:
    return V::Real(rd<double>(data));
  case string_id:
  case bytes_id: {
    const dynd::string *s = reinterpret_cast<const dynd::string *>(data);
    return V::Str(s->begin() == s->end() ? S() : S(s->begin(), s->end()));
  }
  case fixed_string_id: {
    size_t n = tp.get_data_size();
    return V::Str(S(data, strnlen(data, n)));
  }
  case fixed_dim_id: {
    v.kind = V::LIST;
    const size_stride_t *md = reinterpret_cast<const size_stride_t *>(arrmeta);
    const ndt::type &et = tp.extended<ndt::fixed_dim_type>()->get_element_type();
    if (md->dim_size != tp.extended<ndt::fixed_dim_type>()->get_fixed_dim_size()) {
      v.kind = V::OTHER;
      v.s = mc::fmt("<fixed dimension size %ld in metadata>", (long)md->dim_size);
      return v;
    }
    for (intptr_t i = 0; i < md->dim_size; ++i)
      v.k.push_back(read_raw(et, arrmeta + sizeof(size_stride_t), data + i * md->stride));
    return v;
  }
  case var_dim_id: {
    v.kind = V::LIST;
    const ndt::var_dim_type::metadata_type *md = reinterpret_cast<const ndt::var_dim_type::metadata_type *>(arrmeta);
    const ndt::var_dim_type::data_type *d = reinterpret_cast<const ndt::var_dim_type::data_type *>(data);
    const ndt::type &et = tp.extended<ndt::var_dim_type>()->get_element_type();
    if (d->size > 100000) {
      v.kind = V::OTHER;
      v.s = mc::fmt("<var dimension of size %zu>", d->size);
      return v;
    }
    for (size_t i = 0; i < d->size; ++i)
      v.k.push_back(read_raw(et, arrmeta + sizeof(ndt::var_dim_type::metadata_type),
                             d->begin + md->offset + (intptr_t)i * md->stride));
    return v;
  }
  case pointer_id: {
    const pointer_type_arrmeta *md = reinterpret_cast<const pointer_type_arrmeta *>(arrmeta);
    const char *p = rd<const char *>(data);
    if (!p) {
      v.kind = V::OTHER;
      v.s = "<null pointer>";
      return v;
    }
    return read_raw(tp.extended<ndt::pointer_type>()->get_target_type(), arrmeta + sizeof(pointer_type_arrmeta),
                    p + md->offset);
  }
  case struct_id: {
    v.kind = V::LIST;
    const ndt::struct_type *st = tp.extended<ndt::struct_type>();
    const uintptr_t *offs = reinterpret_cast<const uintptr_t *>(arrmeta);
    for (intptr_t i = 0; i < st->get_field_count(); ++i)
      v.k.push_back(read_raw(st->get_field_type(i), arrmeta + st->get_arrmeta_offset(i), data + offs[i]));
    return v;
  }
  case tuple_id: {
    v.kind = V::LIST;
    const ndt::tuple_type *st = tp.extended<ndt::tuple_type>();
    const uintptr_t *offs = reinterpret_cast<const uintptr_t *>(arrmeta);
    for (intptr_t i = 0; i < st->get_field_count(); ++i)
      v.k.push_back(read_raw(st->get_field_type(i), arrmeta + st->get_arrmeta_offset(i), data + offs[i]));
    return v;
  }
  case option_id:
    return read_option(tp.extended<ndt::option_type>()->get_value_type(), arrmeta, data);
  case type_id: {
    std::ostringstream o;
    o << *reinterpret_cast<const ndt::type *>(data);
    v.kind = V::OTHER;
    v.s = o.str();
    return v;
  }
  default: {
    v.kind = V::OTHER;
    std::ostringstream o;
    o << "<" << tp << ">";
    v.s = o.str();
    return v;
  }
  }
}
static V read(const nd::array &a) {
  if (a.is_null()) {
    V v;
    v.kind = V::OTHER;
    v.s = "<null array>";
    return v;
  }
  return read_raw(a.get_type(), a->metadata(), a.cdata());
}

// fills freshly constructed (zeroed where required) storage
static void fill_raw(const ndt::type &tp, const char *arrmeta, char *data, const V &v) {
  switch (tp.get_id()) {
  case bool_id:
    wr<unsigned char>(data, v.i != 0);
    return;
  case int8_id:
  case uint8_id:
    wr<int8_t>(data, (int8_t)v.i);
    return;
  case int16_id:
  case uint16_id:
    wr<int16_t>(data, (int16_t)v.i);
    return;
  case int32_id:
  case uint32_id:
    wr<int32_t>(data, (int32_t)v.i);
    return;
  case int64_id:
  case uint64_id:
    wr<int64_t>(data, v.i);
    return;
  case float32_id:
    wr<float>(data, (float)(v.kind == V::REAL ? v.d : (double)v.i));
    return;
  case float64_id:
    wr<double>(data, v.kind == V::REAL ? v.d : (double)v.i);
    return;
  case string_id:
    reinterpret_cast<dynd::string *>(data)->assign(v.s.data(), v.s.size());
    return;
  case bytes_id:
    reinterpret_cast<dynd::bytes *>(data)->assign(v.s.data(), v.s.size());
    return;
  case fixed_string_id: {
    size_t n = tp.get_data_size();
    memset(data, 0, n);
    memcpy(data, v.s.data(), std::min(n, v.s.size()));
    return;
  }
  case fixed_dim_id: {
    const size_stride_t *md = reinterpret_cast<const size_stride_t *>(arrmeta);
    const ndt::type &et = tp.extended<ndt::fixed_dim_type>()->get_element_type();
    for (size_t i = 0; i < v.k.size(); ++i)
      fill_raw(et, arrmeta + sizeof(size_stride_t), data + (intptr_t)i * md->stride, v.k[i]);
    return;
  }
  case var_dim_id: {
    const ndt::var_dim_type::metadata_type *md = reinterpret_cast<const ndt::var_dim_type::metadata_type *>(arrmeta);
    ndt::var_dim_type::data_type *d = reinterpret_cast<ndt::var_dim_type::data_type *>(data);
    const ndt::type &et = tp.extended<ndt::var_dim_type>()->get_element_type();
    d->begin = md->blockref->alloc(v.k.size());
    d->size = v.k.size();
    for (size_t i = 0; i < v.k.size(); ++i)
      fill_raw(et, arrmeta + sizeof(ndt::var_dim_type::metadata_type), d->begin + (intptr_t)i * md->stride, v.k[i]);
    return;
  }
  case struct_id: {
    const ndt::struct_type *st = tp.extended<ndt::struct_type>();
    const uintptr_t *offs = reinterpret_cast<const uintptr_t *>(arrmeta);
    for (intptr_t i = 0; i < st->get_field_count(); ++i)
      fill_raw(st->get_field_type(i), arrmeta + st->get_arrmeta_offset(i), data + offs[i], v.k[i]);
    return;
  }
  case tuple_id: {
    const ndt::tuple_type *st = tp.extended<ndt::tuple_type>();
    const uintptr_t *offs = reinterpret_cast<const uintptr_t *>(arrmeta);
    for (intptr_t i = 0; i < st->get_field_count(); ++i)
      fill_raw(st->get_field_type(i), arrmeta + st->get_arrmeta_offset(i), data + offs[i], v.k[i]);
    return;
  }
  case option_id: {
    const ndt::type &vt = tp.extended<ndt::option_type>()->get_value_type();
    if (v.kind != V::NONE) {
      fill_raw(vt, arrmeta, data, v);
      return;
    }
    switch (vt.get_id()) {
    case bool_id:
      wr<unsigned char>(data, 2);
      return;
    case int8_id:
      wr<int8_t>(data, INT8_MIN);
      return;
    case int16_id:
      wr<int16_t>(data, INT16_MIN);
      return;
    case int32_id:
      wr<int32_t>(data, INT32_MIN);
      return;
    case int64_id:
      wr<int64_t>(data, INT64_MIN);
      return;
    case string_id:
    case bytes_id:
      reinterpret_cast<dynd::string *>(data)->assign_na();
      return;
    case uint8_id:
      wr<uint8_t>(data, UINT8_MAX);
      return;
    case uint16_id:
      wr<uint16_t>(data, UINT16_MAX);
      return;
    case uint64_id:
      wr<uint64_t>(data, UINT64_MAX);
      return;
    case uint32_id:
      wr<uint32_t>(data, UINT32_MAX);
      return;
    case float32_id:
      wr<uint32_t>(data, DYND_FLOAT32_NA_AS_UINT);
      return;
    case float64_id:
      wr<uint64_t>(data, DYND_FLOAT64_NA_AS_UINT);
      return;
    default: // strings and bytes: all zero
      return;
    }
  }
  default:
    throw std::logic_error("fill_raw");
  }
}
static nd::array build(const ndt::type &tp, const V &v) {
  nd::array a = nd::empty(tp);
  fill_raw(tp, a->metadata(), a.data(), v);
  return a;
}
static S tstr(const ndt::type &t) {
  std::ostringstream o;
  o << t;
  return o.str();
}
} // namespace mv
