// Stand-in for the part of Julia's C API and of CxxWrap that the Julia gateways use, on top of pybind11: lets the unmodified
// gateways be built and called without Julia.  An array is accepted only with the exact element type and number of dimensions
// (column-major), as Julia's method dispatch would; new arrays are filled with NaN, not zeros.
#pragma once
#include <pybind11/numpy.h>
#include <pybind11/pybind11.h>
#include <pybind11/stl.h>
#include <csignal>
#include <cmath>
#include <iostream>
#include <limits>
#include <stdexcept>
#include <string>
#include <type_traits>

struct jl_value_t { int bytes; };
typedef jl_value_t jl_datatype_t;
inline jl_value_t jl_f64{8}, jl_f32{4};
inline jl_datatype_t *jl_float64_type = &jl_f64, *jl_float32_type = &jl_f32;
inline jl_value_t *jl_apply_array_type(jl_value_t *t, size_t) { return t; }

struct jl_array_t {
  pybind11::object own;
  void *data;
  size_t length, nrows, ncols;
};
inline void *jl_array_data(const jl_array_t *a) { return a->data; }
inline size_t jl_array_len(const jl_array_t *a) { return a->length; }
inline size_t jl_array_nrows(const jl_array_t *a) { return a->nrows; }
inline size_t jl_array_dim(const jl_array_t *a, int d) { return d == 0 ? a->nrows : a->ncols; }
inline size_t jl_array_dim0(const jl_array_t *a) { return a->nrows; }

template <class T> jl_array_t *jl_wrap_numpy(pybind11::array_t<T, pybind11::array::f_style> x) {
  auto *a = new jl_array_t;
  a->own = x;
  a->data = const_cast<T *>(x.data());
  a->length = x.size();
  a->nrows = x.ndim() > 0 ? x.shape(0) : 1;
  a->ncols = x.ndim() > 1 ? x.shape(1) : 1;
  return a;
}
template <class T> jl_array_t *jl_new_array(size_t m, size_t n) {
  pybind11::array_t<T, pybind11::array::f_style> x({m, n});
  for (size_t i = 0; i < m * n; i++) x.mutable_data()[i] = std::numeric_limits<T>::quiet_NaN();
  return jl_wrap_numpy<T>(x);
}
inline jl_array_t *jl_alloc_array_2d(jl_value_t *t, size_t m, size_t n) {
  return t->bytes == 4 ? jl_new_array<float>(m, n) : jl_new_array<double>(m, n);
}

namespace jlcxx {
template <class T, int N = 1> class ArrayRef {
public:
  ArrayRef() : m_a(nullptr) {}
  ArrayRef(jl_array_t *a) : m_a(a) {}
  jl_array_t *wrapped() const { return m_a; }
  size_t size() const { return m_a->length; }
  T *data() { return (T *) m_a->data; }
  const T *data() const { return (const T *) m_a->data; }
  T &operator[](size_t i) { return data()[i]; }
  const T &operator[](size_t i) const { return data()[i]; }
  T *begin() { return data(); }
  T *end() { return data() + size(); }
private:
  jl_array_t *m_a;
};

class Module {
public:
  explicit Module(pybind11::module_ &m) : m_m(m) {}
  template <class F> void method(const std::string &name, F &&f) { m_m.def(name.c_str(), f); }
private:
  pybind11::module_ &m_m;
};
}

namespace pybind11 { namespace detail {
template <class T, int N> struct type_caster<jlcxx::ArrayRef<T, N>> {
  typedef jlcxx::ArrayRef<T, N> Ref;
  PYBIND11_TYPE_CASTER(Ref, const_name("Array"));
  bool load(handle src, bool) {
    if (!isinstance<array>(src)) return false;
    auto a = reinterpret_borrow<array>(src);
    if (a.ndim() != N || !isinstance<array_t<T, array::f_style>>(src)) return false;
    value = Ref(jl_wrap_numpy<T>(reinterpret_borrow<array_t<T, array::f_style>>(src)));
    return true;
  }
  static handle cast(const Ref &r, return_value_policy, handle) { return r.wrapped()->own.inc_ref(); }
};
}}

#define JLCXX_MODULE extern "C" void
