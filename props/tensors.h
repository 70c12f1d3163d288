// Access to one element of a tensor through every accessor (C10, C11, C12).
#ifndef VERIF_TENSORS_H
#define VERIF_TENSORS_H
#include "common.h"
using namespace ref;

template <class TT> auto *call_addr(TT &t, const std::vector<int> &i) {
  switch (i.size()) {
  case 0: return &t();
  case 1: return &t(i[0]);
  case 2: return &t(i[0], i[1]);
  case 3: return &t(i[0], i[1], i[2]);
  case 4: return &t(i[0], i[1], i[2], i[3]);
  case 5: return &t(i[0], i[1], i[2], i[3], i[4]);
  case 6: return &t(i[0], i[1], i[2], i[3], i[4], i[5]);
  default: return decltype(&t(0))(nullptr);
  }
}
const size_t MAX_ARITY = 6;
// the offset the declared order prescribes
inline size_t model_offset(const std::vector<size_t> &shape, bool fortran, const std::vector<size_t> &idx) {
  size_t off = 0;
  if (fortran) for (size_t d = shape.size(); d-- > 0;) off = off * shape[d] + idx[d];
  else for (size_t d = 0; d < shape.size(); ++d) off = off * shape[d] + idx[d];
  return off;
}
inline std::vector<size_t> unravel(const std::vector<size_t> &shape, size_t k) { // k-th index in C enumeration
  std::vector<size_t> r(shape.size());
  for (size_t d = shape.size(); d-- > 0;) { r[d] = k % shape[d]; k /= shape[d]; }
  return r;
}
// a tensor of T holding a, obtained in one of several ways
template <class T> npy::tensor<T> obtain(const Arr &a, size_t how) {
  npy::tensor<T> t = lib::to_tensor<T>(a);
  switch (how) {
  case 0: return t;
  case 1: { // loaded
    std::stringstream s;
    npy::save(s, t);
    return npy::load<npy::tensor<T>>(s);
  }
  case 2: { // assigned over another shape
    npy::tensor<T> u(std::vector<size_t>{3, 2}, !a.fortran);
    u = t;
    return u;
  }
  case 3: { // move-assigned
    npy::tensor<T> u(std::vector<size_t>{2, 1, 2}, !a.fortran);
    u = std::move(t);
    return u;
  }
  case 4: { // moved into place
    npy::tensor<T> u(std::move(t));
    return u;
  }
  default: { // copied, the source destroyed and overwritten
    npy::tensor<T> u(t);
    t = npy::tensor<T>(std::vector<size_t>{1});
    return u;
  }
  }
}
inline const char *obtain_name(size_t how) {
  static const char *n[] = {"constructed", "loaded", "copy-assigned", "move-assigned", "move-constructed", "copy-constructed"};
  return n[how];
}
const size_t OBTAIN_WAYS = 6;
// value k of a sequence of distinct-ish values
template <class T> T distinct(size_t k) { return static_cast<T>(k); }
template <> inline std::wstring distinct<std::wstring>(size_t k) { return std::to_wstring(k); }
template <> inline npy::boolean distinct<npy::boolean>(size_t k) { return npy::boolean((k * 2654435761u >> 7) % 2 == 1); }
template <> inline std::complex<float> distinct<std::complex<float>>(size_t k) { return {float(k), -float(k)}; }
template <> inline std::complex<double> distinct<std::complex<double>>(size_t k) { return {double(k), -double(k)}; }
#endif
