// The only door from the properties to the library under test: libnpy's
// public API behind functions over the harness's value type ref::Arr.
#ifndef VERIF_LIB_H
#define VERIF_LIB_H
#include "npy/npy.h"
#include "pbt.h"
#include "ref.h"
#include <complex>
#include <cstring>
#include <memory>

namespace lib {
using ref::Arr;

template <int DT> struct TypeOf;
#define LIB_T(dt, t, e)                                                        \
  template <> struct TypeOf<dt> {                                              \
    typedef t type;                                                            \
    static const npy::data_type_t code = npy::data_type_t::e;                  \
  }
LIB_T(ref::I1, std::int8_t, INT8);
LIB_T(ref::U1, std::uint8_t, UINT8);
LIB_T(ref::I2, std::int16_t, INT16);
LIB_T(ref::U2, std::uint16_t, UINT16);
LIB_T(ref::I4, std::int32_t, INT32);
LIB_T(ref::U4, std::uint32_t, UINT32);
LIB_T(ref::I8, std::int64_t, INT64);
LIB_T(ref::U8, std::uint64_t, UINT64);
LIB_T(ref::F4, float, FLOAT32);
LIB_T(ref::F8, double, FLOAT64);
LIB_T(ref::C8, std::complex<float>, COMPLEX64);
LIB_T(ref::C16, std::complex<double>, COMPLEX128);
LIB_T(ref::B1, npy::boolean, BOOL);
LIB_T(ref::US, std::wstring, UNICODE_STRING);
#undef LIB_T

// Calls f(TypeOf<dt>()) for the run-time dt.
template <class F> auto with_type(int dt, F f) {
  switch (dt) {
  case ref::I1: return f(TypeOf<ref::I1>());
  case ref::U1: return f(TypeOf<ref::U1>());
  case ref::I2: return f(TypeOf<ref::I2>());
  case ref::U2: return f(TypeOf<ref::U2>());
  case ref::I4: return f(TypeOf<ref::I4>());
  case ref::U4: return f(TypeOf<ref::U4>());
  case ref::I8: return f(TypeOf<ref::I8>());
  case ref::U8: return f(TypeOf<ref::U8>());
  case ref::F4: return f(TypeOf<ref::F4>());
  case ref::F8: return f(TypeOf<ref::F8>());
  case ref::C8: return f(TypeOf<ref::C8>());
  case ref::C16: return f(TypeOf<ref::C16>());
  case ref::B1: return f(TypeOf<ref::B1>());
  default: return f(TypeOf<ref::US>());
  }
}

inline std::wstring widen(const ref::Str &s) {
  std::wstring w;
  for (auto c : s) w.push_back(static_cast<wchar_t>(c));
  return w;
}
inline ref::Str narrow(const std::wstring &w) {
  ref::Str s;
  for (auto c : w) s.push_back(static_cast<uint32_t>(c));
  return s;
}
template <class T> std::vector<T> to_values(const Arr &a) {
  std::vector<T> v(a.count());
  if (!v.empty()) memcpy(static_cast<void *>(v.data()), a.raw.data(), a.raw.size());
  return v;
}
template <> inline std::vector<std::wstring> to_values<std::wstring>(const Arr &a) {
  std::vector<std::wstring> v;
  for (auto &s : a.strs) v.push_back(widen(s));
  return v;
}
template <class T> npy::tensor<T> to_tensor(const Arr &a) {
  npy::tensor<T> t(a.shape, a.fortran);
  t.copy_from(to_values<T>(a));
  return t;
}
template <class T> void put_values(Arr &a, const T *p, size_t n) {
  a.raw.assign(reinterpret_cast<const uint8_t *>(p), reinterpret_cast<const uint8_t *>(p) + n * sizeof(T));
}
template <> inline void put_values<std::wstring>(Arr &a, const std::wstring *p, size_t n) {
  a.strs.clear();
  for (size_t i = 0; i < n; ++i) a.strs.push_back(narrow(p[i]));
}
int dt_of(npy::data_type_t t); // -1 for values outside the enumeration
npy::data_type_t code_of(int dt);
template <class T> Arr from_tensor(const npy::tensor<T> &t) {
  Arr a;
  a.dt = dt_of(t.dtype());
  a.shape = t.shape();
  a.fortran = t.fortran_order();
  put_values<T>(a, t.values().data(), t.values().size());
  return a;
}

// ways to save to / load from a stream or a path (all must agree)
const int SAVE_STREAM_WAYS = 4, SAVE_PATH_WAYS = 3, LOAD_STREAM_WAYS = 3, LOAD_PATH_WAYS = 4;
void save(std::ostream &o, const Arr &a, npy::endian_t e, int way = 0);
void save(const std::string &path, const Arr &a, npy::endian_t e, int way = 0);
std::string save(const Arr &a, npy::endian_t e, int way = 0);
// as save, and returns the tensor's contents afterwards
std::string save_twice(const Arr &a, npy::endian_t e, Arr &after);
Arr load(std::istream &i, int dt, int way = 0);
Arr load(const std::string &path, int dt, int way = 0);
Arr load_bytes(const std::string &bytes, int dt, int way = 0);
npy::header_info peek_bytes(const std::string &bytes);

// A caught outcome of one operation, comparable and printable.
struct Result {
  enum K { OK, RUNTIME, INVALID, OTHER_STD, NONSTD } k = OK;
  Arr arr;
  bool has_arr = false;
  std::string what;
  bool same_kind(const Result &o) const { return k == o.k; }
};
template <class F> Result attempt(F f) {
  Result r;
  try {
    f(r);
  } catch (const pbt::Fail &) {
    throw;
  } catch (const std::invalid_argument &e) {
    r.k = Result::INVALID;
    r.what = e.what();
  } catch (const std::runtime_error &e) {
    r.k = Result::RUNTIME;
    r.what = e.what();
  } catch (const std::exception &e) {
    r.k = Result::OTHER_STD;
    r.what = e.what();
  } catch (...) {
    r.k = Result::NONSTD;
    r.what = "non-standard exception";
  }
  return r;
}
const char *kind_name(int k);

// compares a header with what an array declares; "" when equal
std::string diff_header(const npy::header_info &h, int dt, bool big, const std::vector<size_t> &shape, bool fortran, size_t width);
std::string header_text(const npy::header_info &h);

// ---- archives: memory or disk behind one interface
struct Writer {
  virtual ~Writer() {}
  virtual void write(const std::string &name, const Arr &a) = 0;
  virtual void close() = 0;
  virtual std::string bytes() = 0; // after close or destruction of the writer
  virtual bool is_open() = 0;
};
// path empty: in memory; ctor: 0 string, 1 char*, 2 filesystem::path
std::unique_ptr<Writer> make_writer(const std::string &path, npy::compression_method_t m, npy::endian_t e, int ctor = 0);
struct Reader {
  virtual ~Reader() {}
  virtual const std::vector<std::string> &keys() = 0;
  virtual bool contains(const std::string &n) = 0;
  virtual npy::header_info peek(const std::string &n) = 0;
  virtual Arr read(const std::string &n, int dt, int way = 0) = 0; // 2 ways
};
// in memory: ctor 0 copies, 1 moves
std::unique_ptr<Reader> make_reader_mem(const std::string &bytes, int ctor = 0);
std::unique_ptr<Reader> make_reader_file(const std::string &path, int ctor = 0);

std::string slurp(const std::string &path);
void spit(const std::string &path, const std::string &bytes);
} // namespace lib
#endif
