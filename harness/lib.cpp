#include "lib.h"
#include <cstring>
#include <filesystem>

namespace lib {
using namespace ref;

int dt_of(npy::data_type_t t) {
  static const npy::data_type_t codes[NDT] = {
      npy::data_type_t::INT8, npy::data_type_t::UINT8, npy::data_type_t::INT16, npy::data_type_t::UINT16,
      npy::data_type_t::INT32, npy::data_type_t::UINT32, npy::data_type_t::INT64, npy::data_type_t::UINT64,
      npy::data_type_t::FLOAT32, npy::data_type_t::FLOAT64, npy::data_type_t::COMPLEX64,
      npy::data_type_t::COMPLEX128, npy::data_type_t::BOOL, npy::data_type_t::UNICODE_STRING};
  for (int i = 0; i < NDT; ++i) if (codes[i] == t) return i;
  return -1;
}
npy::data_type_t code_of(int dt) {
  return with_type(dt, [](auto t) { return decltype(t)::code; });
}

template <class T> static void save_s(std::ostream &o, const npy::tensor<T> &t, npy::endian_t e, int way) {
  switch (way) {
  case 0: npy::save(o, t, e); break;
  case 1:
    if (e == npy::endian_t::NATIVE) npy::save(o, t);
    else npy::save<T, npy::tensor>(o, t, e);
    break;
  case 2: npy::save<npy::tensor<T>>(o, t, e); break;
  default: {
    std::vector<size_t> shape;
    for (size_t d = 0; d < t.ndim(); ++d) shape.push_back(t.shape(int(d)));
    npy::write_npy_header(o, t.dtype(e), t.fortran_order(), shape);
    npy::write_values(o, t.data(), t.size(), e);
  }
  }
}
void save(std::ostream &o, const Arr &a, npy::endian_t e, int way) {
  with_type(a.dt, [&](auto tag) {
    typedef typename decltype(tag)::type T;
    save_s<T>(o, to_tensor<T>(a), e, way);
  });
}
void save(const std::string &path, const Arr &a, npy::endian_t e, int way) {
  with_type(a.dt, [&](auto tag) {
    typedef typename decltype(tag)::type T;
    npy::tensor<T> t = to_tensor<T>(a);
    switch (way) {
    case 0: npy::save(path, t, e); break;
    case 1: t.save(path, e); break;
    default:
      if (e == npy::endian_t::NATIVE) t.save(path);
      else {
        const npy::tensor<T> &ct = t;
        npy::save(path, ct, e);
      }
    }
  });
}
std::string save(const Arr &a, npy::endian_t e, int way) {
  std::ostringstream o;
  save(o, a, e, way);
  return o.str();
}
std::string save_twice(const Arr &a, npy::endian_t e, Arr &after) {
  std::ostringstream o1, o2;
  with_type(a.dt, [&](auto tag) {
    typedef typename decltype(tag)::type T;
    npy::tensor<T> t = to_tensor<T>(a);
    npy::save(o1, t, e);
    npy::save(o2, t, e);
    after = from_tensor<T>(t);
  });
  std::string d = diff_bytes(o1.str(), o2.str());
  PB_ASSERT(d.empty(), "saving the same tensor twice gives different bytes: " << d);
  return o1.str();
}
Arr load(std::istream &i, int dt, int way) {
  return with_type(dt, [&](auto tag) -> Arr {
    typedef typename decltype(tag)::type T;
    switch (way) {
    case 0: return from_tensor<T>(npy::load<npy::tensor<T>>(i));
    case 1: {
      npy::header_info h = npy::peek(i);
      return from_tensor<T>(npy::tensor<T>::load(i, h));
    }
    default: {
      npy::header_info h = npy::read_npy_header(i);
      return from_tensor<T>(npy::tensor<T>::load(i, h));
    }
    }
  });
}
Arr load(const std::string &path, int dt, int way) {
  return with_type(dt, [&](auto tag) -> Arr {
    typedef typename decltype(tag)::type T;
    switch (way) {
    case 0: return from_tensor<T>(npy::load<npy::tensor<T>>(path));
    case 1: return from_tensor<T>(npy::load<T, npy::tensor>(path));
    case 2: return from_tensor<T>(npy::tensor<T>::from_file(path));
    default: {
      std::ifstream in(path, std::ios::binary);
      return from_tensor<T>(npy::load<npy::tensor<T>>(in));
    }
    }
  });
}
Arr load_bytes(const std::string &bytes, int dt, int way) {
  std::istringstream in(bytes);
  return load(in, dt, way);
}
npy::header_info peek_bytes(const std::string &bytes) {
  std::istringstream in(bytes);
  return npy::peek(in);
}

const char *kind_name(int k) {
  static const char *n[] = {"normal return", "std::runtime_error", "std::invalid_argument", "another std::exception", "a non-standard exception"};
  return n[k];
}

std::string header_text(const npy::header_info &h) {
  std::ostringstream o;
  int d = dt_of(h.dtype);
  o << (d < 0 ? "?" : DT_NAME[d]) << " endian=" << int(static_cast<char>(h.endianness)) << " fortran=" << h.fortran_order << " shape=" << shape_text(h.shape) << " width=" << h.max_element_length;
  return o.str();
}
std::string diff_header(const npy::header_info &h, int dt, bool big, const std::vector<size_t> &shape, bool fortran, size_t width) {
  std::ostringstream o;
  if (h.dtype != code_of(dt)) o << "element type is not " << DT_NAME[dt] << " but " << header_text(h);
  else if (h.shape != shape) o << "shape is not " << shape_text(shape) << " but " << shape_text(h.shape);
  else if (h.fortran_order != fortran) o << "memory order is wrong";
  else if (dt == US && h.max_element_length != width) o << "string width is not " << width << " but " << h.max_element_length;
  else if (DT_UNIT[dt] > 1) {
    npy::endian_t want = big ? npy::endian_t::BIG : npy::endian_t::LITTLE;
    npy::endian_t got = h.endianness == npy::endian_t::NATIVE ? npy::native_endian() : h.endianness;
    if (got != want) o << "byte order is wrong";
  }
  return o.str();
}

namespace {
struct MemWriter : Writer {
  std::unique_ptr<npy::npzstringwriter> w;
  void write(const std::string &n, const Arr &a) override {
    with_type(a.dt, [&](auto tag) {
      typedef typename decltype(tag)::type T;
      w->write(n, to_tensor<T>(a));
    });
  }
  void close() override { w->close(); }
  std::string bytes() override { return w->str(); }
  bool is_open() override { return true; }
};
struct FileWriter : Writer {
  std::string path;
  std::unique_ptr<npy::npzfilewriter> w;
  void write(const std::string &n, const Arr &a) override {
    with_type(a.dt, [&](auto tag) {
      typedef typename decltype(tag)::type T;
      w->write(n, to_tensor<T>(a));
    });
  }
  void close() override { w->close(); }
  std::string bytes() override { w.reset(); return slurp(path); }
  bool is_open() override { return w->is_open(); }
};
template <class R> struct AnyReader : Reader {
  std::unique_ptr<R> r;
  const std::vector<std::string> &keys() override { return r->keys(); }
  bool contains(const std::string &n) override { return r->contains(n); }
  npy::header_info peek(const std::string &n) override { return r->peek(n); }
  Arr read(const std::string &n, int dt, int way) override {
    return with_type(dt, [&](auto tag) -> Arr {
      typedef typename decltype(tag)::type T;
      if (way == 0) return from_tensor<T>(r->template read<npy::tensor<T>>(n));
      return from_tensor<T>(r->template read<T, npy::tensor>(n));
    });
  }
};
} // namespace
std::unique_ptr<Writer> make_writer(const std::string &path, npy::compression_method_t m, npy::endian_t e, int ctor) {
  if (path.empty()) {
    auto w = std::make_unique<MemWriter>();
    w->w = std::make_unique<npy::npzstringwriter>(m, e);
    return w;
  }
  auto w = std::make_unique<FileWriter>();
  w->path = path;
  switch (ctor) {
  case 0: w->w = std::make_unique<npy::npzfilewriter>(path, m, e); break;
  case 1: w->w = std::make_unique<npy::npzfilewriter>(path.c_str(), m, e); break;
  default: w->w = std::make_unique<npy::npzfilewriter>(std::filesystem::path(path), m, e);
  }
  return w;
}
std::unique_ptr<Reader> make_reader_mem(const std::string &bytes, int ctor) {
  auto r = std::make_unique<AnyReader<npy::npzstringreader>>();
  if (ctor == 0) r->r = std::make_unique<npy::npzstringreader>(bytes);
  else r->r = std::make_unique<npy::npzstringreader>(std::string(bytes));
  return r;
}
std::unique_ptr<Reader> make_reader_file(const std::string &path, int ctor) {
  auto r = std::make_unique<AnyReader<npy::npzfilereader>>();
  switch (ctor) {
  case 0: r->r = std::make_unique<npy::npzfilereader>(path); break;
  case 1: r->r = std::make_unique<npy::npzfilereader>(path.c_str()); break;
  default: r->r = std::make_unique<npy::npzfilereader>(std::filesystem::path(path));
  }
  return r;
}
std::string slurp(const std::string &path) {
  std::ifstream in(path, std::ios::binary);
  std::ostringstream o;
  o << in.rdbuf();
  return o.str();
}
void spit(const std::string &path, const std::string &bytes) {
  std::ofstream o(path, std::ios::binary | std::ios::trunc);
  o.write(bytes.data(), std::streamsize(bytes.size()));
  if (!o.good()) { perror(path.c_str()); abort(); }
}
} // namespace lib
