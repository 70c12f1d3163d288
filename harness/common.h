// Small helpers used by most properties.
#ifndef VERIF_COMMON_H
#define VERIF_COMMON_H
#include "gen.h"
#include "lib.h"
#include <sys/stat.h>
#include <unistd.h>

inline npy::endian_t draw_endian(pbt::Source &s) {
  static const npy::endian_t e[] = {npy::endian_t::NATIVE, npy::endian_t::LITTLE, npy::endian_t::BIG};
  return e[s.draw(2)];
}
inline bool is_big(npy::endian_t e) {
  return (e == npy::endian_t::NATIVE ? npy::native_endian() : e) == npy::endian_t::BIG;
}
inline const char *endian_name(npy::endian_t e) {
  return e == npy::endian_t::NATIVE ? "native" : e == npy::endian_t::BIG ? "big" : "little";
}
inline npy::compression_method_t draw_method(pbt::Source &s) {
  return s.coin() ? npy::compression_method_t::DEFLATED : npy::compression_method_t::STORED;
}
inline const char *method_name(npy::compression_method_t m) { return m == npy::compression_method_t::STORED ? "stored" : "deflated"; }
template <class S> void check_arr(const ref::Arr &want, const ref::Arr &got, const S &how) {
  std::string d = ref::diff(want, got);
  PB_ASSERT(d.empty(), how << ": " << d);
}
template <class S> void check_bytes(const std::string &want, const std::string &got, const S &how) {
  std::string d = ref::diff_bytes(want, got);
  PB_ASSERT(d.empty(), how << ": " << d);
}
// a formatting state a program may have left a stream in; none of it may
// affect binary data
inline void odd_state(pbt::Source &s, std::ios &st) {
  static const std::ios::fmtflags F[] = {std::ios::hex | std::ios::showbase | std::ios::uppercase, std::ios::oct, std::ios::boolalpha, std::ios::showpos | std::ios::dec,
                                         std::ios::left, std::ios::internal, std::ios::unitbuf, std::ios::scientific | std::ios::showpoint, std::ios::fmtflags()};
  st.flags(F[s.draw(8)] | (s.coin() ? std::ios::skipws : std::ios::fmtflags()));
  if (s.coin()) st.width(std::streamsize(s.draw(30)));
  if (s.coin()) st.fill(char(s.draw(127)));
  if (s.coin()) st.precision(std::streamsize(s.draw(20)));
  if (s.chance(1, 3)) st.exceptions(std::ios::failbit | std::ios::badbit);
}
// the array a reader gets back from a file with bool bytes taken as truth values
inline ref::Arr truthy(ref::Arr a) {
  if (a.dt == ref::B1) for (auto &b : a.raw) b = b ? 1 : 0;
  return a;
}
// The bytes/position left in a stream, without disturbing its state flags.
// A stream buffer that delivers its bytes in small pieces and cannot seek,
// like a pipe or a socket; counts what was consumed.
class PieceBuf : public std::streambuf {
public:
  PieceBuf(const std::string &data, size_t piece) : m_data(data), m_piece(piece ? piece : 1) {}
  size_t consumed() const { return m_next - size_t(egptr() - gptr()); }

protected:
  int_type underflow() override {
    if (gptr() < egptr()) return traits_type::to_int_type(*gptr());
    if (m_next >= m_data.size()) return traits_type::eof();
    size_t n = std::min(m_piece, m_data.size() - m_next);
    char *p = const_cast<char *>(m_data.data()) + m_next;
    setg(p, p, p + n);
    m_next += n;
    return traits_type::to_int_type(*gptr());
  }

private:
  std::string m_data;
  size_t m_piece, m_next = 0;
};
// A destination that takes its bytes in small pieces, and cannot seek or tell
// its position, like a pipe or a socket.
class SinkBuf : public std::streambuf {
public:
  explicit SinkBuf(size_t buffer) : m_buf(buffer) { if (buffer) setp(m_buf.data(), m_buf.data() + buffer); }
  const std::string &bytes() { sync(); return m_bytes; }

protected:
  int sync() override {
    if (pptr() > pbase()) m_bytes.append(pbase(), size_t(pptr() - pbase()));
    if (!m_buf.empty()) setp(m_buf.data(), m_buf.data() + m_buf.size());
    return 0;
  }
  int_type overflow(int_type c) override {
    sync();
    if (!traits_type::eq_int_type(c, traits_type::eof())) m_bytes += char(c);
    return traits_type::not_eof(c);
  }

private:
  std::string m_bytes;
  std::vector<char> m_buf;
};
// One of the stream kinds a program may hand to the library.
struct AnyIn {
  std::unique_ptr<std::istream> in;
  std::unique_ptr<PieceBuf> buf;
  std::string path;
  AnyIn(int kind, const std::string &bytes, size_t piece) {
    if (kind == 0) in = std::make_unique<std::istringstream>(bytes);
    else if (kind == 1) {
      path = pbt::scratch() + "/in.bin";
      lib::spit(path, bytes);
      in = std::make_unique<std::ifstream>(path, std::ios::binary);
    } else {
      buf = std::make_unique<PieceBuf>(bytes, piece);
      in = std::make_unique<std::istream>(buf.get());
    }
  }
  ~AnyIn() { if (!path.empty()) unlink(path.c_str()); }
  size_t consumed() { return buf ? buf->consumed() : size_t(in->tellg()); }
};
#endif
