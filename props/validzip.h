// A finished archive against the model, by readers other than the library's.
#ifndef VERIF_VALIDZIP_H
#define VERIF_VALIDZIP_H
#include "archives.h"
#include "npd.h"

// The strict PKZIP and NPY reader of the harness.  bytes: the file from base.
// Returns the parsed entries.
inline std::vector<ZParsed> check_zip(const std::string &bytes, uint64_t base, const Model &m, npy::compression_method_t method, npy::endian_t e, bool gaps = false) {
  size_t n = m.e.size();
  std::vector<ZParsed> z;
  std::string err = parse_zip(bytes, z, base, gaps);
  PB_ASSERT(err.empty(), "not a valid ZIP archive: " << err);
  PB_ASSERT(z.size() == n, "an independent ZIP reader finds " << z.size() << " entries instead of " << n);
  for (size_t i = 0; i < n; ++i) {
    PB_ASSERT(z[i].name == m.e[i].name, "entry " << i << " is named " << short_name(z[i].name) << " instead of " << short_name(m.e[i].name));
    Header h;
    Arr a;
    bool big = false;
    err = decode_npy(z[i].data, h, a, big);
    PB_ASSERT(err.empty(), "entry " << short_name(z[i].name) << " is not a valid NPY file: " << err);
    const Arr &want = m.e[i].a;
    std::string d = diff(want, a);
    PB_ASSERT(d.empty(), "entry " << short_name(z[i].name) << ": " << d);
    if (DT_UNIT[a.dt] > 1) PB_ASSERT(big == m.e[i].big, "entry " << short_name(z[i].name) << " has the wrong byte order");
    PB_ASSERT(z[i].method == (method == npy::compression_method_t::DEFLATED ? 8 : 0), "entry " << short_name(z[i].name) << " has compression method " << z[i].method);
    std::string alone = lib::save(want, e);
    check_bytes(alone, z[i].data, "the entry differs from the file save writes");
  }
  return z;
}
// Python's zipfile and NumPy; bytes or a path.
inline void check_numpy(const std::string &bytes, bool path, const Model &m) {
  std::vector<npd::Named> got;
  std::string err = path ? npd::zload_path(bytes, got) : npd::zload(bytes, got);
  PB_ASSERT(err.empty(), "NumPy rejects the archive: " << err);
  PB_ASSERT(got.size() == m.e.size(), "NumPy lists " << got.size() << " entries");
  for (size_t i = 0; i < got.size(); ++i) {
    PB_ASSERT(got[i].name == m.e[i].name, "NumPy lists " << short_name(got[i].name) << " instead of " << short_name(m.e[i].name));
    // names which are valid UTF-8 are shown as the text they are
    PB_ASSERT(got[i].seen == m.e[i].name, "NumPy shows the name " << short_name(m.e[i].name) << " as " << short_name(got[i].seen));
    std::string d = diff(m.e[i].a, got[i].arr);
    PB_ASSERT(d.empty(), "NumPy reads entry " << short_name(got[i].name) << " differently: " << d);
  }
}
// The library's own reader, everything in random order.
inline void check_reader(lib::Reader &rd, const Model &m, pbt::Source &s, const char *how, size_t cap = 60) {
  check_keys(rd, m, how);
  std::vector<std::string> ns = lookups(m, s);
  size_t k = 0;
  for (auto &q : ns) { if (++k > cap) break; check_lookup(rd, m, q, s, how); }
  check_keys(rd, m, how);
}
#endif
