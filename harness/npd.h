// Client of the NumPy co-process (npd.py), started on first use per process.
#ifndef VERIF_NPD_H
#define VERIF_NPD_H
#include "ref.h"
namespace npd {
struct Named { std::string name; ref::Arr arr; std::string dtype, seen; };
// Each returns "" or NumPy's error text.
std::string load(const std::string &npy, ref::Arr &a, std::string &dtype);
// version 0: numpy.save; 1 or 2: that format version
std::string write(const ref::Arr &a, bool big, int version, std::string &out);
std::string zload(const std::string &npz, std::vector<Named> &out);
std::string zload_path(const std::string &path, std::vector<Named> &out);
struct Listed { std::string name; uint64_t size, crc; };
std::string zlist(const std::string &path, std::vector<Listed> &out);
std::string zwrite(bool compressed, const std::vector<Named> &in, const std::vector<bool> &big, std::string &out, bool pipe = false);
} // namespace npd
#endif
