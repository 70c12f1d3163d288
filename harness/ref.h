// Independent reference codecs for NPY and NPZ (PKZIP), written from the
// published format documents.  Nothing here uses the library under test.
#ifndef VERIF_REF_H
#define VERIF_REF_H
#include <cstdint>
#include <string>
#include <vector>

namespace ref {

// element types, in the order used by the harness
enum DT { I1, U1, I2, U2, I4, U4, I8, U8, F4, F8, C8, C16, B1, US, NDT };
extern const char *const DT_NAME[NDT]; // "i1", ..., "U"
extern const size_t DT_SIZE[NDT];      // 0 for US
extern const size_t DT_UNIT[NDT];      // byte-swap unit (component size)

typedef std::vector<uint32_t> Str; // code points

// A value-type array: elements in memory order (as declared by `fortran`),
// numbers in host byte order.
struct Arr {
  int dt = U1;
  std::vector<size_t> shape;
  bool fortran = false;
  std::vector<uint8_t> raw; // non-strings
  std::vector<Str> strs;    // strings
  size_t count() const;
  size_t max_len() const;
  bool operator==(const Arr &o) const;
  bool operator!=(const Arr &o) const { return !(*this == o); }
  std::string text(size_t max_elems = 6) const; // description for reports
};
std::string diff(const Arr &expected, const Arr &actual); // "" when equal

// first difference position etc. of two byte strings, "" when equal
std::string diff_bytes(const std::string &expected, const std::string &actual);

std::string descr(int dt, bool big, size_t max_len); // e.g. "<f4", ">U7"
std::string shape_text(const std::vector<size_t> &shape); // canonical python

// Elements encoded in the given byte order (strings padded to width).
std::string encode_payload(const Arr &a, bool big, size_t width);
// Canonical encoding: what numpy.save writes (version 1.0 when it fits).
std::string encode_npy(const Arr &a, bool big);
std::string encode_npy_header(const std::string &descr, bool fortran,
                              const std::vector<size_t> &shape);
// Preamble around an arbitrary dictionary text, padded so that the total is a
// multiple of `align` (0: no padding beyond `extra` spaces).
std::string wrap_header(const std::string &dict, int version, size_t align,
                        size_t extra_spaces = 0);

// A parsed header.
struct Header {
  std::string descr;
  int dt = -1;     // -1: unsupported
  int order = 0;   // '<' '>' '|' or '='/0 as written
  bool fortran = false;
  std::vector<size_t> shape;
  size_t width = 0; // string width
  size_t size = 0;  // bytes of preamble + dictionary
};
// Strict=true: additionally checks alignment/padding (for written files).
// Returns "" or what is wrong.
std::string parse_header(const std::string &bytes, Header &h, bool strict);
// Full strict decode of a written file; exact size.
std::string decode_npy(const std::string &bytes, Header &h, Arr &a, bool &big);
// Payload after a leniently parsed header; "" or why there is none.
std::string decode_lenient(const std::string &bytes, const Header &h, Arr &a);
// Parses just a dictionary text. "" or an error.  Lenient about what follows.
std::string parse_dict(const std::string &dict, Header &h);
// type code -> dt, false when the library does not support the type
bool classify_descr(const std::string &descr, int &dt, int &order, size_t &width);

// ------------------------------------------------------------------ ZIP
uint32_t crc32(const std::string &s);
// raw deflate via zlib
std::string deflate_raw(const std::string &s, int level, int strategy,
                        int memlevel, int flush_every);
bool inflate_raw(const std::string &s, std::string &out, size_t *consumed);

struct ZEntry {
  std::string name;
  std::string data; // uncompressed
  uint16_t method = 0;
  std::string comp;  // compressed bytes as stored (used if have_comp)
  bool have_comp = false;
  // ZIP64 usage
  bool z64_local = false;    // both sizes as placeholders + extra in local
  int z64_central = 0;       // bit0 uncompressed, bit1 compressed, bit2 offset
  uint16_t flags = 0;
  bool descriptor = false;   // CRC and sizes zero in the local header, behind the data instead
  uint16_t version = 20;
  uint32_t time = 0x00210000;
  // forced field values (for malformed archives); -1 = computed
  int64_t force_crc = -1;
  uint64_t gap = 0;    // bytes skipped before the entry (build_chunks only)
  uint64_t offset = 0; // filled by build
};
struct ZOpts {
  bool z64_end = false;    // write ZIP64 end record + locator
  int z64_ph = 7;          // placeholders: bit0 counts, bit1 size, bit2 offset
  std::string z64_sector;  // extensible data of the ZIP64 end record
  uint64_t base = 0;       // where the first entry starts in the file
  std::vector<size_t> order; // physical order of the entries (default: given)
};
std::string build_zip(std::vector<ZEntry> &entries, const ZOpts &o = ZOpts());
// the same as pieces of a sparse file
struct Chunk { uint64_t at; std::string bytes; };
std::vector<Chunk> build_chunks(std::vector<ZEntry> &entries, const ZOpts &o);

struct ZParsed {
  std::string name, data, comp;
  uint16_t method = 0;
  uint64_t offset = 0;
  bool z64_local = false, z64_central = false;
};
// Strict parse of a complete archive. "" or what is wrong.
// bytes are the file from `base` on, where the first entry must start.
// gaps: bytes of no entry may precede an entry or the directory.
std::string parse_zip(const std::string &bytes, std::vector<ZParsed> &out, uint64_t base = 0, bool gaps = false);

} // namespace ref
#endif
