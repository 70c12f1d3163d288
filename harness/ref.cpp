#include "ref.h"
#include <algorithm>
#include <cstring>
#include <map>
#include <sstream>
#include <zlib.h>

namespace ref {
const char *const DT_NAME[NDT] = {"i1", "u1", "i2", "u2", "i4", "u4", "i8",
                                  "u8", "f4", "f8", "c8", "c16", "b1", "U"};
const size_t DT_SIZE[NDT] = {1, 1, 2, 2, 4, 4, 8, 8, 4, 8, 8, 16, 1, 0};
const size_t DT_UNIT[NDT] = {1, 1, 2, 2, 4, 4, 8, 8, 4, 8, 4, 8, 1, 4};

size_t Arr::count() const {
  size_t n = 1;
  for (auto d : shape) n *= d;
  for (auto d : shape) if (d == 0) return 0;
  return n;
}
size_t Arr::max_len() const {
  size_t m = 0;
  for (auto &s : strs) m = std::max(m, s.size());
  return m;
}
bool Arr::operator==(const Arr &o) const {
  return dt == o.dt && shape == o.shape && fortran == o.fortran &&
         raw == o.raw && strs == o.strs;
}
std::string Arr::text(size_t max_elems) const {
  std::ostringstream o;
  o << DT_NAME[dt] << " shape=" << shape_text(shape) << (fortran ? " F" : " C");
  if (dt == US) {
    o << " [";
    for (size_t i = 0; i < strs.size() && i < max_elems; ++i) {
      o << (i ? "," : "") << "'";
      for (size_t k = 0; k < strs[i].size() && k < 12; ++k) {
        uint32_t c = strs[i][k];
        if (c >= 0x20 && c < 0x7f) o << char(c);
        else o << "\\u{" << std::hex << c << std::dec << "}";
      }
      if (strs[i].size() > 12) o << "..len" << strs[i].size();
      o << "'";
    }
    o << (strs.size() > max_elems ? ",..]" : "]");
  } else {
    o << " bytes=";
    char b[4];
    for (size_t i = 0; i < raw.size() && i < max_elems * 4; ++i) {
      snprintf(b, 4, "%02x", raw[i]);
      o << b;
    }
    if (raw.size() > max_elems * 4) o << "..(" << raw.size() << ")";
  }
  return o.str();
}
std::string diff(const Arr &e, const Arr &a) {
  std::ostringstream o;
  if (e.dt != a.dt) o << "type: expected " << DT_NAME[e.dt] << " got " << DT_NAME[a.dt];
  else if (e.shape != a.shape) o << "shape: expected " << shape_text(e.shape) << " got " << shape_text(a.shape);
  else if (e.fortran != a.fortran) o << "memory order: expected " << (e.fortran ? "F" : "C") << " got " << (a.fortran ? "F" : "C");
  else if (e.raw != a.raw) {
    if (e.raw.size() != a.raw.size()) o << "data size: expected " << e.raw.size() << " got " << a.raw.size();
    else {
      size_t i = 0;
      while (e.raw[i] == a.raw[i]) ++i;
      o << "element byte " << i << " of " << e.raw.size() << ": expected " << int(e.raw[i]) << " got " << int(a.raw[i]);
    }
  } else if (e.strs != a.strs) {
    if (e.strs.size() != a.strs.size()) o << "string count: expected " << e.strs.size() << " got " << a.strs.size();
    else {
      size_t i = 0;
      while (e.strs[i] == a.strs[i]) ++i;
      o << "string element " << i << ": expected length " << e.strs[i].size() << " got length " << a.strs[i].size();
      for (size_t k = 0; k < std::min(e.strs[i].size(), a.strs[i].size()); ++k)
        if (e.strs[i][k] != a.strs[i][k]) { o << ", first difference at character " << k << ": expected " << e.strs[i][k] << " got " << a.strs[i][k]; break; }
    }
  }
  return o.str();
}
std::string diff_bytes(const std::string &e, const std::string &a) {
  if (e == a) return "";
  std::ostringstream o;
  size_t i = 0;
  while (i < e.size() && i < a.size() && e[i] == a[i]) ++i;
  o << "sizes " << e.size() << "/" << a.size() << ", first difference at byte " << i;
  if (i < e.size() && i < a.size()) o << " (expected " << int((unsigned char)e[i]) << ", got " << int((unsigned char)a[i]) << ")";
  return o.str();
}

std::string descr(int dt, bool big, size_t max_len) {
  std::string r;
  if (DT_UNIT[dt] == 1) r = "|";
  else r = big ? ">" : "<";
  r += DT_NAME[dt];
  if (dt == US) r += std::to_string(max_len);
  return r;
}
std::string shape_text(const std::vector<size_t> &shape) {
  std::string r = "(";
  for (size_t i = 0; i < shape.size(); ++i) {
    if (i) r += ", ";
    r += std::to_string(shape[i]);
  }
  if (shape.size() == 1) r += ",";
  return r + ")";
}
static bool host_big() {
  uint16_t x = 1;
  uint8_t b;
  memcpy(&b, &x, 1);
  return b == 0;
}
std::string encode_payload(const Arr &a, bool big, size_t width) {
  std::string out;
  if (a.dt == US) {
    out.reserve(a.strs.size() * width * 4);
    for (auto &s : a.strs)
      for (size_t i = 0; i < width; ++i) {
        uint32_t v = i < s.size() ? s[i] : 0;
        for (int k = 0; k < 4; ++k)
          out.push_back(char((v >> (8 * (big ? 3 - k : k))) & 0xFF));
      }
    return out;
  }
  out.assign(a.raw.begin(), a.raw.end());
  size_t u = DT_UNIT[a.dt];
  if (u > 1 && big != host_big())
    for (size_t i = 0; i + u <= out.size(); i += u)
      std::reverse(out.begin() + i, out.begin() + i + u);
  return out;
}
std::string wrap_header(const std::string &dict, int version, size_t align, size_t extra) {
  size_t pre = version == 1 ? 10 : 12;
  std::string d = dict + std::string(extra, ' ');
  if (align) while ((pre + d.size() + 1) % align) d += ' ';
  d += '\n';
  std::string out("\x93NUMPY", 6);
  out += char(version);
  out += char(0);
  size_t n = d.size();
  out += char(n & 0xFF);
  out += char((n >> 8) & 0xFF);
  if (version != 1) {
    out += char((n >> 16) & 0xFF);
    out += char((n >> 24) & 0xFF);
  }
  return out + d;
}
std::string encode_npy_header(const std::string &descr, bool fortran, const std::vector<size_t> &shape) {
  std::string d = "{'descr': '" + descr + "', 'fortran_order': " +
                  (fortran ? "True" : "False") + ", 'shape': " + shape_text(shape) + ", }";
  return wrap_header(d, d.size() + 75 > 65535 ? 2 : 1, 64);
}
std::string encode_npy(const Arr &a, bool big) {
  size_t w = a.max_len();
  return encode_npy_header(descr(a.dt, big, w), a.fortran, a.shape) + encode_payload(a, big, w);
}

// ---------------------------------------------------------------- literals
namespace {
struct Lit {
  enum K { STR, BOOL, NONE, INT, TUPLE, LIST, DICT, OTHER } k = OTHER;
  std::string s;
  bool b = false;
  bool neg = false, overflow = false;
  uint64_t i = 0;
  std::vector<Lit> items;
  std::vector<std::pair<Lit, Lit>> kv;
};
struct Parser {
  const std::string &t;
  size_t p = 0;
  explicit Parser(const std::string &x) : t(x) {}
  void ws() { while (p < t.size() && strchr(" \t\r\n\f\v", t[p]) && t[p]) ++p; }
  bool eat(char c) { ws(); if (p < t.size() && t[p] == c) { ++p; return true; } return false; }
  bool parse(Lit &l, int depth = 0) {
    if (depth > 8) return false;
    ws();
    if (p >= t.size()) return false;
    char c = t[p];
    if (c == '\'' || c == '"') {
      ++p;
      l.k = Lit::STR;
      while (p < t.size() && t[p] != c) {
        if (t[p] == '\\' || t[p] == '\n') return false;
        l.s += t[p++];
      }
      if (p >= t.size()) return false;
      ++p;
      return true;
    }
    if (c == '(' || c == '[') {
      char end = c == '(' ? ')' : ']';
      ++p;
      l.k = c == '(' ? Lit::TUPLE : Lit::LIST;
      bool comma = false;
      while (true) {
        if (eat(end)) break;
        if (!l.items.empty() && !comma) return false;
        Lit x;
        if (!parse(x, depth + 1)) return false;
        l.items.push_back(x);
        comma = eat(',');
      }
      // "(3)" is just 3 in Python; keep it as a tuple-like with a mark
      l.b = c == '(' && l.items.size() == 1 && !comma;
      return true;
    }
    if (c == '{') {
      ++p;
      l.k = Lit::DICT;
      bool comma = false;
      while (true) {
        if (eat('}')) break;
        if (!l.kv.empty() && !comma) return false;
        Lit k, v;
        if (!parse(k, depth + 1)) return false;
        if (!eat(':')) return false;
        if (!parse(v, depth + 1)) return false;
        l.kv.emplace_back(k, v);
        comma = eat(',');
      }
      return true;
    }
    if ((c >= '0' && c <= '9') || c == '-' || c == '+') {
      l.k = Lit::INT;
      l.neg = c == '-';
      if (c == '-' || c == '+') { ++p; ws(); }
      size_t n = 0;
      while (p < t.size() && ((t[p] >= '0' && t[p] <= '9'))) {
        unsigned __int128 v = (unsigned __int128)l.i * 10 + (t[p] - '0');
        if (v > UINT64_MAX) l.overflow = true;
        l.i = uint64_t(v);
        ++p; ++n;
      }
      if (!n) return false;
      if (p < t.size() && (isalnum((unsigned char)t[p]) || t[p] == '_' || t[p] == '.')) return false;
      return true;
    }
    size_t q = p;
    while (q < t.size() && (isalnum((unsigned char)t[q]) || t[q] == '_')) ++q;
    std::string w = t.substr(p, q - p);
    p = q;
    if (w == "True" || w == "False") { l.k = Lit::BOOL; l.b = w == "True"; return true; }
    if (w == "None") { l.k = Lit::NONE; return true; }
    return false;
  }
};
} // namespace

bool classify_descr(const std::string &d, int &dt, int &order, size_t &width) {
  dt = -1; order = 0; width = 0;
  if (d.empty()) return false;
  size_t p = 0;
  if (strchr("<>|=", d[0])) { order = d[0]; p = 1; }
  std::string code = d.substr(p);
  if (code.empty()) return false;
  if (code[0] == 'U') {
    if (code.size() < 2) return false;
    for (size_t i = 1; i < code.size(); ++i) {
      if (code[i] < '0' || code[i] > '9') return false;
      if (width > (SIZE_MAX - 9) / 10) return false;
      width = width * 10 + (code[i] - '0');
    }
    dt = US;
    return true;
  }
  for (int i = 0; i < US; ++i)
    if (code == DT_NAME[i]) { dt = i; return true; }
  return false;
}
std::string parse_dict(const std::string &dict, Header &h) {
  Parser ps(dict);
  Lit d;
  if (!ps.parse(d) || d.k != Lit::DICT) return "not a dictionary literal";
  bool hd = false, hf = false, hs = false;
  for (auto &kv : d.kv) {
    if (kv.first.k != Lit::STR) return "key is not a string";
    const std::string &k = kv.first.s;
    const Lit &v = kv.second;
    if (k == "descr") {
      hd = true;
      if (v.k != Lit::STR) return "descr is not a string";
      h.descr = v.s;
      if (!classify_descr(v.s, h.dt, h.order, h.width)) return "unsupported descr " + v.s;
    } else if (k == "fortran_order") {
      hf = true;
      if (v.k != Lit::BOOL) return "fortran_order is not a boolean";
      h.fortran = v.b;
    } else if (k == "shape") {
      hs = true;
      h.shape.clear();
      if (v.k != Lit::TUPLE) return "shape is not a tuple";
      for (auto &x : v.items) {
        if (x.k != Lit::INT) return "dimension is not an integer";
        if ((x.neg && x.i) || x.overflow) return "dimension out of range";
        h.shape.push_back(x.i);
      }
    } else return "unknown key " + k;
  }
  if (!hd || !hf || !hs) return "missing key";
  return "";
}
std::string parse_header(const std::string &b, Header &h, bool strict) {
  if (b.size() < 10) return "shorter than the preamble";
  if (b.compare(0, 6, std::string("\x93NUMPY", 6)) != 0) return "wrong magic";
  int maj = (unsigned char)b[6], min = (unsigned char)b[7];
  if (!((maj == 1 || maj == 2 || maj == 3) && min == 0)) return "unknown version";
  size_t pre = maj == 1 ? 10 : 12;
  if (b.size() < pre) return "shorter than the preamble";
  size_t n = (unsigned char)b[8] | (size_t((unsigned char)b[9]) << 8);
  if (maj != 1) n |= (size_t((unsigned char)b[10]) << 16) | (size_t((unsigned char)b[11]) << 24);
  if (b.size() - pre < n) return "header length beyond the end";
  h.size = pre + n;
  std::string dict = b.substr(pre, n);
  std::string e = parse_dict(dict, h);
  if (!e.empty()) return e;
  if (strict) {
    if (dict.empty() || dict.back() != '\n') return "header does not end in a newline";
    size_t close = dict.rfind('}');
    for (size_t i = close + 1; i + 1 < dict.size(); ++i)
      if (dict[i] != ' ') return "header padding is not spaces";
    if ((pre + n) % 64) return "header is not aligned to 64 bytes";
    for (unsigned char c : dict) if (c >= 0x80) return "header is not ASCII";
  }
  return "";
}
static void take_payload(const char *p, const Header &h, Arr &a) {
  bool big = h.order == '>' || (h.order != '<' && host_big());
  size_t n = a.count();
  if (h.dt == US) {
    a.strs.resize(n);
    for (size_t i = 0; i < n; ++i) {
      Str s;
      for (size_t k = 0; k < h.width; ++k, p += 4) {
        uint32_t v = 0;
        for (int q = 0; q < 4; ++q) v |= uint32_t((unsigned char)p[q]) << (8 * (big ? 3 - q : q));
        s.push_back(v);
      }
      while (!s.empty() && s.back() == 0) s.pop_back();
      a.strs[i] = s;
    }
  } else {
    a.raw.assign(p, p + n * DT_SIZE[h.dt]);
    size_t u = DT_UNIT[h.dt];
    if (u > 1 && big != host_big())
      for (size_t i = 0; i + u <= a.raw.size(); i += u)
        std::reverse(a.raw.begin() + i, a.raw.begin() + i + u);
  }
}
std::string decode_lenient(const std::string &b, const Header &h, Arr &a) {
  a = Arr();
  a.dt = h.dt;
  a.shape = h.shape;
  a.fortran = h.fortran;
  unsigned __int128 n = h.dt == US ? h.width * 4 : DT_SIZE[h.dt];
  bool zero = n == 0;
  for (size_t d : h.shape) zero |= d == 0;
  for (size_t d : h.shape) {
    if (zero) break;
    n *= d;
    if (n > b.size()) return "the payload is shorter than declared";
  }
  if (!zero && b.size() - h.size < n) return "the payload is shorter than declared";
  if (zero && h.dt == US) { // width 0: the number of elements is unbounded
    unsigned __int128 k = 1;
    bool empty = false;
    for (size_t d : h.shape) empty |= d == 0;
    for (size_t d : h.shape) if (!empty) { k *= d; if (k > (1u << 26)) return "too many elements"; }
  }
  take_payload(b.data() + h.size, h, a);
  return "";
}
std::string decode_npy(const std::string &b, Header &h, Arr &a, bool &big) {
  std::string e = parse_header(b, h, true);
  if (!e.empty()) return e;
  a = Arr();
  a.dt = h.dt;
  a.shape = h.shape;
  a.fortran = h.fortran;
  size_t isz = h.dt == US ? h.width * 4 : DT_SIZE[h.dt];
  size_t n = a.count();
  if (b.size() - h.size != n * isz) {
    std::ostringstream o;
    o << "payload is " << (b.size() - h.size) << " bytes, header calls for " << n * isz;
    return o.str();
  }
  if (DT_UNIT[h.dt] > 1 && h.order != '<' && h.order != '>') return "multi-byte type without explicit byte order: " + h.descr;
  if (DT_UNIT[h.dt] == 1 && h.order != '|') return "single-byte type with byte order: " + h.descr;
  big = h.order == '>';
  take_payload(b.data() + h.size, h, a);
  return "";
}

// -------------------------------------------------------------------- zip
uint32_t crc32(const std::string &s) {
  uLong c = ::crc32(0, nullptr, 0);
  size_t p = 0;
  while (p < s.size()) {
    size_t n = std::min<size_t>(s.size() - p, 1u << 30);
    c = ::crc32(c, reinterpret_cast<const Bytef *>(s.data() + p), uInt(n));
    p += n;
  }
  return uint32_t(c);
}
std::string deflate_raw(const std::string &s, int level, int strategy, int memlevel, int flush_every) {
  z_stream z;
  memset(&z, 0, sizeof z);
  deflateInit2(&z, level, Z_DEFLATED, -15, memlevel, strategy);
  std::string out;
  std::vector<unsigned char> buf(1 << 16);
  size_t p = 0;
  int ret;
  do {
    size_t n = s.size() - p;
    bool last = true;
    if (flush_every && n > size_t(flush_every)) { n = flush_every; last = false; }
    z.next_in = reinterpret_cast<Bytef *>(const_cast<char *>(s.data() + p));
    z.avail_in = uInt(n);
    p += n;
    do {
      z.next_out = buf.data();
      z.avail_out = uInt(buf.size());
      ret = deflate(&z, last ? Z_FINISH : (p / (flush_every ? flush_every : 1)) % 2 ? Z_SYNC_FLUSH : Z_FULL_FLUSH);
      out.append(reinterpret_cast<char *>(buf.data()), buf.size() - z.avail_out);
    } while (z.avail_out == 0);
    if (last) break;
  } while (true);
  (void)ret;
  deflateEnd(&z);
  return out;
}
bool inflate_raw(const std::string &s, std::string &out, size_t *consumed) {
  z_stream z;
  memset(&z, 0, sizeof z);
  inflateInit2(&z, -15);
  z.next_in = reinterpret_cast<Bytef *>(const_cast<char *>(s.data()));
  z.avail_in = uInt(s.size());
  std::vector<unsigned char> buf(1 << 16);
  out.clear();
  int ret;
  do {
    z.next_out = buf.data();
    z.avail_out = uInt(buf.size());
    ret = inflate(&z, Z_NO_FLUSH);
    out.append(reinterpret_cast<char *>(buf.data()), buf.size() - z.avail_out);
  } while (ret == Z_OK);
  if (consumed) *consumed = s.size() - z.avail_in;
  inflateEnd(&z);
  return ret == Z_STREAM_END;
}
namespace {
void p16(std::string &o, uint64_t v) { o += char(v & 0xFF); o += char((v >> 8) & 0xFF); }
void p32(std::string &o, uint64_t v) { p16(o, v); p16(o, v >> 16); }
void p64(std::string &o, uint64_t v) { p32(o, v); p32(o, v >> 32); }
} // namespace
std::vector<Chunk> build_chunks(std::vector<ZEntry> &es, const ZOpts &o) {
  std::vector<Chunk> chunks{{o.base, ""}};
#define out chunks.back().bytes
#define here (chunks.back().at + chunks.back().bytes.size())
  std::vector<size_t> order = o.order;
  if (order.empty()) for (size_t i = 0; i < es.size(); ++i) order.push_back(i);
  std::vector<uint32_t> crcs(es.size());
  for (size_t i : order) {
    ZEntry &e = es[i];
    if (!e.have_comp) e.comp = e.method == 8 ? deflate_raw(e.data, 6, 0, 8, 0) : e.data;
    if (e.gap) { uint64_t at = here + e.gap; chunks.push_back({at, ""}); }
    e.offset = here;
    crcs[i] = e.force_crc >= 0 ? uint32_t(e.force_crc) : crc32(e.data);
    if (e.descriptor) e.flags |= 8;
    uint64_t lcrc = e.descriptor ? 0 : crcs[i], lunc = e.descriptor ? 0 : e.data.size(), lcomp = e.descriptor ? 0 : e.comp.size();
    p32(out, 0x04034b50);
    p16(out, e.z64_local ? 45 : e.version);
    p16(out, e.flags);
    p16(out, e.method);
    p32(out, e.time);
    p32(out, lcrc);
    p32(out, e.z64_local ? 0xFFFFFFFFu : lcomp);
    p32(out, e.z64_local ? 0xFFFFFFFFu : lunc);
    p16(out, e.name.size());
    p16(out, e.z64_local ? 20 : 0);
    out += e.name;
    if (e.z64_local) { p16(out, 1); p16(out, 16); p64(out, lunc); p64(out, lcomp); }
    out += e.comp;
    if (e.descriptor) {
      p32(out, 0x08074b50);
      p32(out, crcs[i]);
      if (e.z64_local) { p64(out, e.comp.size()); p64(out, e.data.size()); }
      else { p32(out, e.comp.size()); p32(out, e.data.size()); }
    }
  }
  uint64_t cd = here;
  for (size_t i = 0; i < es.size(); ++i) {
    ZEntry &e = es[i];
    std::string ex;
    if (e.offset >= 0xFFFFFFFFu) e.z64_central |= 4;
    if (e.z64_central & 1) p64(ex, e.data.size());
    if (e.z64_central & 2) p64(ex, e.comp.size());
    if (e.z64_central & 4) p64(ex, e.offset);
    p32(out, 0x02014b50);
    p16(out, 20 | (3 << 8));
    p16(out, e.z64_central || e.z64_local ? 45 : e.version);
    p16(out, e.flags);
    p16(out, e.method);
    p32(out, e.time);
    p32(out, crcs[i]);
    p32(out, e.z64_central & 2 ? 0xFFFFFFFFu : e.comp.size());
    p32(out, e.z64_central & 1 ? 0xFFFFFFFFu : e.data.size());
    p16(out, e.name.size());
    p16(out, ex.empty() ? 0 : ex.size() + 4);
    p16(out, 0);
    p16(out, 0);
    p16(out, 0);
    p32(out, 0x01800000);
    p32(out, e.z64_central & 4 ? 0xFFFFFFFFu : e.offset);
    out += e.name;
    if (!ex.empty()) { p16(out, 1); p16(out, ex.size()); out += ex; }
  }
  uint64_t cdsize = here - cd;
  bool z64 = o.z64_end || es.size() > 65535 || cd > 0xFFFFFFFEull;
  int ph = o.z64_end ? o.z64_ph : 0;
  if (z64) {
    uint64_t at = here;
    p32(out, 0x06064b50);
    p64(out, 44 + o.z64_sector.size());
    p16(out, 45);
    p16(out, 45);
    p32(out, 0);
    p32(out, 0);
    p64(out, es.size());
    p64(out, es.size());
    p64(out, cdsize);
    p64(out, cd);
    out += o.z64_sector;
    p32(out, 0x07064b50);
    p32(out, 0);
    p64(out, at);
    p32(out, 1);
  }
  p32(out, 0x06054b50);
  p16(out, 0);
  p16(out, 0);
  p16(out, (ph & 1) || es.size() > 65535 ? 0xFFFF : es.size());
  p16(out, (ph & 1) || es.size() > 65535 ? 0xFFFF : es.size());
  p32(out, ph & 2 ? 0xFFFFFFFFu : cdsize);
  p32(out, (ph & 4) || cd > 0xFFFFFFFEull ? 0xFFFFFFFFu : cd);
  p16(out, 0);
  return chunks;
#undef out
#undef here
}
std::string build_zip(std::vector<ZEntry> &es, const ZOpts &o) {
  std::string r;
  for (auto &c : build_chunks(es, o)) r += c.bytes;
  return r;
}
namespace {
struct Rd {
  const std::string &b;
  uint64_t p;
  uint64_t base = 0;
  bool ok = true;
  bool has(uint64_t n) { return ok = ok && p >= base && p - base <= b.size() && n <= b.size() - (p - base); }
  uint64_t get(int n) {
    if (!has(n)) return 0;
    uint64_t v = 0;
    for (int i = 0; i < n; ++i) v |= uint64_t((unsigned char)b[p - base + i]) << (8 * i);
    p += n;
    return v;
  }
  std::string str(uint64_t n) {
    if (!has(n)) return "";
    std::string s = b.substr(p - base, n);
    p += n;
    return s;
  }
};
struct Rec { uint64_t flags, method, time, crc, comp, unc, namelen, extralen, off = 0; std::string name; bool z64 = false; };
// applies the ZIP64 extra field; returns error
std::string extra(const std::string &ex, Rec &r, bool central) {
  size_t p = 0;
  bool need = r.unc == 0xFFFFFFFFu || r.comp == 0xFFFFFFFFu || (central && r.off == 0xFFFFFFFFu);
  bool found = false;
  while (p < ex.size()) {
    if (p + 4 > ex.size()) return "extra field area is not a sequence of (tag, size, data) blocks";
    unsigned tag = (unsigned char)ex[p] | ((unsigned char)ex[p + 1] << 8);
    size_t n = (unsigned char)ex[p + 2] | ((unsigned char)ex[p + 3] << 8);
    p += 4;
    if (p + n > ex.size()) return "extra field block runs past the declared extra length";
    if (tag == 1) {
      found = true;
      Rd rd{ex, p};
      uint64_t used = 0;
      if (r.unc == 0xFFFFFFFFu) { r.unc = rd.get(8); used += 8; }
      if (r.comp == 0xFFFFFFFFu) { r.comp = rd.get(8); used += 8; }
      if (central && r.off == 0xFFFFFFFFu) { r.off = rd.get(8); used += 8; }
      if (used > n) return "ZIP64 extra field too short";
      if (!central && used && n < 16) return "local ZIP64 extra field without both sizes";
      r.z64 = true;
    }
    p += n;
  }
  if (need && !found) return "placeholder without ZIP64 extra field";
  return "";
}
} // namespace
std::string parse_zip(const std::string &b, std::vector<ZParsed> &out, uint64_t base, bool gaps) {
  out.clear();
  std::ostringstream err;
  if (b.size() < 22) return "no room for an end record";
  uint64_t ep = base + b.size() - 22;
  Rd r{b, ep, base};
  if (r.get(4) != 0x06054b50) return "no end-of-central-directory record at the end";
  uint64_t d1 = r.get(2), d2 = r.get(2), n1 = r.get(2), n2 = r.get(2), size = r.get(4), off = r.get(4), cl = r.get(2);
  if (d1 || d2) return "multi-disk numbers in the end record";
  if (n1 != n2) return "entry counts of the end record disagree";
  if (cl) return "comment length without a comment";
  uint64_t n = n1, cdend = ep;
  if (n == 0xFFFF || size == 0xFFFFFFFFu || off == 0xFFFFFFFFu) {
    bool have = false;
    if (ep >= base + 20) {
      Rd l{b, ep - 20, base};
      if (l.get(4) == 0x07064b50) {
        have = true;
        uint64_t ld = l.get(4), zo = l.get(8), nd = l.get(4);
        if (ld != 0 || nd != 1) return "bad disk numbers in the ZIP64 locator";
        Rd z{b, zo, base};
        if (z.get(4) != 0x06064b50) return "ZIP64 locator does not point at a ZIP64 end record";
        uint64_t zs = z.get(8);
        z.get(2);
        if (z.get(2) > 45) return "unsupported version needed in ZIP64 end record";
        if (z.get(4) || z.get(4)) return "disk numbers in ZIP64 end record";
        uint64_t z1 = z.get(8), z2 = z.get(8), zsize = z.get(8), zoff = z.get(8);
        if (zo + 12 + zs != ep - 20) return "ZIP64 end record size is wrong";
        if (z1 != z2) return "entry counts of the ZIP64 end record disagree";
        if (n != 0xFFFF && n != z1) return "entry counts of the two end records disagree";
        if (size != 0xFFFFFFFFu && size != zsize) return "directory sizes of the two end records disagree";
        if (off != 0xFFFFFFFFu && off != zoff) return "directory offsets of the two end records disagree";
        n = z1; size = zsize; off = zoff; cdend = zo;
      }
    }
    if (!have && !(n == 0xFFFF && size != 0xFFFFFFFFu && off != 0xFFFFFFFFu)) return "placeholder in the end record without ZIP64 records";
  }
  if (off + size != cdend) { err << "central directory [" << off << ", +" << size << ") does not end where the end records begin (" << cdend << ")"; return err.str(); }
  r.p = off;
  r.ok = true;
  std::vector<std::pair<uint64_t, uint64_t>> used;
  for (uint64_t i = 0; i < n; ++i) {
    Rec c;
    if (r.get(4) != 0x02014b50) { err << "bad central header signature for entry " << i; return err.str(); }
    r.get(2);
    uint64_t vn = r.get(2);
    c.flags = r.get(2); c.method = r.get(2); c.time = r.get(4); c.crc = r.get(4); c.comp = r.get(4); c.unc = r.get(4);
    c.namelen = r.get(2); c.extralen = r.get(2);
    uint64_t cm = r.get(2), dk = r.get(2);
    r.get(2); r.get(4);
    c.off = r.get(4);
    c.name = r.str(c.namelen);
    std::string ex = r.str(c.extralen);
    r.str(cm);
    if (!r.ok) return "central directory truncated";
    if (dk) return "disk number in central header";
    std::string e = extra(ex, c, true);
    if (!e.empty()) return "central header of '" + c.name.substr(0, 40) + "': " + e;
    if (vn > 45) return "version needed too high";
    if (c.z64 && vn < 45) return "ZIP64 fields but version needed below 4.5";
    if (c.method == 8 && vn < 20) return "deflate but version needed below 2.0";
    Rd l{b, c.off, base};
    Rec h;
    if (l.get(4) != 0x04034b50) return "offset of '" + c.name.substr(0, 40) + "' is not a local header";
    uint64_t lv = l.get(2);
    h.flags = l.get(2); h.method = l.get(2); h.time = l.get(4); h.crc = l.get(4); h.comp = l.get(4); h.unc = l.get(4);
    h.namelen = l.get(2); h.extralen = l.get(2);
    h.name = l.str(h.namelen);
    std::string lex = l.str(h.extralen);
    if (!l.ok) return "local header truncated";
    bool ph = h.unc == 0xFFFFFFFFu || h.comp == 0xFFFFFFFFu;
    e = extra(lex, h, false);
    if (!e.empty()) return "local header of '" + c.name.substr(0, 40) + "': " + e;
    if (ph && lv < 45) return "local ZIP64 fields but version needed below 4.5";
    if (h.name != c.name) return "local and central names differ";
    bool descriptor = (h.flags & 8) && !h.crc && !h.comp && !h.unc;
    if (descriptor) { h.crc = c.crc; h.comp = c.comp; h.unc = c.unc; }
    if (h.flags != c.flags || h.method != c.method || h.time != c.time || h.crc != c.crc || h.comp != c.comp || h.unc != c.unc)
      return "local and central headers of '" + c.name.substr(0, 40) + "' disagree";
    ZParsed z;
    z.name = c.name;
    z.method = uint16_t(c.method);
    z.offset = c.off;
    z.z64_local = h.z64;
    z.z64_central = c.z64;
    z.comp = l.str(c.comp);
    if (!l.ok) return "entry data runs past the end";
    if (descriptor) {
      if (l.has(4) && l.get(4) != 0x08074b50) l.p -= 4; // the signature is optional
      int w = h.z64 ? 8 : 4;
      uint64_t dcrc = l.get(4), dcomp = l.get(w), dunc = l.get(w);
      if (!l.ok || dcrc != c.crc || dcomp != c.comp || dunc != c.unc) return "data descriptor of '" + c.name.substr(0, 40) + "' is wrong";
    }
    used.emplace_back(c.off, l.p);
    if (c.method == 0) {
      if (c.comp != c.unc) return "stored entry with differing sizes";
      z.data = z.comp;
    } else if (c.method == 8) {
      size_t consumed = 0;
      if (!inflate_raw(z.comp, z.data, &consumed)) return "entry '" + c.name.substr(0, 40) + "' is not a valid deflate stream";
      if (consumed != z.comp.size()) return "compressed size covers bytes after the deflate stream";
      if (z.data.size() != c.unc) return "uncompressed size is wrong";
    } else return "unknown compression method";
    if (crc32(z.data) != c.crc) return "CRC-32 of '" + c.name.substr(0, 40) + "' is wrong";
    out.push_back(std::move(z));
  }
  if (r.p != off + size) return "central directory size is wrong";
  std::sort(used.begin(), used.end());
  uint64_t at = base;
  for (auto &u : used) {
    if (u.first < at) return "entries overlap";
    if (u.first > at && !gaps) return "gap before an entry";
    at = u.second;
  }
  if (at > off || (at != off && !gaps)) return "entries overlap the central directory or leave a gap before it";
  return "";
}
} // namespace ref
