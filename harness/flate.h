// A generator of raw DEFLATE streams (RFC 1951) from token sequences: every
// block type, random Huffman codes, matches up to length 258 / distance 32768.
#ifndef VERIF_FLATE_H
#define VERIF_FLATE_H
#include "pbt.h"
#include <algorithm>
#include <cstdint>
#include <string>
#include <vector>

namespace flate {
struct Bits {
  std::string out;
  uint32_t acc = 0;
  int n = 0;
  void put(uint32_t v, int k) { // LSB first
    for (int i = 0; i < k; ++i) {
      acc |= ((v >> i) & 1u) << n;
      if (++n == 8) { out += char(acc); acc = 0; n = 0; }
    }
  }
  void code(uint32_t c, int k) { for (int i = k; i-- > 0;) put((c >> i) & 1, 1); } // MSB first
  void align() { if (n) put(0, 8 - n); }
};
struct Tok { uint16_t len; uint16_t dist; uint8_t lit; }; // len 0: literal; dist 32768 stored as 0x8000
static const int LBASE[29] = {3, 4, 5, 6, 7, 8, 9, 10, 11, 13, 15, 17, 19, 23, 27, 31, 35, 43, 51, 59, 67, 83, 99, 115, 131, 163, 195, 227, 258};
static const int LEXT[29] = {0, 0, 0, 0, 0, 0, 0, 0, 1, 1, 1, 1, 2, 2, 2, 2, 3, 3, 3, 3, 4, 4, 4, 4, 5, 5, 5, 5, 0};
static const int DBASE[30] = {1, 2, 3, 4, 5, 7, 9, 13, 17, 25, 33, 49, 65, 97, 129, 193, 257, 385, 513, 769, 1025, 1537, 2049, 3073, 4097, 6145, 8193, 12289, 16385, 24577};
static const int DEXT[30] = {0, 0, 0, 0, 1, 1, 2, 2, 3, 3, 4, 4, 5, 5, 6, 6, 7, 7, 8, 8, 9, 9, 10, 10, 11, 11, 12, 12, 13, 13};
inline int lsym(int len) { int s = 28; while (LBASE[s] > len) --s; return s; }
inline int dsym(int d) { int s = 29; while (DBASE[s] > d) --s; return s; }

// Huffman lengths for frequencies (0 = unused), limited
inline std::vector<int> lengths(std::vector<uint64_t> f, int limit) {
  size_t n = f.size();
  std::vector<int> len(n, 0);
  while (true) {
    struct Node { uint64_t w; int l, r, s; };
    std::vector<Node> nodes;
    std::vector<int> heap;
    auto cmp = [&](int a, int b) { return nodes[a].w > nodes[b].w; };
    for (size_t i = 0; i < n; ++i) if (f[i]) { nodes.push_back({f[i], -1, -1, int(i)}); heap.push_back(int(nodes.size()) - 1); }
    std::fill(len.begin(), len.end(), 0);
    if (heap.empty()) return len;
    if (heap.size() == 1) { len[nodes[0].s] = 1; return len; }
    std::make_heap(heap.begin(), heap.end(), cmp);
    while (heap.size() > 1) {
      std::pop_heap(heap.begin(), heap.end(), cmp); int a = heap.back(); heap.pop_back();
      std::pop_heap(heap.begin(), heap.end(), cmp); int b = heap.back(); heap.pop_back();
      nodes.push_back({nodes[a].w + nodes[b].w, a, b, -1});
      heap.push_back(int(nodes.size()) - 1);
      std::push_heap(heap.begin(), heap.end(), cmp);
    }
    int worst = 0;
    std::vector<std::pair<int, int>> st = {{heap[0], 0}};
    while (!st.empty()) {
      auto [x, d] = st.back();
      st.pop_back();
      if (nodes[x].s >= 0) { len[nodes[x].s] = d; worst = std::max(worst, d); }
      else { st.push_back({nodes[x].l, d + 1}); st.push_back({nodes[x].r, d + 1}); }
    }
    if (worst <= limit) return len;
    for (auto &x : f) if (x) x = x / 2 + 1;
  }
}
inline std::vector<uint32_t> codes(const std::vector<int> &len) {
  std::vector<uint32_t> c(len.size(), 0);
  uint32_t code = 0;
  for (int b = 1; b <= 15; ++b) {
    code <<= 1;
    for (size_t i = 0; i < len.size(); ++i) if (len[i] == b) c[i] = code++;
  }
  return c;
}
inline void tokens(Bits &b, const std::vector<Tok> &t, size_t from, size_t to, const std::vector<int> &ll, const std::vector<int> &dl) {
  std::vector<uint32_t> lc = codes(ll), dc = codes(dl);
  for (size_t i = from; i < to; ++i) {
    if (!t[i].len) b.code(lc[t[i].lit], ll[t[i].lit]);
    else {
      int s = lsym(t[i].len), d = dsym(t[i].dist);
      b.code(lc[257 + s], ll[257 + s]);
      b.put(t[i].len - LBASE[s], LEXT[s]);
      b.code(dc[d], dl[d]);
      b.put(t[i].dist - DBASE[d], DEXT[d]);
    }
  }
  b.code(lc[256], ll[256]);
}
inline void fixed_lengths(std::vector<int> &ll, std::vector<int> &dl) {
  ll.assign(288, 8);
  for (int i = 144; i < 256; ++i) ll[i] = 9;
  for (int i = 256; i < 280; ++i) ll[i] = 7;
  dl.assign(30, 5);
}
inline void dynamic_block(Bits &b, const std::vector<Tok> &t, size_t from, size_t to, pbt::Rng &g, int style) {
  std::vector<uint64_t> lf(286, 0), df(30, 0);
  lf[256] = 1;
  bool matches = false;
  for (size_t i = from; i < to; ++i) {
    if (!t[i].len) lf[t[i].lit]++;
    else { lf[257 + lsym(t[i].len)]++; df[dsym(t[i].dist)]++; matches = true; }
  }
  // style 1: equalise; 2: skewed so that codes of 15 bits appear; 3: unused codes as well
  if (style == 1) { for (auto &x : lf) if (x) x = 1; for (auto &x : df) if (x) x = 1; }
  if (style == 2) { uint64_t w = 1; for (auto &x : lf) if (x) { x = w; w = w > (1ull << 40) ? 1 : w * 2; } }
  if (style == 3) { for (auto &x : lf) if (!x && g.next() % 3 == 0) x = 1; for (auto &x : df) if (!x && g.next() % 3 == 0) x = 1; }
  if (lf[256] == 0) lf[256] = 1;
  size_t used = 0;
  for (auto x : lf) used += x > 0;
  if (used == 1) lf[0] = 1; // a complete literal code
  size_t dused = 0;
  for (auto x : df) dused += x > 0;
  if (!matches && style != 3 && g.next() % 2) std::fill(df.begin(), df.end(), 0);
  else if (dused == 0) df[g.next() % 30] = 1;
  std::vector<int> ll = lengths(lf, 15), dl = lengths(df, 15);
  size_t hlit = 286, hdist = 30;
  if (g.next() % 2) { while (hlit > 257 && !ll[hlit - 1]) --hlit; while (hdist > 1 && !dl[hdist - 1]) --hdist; }
  std::vector<int> all(ll.begin(), ll.begin() + hlit);
  all.insert(all.end(), dl.begin(), dl.begin() + hdist);
  std::vector<std::pair<int, int>> rle; // symbol, extra value
  bool use = g.next() % 4 != 0;
  for (size_t i = 0; i < all.size();) {
    size_t k = 1;
    while (i + k < all.size() && all[i + k] == all[i]) ++k;
    if (use && all[i] == 0 && k >= 3) {
      size_t m = std::min<size_t>(k, g.next() % 5 == 0 ? 3 + g.next() % 8 : 138);
      if (m <= 10) rle.push_back({17, int(m - 3)}); else rle.push_back({18, int(m - 11)});
      i += m;
    } else if (use && i > 0 && all[i] == all[i - 1] && k >= 3) {
      size_t m = std::min<size_t>(k, 6);
      rle.push_back({16, int(m - 3)});
      i += m;
    } else { rle.push_back({all[i], 0}); ++i; }
  }
  std::vector<uint64_t> cf(19, 0);
  for (auto &r : rle) cf[r.first]++;
  size_t cused = 0;
  for (auto x : cf) cused += x > 0;
  if (cused == 1) cf[cf[0] ? 1 : 0] = 1;
  std::vector<int> cl = lengths(cf, 7);
  static const int order[19] = {16, 17, 18, 0, 8, 7, 9, 6, 10, 5, 11, 4, 12, 3, 13, 2, 14, 1, 15};
  int hclen = 19;
  while (hclen > 4 && !cl[order[hclen - 1]]) --hclen;
  b.put(uint32_t(hlit - 257), 5);
  b.put(uint32_t(hdist - 1), 5);
  b.put(uint32_t(hclen - 4), 4);
  for (int i = 0; i < hclen; ++i) b.put(cl[order[i]], 3);
  std::vector<uint32_t> cc = codes(cl);
  for (auto &r : rle) {
    b.code(cc[r.first], cl[r.first]);
    if (r.first == 16) b.put(r.second, 2);
    if (r.first == 17) b.put(r.second, 3);
    if (r.first == 18) b.put(r.second, 7);
  }
  tokens(b, t, from, to, ll, dl);
}
// expands tokens behind prefix
inline std::string expand(const std::string &prefix, const std::vector<Tok> &t) {
  std::string s = prefix;
  for (auto &x : t) {
    if (!x.len) s += char(x.lit);
    else for (int i = 0; i < x.len; ++i) s += s[s.size() - x.dist];
  }
  return s;
}
// content = prefix + tokens.  pad: bytes of empty stored blocks to add (multiple of 5) before the end
inline std::string encode(const std::string &prefix, const std::vector<Tok> &t, pbt::Source &s, size_t pad, std::string &what) {
  Bits b;
  pbt::Rng g(s.draw(0xFFFFFFFF));
  size_t mode = s.draw(4); // 0 mixed, 1 stored, 2 fixed, 3 dynamic, 4 mixed with empty blocks
  static const char *names[] = {"mixed", "stored", "fixed", "dynamic", "mixed with empty blocks"};
  what = names[mode];
  std::vector<int> fl, fd;
  fixed_lengths(fl, fd);
  std::vector<Tok> all;
  for (char ch : prefix) all.push_back({0, 0, uint8_t(ch)});
  all.insert(all.end(), t.begin(), t.end());
  std::string content = expand(prefix, t);
  size_t i = 0, pos = 0, nblocks = 1 + s.draw(8), per = std::max<size_t>(1, all.size() / nblocks);
  int style = int(s.draw(3));
  auto empty = [&](int kind, bool last) {
    b.put(last, 1);
    b.put(kind, 2);
    if (kind == 0) { b.align(); b.out += std::string("\0\0\xFF\xFF", 4); }
    else if (kind == 1) b.code(0, 7);
    else dynamic_block(b, all, 0, 0, g, 0);
  };
  while (i < all.size()) {
    size_t k = std::min(all.size() - i, 1 + size_t(g.next() % (2 * per)));
    int kind = mode == 1 ? 0 : mode == 2 ? 1 : mode == 3 ? 2 : int(g.next() % 3);
    if (mode == 4 && g.next() % 2) empty(int(g.next() % 3), false);
    size_t bytes = 0;
    for (size_t q = i; q < i + k; ++q) bytes += all[q].len ? all[q].len : 1;
    if (kind == 0) {
      size_t p = 0;
      while (p < bytes) {
        size_t m = std::min<size_t>(bytes - p, 65535);
        b.put(0, 1);
        b.put(0, 2);
        b.align();
        b.out += char(m & 255); b.out += char(m >> 8); b.out += char(~m & 255); b.out += char((~m >> 8) & 255);
        b.out.append(content, pos + p, m);
        p += m;
      }
    } else {
      b.put(0, 1);
      b.put(kind, 2);
      if (kind == 1) tokens(b, all, i, i + k, fl, fd);
      else dynamic_block(b, all, i, i + k, g, style);
    }
    i += k;
    pos += bytes;
  }
  if (pad >= 5) { b.put(0, 1); b.put(0, 2); b.align(); b.out += std::string("\0\0\xFF\xFF", 4); pad -= 5; }
  for (; pad >= 5; pad -= 5) b.out += std::string("\0\0\0\xFF\xFF", 5);
  empty(int(s.draw(2)), true);
  b.align();
  return b.out;
}
} // namespace flate
#endif
