// C06: arrays written back to back on one stream are read back one by one.
#include "common.h"
#include <deque>
using namespace ref;

static void sequence(pbt::Case &c) {
  size_t n = 1 + c.s.draw(9);
  int out_kind = int(c.s.draw(1));
  std::string path = pbt::scratch() + "/seq.bin";
  std::unique_ptr<std::ostream> out;
  if (out_kind == 0) out = std::make_unique<std::ostringstream>();
  else out = std::make_unique<std::ofstream>(path, std::ios::binary | std::ios::trunc);
  if (c.s.chance(1, 4)) odd_state(c.s, *out);
  struct Item { bool junk; std::string bytes; Arr a; size_t end; };
  std::vector<Item> items;
  size_t at = 0, arrays = 0;
  std::string text;
  for (size_t i = 0; i < n; ++i) {
    Item it;
    it.junk = c.s.chance(1, 4);
    size_t before = size_t(out->tellp());
    PB_ASSERT(before == at, "(harness) position");
    if (it.junk) {
      it.bytes.resize(1 + c.s.size(200));
      c.s.fill(reinterpret_cast<uint8_t *>(it.bytes.data()), it.bytes.size());
      out->write(it.bytes.data(), std::streamsize(it.bytes.size()));
      text += " junk" + std::to_string(it.bytes.size());
      at += it.bytes.size();
    } else {
      gen::ArrOpts o;
      o.max_bytes = c.s.chance(1, 10) ? 40000 : 400;
      o.shape.max_elems = o.max_bytes;
      if (c.s.chance(1, 6)) o.max_width = 300, o.max_bytes = 4000;
      it.a = gen::array(c.s, o);
      npy::endian_t e = draw_endian(c.s);
      lib::save(*out, it.a, e, int(c.s.draw(lib::SAVE_STREAM_WAYS - 1)));
      PB_ASSERT(out->good(), "the output stream is not good after save");
      size_t grown = size_t(out->tellp()) - before;
      size_t want = lib::save(it.a, e).size();
      PB_ASSERT(grown == want, "save wrote " << grown << " bytes into a shared stream, " << want << " alone");
      at += grown;
      ++arrays;
      text += " " + it.a.text(2);
      gen::classify(c, it.a);
    }
    it.end = at;
    items.push_back(it);
  }
  std::string all;
  if (out_kind == 0) all = static_cast<std::ostringstream &>(*out).str();
  else { out.reset(); all = lib::slurp(path); unlink(path.c_str()); }
  PB_ASSERT(all.size() == at, "the stream holds " << all.size() << " bytes instead of " << at);
  int in_kind = int(c.s.draw(2));
  c.describe(std::string("in-kind ") + char('0' + in_kind) + text);
  c.label(in_kind == 0 ? "read: string stream" : in_kind == 1 ? "read: file stream" : "read: unseekable pieces");
  if (arrays >= 2) c.nontrivial();
  AnyIn in(in_kind, all, 1 + c.s.draw(100));
  if (c.s.chance(1, 4)) odd_state(c.s, *in.in);
  for (size_t i = 0; i < items.size(); ++i) {
    Item &it = items[i];
    if (it.junk) {
      std::string got(it.bytes.size(), 0);
      in.in->read(got.data(), std::streamsize(got.size()));
      PB_ASSERT(size_t(in.in->gcount()) == got.size(), "foreign bytes after an array could not be read");
      check_bytes(it.bytes, got, "foreign bytes between arrays");
    } else {
      int way = int(c.s.draw(lib::LOAD_STREAM_WAYS - 1));
      Arr got = lib::load(*in.in, it.a.dt, way);
      check_arr(it.a, got, "array " + std::to_string(i) + " of the sequence");
      PB_ASSERT(!in.in->fail(), "the stream failed after loading array " << i);
      if (it.end < all.size()) PB_ASSERT(in.in->good(), "the stream is not usable after array " << i);
      else { in.in->exceptions(std::ios::goodbit); in.in->clear(); }
      size_t pos = in.consumed();
      PB_ASSERT(pos == it.end, "after array " << i << " the stream is at " << pos << ", its data ends at " << it.end);
    }
  }
  in.in->exceptions(std::ios::goodbit);
  PB_ASSERT(in.in->get() == EOF, "bytes left over");
}
// saves and loads taking turns on one stream: each load takes the oldest array
// still there and, since it needs no byte beyond it, meets no end of data
static void turns(pbt::Case &c) {
  int kind = int(c.s.draw(1));
  std::string path = pbt::scratch() + "/turns.bin", text;
  std::unique_ptr<std::iostream> io;
  if (kind == 0) io = std::make_unique<std::stringstream>();
  else io = std::make_unique<std::fstream>(path, std::ios::binary | std::ios::trunc | std::ios::in | std::ios::out);
  if (c.s.chance(1, 3)) odd_state(c.s, *io);
  if (c.s.coin()) io->exceptions(std::ios::eofbit | std::ios::failbit | std::ios::badbit);
  std::deque<Arr> queue;
  size_t loads = 0, steps = 2 + c.s.draw(14), rd = 0, wr = 0;
  for (size_t i = 0; i < steps; ++i) {
    bool save = queue.empty() || c.s.coin();
    text += save ? " save" : " load";
    if (save) {
      gen::ArrOpts o;
      o.max_bytes = 400;
      o.shape.max_elems = 400;
      Arr a = gen::array(c.s, o);
      npy::endian_t e = draw_endian(c.s);
      if (kind) io->seekp(std::streamoff(wr)); // a file has one position
      lib::save(*io, a, e, int(c.s.draw(lib::SAVE_STREAM_WAYS - 1)));
      wr += lib::save(a, e).size();
      if (a.dt == US) for (auto &x : a.strs) while (!x.empty() && x.back() == 0) x.pop_back();
      queue.push_back(a);
    } else {
      if (kind) io->seekg(std::streamoff(rd));
      Arr got = lib::load(*io, queue.front().dt, int(c.s.draw(lib::LOAD_STREAM_WAYS - 1)));
      check_arr(queue.front(), got, "load " + std::to_string(loads) + " in turns");
      PB_ASSERT(!io->fail(), "the stream failed after load " << loads);
      queue.pop_front();
      ++loads;
      rd = size_t(io->tellg());
    }
    PB_ASSERT(io->good(), "the stream is not usable after " << (save ? "save" : "load"));
  }
  c.describe(std::string(kind ? "file:" : "string stream:") + text);
  c.label(kind ? "turns: file stream" : "turns: string stream");
  if (loads >= 2) c.nontrivial();
  io->exceptions(std::ios::goodbit);
  if (kind) unlink(path.c_str());
}
int main(int argc, char **argv) {
  return pbt::run(argc, argv, {{"sequence", sequence, 4}, {"turns", turns, 1}},
                  "a sequence of 1-10 arrays (any type, order, byte order) and foreign byte runs written to one stream and read back from a string, file or unseekable stream, position checked after each, or saves and loads taking turns on one stream; non-trivial: two or more arrays");
}
