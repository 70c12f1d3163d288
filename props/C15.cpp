// C15: NPZ archives written by NumPy are read exactly.
#include "archives.h"
#include "npd.h"

static void numpy(pbt::Case &c) {
  size_t n = c.s.chance(1, 25) ? c.s.draw(60) : c.s.weighted({1, 3, 4, 4, 3, 2, 1});
  bool compressed = c.s.coin();
  std::vector<npd::Named> in;
  std::vector<bool> big;
  Model m;
  std::string text = compressed ? "savez_compressed" : "savez";
  for (size_t i = 0; i < n; ++i) {
    npd::Named x;
    x.name = gen::name(c.s, false);
    if (x.name.empty() || x.name == "file" || x.name == "allow_pickle" || m.exact(x.name + ".npy")) x.name = "n" + std::to_string(i);
    x.arr = entry_array(c.s, 15);
    // NumPy reports arrays contiguous both ways as C order
    size_t dims = 0;
    for (auto d : x.arr.shape) dims += d != 1;
    if (dims < 2 || x.arr.count() == 0) x.arr.fortran = false;
    bool b = c.s.coin();
    in.push_back(x);
    big.push_back(b);
    m.e.push_back({x.name + ".npy", x.arr, b});
    text += " " + short_name(x.name) + "=" + x.arr.text(1);
    gen::classify(c, x.arr);
  }
  std::string bytes;
  bool pipe = c.s.chance(1, 3);
  std::string err = npd::zwrite(compressed, in, big, bytes, pipe);
  PB_ASSERT(err.empty(), "(harness) NumPy could not write: " << err);
  c.describe((pipe ? "pipe " : "") + text);
  c.label(std::string(compressed ? "savez_compressed" : "savez") + (pipe ? " to a pipe" : ""));
  if (n) c.nontrivial();
  std::string path = pbt::scratch() + "/np.npz";
  lib::spit(path, bytes);
  for (int disk = 0; disk < 2; ++disk) {
    const char *how = disk ? "from disk" : "from memory";
    auto rd = disk ? lib::make_reader_file(path, int(c.s.draw(2))) : lib::make_reader_mem(bytes, int(c.s.draw(1)));
    check_keys(*rd, m, how);
    for (auto &q : lookups(m, c.s)) {
      const Model::E *e = m.find(q);
      if (e && e->a.dt == US) { // the stored width may exceed the longest element
        npy::header_info h = rd->peek(q);
        PB_ASSERT(h.shape == e->a.shape && h.max_element_length >= e->a.max_len(), how << ": peek of a string array");
        check_arr(e->a, rd->read(q, US, int(c.s.draw(1))), how);
      } else check_lookup(*rd, m, q, c.s, how);
    }
  }
  unlink(path.c_str());
}
int main(int argc, char **argv) {
  return pbt::run(argc, argv, {{"numpy", numpy, 1}},
                  "an archive of 0 to 60 arrays (every type, byte order, memory order) written by numpy.savez or savez_compressed to a seekable file or a pipe, read back from memory and disk by every name and variant; non-trivial: it has entries");
}
