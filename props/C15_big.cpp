// C15: large arrays in archives written by NumPy.
#include "bigs.h"

static void big(pbt::Case &c) {
  Big b = big_model(c, 24);
  std::vector<npd::Named> in;
  std::vector<bool> order;
  for (auto &x : b.m.e) {
    npd::Named q;
    q.name = x.name.substr(0, x.name.size() - 4);
    q.arr = x.a;
    in.push_back(q);
    order.push_back(x.big);
  }
  std::string bytes, err = npd::zwrite(b.method == npy::compression_method_t::DEFLATED, in, order, bytes);
  PB_ASSERT(err.empty(), "(harness) NumPy could not write: " << err);
  std::string path = pbt::scratch() + "/big.npz";
  bool disk = c.s.coin();
  if (disk) lib::spit(path, bytes);
  auto rd = disk ? lib::make_reader_file(path) : lib::make_reader_mem(bytes);
  check_reader(*rd, b.m, c.s, "reader");
  unlink(path.c_str());
}
// many small arrays, some under long names
static void many(pbt::Case &c) {
  size_t n = c.s.chance(1, 2) ? c.s.range(60, 400) : c.s.chance(1, 3) ? (size_t(1) << c.s.range(5, 11)) + c.s.draw(2) - 1 : c.s.range(400, 3000);
  bool compressed = n < 300 && c.s.coin(); // large buffers for each entry
  size_t pad = c.s.weighted({3, 1, 1});    // of the names: none, all the same, each its own
  size_t longest = pad == 2 && n > 600 ? 300 : 2500;
  std::vector<npd::Named> in;
  std::vector<bool> order;
  Model m;
  size_t common = c.s.draw(300);
  for (size_t i = 0; i < n; ++i) {
    npd::Named x;
    x.name = "e" + std::to_string(i * 7919 % n) + "_" + std::to_string(i);
    if (pad == 1) x.name = std::string(common, 'p') + x.name;
    if (pad == 2) x.name += std::string(c.s.draw(longest), 'q');
    x.arr.dt = i % 3 == 0 ? U4 : i % 3 == 1 ? I2 : F8;
    x.arr.raw.resize(DT_SIZE[x.arr.dt]);
    for (size_t k = 0; k < x.arr.raw.size(); ++k) x.arr.raw[k] = uint8_t(i * 2654435761u >> (8 * (k % 4)));
    bool b = i % 2;
    in.push_back(x);
    order.push_back(b);
    m.e.push_back({x.name + ".npy", x.arr, b});
  }
  std::string bytes, err = npd::zwrite(compressed, in, order, bytes, c.s.chance(1, 4));
  PB_ASSERT(err.empty(), "(harness) NumPy could not write: " << err);
  c.describe(std::to_string(n) + " small arrays, names " + (pad == 0 ? "short" : pad == 1 ? "alike" : "long"));
  c.label(n < 256 ? "entries: 31 to 255" : n < 1024 ? "entries: 256 to 1023" : "entries: 1024 to 3000");
  c.nontrivial();
  std::string path = pbt::scratch() + "/many.npz";
  bool disk = c.s.coin();
  if (disk) lib::spit(path, bytes);
  auto rd = disk ? lib::make_reader_file(path) : lib::make_reader_mem(bytes);
  const char *how = disk ? "from disk" : "from memory";
  check_keys(*rd, m, how);
  size_t step = compressed ? 1 + n / 40 : 1;
  for (size_t i = compressed ? c.s.draw(step - 1) : 0; i < n; i += step) {
    const std::string &stored = m.e[i].name;
    check_lookup(*rd, m, i % 2 ? stored : stored.substr(0, stored.size() - 4), c.s, how);
  }
  check_lookup(*rd, m, m.e[n - 1].name, c.s, how);
  check_lookup(*rd, m, "absent", c.s, how);
  unlink(path.c_str());
}
int main(int argc, char **argv) {
  return pbt::run(argc, argv, {{"big", big, 2}, {"many", many, 3}}, "an archive with an array of 1 to 30 MiB at a boundary size, or with 31 to 3000 small arrays and names of up to 2500 characters, written by numpy.savez or savez_compressed and read; non-trivial: all");
}
