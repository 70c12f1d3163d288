// C13 and C14: archives of large entries.
#include "bigs.h"

static void big(pbt::Case &c) {
  Big b = big_model(c, 24);
  bool disk = c.s.coin();
  std::string path = pbt::scratch() + "/big.npz";
  auto w = lib::make_writer(disk ? path : "", b.method, b.e, int(c.s.draw(2)));
  for (auto &x : b.m.e) w->write(x.name, x.a);
  w->close();
  std::string bytes = w->bytes();
  w.reset();
  auto rd = disk ? lib::make_reader_file(path) : lib::make_reader_mem(bytes);
  check_reader(*rd, b.m, c.s, "reader");
  unlink(path.c_str());
  check_zip(bytes, 0, b.m, b.method, b.e);
  check_numpy(bytes, false, b.m);
}
int main(int argc, char **argv) {
  return pbt::run(argc, argv, {{"big", big, 1}}, "an archive with an entry of 1 to 30 MiB at a boundary size, read by the library, an independent strict reader, zipfile and NumPy; non-trivial: all");
}
