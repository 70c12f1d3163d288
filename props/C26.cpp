// C26: type codes map one-to-one to element types and byte orders.
#include "common.h"
using namespace ref;

static std::string random_code(pbt::Source &s) {
  static const char *O[] = {"<", ">", "|", "=", "", "@", "!"};
  static const char *K = "iufcbUSVOMmahdqx?";
  std::string r = O[s.draw(6)];
  switch (s.weighted({6, 2, 1})) {
  case 0: r += K[s.draw(16)]; r += std::to_string(s.coin() ? size_t(1) << s.draw(5) : size_t(s.draw(20))); break;
  case 1: r = descr(gen::dtype(s), s.coin(), s.draw(5)); if (!r.empty()) { size_t at = s.draw(r.size() - 1); if (s.coin()) r[at] = char(s.draw(255)); else r.insert(at, 1, char(s.draw(127))); } break;
  default: { size_t n = s.draw(6); r.clear(); for (size_t i = 0; i < n; ++i) r += char(s.draw(255)); }
  }
  return r;
}
// codes NumPy also understands although it never writes them: a library may
// accept them, with NumPy's meaning
static bool alias(const std::string &c, int &dt) {
  std::string t = c;
  if (!t.empty() && strchr("<>=|", t[0])) t = t.substr(1);
  for (dt = 0; dt < US; ++dt) if (t == DT_NAME[dt]) return true;
  if (t == "?") { dt = B1; return true; }
  return false;
}
static void check_all(const std::string &when) {
  for (int d = 0; d < US; ++d)
    for (int k = 0; k < 3; ++k) {
      npy::endian_t e = k == 0 ? npy::endian_t::LITTLE : k == 1 ? npy::endian_t::BIG : npy::endian_t::NATIVE;
      std::string got, want = descr(d, is_big(e), 0);
      try { got = npy::to_dtype(lib::code_of(d), e); } catch (const std::exception &x) { PB_FAIL(when << "to_dtype(" << DT_NAME[d] << ", " << endian_name(e) << ") threw " << x.what()); }
      PB_ASSERT(got == want, when << "to_dtype(" << DT_NAME[d] << ", " << endian_name(e) << ") is '" << got << "', NumPy's code is '" << want << "'");
      std::pair<npy::data_type_t, npy::endian_t> p;
      try { p = npy::from_dtype(want); } catch (const std::exception &x) { PB_FAIL(when << "from_dtype('" << want << "') threw " << x.what()); }
      PB_ASSERT(p.first == lib::code_of(d), when << "from_dtype('" << want << "') gives type " << lib::dt_of(p.first) << " instead of " << DT_NAME[d]);
      if (DT_UNIT[d] > 1) PB_ASSERT(p.second == (is_big(e) ? npy::endian_t::BIG : npy::endian_t::LITTLE), when << "from_dtype('" << want << "') gives the wrong byte order");
    }
  PB_ASSERT(npy::to_dtype(npy::data_type_t::INT32) == npy::to_dtype(npy::data_type_t::INT32, npy::endian_t::NATIVE), when << "the default byte order is not the native one");
}
static void codes(pbt::Case &c) {
  std::string text, when;
  if (c.s.coin()) check_all("");
  size_t k = 1 + c.s.draw(9);
  bool rejected = false;
  for (size_t i = 0; i < k; ++i) {
    switch (c.s.weighted({4, 5, 1, 4})) {
    case 0: { // a pair
      int d = int(c.s.draw(US - 1));
      npy::endian_t e = draw_endian(c.s);
      std::string got = npy::to_dtype(lib::code_of(d), e);
      text += " to(" + std::string(DT_NAME[d]) + "," + endian_name(e) + ")";
      PB_ASSERT(got == descr(d, is_big(e), 0), "to_dtype(" << DT_NAME[d] << ", " << endian_name(e) << ") is '" << got << "'");
      break;
    }
    case 1: { // any code
      std::string code = random_code(c.s);
      text += " from('" + code + "')";
      int d, order, al;
      size_t w;
      bool known = classify_descr(code, d, order, w);
      bool may = alias(code, al) || known;
      std::pair<npy::data_type_t, npy::endian_t> p;
      lib::Result r = lib::attempt([&](lib::Result &) { p = npy::from_dtype(code); });
      PB_ASSERT(r.k != lib::Result::NONSTD, "from_dtype threw " << r.what);
      if (r.k != lib::Result::OK) {
        rejected = true;
        bool must = known && d != US && descr(d, order == '>', 0) == code;
        PB_ASSERT(!must, "from_dtype('" << code << "') threw " << r.what);
      } else {
        PB_ASSERT(may, "from_dtype('" << pbt::hexdump(code) << "') returned type " << lib::dt_of(p.first) << " for an unknown code");
        int real = known ? d : al;
        PB_ASSERT(p.first == lib::code_of(real), "from_dtype('" << code << "') gives type " << lib::dt_of(p.first) << " instead of " << DT_NAME[real]);
        if (DT_UNIT[real] > 1 && code[0] == '>') PB_ASSERT(p.second == npy::endian_t::BIG, "from_dtype('" << code << "') gives the wrong byte order");
        if (DT_UNIT[real] > 1 && code[0] == '<') PB_ASSERT(p.second == npy::endian_t::LITTLE, "from_dtype('" << code << "') gives the wrong byte order");
      }
      break;
    }
    case 2: { // a string type has no code of its own
      npy::endian_t e = draw_endian(c.s);
      text += " to(U)";
      lib::Result r = lib::attempt([&](lib::Result &) { npy::to_dtype(npy::data_type_t::UNICODE_STRING, e); });
      PB_ASSERT(r.k == lib::Result::INVALID || r.k == lib::Result::RUNTIME || r.k == lib::Result::OTHER_STD, "to_dtype(UNICODE_STRING): " << lib::kind_name(r.k));
      break;
    }
    default: { // tensors
      Arr a = gen::small_array(c.s, c.s.coin() ? US : -1);
      npy::endian_t e = draw_endian(c.s);
      text += " tensor " + a.text(1);
      lib::with_type(a.dt, [&](auto t) {
        typedef typename decltype(t)::type T;
        npy::tensor<T> x = lib::to_tensor<T>(a);
        PB_ASSERT(x.dtype() == lib::code_of(a.dt), "tensor<" << DT_NAME[a.dt] << ">::dtype() is " << lib::dt_of(x.dtype()));
        std::string want = descr(a.dt, is_big(e), a.max_len());
        PB_ASSERT(x.dtype(e) == want, "tensor::dtype(" << endian_name(e) << ") is '" << x.dtype(e) << "' instead of '" << want << "'");
        if (a.dt == US && a.count()) { // after changes of its elements
          size_t q = c.s.draw(a.count() - 1);
          a.strs[q] = gen::str(c.s, 150);
          x.data()[q] = T(lib::to_values<T>(a)[q]);
          want = descr(a.dt, is_big(e), a.max_len());
          PB_ASSERT(x.dtype(e) == want, "after an element changed, tensor::dtype(" << endian_name(e) << ") is '" << x.dtype(e) << "' instead of '" << want << "'");
          auto y = x;
          PB_ASSERT(y.dtype(e) == want, "a copy's dtype is '" << y.dtype(e) << "' instead of '" << want << "'");
        }
      });
    }
    }
  }
  c.describe(text);
  check_all("after" + text + ": ");
  c.label(rejected ? "some code rejected" : "no code rejected");
  if (rejected) c.nontrivial();
}
int main(int argc, char **argv) {
  return pbt::run(argc, argv, {{"codes", codes, 1}},
                  "up to 10 look-ups: all (type, byte order) pairs, random and near-miss code strings, string types, codes of tensors (strings also after changes); afterwards all pairs again in both directions; non-trivial: a code was rejected before");
}
