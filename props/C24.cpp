// C24: files do not depend on the process locale.
#include "archives.h"
#include <clocale>

// Facets with arbitrary settings.  Each is installed for char (and the number
// punctuation also for wchar_t).
template <class C> struct Punct : std::numpunct<C> {
  std::string g;
  C sep, point;
  Punct(const std::string &gr, C s, C p) : g(gr), sep(s), point(p) {}
  C do_thousands_sep() const override { return sep; }
  C do_decimal_point() const override { return point; }
  std::string do_grouping() const override { return g; }
  std::basic_string<C> do_truename() const override { return std::basic_string<C>(3, C('y')); }
  std::basic_string<C> do_falsename() const override { return std::basic_string<C>(2, C('n')); }
};
struct Put : std::num_put<char> { // other digits altogether
  template <class V> iter_type out(iter_type o, V v) const {
    for (char ch : std::to_string(v)) *o++ = char(ch + 'A' - '0');
    return o;
  }
  iter_type do_put(iter_type o, std::ios_base &, char, long v) const override { return out(o, v); }
  iter_type do_put(iter_type o, std::ios_base &, char, unsigned long v) const override { return out(o, v); }
  iter_type do_put(iter_type o, std::ios_base &, char, unsigned long long v) const override { return out(o, v); }
  iter_type do_put(iter_type o, std::ios_base &, char, long long v) const override { return out(o, v); }
};
struct Get : std::num_get<char> { // reads nothing
  iter_type no(iter_type i, std::ios_base::iostate &s) const { s |= std::ios_base::failbit; return i; }
  iter_type do_get(iter_type i, iter_type, std::ios_base &, std::ios_base::iostate &s, long &) const override { return no(i, s); }
  iter_type do_get(iter_type i, iter_type, std::ios_base &, std::ios_base::iostate &s, unsigned short &) const override { return no(i, s); }
  iter_type do_get(iter_type i, iter_type, std::ios_base &, std::ios_base::iostate &s, unsigned int &) const override { return no(i, s); }
  iter_type do_get(iter_type i, iter_type, std::ios_base &, std::ios_base::iostate &s, unsigned long &) const override { return no(i, s); }
  iter_type do_get(iter_type i, iter_type, std::ios_base &, std::ios_base::iostate &s, unsigned long long &) const override { return no(i, s); }
  iter_type do_get(iter_type i, iter_type, std::ios_base &, std::ios_base::iostate &s, long long &) const override { return no(i, s); }
};
struct Case : std::ctype<char> { // letters change into others, and more than letters
  explicit Case(const mask *m) : std::ctype<char>(m) {}
  char do_toupper(char ch) const override { return ch == 'n' ? 'm' : char(ch ^ 1); }
  const char *do_toupper(char *a, const char *e) const override { for (; a < e; ++a) *a = do_toupper(*a); return e; }
  char do_tolower(char ch) const override { return ch == 'N' ? 'M' : char(ch ^ 2); }
  const char *do_tolower(char *a, const char *e) const override { for (; a < e; ++a) *a = do_tolower(*a); return e; }
};
struct Collate : std::collate<char> { // other orders of text
  size_t how;
  explicit Collate(size_t h) : how(h) {}
  int do_compare(const char *a, const char *ae, const char *b, const char *be) const override {
    std::string x(a, ae), y(b, be);
    switch (how) {
    case 0: x.swap(y); break; // backwards
    case 1: return 0; // everything is equal
    case 2: std::reverse(x.begin(), x.end()), std::reverse(y.begin(), y.end()); break;
    default: for (auto *t : {&x, &y}) for (char &ch : *t) ch = char(tolower((unsigned char)ch)); // as most languages
    }
    return x < y ? -1 : x > y;
  }
  std::string do_transform(const char *a, const char *e) const override { return how == 1 ? "" : std::string(a, e); }
  long do_hash(const char *, const char *) const override { return 1; }
};
struct Table { std::ctype_base::mask m[256]; };
static std::locale draw_locale(pbt::Source &s, std::string &text) {
  std::locale l = std::locale::classic();
  size_t parts = 0;
  if (s.chance(4, 5)) {
    std::string g;
    size_t n = s.draw(3);
    for (size_t i = 0; i < n; ++i) g += char(1 + s.draw(3));
    if (s.chance(1, 6)) g += char(127);
    static const char SEP[] = ",.' _0123456789()-+:";
    char sep = SEP[s.draw(sizeof SEP - 2)], point = SEP[s.draw(sizeof SEP - 2)];
    l = std::locale(l, new Punct<char>(g, sep, point));
    l = std::locale(l, new Punct<wchar_t>(g, wchar_t(sep), wchar_t(point)));
    text += " grouping";
    for (char ch : g) text += " " + std::to_string(int(ch));
    text += std::string(" '") + sep + "' point '" + point + "'";
    ++parts;
  }
  if (s.chance(1, 3)) {
    Table *t = new Table; // lives on with the locale
    memcpy(t->m, std::ctype<char>::classic_table(), sizeof t->m);
    switch (s.draw(4)) {
    case 0: for (auto &m : t->m) m = 0; text += " no character has a class"; break;
    case 1: for (auto &m : t->m) m |= std::ctype_base::space; text += " everything is space"; break;
    case 2: for (int i = 0; i < 256; ++i) t->m[i] = t->m[i] & ~std::ctype_base::mask(std::ctype_base::space); text += " nothing is space"; break;
    case 3: for (int i = '0'; i <= '9'; ++i) t->m[i] = std::ctype_base::alpha; text += " digits are letters"; break;
    default: for (int i = 0; i < 256; ++i) t->m[i] = std::ctype<char>::classic_table()[255 - i]; text += " classes reversed";
    }
    if (s.coin()) l = std::locale(l, new std::ctype<char>(t->m));
    else l = std::locale(l, new Case(t->m)), text += ", cases mixed up";
    ++parts;
  }
  if (s.chance(1, 3)) {
    size_t how = s.draw(3);
    static const char *const HOW[] = {" backwards", " all equal", " from the end", " without case"};
    l = std::locale(l, new Collate(how));
    text += std::string(" order") + HOW[how];
    ++parts;
  }
  if (s.chance(1, 5)) { l = std::locale(l, new Put); text += " other digits"; ++parts; }
  if (s.chance(1, 5)) { l = std::locale(l, new Get); text += " numbers unreadable"; ++parts; }
  if (!parts) l = std::locale(l, new Punct<char>("\3", ',', '.')), text += " grouping 3 ','";
  return l;
}
struct With {
  std::locale old;
  std::string cold;
  With(const std::locale &l, bool c) : old(std::locale::global(l)) {
    cold = setlocale(LC_ALL, nullptr);
    if (c) setlocale(LC_ALL, "C.UTF-8");
  }
  ~With() { setlocale(LC_ALL, cold.c_str()); std::locale::global(old); }
};
static void locales(pbt::Case &c) {
  // large dimensions show grouping: few elements but long numbers
  std::vector<Model::E> es;
  npy::endian_t e = draw_endian(c.s);
  npy::compression_method_t m = draw_method(c.s);
  size_t n = 1 + c.s.weighted({4, 2, 1});
  std::string text;
  bool large = false;
  for (size_t i = 0; i < n; ++i) {
    Arr a;
    if (c.s.coin()) {
      a.dt = gen::dtype(c.s);
      a.fortran = c.s.coin();
      if (c.s.coin()) a.shape = {size_t(c.s.range(1000, 5000))};
      else { // empty arrays with huge dimensions
        a.shape = {0};
        size_t k = 1 + c.s.draw(2);
        for (size_t q = 0; q < k; ++q) a.shape.push_back(size_t(1) << c.s.draw(40));
        std::swap(a.shape[0], a.shape[c.s.draw(k)]);
      }
      gen::contents(c.s, a, 3);
      // a string type whose width has several digits
      if (a.dt == US && a.count() && c.s.coin()) a.strs[0] = Str(c.s.range(1000, 1500), 'w');
    } else a = gen::small_array(c.s);
    for (auto d : a.shape) large |= d >= 1000;
    es.push_back({gen::stored_name(gen::name(c.s, false) + std::to_string(i)), a, is_big(e)});
    text += " " + a.text(1);
  }
  std::string lt;
  std::locale loc = draw_locale(c.s, lt);
  bool clocale = c.s.chance(1, 6), imbue = c.s.chance(1, 4);
  c.describe("locale" + lt + (clocale ? ", C.UTF-8" : "") + (imbue ? ", also imbued" : "") + " |" + text);
  c.label(large ? "dimensions >= 1000" : "small dimensions");
  if (large) c.nontrivial();
  std::string path = pbt::scratch() + "/l";
  for (auto &x : es) {
    std::string want = lib::save(x.a, e), got, disk, err;
    lib::Result r, rp, h;
    npy::header_info hi(npy::data_type_t::INT8, e, false, {});
    int way = int(c.s.draw(lib::LOAD_STREAM_WAYS - 1)), pway = int(c.s.draw(lib::SAVE_PATH_WAYS - 1));
    Arr back;
    {
      With w(loc, clocale);
      r = lib::attempt([&](lib::Result &y) {
        std::ostringstream o;
        if (imbue) o.imbue(loc);
        lib::save(o, x.a, e, way);
        got = o.str();
        lib::save(path, x.a, e, pway);
        std::istringstream i(want);
        if (imbue) i.imbue(loc);
        y.arr = lib::load(i, x.a.dt, way);
        back = lib::load(path, x.a.dt, way);
      });
      h = lib::attempt([&](lib::Result &) { hi = lib::peek_bytes(want); });
    }
    disk = lib::slurp(path);
    unlink(path.c_str());
    PB_ASSERT(r.k == lib::Result::OK, "saving or loading failed under this locale: " << r.what);
    PB_ASSERT(h.k == lib::Result::OK, "peek failed under this locale: " << h.what);
    check_bytes(want, got, "saved to a stream under this locale");
    check_bytes(want, disk, "saved to a path under this locale");
    check_arr(x.a, r.arr, "loaded from a stream under this locale");
    check_arr(x.a, back, "loaded from a path under this locale");
    std::string d = lib::diff_header(hi, x.a.dt, x.big, x.a.shape, x.a.fortran, x.a.max_len());
    PB_ASSERT(d.empty(), "peek under this locale: " << d);
  }
  // archives
  std::vector<std::string> names, keys;
  bool listed = true;
  for (auto &x : es) names.push_back(x.name);
  std::sort(names.begin(), names.end());
  auto archive = [&](std::vector<Arr> *out) {
    auto w = lib::make_writer(out ? path : "", m, e);
    for (auto &x : es) w->write(x.name, x.a);
    w->close();
    std::string b = w->bytes();
    if (out) {
      auto r = c.s.coin() ? lib::make_reader_mem(b) : lib::make_reader_file(path);
      keys = r->keys();
      for (auto &x : es) {
        listed &= r->contains(x.name);
        npy::header_info h = r->peek(x.name);
        listed &= lib::diff_header(h, x.a.dt, x.big, x.a.shape, x.a.fortran, x.a.max_len()).empty();
        out->push_back(r->read(x.name, x.a.dt));
      }
    }
    return b;
  };
  std::string want = archive(nullptr), got;
  std::vector<Arr> arrs;
  lib::Result r;
  {
    With w(loc, clocale);
    r = lib::attempt([&](lib::Result &) { got = archive(&arrs); });
  }
  unlink(path.c_str());
  PB_ASSERT(r.k == lib::Result::OK, "writing or reading an archive failed under this locale: " << r.what);
  check_bytes(want, got, "the archive written under this locale");
  PB_ASSERT(keys == names, "the keys listed under this locale differ");
  PB_ASSERT(listed, "contains or peek differ under this locale");
  for (size_t i = 0; i < es.size(); ++i) check_arr(es[i].a, arrs[i], "read from an archive under this locale");
}
// Altered headers are understood or refused as in the classic locale.
static void refusals(pbt::Case &c) {
  Arr a = gen::small_array(c.s);
  size_t digits = 0; // an altered digit must not ask for gigabytes
  for (auto d : a.shape) digits += std::to_string(d).size();
  if (digits > 6) a.shape = {0}, a.raw.clear(), a.strs.clear();
  std::string b = lib::save(a, npy::endian_t::NATIVE);
  size_t n = 1 + c.s.draw(2), end = b.find('\n');
  PB_ASSERT(end != std::string::npos, "(harness) header");
  std::string what;
  for (size_t i = 0; i < n; ++i) {
    static const char CH[] = " \t\v\f\r\n\xa0\x85_,.'()[]{}:0123456789aAfFtTnN<>|=-+";
    size_t at = 10 + c.s.draw(std::min<size_t>(end, b.find("), }") == std::string::npos ? end : b.find("), }") + 4) - 10);
    char ch = CH[c.s.draw(sizeof CH - 2)];
    switch (c.s.draw(2)) {
    case 0: b[at] = ch; what += " set "; break;
    case 1: b.insert(b.begin() + long(at), ch), b[8] = char(b[8] + 1); what += " insert "; break;
    default: if (b[8]) { b.erase(at, 1), b[8] = char(b[8] - 1); what += " erase "; }
    }
    what += std::to_string(at) + " '" + ch + "'";
  }
  std::string lt;
  std::locale loc = draw_locale(c.s, lt);
  c.describe("locale" + lt + " |" + what + " | " + a.text(1));
  auto outcome = [&](bool imbue) {
    lib::Result r = lib::attempt([&](lib::Result &y) {
      std::istringstream i(b);
      if (imbue) i.imbue(loc);
      y.arr = lib::load(i, a.dt);
    });
    lib::Result h = lib::attempt([&](lib::Result &) { lib::peek_bytes(b); });
    return std::make_pair(r, h.k);
  };
  auto want = outcome(false);
  bool imbue = c.s.coin();
  auto got = want;
  {
    With w(loc, false);
    got = outcome(imbue);
  }
  c.label(want.first.k == lib::Result::OK ? "altered header: accepted" : "altered header: refused");
  c.nontrivial();
  PB_ASSERT(want.first.k == got.first.k && want.second == got.second, "an altered header gives " << lib::kind_name(want.first.k) << " in the classic locale and " << lib::kind_name(got.first.k) << " under this one (peek " << lib::kind_name(want.second) << ", " << lib::kind_name(got.second) << ")");
  if (want.first.k == lib::Result::OK) check_arr(want.first.arr, got.first.arr, "loaded under this locale");
}
int main(int argc, char **argv) {
  return pbt::run(argc, argv, {{"locales", locales, 3}, {"refusals", refusals, 2}},
                  "1 to 3 arrays saved, loaded, peeked and archived under a global locale with random grouping, separators, decimal point, character classes, order of text, number output and input facets (also imbued in the streams, also with the C library's UTF-8 locale), compared with the classic locale; altered headers, which must be understood or refused as in the classic locale; non-trivial: a dimension of at least 1000, so that grouping shows, or an altered header");
}
