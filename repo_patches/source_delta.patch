From 53b087d0be559be9d04e41315365ea16a71ae542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:14 +0000
Subject: [PATCH 01/30] hook: LIBNPY_VERIF_ZIP64_LIMIT lets a harness lower the
 ZIP64 limit

---
 src/npz.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/npz.cpp b/src/npz.cpp
index 51a25e0..ddc8488 100644
--- a/src/npz.cpp
+++ b/src/npz.cpp
@@ -23,7 +23,12 @@ const std::uint16_t STANDARD_VERSION =
 const std::uint16_t ZIP64_VERSION = 45; // 4.5 File uses ZIP64 format extensions
 
 const std::uint16_t ZIP64_TAG = 1;
+#ifdef LIBNPY_VERIF_ZIP64_LIMIT
+// verification hook: a harness can lower the limit to reach the ZIP64 code
+const std::uint64_t &ZIP64_LIMIT = LIBNPY_VERIF_ZIP64_LIMIT;
+#else
 const std::uint64_t ZIP64_LIMIT = 0x8FFFFFFF;
+#endif
 const std::uint32_t ZIP64_PLACEHOLDER = 0xFFFFFFFF;
 
 void write(std::ostream &stream, std::uint16_t value) {
-- 
2.43.0


From 6cd1a42a896b8f20cd5981e678cc5b1a8def75d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:29 +0000
Subject: [PATCH 02/30] fix: write the full header length of long NPY headers

Only the low byte of the dictionary length was written, so any header of 256
bytes or more (e.g. a tensor of many dimensions) produced an unreadable file.
---
 include/npy/npy.h | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/include/npy/npy.h b/include/npy/npy.h
index 4251750..2b7be94 100644
--- a/include/npy/npy.h
+++ b/include/npy/npy.h
@@ -202,18 +202,31 @@ void write_npy_header(std::basic_ostream<CHAR> &output,
   std::string dictionary = buff.str();
   auto dict_length = dictionary.size() + 1;
   std::string end = "\n";
-  auto header_length = dict_length + STATIC_HEADER_LENGTH;
+  // version 1.0 stores the length in two bytes, version 2.0 in four
+  const bool version2 = dict_length + STATIC_HEADER_LENGTH > 0x10000;
+  const int static_length = STATIC_HEADER_LENGTH + (version2 ? 2 : 0);
+  auto header_length = dict_length + static_length;
   if (header_length % 64 != 0) {
     header_length = ((header_length / 64) + 1) * 64;
-    dict_length = header_length - STATIC_HEADER_LENGTH;
+    dict_length = header_length - static_length;
     end = std::string(dict_length - dictionary.length(), ' ');
     end.back() = '\n';
   }
 
-  const char header[STATIC_HEADER_LENGTH] = {
-      static_cast<char>(0x93),        'N', 'U', 'M', 'P', 'Y', 0x01, 0x00,
-      static_cast<char>(dict_length), 0x00};
-  output.write(header, STATIC_HEADER_LENGTH);
+  const char header[STATIC_HEADER_LENGTH + 2] = {
+      static_cast<char>(0x93),
+      'N',
+      'U',
+      'M',
+      'P',
+      'Y',
+      static_cast<char>(version2 ? 0x02 : 0x01),
+      0x00,
+      static_cast<char>(dict_length & 0xFF),
+      static_cast<char>((dict_length >> 8) & 0xFF),
+      static_cast<char>((dict_length >> 16) & 0xFF),
+      static_cast<char>((dict_length >> 24) & 0xFF)};
+  output.write(header, static_length);
   output.write(reinterpret_cast<const CHAR *>(dictionary.data()),
                dictionary.length());
   output.write(reinterpret_cast<const CHAR *>(end.data()), end.length());
-- 
2.43.0


From c7a35e0830ed99955cf723a5a469fc8bd7738bb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:58 +0000
Subject: [PATCH 03/30] fix: swap the bytes of complex values per component

The bytes of the whole complex number were reversed, which exchanges the real
and imaginary parts relative to what NumPy reads and writes.
---
 src/dtype.cpp | 88 +++++----------------------------------------------
 1 file changed, 8 insertions(+), 80 deletions(-)

diff --git a/src/dtype.cpp b/src/dtype.cpp
index 12cc250..a7e4b24 100644
--- a/src/dtype.cpp
+++ b/src/dtype.cpp
@@ -411,104 +411,32 @@ template <>
 void write_values<>(std::basic_ostream<char> &output,
                     const std::complex<float> *data_ptr, size_t num_elements,
                     endian_t endianness) {
-  if (endianness == npy::endian_t::NATIVE || endianness == native_endian()) {
-    output.write(reinterpret_cast<const char *>(data_ptr), num_elements * 8);
-  } else {
-    for (auto curr = data_ptr; curr < data_ptr + num_elements; ++curr) {
-      const char *start = reinterpret_cast<const char *>(curr);
-      output.put(start[7]);
-      output.put(start[6]);
-      output.put(start[5]);
-      output.put(start[4]);
-      output.put(start[3]);
-      output.put(start[2]);
-      output.put(start[1]);
-      output.put(start[0]);
-    }
-  }
+  // each component is stored in the requested byte order, as NumPy does
+  write_values(output, reinterpret_cast<const float *>(data_ptr),
+               num_elements * 2, endianness);
 }
 
 template <>
 void read_values<>(std::basic_istream<char> &input,
                    std::complex<float> *data_ptr, size_t num_elements,
                    const header_info &info) {
-  char *start = reinterpret_cast<char *>(data_ptr);
-  if (info.endianness == npy::endian_t::NATIVE ||
-      info.endianness == native_endian()) {
-    input.read(start, num_elements * 8);
-  } else {
-    char *ptr = start;
-    for (size_t i = 0; i < num_elements; ++i, ptr += 8) {
-      ptr[7] = GETC(input);
-      ptr[6] = GETC(input);
-      ptr[5] = GETC(input);
-      ptr[4] = GETC(input);
-      ptr[3] = GETC(input);
-      ptr[2] = GETC(input);
-      ptr[1] = GETC(input);
-      ptr[0] = GETC(input);
-    }
-  }
+  read_values(input, reinterpret_cast<float *>(data_ptr), num_elements * 2, info);
 }
 
 template <>
 void write_values<>(std::basic_ostream<char> &output,
                     const std::complex<double> *data_ptr, size_t num_elements,
                     endian_t endianness) {
-  if (endianness == npy::endian_t::NATIVE || endianness == native_endian()) {
-    output.write(reinterpret_cast<const char *>(data_ptr), num_elements * 16);
-  } else {
-    for (auto curr = data_ptr; curr < data_ptr + num_elements; ++curr) {
-      const char *start = reinterpret_cast<const char *>(curr);
-      output.put(start[15]);
-      output.put(start[14]);
-      output.put(start[13]);
-      output.put(start[12]);
-      output.put(start[11]);
-      output.put(start[10]);
-      output.put(start[9]);
-      output.put(start[8]);
-      output.put(start[7]);
-      output.put(start[6]);
-      output.put(start[5]);
-      output.put(start[4]);
-      output.put(start[3]);
-      output.put(start[2]);
-      output.put(start[1]);
-      output.put(start[0]);
-    }
-  }
+  // each component is stored in the requested byte order, as NumPy does
+  write_values(output, reinterpret_cast<const double *>(data_ptr),
+               num_elements * 2, endianness);
 }
 
 template <>
 void read_values<>(std::basic_istream<char> &input,
                    std::complex<double> *data_ptr, size_t num_elements,
                    const header_info &info) {
-  char *start = reinterpret_cast<char *>(data_ptr);
-  if (info.endianness == npy::endian_t::NATIVE ||
-      info.endianness == native_endian()) {
-    input.read(start, num_elements * 16);
-  } else {
-    char *ptr = start;
-    for (size_t i = 0; i < num_elements; ++i, ptr += 16) {
-      ptr[15] = GETC(input);
-      ptr[14] = GETC(input);
-      ptr[13] = GETC(input);
-      ptr[12] = GETC(input);
-      ptr[11] = GETC(input);
-      ptr[10] = GETC(input);
-      ptr[9] = GETC(input);
-      ptr[8] = GETC(input);
-      ptr[7] = GETC(input);
-      ptr[6] = GETC(input);
-      ptr[5] = GETC(input);
-      ptr[4] = GETC(input);
-      ptr[3] = GETC(input);
-      ptr[2] = GETC(input);
-      ptr[1] = GETC(input);
-      ptr[0] = GETC(input);
-    }
-  }
+  read_values(input, reinterpret_cast<double *>(data_ptr), num_elements * 2, info);
 }
 
 template <>
-- 
2.43.0


From 75a85648cf6a78bc79bb531d6600df9020905c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:04 +0000
Subject: [PATCH 04/30] fix: keep NUL characters inside string elements

Reading dropped every NUL, although only the trailing ones are padding.
---
 src/dtype.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/dtype.cpp b/src/dtype.cpp
index a7e4b24..d28c8cc 100644
--- a/src/dtype.cpp
+++ b/src/dtype.cpp
@@ -498,12 +498,12 @@ void read_values<>(std::basic_istream<char> &input, std::wstring *data_ptr,
         bytes[1] = GETC(input);
         bytes[0] = GETC(input);
       }
-      if (value == 0) {
-        continue;
-      }
 
       ptr->push_back(static_cast<wchar_t>(value));
     }
+
+    // only the trailing NULs are padding
+    ptr->erase(ptr->find_last_not_of(L'\0') + 1);
   }
 }
 
-- 
2.43.0


From 778d37a949aaf028f178c5444475f98875e1b575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:10 +0000
Subject: [PATCH 05/30] fix: reject unknown dtype codes

from_dtype inserted unknown codes in the global map as int8, so that e.g. a
file of float16 values was loaded as a tensor of int8.
---
 src/dtype.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/dtype.cpp b/src/dtype.cpp
index d28c8cc..f455476 100644
--- a/src/dtype.cpp
+++ b/src/dtype.cpp
@@ -61,7 +61,12 @@ const std::string &to_dtype(data_type_t dtype, endian_t endianness) {
 }
 
 const std::pair<data_type_t, endian_t> &from_dtype(const std::string &dtype) {
-  return DTYPE_MAP[dtype];
+  auto entry = DTYPE_MAP.find(dtype);
+  if (entry == DTYPE_MAP.end()) {
+    throw std::runtime_error("Unsupported dtype: " + dtype);
+  }
+
+  return entry->second;
 }
 
 std::ostream &operator<<(std::ostream &os, const data_type_t &value) {
-- 
2.43.0


From ef1a8bd8dcab16b4e7b53cd11c257211c2151660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:25 +0000
Subject: [PATCH 06/30] fix: refuse to load a tensor whose data is truncated

---
 include/npy/npy.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/npy/npy.h b/include/npy/npy.h
index 2b7be94..d69321c 100644
--- a/include/npy/npy.h
+++ b/include/npy/npy.h
@@ -762,6 +762,9 @@ public:
     }
 
     read_values(input, result.m_values.data(), result.m_values.size(), info);
+    if (input.fail()) {
+      throw std::runtime_error("unexpected end of data");
+    }
 
     return result;
   }
-- 
2.43.0


From 68c00a6f586adde6240d22d47412fcb1ecde4a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:08 +0000
Subject: [PATCH 07/30] fix: parse NPY headers without a shared global buffer

Threads parsing headers at the same time overwrote each other's tokens.
---
 src/npy.cpp | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/src/npy.cpp b/src/npy.cpp
index db19808..ff52bd1 100644
--- a/src/npy.cpp
+++ b/src/npy.cpp
@@ -7,9 +7,6 @@
 #include "npy/npy.h"
 
 namespace {
-const int BUFFER_SIZE = 64 * 1024;
-char BUFFER[BUFFER_SIZE];
-
 void read(std::istream &input, char expected) {
   char actual;
   input.get(actual);
@@ -17,8 +14,8 @@ void read(std::istream &input, char expected) {
 }
 
 void read(std::istream &input, const std::string &expected) {
-  input.read(BUFFER, expected.length());
-  std::string actual(BUFFER, BUFFER + expected.length());
+  std::string actual(expected.length(), '\0');
+  input.read(&actual[0], expected.length());
   assert(actual == expected);
 }
 
@@ -30,15 +27,12 @@ void skip_whitespace(std::istream &input) {
 }
 
 std::string read_to(std::istream &input, char delim) {
-  if (input.peek() == delim) {
-    return "";
+  std::string token;
+  while (input.peek() != delim && input.good()) {
+    token.push_back(static_cast<char>(input.get()));
   }
 
-  input.get(BUFFER, BUFFER_SIZE, delim);
-  auto length = input.gcount();
-  assert(length < BUFFER_SIZE);
-
-  return std::string(BUFFER, BUFFER + length);
+  return token;
 }
 
 std::string read_string(std::istream &input) {
-- 
2.43.0


From 781ee0b575e0ddebc25c0a516f292c983bb3efad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:21 +0000
Subject: [PATCH 08/30] fix: throw on malformed NPY headers

The magic, the version and the tokens of the header were only checked by
assert, so that a release build read garbage as a header: missing keys left
fields uninitialised, and negative or fractional dimensions were accepted.
---
 include/npy/npy.h | 23 +++++++++++--------
 src/npy.cpp       | 57 +++++++++++++++++++++++++++++++++++++----------
 2 files changed, 59 insertions(+), 21 deletions(-)

diff --git a/include/npy/npy.h b/include/npy/npy.h
index d69321c..9e4bea6 100644
--- a/include/npy/npy.h
+++ b/include/npy/npy.h
@@ -310,24 +310,29 @@ template <typename CHAR>
 header_info read_npy_header(std::basic_istream<CHAR> &input) {
   std::uint8_t header[STATIC_HEADER_LENGTH];
   input.read(reinterpret_cast<CHAR *>(header), STATIC_HEADER_LENGTH);
-  assert(header[0] == 0x93);
-  assert(header[1] == 'N');
-  assert(header[2] == 'U');
-  assert(header[3] == 'M');
-  assert(header[4] == 'P');
-  assert(header[5] == 'Y');
+  const std::uint8_t magic[] = {0x93, 'N', 'U', 'M', 'P', 'Y'};
+  if (input.fail() || !std::equal(magic, magic + sizeof(magic), header)) {
+    throw std::runtime_error("Not a valid NPY file");
+  }
+
   size_t dict_length = 0;
   if (header[6] == 0x01 && header[7] == 0x00) {
     dict_length = header[8] | (header[9] << 8);
   } else if (header[6] == 0x02 && header[7] == 0x00) {
-    std::uint8_t extra[2];
+    std::uint8_t extra[2] = {0, 0};
     input.read(reinterpret_cast<CHAR *>(extra), 2);
-    dict_length =
-        header[8] | (header[9] << 8) | (extra[0] << 16) | (extra[1] << 24);
+    dict_length = header[8] | (header[9] << 8) | (extra[0] << 16) |
+                  (static_cast<size_t>(extra[1]) << 24);
+  } else {
+    throw std::runtime_error("Unsupported NPY version");
   }
 
   std::vector<CHAR> buffer(dict_length);
   input.read(buffer.data(), dict_length);
+  if (input.fail()) {
+    throw std::runtime_error("Incomplete NPY header");
+  }
+
   std::string dictionary(buffer.begin(), buffer.end());
   return header_info(dictionary);
 }
diff --git a/src/npy.cpp b/src/npy.cpp
index ff52bd1..c68356e 100644
--- a/src/npy.cpp
+++ b/src/npy.cpp
@@ -1,6 +1,7 @@
 #include <cctype>
 #include <fstream>
 #include <iostream>
+#include <limits>
 #include <sstream>
 #include <tuple>
 
@@ -8,15 +9,15 @@
 
 namespace {
 void read(std::istream &input, char expected) {
-  char actual;
-  input.get(actual);
-  assert(actual == expected);
+  if (input.get() != std::char_traits<char>::to_int_type(expected)) {
+    throw std::runtime_error("Invalid NPY header");
+  }
 }
 
 void read(std::istream &input, const std::string &expected) {
-  std::string actual(expected.length(), '\0');
-  input.read(&actual[0], expected.length());
-  assert(actual == expected);
+  for (char c : expected) {
+    read(input, c);
+  }
 }
 
 void skip_whitespace(std::istream &input) {
@@ -54,17 +55,35 @@ bool read_bool(std::istream &input) {
   throw std::runtime_error("Dictionary value is not a boolean");
 }
 
+size_t read_size(std::istream &input) {
+  const size_t limit = std::numeric_limits<size_t>::max();
+  size_t size = 0;
+  if (input.peek() < '0' || input.peek() > '9') {
+    throw std::runtime_error("Invalid size in NPY header");
+  }
+
+  while (input.peek() >= '0' && input.peek() <= '9') {
+    size_t digit = static_cast<size_t>(input.get() - '0');
+    if (size > (limit - digit) / 10) {
+      throw std::runtime_error("Size in NPY header is too large");
+    }
+
+    size = size * 10 + digit;
+  }
+
+  return size;
+}
+
 std::vector<size_t> read_shape(std::istream &input) {
   read(input, '(');
   std::istringstream tuple(read_to(input, ')'));
   read(input, ')');
 
   std::vector<size_t> shape;
-  size_t size;
 
-  while (tuple >> size) {
-    shape.push_back(size);
-    if (tuple.peek() == ',') {
+  while (tuple.peek() != EOF) {
+    shape.push_back(read_size(tuple));
+    if (tuple.peek() != EOF) {
       read(tuple, ',');
       skip_whitespace(tuple);
     }
@@ -77,6 +96,9 @@ std::vector<size_t> read_shape(std::istream &input) {
 namespace npy {
 header_info::header_info(const std::string &dictionary) {
   std::istringstream input(dictionary);
+  bool has_descr = false;
+  bool has_fortran_order = false;
+  bool has_shape = false;
   read(input, '{');
   while (input.peek() != '}') {
     skip_whitespace(input);
@@ -86,11 +108,17 @@ header_info::header_info(const std::string &dictionary) {
     skip_whitespace(input);
     if (key == "descr") {
       std::string dtype_code = read_string(input);
-      if (dtype_code[1] == 'U') {
+      has_descr = true;
+      if (dtype_code.compare(0, 2, "<U") == 0 ||
+          dtype_code.compare(0, 2, ">U") == 0) {
         this->dtype = npy::data_type_t::UNICODE_STRING;
         endianness =
             dtype_code[0] == '>' ? npy::endian_t::BIG : npy::endian_t::LITTLE;
-        max_element_length = std::stoi(dtype_code.substr(2));
+        std::istringstream length(dtype_code.substr(2));
+        max_element_length = read_size(length);
+        if (length.peek() != EOF) {
+          throw std::runtime_error("Unsupported dtype: " + dtype_code);
+        }
       } else {
         std::tie(this->dtype, endianness) = from_dtype(dtype_code);
         max_element_length = 0;
@@ -98,8 +126,10 @@ header_info::header_info(const std::string &dictionary) {
 
     } else if (key == "fortran_order") {
       fortran_order = read_bool(input);
+      has_fortran_order = true;
     } else if (key == "shape") {
       shape = read_shape(input);
+      has_shape = true;
     } else {
       throw std::runtime_error("Unsupported key: " + key);
     }
@@ -109,6 +139,9 @@ header_info::header_info(const std::string &dictionary) {
   }
 
   read(input, '}');
+  if (!has_descr || !has_fortran_order || !has_shape) {
+    throw std::runtime_error("Incomplete NPY header");
+  }
 }
 
 header_info::header_info(data_type_t dtype, npy::endian_t endianness,
-- 
2.43.0


From dd4b235408fdb9404c528c4113c9c57c11aabef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:09 +0000
Subject: [PATCH 09/30] fix: accept NPY headers without a final comma or with
 other spacing

The format makes the header a Python literal, so neither a trailing comma nor
any particular spacing may be relied upon.
---
 src/npy.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/npy.cpp b/src/npy.cpp
index c68356e..df9a380 100644
--- a/src/npy.cpp
+++ b/src/npy.cpp
@@ -81,8 +81,10 @@ std::vector<size_t> read_shape(std::istream &input) {
 
   std::vector<size_t> shape;
 
+  skip_whitespace(tuple);
   while (tuple.peek() != EOF) {
     shape.push_back(read_size(tuple));
+    skip_whitespace(tuple);
     if (tuple.peek() != EOF) {
       read(tuple, ',');
       skip_whitespace(tuple);
@@ -100,8 +102,8 @@ header_info::header_info(const std::string &dictionary) {
   bool has_fortran_order = false;
   bool has_shape = false;
   read(input, '{');
+  skip_whitespace(input);
   while (input.peek() != '}') {
-    skip_whitespace(input);
     std::string key = read_string(input);
     skip_whitespace(input);
     read(input, ':');
@@ -134,8 +136,11 @@ header_info::header_info(const std::string &dictionary) {
       throw std::runtime_error("Unsupported key: " + key);
     }
 
-    read(input, ',');
     skip_whitespace(input);
+    if (input.peek() != '}') {
+      read(input, ',');
+      skip_whitespace(input);
+    }
   }
 
   read(input, '}');
-- 
2.43.0


From 12cbaefeb75a3487f2543d05009eed541b44d683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:23 +0000
Subject: [PATCH 10/30] fix: write NPY headers independently of the global
 locale

A locale with digit grouping wrote 1000 as 1,000 and so changed the shape.
---
 include/npy/npy.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/npy/npy.h b/include/npy/npy.h
index 9e4bea6..1951b62 100644
--- a/include/npy/npy.h
+++ b/include/npy/npy.h
@@ -184,6 +184,7 @@ void write_npy_header(std::basic_ostream<CHAR> &output,
                       const std::string &dtype, bool fortran_order,
                       const std::vector<size_t> &shape) {
   std::ostringstream buff;
+  buff.imbue(std::locale::classic());
   buff << "{'descr': '" << dtype;
   buff << "', 'fortran_order': " << (fortran_order ? "True" : "False");
   buff << ", 'shape': (";
-- 
2.43.0


From de3018b824dae1b1938457611f83d0166bfcf954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:38 +0000
Subject: [PATCH 11/30] fix: construct boolean from the truth value

Negative values and NaN became false, unlike their conversion to bool.
---
 include/npy/npy.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/npy/npy.h b/include/npy/npy.h
index 1951b62..78f9d9f 100644
--- a/include/npy/npy.h
+++ b/include/npy/npy.h
@@ -107,7 +107,7 @@ struct boolean {
   /// be interpreted as a boolean.
   /// @param v The value to convert into a boolean
   /// @tparam T Must be implicitly convertable to bool
-  template <typename T> boolean(const T &v) { value = v > 0 ? 1 : 0; }
+  template <typename T> boolean(const T &v) { value = v ? 1 : 0; }
 
   /// @brief Constructor from boolean values.
   /// @param b The bool to store
-- 
2.43.0


From 1983a7f5bce2232707d916316236d2ba32ef692a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:56 +0000
Subject: [PATCH 12/30] fix: check the rank of unsigned multi-indices

An index vector shorter than the shape was read out of bounds.
---
 include/npy/npy.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/npy/npy.h b/include/npy/npy.h
index 78f9d9f..67b3aaa 100644
--- a/include/npy/npy.h
+++ b/include/npy/npy.h
@@ -998,6 +998,10 @@ public:
   /// @param abs_multi_index the multi-index value
   /// @return the single value in the buffer corresponding to the multi-index
   size_t ravel(const std::vector<std::size_t> &abs_multi_index) const {
+    if (abs_multi_index.size() != m_shape.size()) {
+      throw std::invalid_argument("multi_index");
+    }
+
     if (m_fortran_order) {
       return ravel(abs_multi_index.rbegin(), m_shape.rbegin());
     }
-- 
2.43.0


From cc4cf918c66d84608511d3a5bc03d220fa498be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:15 +0000
Subject: [PATCH 13/30] fix: refuse shapes whose number of elements overflows

The product wrapped around, giving a tensor with fewer elements than its shape
allows to index.
---
 include/npy/npy.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/npy/npy.h b/include/npy/npy.h
index 67b3aaa..fd4f82b 100644
--- a/include/npy/npy.h
+++ b/include/npy/npy.h
@@ -23,6 +23,8 @@
 #include <cstdint>
 #include <filesystem>
 #include <fstream>
+#include <limits>
+#include <locale>
 #include <map>
 #include <sstream>
 #include <stdexcept>
@@ -1021,8 +1023,16 @@ private:
 
   /// @brief Gets the size of a tensor given its shape
   static size_t get_size(const std::vector<size_t> &shape) {
+    if (std::count(shape.begin(), shape.end(), 0) > 0) {
+      return 0;
+    }
+
     size_t size = 1;
     for (auto &dim : shape) {
+      if (size > std::numeric_limits<size_t>::max() / dim) {
+        throw std::invalid_argument("shape");
+      }
+
       size *= dim;
     }
 
-- 
2.43.0


From 6b2eccccfc6ee3f5353035ee4facba7b49438def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:43 +0000
Subject: [PATCH 14/30] fix: stop reading strings at the end of the stream

A header with an absurd string width made the reader loop (and allocate) for
that many characters after the data had ended.
---
 src/dtype.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/dtype.cpp b/src/dtype.cpp
index f455476..8ff9808 100644
--- a/src/dtype.cpp
+++ b/src/dtype.cpp
@@ -504,6 +504,10 @@ void read_values<>(std::basic_istream<char> &input, std::wstring *data_ptr,
         bytes[0] = GETC(input);
       }
 
+      if (input.fail()) {
+        return;
+      }
+
       ptr->push_back(static_cast<wchar_t>(value));
     }
 
-- 
2.43.0


From bf99dcb4206837e264dccacdbd25013810c14e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:56 +0000
Subject: [PATCH 15/30] fix: return the tensor from npzfilereader::read<T,
 TENSOR>

---
 include/npy/npy.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/npy/npy.h b/include/npy/npy.h
index fd4f82b..1e2dc21 100644
--- a/include/npy/npy.h
+++ b/include/npy/npy.h
@@ -668,7 +668,7 @@ public:
   /// @return an instance of TENSOR<T> read from the archive
   template <typename T, template <typename> class TENSOR>
   TENSOR<T> read(const std::string &filename) {
-    read<TENSOR<T>>(filename);
+    return read<TENSOR<T>>(filename);
   }
 
 private:
-- 
2.43.0


From b22e8c153b11efa824536d8d72ccd6617e8a298f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:05 +0000
Subject: [PATCH 16/30] fix: reset the stream state before reading an archive
 entry

After one failed read (e.g. of a damaged entry) every later read failed too.
---
 src/npz.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/npz.cpp b/src/npz.cpp
index ddc8488..fed0a84 100644
--- a/src/npz.cpp
+++ b/src/npz.cpp
@@ -89,7 +89,7 @@ std::uint64_t read64(std::istream &stream) {
 void assert_sig(std::istream &stream,
                 const std::array<std::uint8_t, 4> &expected,
                 const char *entity) {
-  std::array<std::uint8_t, 4> actual;
+  std::array<std::uint8_t, 4> actual = {};
   stream.read(reinterpret_cast<char *>(actual.data()), actual.size());
   if (actual != expected) {
     printf("Invalid signature when reading %s:\n", entity);
@@ -396,6 +396,7 @@ std::string read_file(std::istream &input,
   }
 
   const file_entry &entry = entries.at(filename);
+  input.clear(); // an earlier read may have failed
   input.seekg(entry.offset, std::ios::beg);
 
   file_entry local = read_local_header(input);
-- 
2.43.0


From fbeb210c75bcce3c59e8663decb5cea972acd8ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:01 +0000
Subject: [PATCH 17/30] fix: write well-formed ZIP64 extra fields

The declared length of the extra field left out its 4-byte tag and size, which
shifted everything after it, and local headers held only one of the two sizes
although the ZIP specification requires both.
---
 src/npz.cpp | 31 ++++++++++++++++---------------
 1 file changed, 16 insertions(+), 15 deletions(-)

diff --git a/src/npz.cpp b/src/npz.cpp
index fed0a84..c1e275c 100644
--- a/src/npz.cpp
+++ b/src/npz.cpp
@@ -43,8 +43,14 @@ void write(std::ostream &stream, std::uint32_t value) {
   }
 }
 
-void write32(std::ostream &stream, std::uint64_t value) {
-  if (value > ZIP64_LIMIT) {
+// a local header must hold both sizes as ZIP64 fields, or none
+bool has_zip64_sizes(const npy::file_entry &header) {
+  return header.compressed_size > ZIP64_LIMIT ||
+         header.uncompressed_size > ZIP64_LIMIT;
+}
+
+void write32(std::ostream &stream, std::uint64_t value, bool zip64 = false) {
+  if (zip64 || value > ZIP64_LIMIT) {
     write(stream, ZIP64_PLACEHOLDER);
   } else {
     write(stream, static_cast<std::uint32_t>(value));
@@ -104,29 +110,23 @@ void assert_sig(std::istream &stream,
 std::uint16_t determine_extra_length(const npy::file_entry &header,
                                      bool include_offset) {
   std::uint16_t length = 0;
-  if (header.compressed_size > ZIP64_LIMIT) {
-    length += 8;
-  }
-
-  if (header.uncompressed_size > ZIP64_LIMIT) {
-    length += 8;
+  if (has_zip64_sizes(header)) {
+    length += 16;
   }
 
   if (include_offset && header.offset > ZIP64_LIMIT) {
     length += 8;
   }
 
-  return length;
+  // the tag and the size of the field precede the values
+  return length > 0 ? length + 4 : 0;
 }
 
 void write_zip64_extra(std::ostream &stream, const npy::file_entry &header,
                        bool include_offset) {
   std::vector<std::uint64_t> extra;
-  if (header.uncompressed_size > ZIP64_LIMIT) {
+  if (has_zip64_sizes(header)) {
     extra.push_back(header.uncompressed_size);
-  }
-
-  if (header.compressed_size > ZIP64_LIMIT) {
     extra.push_back(header.compressed_size);
   }
 
@@ -182,8 +182,9 @@ void write_shared_header(std::ostream &stream, const npy::file_entry &header) {
   write(stream, header.compression_method);
   stream.write(reinterpret_cast<const char *>(TIME.data()), TIME.size());
   write(stream, header.crc32);
-  write32(stream, header.compressed_size);
-  write32(stream, header.uncompressed_size);
+  bool zip64 = has_zip64_sizes(header);
+  write32(stream, header.compressed_size, zip64);
+  write32(stream, header.uncompressed_size, zip64);
   write(stream, static_cast<std::uint16_t>(header.filename.length()));
 }
 
-- 
2.43.0


From 9c68600658f38d6ad675676c44130278b2a61259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:31 +0000
Subject: [PATCH 18/30] fix: write and read archives beyond the classic ZIP
 limits

Sizes and offsets were cut to 32 bits and the number of entries to 16 before
the ZIP64 fields were considered, and the ZIP64 end of central directory
record was neither written nor read.  The CRC-32 of entries of 4 GiB and more
covered only a part of them.
---
 src/npz.cpp | 105 +++++++++++++++++++++++++++++++++++++++++++++-------
 src/zip.cpp |   3 +-
 2 files changed, 92 insertions(+), 16 deletions(-)

diff --git a/src/npz.cpp b/src/npz.cpp
index c1e275c..c18b5cb 100644
--- a/src/npz.cpp
+++ b/src/npz.cpp
@@ -14,10 +14,13 @@ using namespace npy;
 const std::array<std::uint8_t, 4> LOCAL_HEADER_SIG = {0x50, 0x4B, 0x03, 0x04};
 const std::array<std::uint8_t, 4> CD_HEADER_SIG = {0x50, 0x4B, 0x01, 0x02};
 const std::array<std::uint8_t, 4> CD_END_SIG = {0x50, 0x4B, 0x05, 0x06};
+const std::array<std::uint8_t, 4> ZIP64_CD_END_SIG = {0x50, 0x4B, 0x06, 0x06};
+const std::array<std::uint8_t, 4> ZIP64_LOCATOR_SIG = {0x50, 0x4B, 0x06, 0x07};
 
 const std::array<std::uint8_t, 4> EXTERNAL_ATTR = {0x00, 0x00, 0x80, 0x01};
 const std::array<std::uint8_t, 4> TIME = {0x00, 0x00, 0x21, 0x00};
 const int CD_END_SIZE = 22;
+const int ZIP64_LOCATOR_SIZE = 20;
 const std::uint16_t STANDARD_VERSION =
     20; // 2.0 File is encrypted using traditional PKWARE encryption
 const std::uint16_t ZIP64_VERSION = 45; // 4.5 File uses ZIP64 format extensions
@@ -30,6 +33,7 @@ const std::uint64_t &ZIP64_LIMIT = LIBNPY_VERIF_ZIP64_LIMIT;
 const std::uint64_t ZIP64_LIMIT = 0x8FFFFFFF;
 #endif
 const std::uint32_t ZIP64_PLACEHOLDER = 0xFFFFFFFF;
+const std::uint16_t ZIP64_PLACEHOLDER16 = 0xFFFF;
 
 void write(std::ostream &stream, std::uint16_t value) {
   stream.put(value & 0x00FF);
@@ -288,22 +292,85 @@ npy::file_entry read_central_directory_header(std::istream &stream) {
 }
 
 struct CentralDirectory {
-  std::uint16_t num_entries;
-  std::uint32_t size;
-  std::uint32_t offset;
+  std::uint64_t num_entries;
+  std::uint64_t size;
+  std::uint64_t offset;
 };
 
+void write_zip64_end_of_central_directory(std::ostream &stream,
+                                          const CentralDirectory &dir) {
+  stream.write(reinterpret_cast<const char *>(ZIP64_CD_END_SIG.data()),
+               ZIP64_CD_END_SIG.size());
+  std::uint64_t remaining_size = 44;
+  std::uint32_t disk_number = 0;
+  write(stream, remaining_size);
+  write(stream, ZIP64_VERSION); // version made by
+  write(stream, ZIP64_VERSION); // version needed to extract
+  write(stream, disk_number);
+  write(stream, disk_number);
+  write(stream, dir.num_entries);
+  write(stream, dir.num_entries);
+  write(stream, dir.size);
+  write(stream, dir.offset);
+
+  // locator
+  stream.write(reinterpret_cast<const char *>(ZIP64_LOCATOR_SIG.data()),
+               ZIP64_LOCATOR_SIG.size());
+  std::uint32_t num_disks = 1;
+  write(stream, disk_number);
+  write(stream, dir.offset + dir.size);
+  write(stream, num_disks);
+}
+
+void read_zip64_end_of_central_directory(std::istream &stream,
+                                         CentralDirectory &dir) {
+  stream.seekg(-(CD_END_SIZE + ZIP64_LOCATOR_SIZE), std::ios::end);
+  std::array<std::uint8_t, 4> actual = {};
+  stream.read(reinterpret_cast<char *>(actual.data()), actual.size());
+  if (actual != ZIP64_LOCATOR_SIG) {
+    stream.clear();
+    return; // not a placeholder, but the actual value
+  }
+
+  read32(stream); // disk with the ZIP64 end of central directory
+  std::uint64_t offset = read64(stream);
+  stream.seekg(offset, std::ios::beg);
+  assert_sig(stream, ZIP64_CD_END_SIG, "zip64_end_of_central_directory");
+  read64(stream); // size of the record
+  read16(stream); // version made by
+  read16(stream); // version needed to extract
+  read32(stream); // number of this disk
+  read32(stream); // number of the disk with the start of the central directory
+  read64(stream); // num_entries_on_disk
+  std::uint64_t num_entries = read64(stream);
+  std::uint64_t size = read64(stream);
+  offset = read64(stream);
+  if (dir.num_entries == ZIP64_PLACEHOLDER16) {
+    dir.num_entries = num_entries;
+  }
+
+  if (dir.size == ZIP64_PLACEHOLDER) {
+    dir.size = size;
+  }
+
+  if (dir.offset == ZIP64_PLACEHOLDER) {
+    dir.offset = offset;
+  }
+}
+
 void write_end_of_central_directory(std::ostream &stream,
                                     const CentralDirectory &dir) {
   stream.write(reinterpret_cast<const char *>(CD_END_SIG.data()),
                CD_END_SIG.size());
   uint16_t disk_number = 0;
+  uint16_t num_entries = static_cast<uint16_t>(
+      std::min<std::uint64_t>(dir.num_entries, ZIP64_PLACEHOLDER16));
   write(stream, disk_number);
   write(stream, disk_number);
-  write(stream, dir.num_entries);
-  write(stream, dir.num_entries);
-  write(stream, dir.size);
-  write(stream, dir.offset);
+  write(stream, num_entries);
+  write(stream, num_entries);
+  write32(stream, dir.size);
+  write32(stream, dir.offset);
   std::uint16_t file_comment_length = 0;
   write(stream, file_comment_length);
 }
@@ -318,6 +385,11 @@ CentralDirectory read_end_of_central_directory(std::istream &stream) {
   read16(stream); // num_entries_on_disk
   result.size = read32(stream);
   result.offset = read32(stream);
+  if (result.num_entries == ZIP64_PLACEHOLDER16 ||
+      result.size == ZIP64_PLACEHOLDER || result.offset == ZIP64_PLACEHOLDER) {
+    read_zip64_end_of_central_directory(stream, result);
+  }
+
   return result;
 }
 
@@ -340,21 +412,26 @@ void read_entries(std::istream &input,
 
 void close(std::ostream &output, const std::vector<file_entry> &entries) {
   CentralDirectory dir;
-  dir.offset = static_cast<std::uint32_t>(output.tellp());
+  dir.offset = static_cast<std::uint64_t>(output.tellp());
   for (auto &header : entries) {
     write_central_directory_header(output, header);
   }
 
-  dir.size = static_cast<std::uint32_t>(output.tellp()) - dir.offset;
-  dir.num_entries = static_cast<std::uint16_t>(entries.size());
+  dir.size = static_cast<std::uint64_t>(output.tellp()) - dir.offset;
+  dir.num_entries = entries.size();
+  if (dir.num_entries >= ZIP64_PLACEHOLDER16 || dir.size > ZIP64_LIMIT ||
+      dir.offset > ZIP64_LIMIT) {
+    write_zip64_end_of_central_directory(output, dir);
+  }
+
   write_end_of_central_directory(output, dir);
 }
 
 void write_file(std::ostream &output, std::vector<file_entry> &entries,
                 const std::string &filename,
                 compression_method_t compression_method, std::string &&bytes) {
-  std::uint32_t uncompressed_size = static_cast<std::uint32_t>(bytes.size());
-  std::uint32_t compressed_size = 0;
+  std::uint64_t uncompressed_size = bytes.size();
+  std::uint64_t compressed_size = 0;
   std::string compressed_bytes;
   std::uint32_t checksum = npy_crc32(bytes);
   if (compression_method == compression_method_t::STORED) {
@@ -362,7 +439,7 @@ void write_file(std::ostream &output, std::vector<file_entry> &entries,
     compressed_size = uncompressed_size;
   } else if (compression_method == compression_method_t::DEFLATED) {
     compressed_bytes = npy_deflate(std::move(bytes));
-    compressed_size = static_cast<std::uint32_t>(compressed_bytes.size());
+    compressed_size = compressed_bytes.size();
   } else {
     throw std::invalid_argument("Unsupported compression method");
   }
@@ -372,7 +449,7 @@ void write_file(std::ostream &output, std::vector<file_entry> &entries,
                       compressed_size,
                       uncompressed_size,
                       static_cast<std::uint16_t>(compression_method),
-                      static_cast<std::uint32_t>(output.tellp())};
+                      static_cast<std::uint64_t>(output.tellp())};
 
   bool zip64 = uncompressed_size > ZIP64_LIMIT || compressed_size > ZIP64_LIMIT;
   write_local_header(output, entry, zip64);
diff --git a/src/zip.cpp b/src/zip.cpp
index 5c7a52c..6b9bc70 100644
--- a/src/zip.cpp
+++ b/src/zip.cpp
@@ -21,8 +21,7 @@ namespace npy {
 std::uint32_t npy_crc32(const std::string &bytes) {
   uLong crc = ::crc32(0L, Z_NULL, 0);
   const Bytef *buf = reinterpret_cast<const Bytef *>(bytes.data());
-  uInt len = static_cast<uInt>(bytes.size());
-  return ::crc32(crc, buf, len);
+  return ::crc32(crc, buf, bytes.size());
 }
 
 std::string npy_deflate(std::string &&bytes) {
-- 
2.43.0


From fbfa7784525c7380ed49dce3164ff63f134cd558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:22 +0000
Subject: [PATCH 19/30] fix: refuse entry names which do not fit into a ZIP
 header

---
 src/npz.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/npz.cpp b/src/npz.cpp
index c18b5cb..3f138ec 100644
--- a/src/npz.cpp
+++ b/src/npz.cpp
@@ -430,6 +430,10 @@ void close(std::ostream &output, const std::vector<file_entry> &entries) {
 void write_file(std::ostream &output, std::vector<file_entry> &entries,
                 const std::string &filename,
                 compression_method_t compression_method, std::string &&bytes) {
+  if (filename.size() > ZIP64_PLACEHOLDER16) {
+    throw std::invalid_argument("Filename is too long for an NPZ archive");
+  }
+
   std::uint64_t uncompressed_size = bytes.size();
   std::uint64_t compressed_size = 0;
   std::string compressed_bytes;
-- 
2.43.0


From ad18ce7fa9dcbe918d0d9876b79ff3c8783d58a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:36 +0000
Subject: [PATCH 20/30] fix: report failures to store NPY files and NPZ
 archives

A full device went unnoticed: neither save, nor the writes and the close of
an archive checked that the bytes were accepted.
---
 include/npy/npy.h |  4 ++++
 src/npz.cpp       | 22 ++++++++++++++++++----
 2 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/include/npy/npy.h b/include/npy/npy.h
index 1e2dc21..766d9ff 100644
--- a/include/npy/npy.h
+++ b/include/npy/npy.h
@@ -292,6 +292,10 @@ void save(const std::string &path, T &tensor,
   }
 
   save<T>(output, tensor, endianness);
+  output.close();
+  if (output.fail()) {
+    throw std::runtime_error("Unable to write NPY file");
+  }
 };
 
 /// @brief Saves a tensor to the provided location on disk.
diff --git a/src/npz.cpp b/src/npz.cpp
index 3f138ec..6bc787b 100644
--- a/src/npz.cpp
+++ b/src/npz.cpp
@@ -425,6 +425,9 @@ void close(std::ostream &output, const std::vector<file_entry> &entries) {
   }
 
   write_end_of_central_directory(output, dir);
+  if (output.fail()) {
+    throw std::runtime_error("Unable to write NPZ directory");
+  }
 }
 
 void write_file(std::ostream &output, std::vector<file_entry> &entries,
@@ -458,6 +461,10 @@ void write_file(std::ostream &output, std::vector<file_entry> &entries,
   bool zip64 = uncompressed_size > ZIP64_LIMIT || compressed_size > ZIP64_LIMIT;
   write_local_header(output, entry, zip64);
   output.write(compressed_bytes.data(), compressed_size);
+  if (output.fail()) {
+    throw std::runtime_error("Unable to write to NPZ archive");
+  }
+
   entries.push_back(std::move(entry));
 }
 
@@ -528,8 +535,10 @@ npzstringwriter::npzstringwriter(compression_method_t compression,
       m_endianness(endianness) {}
 
 npzstringwriter::~npzstringwriter() {
-  if (!m_closed) {
+  try {
     close();
+  } catch (...) {
+    // call close explicitly to learn about failures
   }
 }
 
@@ -547,8 +556,8 @@ void npzstringwriter::write_file(const std::string &filename,
 
 void npzstringwriter::close() {
   if (!m_closed) {
-    ::close(m_output, m_entries);
     m_closed = true;
+    ::close(m_output, m_entries);
   }
 }
 
@@ -570,8 +579,10 @@ npzfilewriter::npzfilewriter(const char *path, compression_method_t compression,
       m_compression_method(compression), m_endianness(endianness) {}
 
 npzfilewriter::~npzfilewriter() {
-  if (!m_closed) {
+  try {
     close();
+  } catch (...) {
+    // call close explicitly to learn about failures
   }
 }
 
@@ -589,9 +600,12 @@ void npzfilewriter::write_file(const std::string &filename,
 
 void npzfilewriter::close() {
   if (!m_closed) {
-    ::close(m_output, m_entries);
     m_closed = true;
+    ::close(m_output, m_entries);
     m_output.close();
+    if (m_output.fail()) {
+      throw std::runtime_error("Unable to write NPZ file");
+    }
   }
 }
 
-- 
2.43.0


From c15b610de4f082ff9c14eb918cbb3b943a29f6c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:33 +0000
Subject: [PATCH 21/30] fix: inflate all of the output of the last input bytes

inflate() may return with the input consumed and the output buffer partly
filled while there is more output to come, so that highly compressible
entries of more than 32 kB were reported as damaged.
---
 src/zip.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/zip.cpp b/src/zip.cpp
index 6b9bc70..81372c2 100644
--- a/src/zip.cpp
+++ b/src/zip.cpp
@@ -123,7 +123,8 @@ std::string npy_inflate(std::string &&bytes) {
 
     strm.next_in = in.data();
 
-    /* run inflate() on input until output buffer not full */
+    /* run inflate() on input until it produces no more output. It can return
+       before the output buffer is full with all of the input consumed */
     do {
       strm.avail_out = CHUNK;
       strm.next_out = out.data();
@@ -144,7 +145,7 @@ std::string npy_inflate(std::string &&bytes) {
         (void)inflateEnd(&strm);
         throw std::runtime_error("Error writing to output stream");
       }
-    } while (strm.avail_out == 0);
+    } while (ret != Z_STREAM_END && have > 0);
 
     /* done when inflate() says it's done */
   } while (ret != Z_STREAM_END);
-- 
2.43.0


From 36cb7b589a693ea7e2112e157e8038a71790d5b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:56 +0000
Subject: [PATCH 22/30] fix: free the compression state when memory runs out

---
 src/zip.cpp | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/src/zip.cpp b/src/zip.cpp
index 81372c2..c8795c7 100644
--- a/src/zip.cpp
+++ b/src/zip.cpp
@@ -6,6 +6,7 @@
 #endif
 #include <cassert>
 #include <cstdint>
+#include <memory>
 #include <sstream>
 #include <stdexcept>
 #include <vector>
@@ -41,6 +42,9 @@ std::string npy_deflate(std::string &&bytes) {
     throw std::runtime_error("Unable to initialize deflate algorithm");
   }
 
+  /* free the deflate state however this function is left */
+  std::unique_ptr<z_stream, int (*)(z_stream *)> state(&strm, deflateEnd);
+
   std::string str(bytes.begin(), bytes.end());
   std::istringstream input(std::move(str));
   std::ostringstream output;
@@ -53,7 +57,6 @@ std::string npy_deflate(std::string &&bytes) {
       flush = Z_FINISH;
     } else {
       if (input.fail() || input.bad()) {
-        (void)deflateEnd(&strm);
         throw std::runtime_error("Error reading from input stream");
       }
 
@@ -72,7 +75,6 @@ std::string npy_deflate(std::string &&bytes) {
       have = CHUNK - strm.avail_out;
       output.write(reinterpret_cast<char *>(out.data()), have);
       if (output.fail() || output.bad()) {
-        (void)deflateEnd(&strm);
         throw std::runtime_error("Error writing to output stream");
       }
     } while (strm.avail_out == 0);
@@ -81,9 +83,6 @@ std::string npy_deflate(std::string &&bytes) {
   } while (flush != Z_FINISH);
   assert(ret == Z_STREAM_END); /* stream will be complete */
 
-  /* clean up and return */
-  (void)deflateEnd(&strm);
-
   return output.str();
 }
 
@@ -104,6 +103,9 @@ std::string npy_inflate(std::string &&bytes) {
     throw std::runtime_error("Unable to initialize inflate algorithm");
   }
 
+  /* free the inflate state however this function is left */
+  std::unique_ptr<z_stream, int (*)(z_stream *)> state(&strm, inflateEnd);
+
   std::string str(bytes.begin(), bytes.end());
   std::istringstream input(std::move(str));
   std::ostringstream output;
@@ -113,7 +115,6 @@ std::string npy_inflate(std::string &&bytes) {
     input.read(reinterpret_cast<char *>(in.data()), CHUNK);
     strm.avail_in = static_cast<uInt>(input.gcount());
     if ((input.fail() && !input.eof()) || input.bad()) {
-      (void)inflateEnd(&strm);
       throw std::runtime_error("Error reading from input stream");
     }
 
@@ -135,14 +136,12 @@ std::string npy_inflate(std::string &&bytes) {
         ret = Z_DATA_ERROR; /* and fall through */
       case Z_DATA_ERROR:
       case Z_MEM_ERROR:
-        (void)inflateEnd(&strm);
         throw std::runtime_error("Error inflating stream");
       }
 
       have = CHUNK - strm.avail_out;
       output.write(reinterpret_cast<char *>(out.data()), have);
       if (output.fail() || output.bad()) {
-        (void)inflateEnd(&strm);
         throw std::runtime_error("Error writing to output stream");
       }
     } while (ret != Z_STREAM_END && have > 0);
@@ -150,9 +149,6 @@ std::string npy_inflate(std::string &&bytes) {
     /* done when inflate() says it's done */
   } while (ret != Z_STREAM_END);
 
-  /* clean up and return */
-  (void)inflateEnd(&strm);
-
   if (ret == Z_STREAM_END) {
     return output.str();
   }
-- 
2.43.0


From be892beaa029cfa4ab7dd3f04dade0121b49b9b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:16 +0000
Subject: [PATCH 23/30] fix: report NPY headers and entries composed without
 enough memory

---
 include/npy/npy.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/npy/npy.h b/include/npy/npy.h
index 766d9ff..5e10846 100644
--- a/include/npy/npy.h
+++ b/include/npy/npy.h
@@ -202,6 +202,10 @@ void write_npy_header(std::basic_ostream<CHAR> &output,
   }
 
   buff << "), }";
+  if (buff.fail()) {
+    throw std::runtime_error("Unable to compose NPY header");
+  }
+
   std::string dictionary = buff.str();
   auto dict_length = dictionary.size() + 1;
   std::string end = "\n";
@@ -462,6 +466,9 @@ public:
 
     std::ostringstream output;
     save<T>(output, tensor, m_endianness);
+    if (output.fail()) {
+      throw std::runtime_error("Unable to compose NPY file");
+    }
 
     std::string suffix = ".npy";
     std::string name = filename;
@@ -536,6 +543,9 @@ public:
 
     std::ostringstream output;
     save<T>(output, tensor, m_endianness);
+    if (output.fail()) {
+      throw std::runtime_error("Unable to compose NPY file");
+    }
 
     std::string suffix = ".npy";
     std::string name = filename;
-- 
2.43.0


From 30bb744fa0bcafe902a3a396662f534ff59df7d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:55 +0000
Subject: [PATCH 24/30] fix: keep a tensor intact when copy assignment runs out
 of memory

---
 include/npy/npy.h | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/include/npy/npy.h b/include/npy/npy.h
index 5e10846..987ec53 100644
--- a/include/npy/npy.h
+++ b/include/npy/npy.h
@@ -941,12 +941,8 @@ public:
 
   /// @brief Copy assignment operator.
   tensor<T> &operator=(const tensor<T> &other) {
-    m_shape = other.m_shape;
-    m_ravel_strides = other.m_ravel_strides;
-    m_fortran_order = other.m_fortran_order;
-    m_dtype = other.m_dtype;
-    m_values = other.m_values;
-    return *this;
+    // nothing changes when there is no memory for the copy
+    return *this = tensor<T>(other);
   }
 
   /// @brief Move assignment operator.
-- 
2.43.0


From 6bd8d2f8474a07e3a3e548b7771cf008ee5195b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:29 +0000
Subject: [PATCH 25/30] fix: overwrite the strings read_values is given, like
 other element types

---
 src/dtype.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/dtype.cpp b/src/dtype.cpp
index 8ff9808..913aa0b 100644
--- a/src/dtype.cpp
+++ b/src/dtype.cpp
@@ -490,6 +490,7 @@ void read_values<>(std::basic_istream<char> &input, std::wstring *data_ptr,
   for (size_t i = 0; i < num_elements; ++i, ++ptr) {
     std::int_least32_t value = 0;
     char *bytes = reinterpret_cast<char *>(&value);
+    ptr->clear();
     for (size_t j = 0; j < info.max_element_length; ++j) {
       if (info.endianness == npy::endian_t::NATIVE ||
           info.endianness == native_endian()) {
-- 
2.43.0


From 3afde653813d309f5727a57831f8e5702e5bc5d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:40 +0000
Subject: [PATCH 26/30] fix: read archives NumPy writes to unseekable files
 (data descriptors)

---
 src/npz.cpp | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/src/npz.cpp b/src/npz.cpp
index 6bc787b..53b4dd4 100644
--- a/src/npz.cpp
+++ b/src/npz.cpp
@@ -25,6 +25,9 @@ const std::uint16_t STANDARD_VERSION =
     20; // 2.0 File is encrypted using traditional PKWARE encryption
 const std::uint16_t ZIP64_VERSION = 45; // 4.5 File uses ZIP64 format extensions
 
+// the CRC and sizes follow the data, and are zero in the local header
+const std::uint16_t DATA_DESCRIPTOR_FLAG = 0x0008;
+
 const std::uint16_t ZIP64_TAG = 1;
 #ifdef LIBNPY_VERIF_ZIP64_LIMIT
 // verification hook: a harness can lower the limit to reach the ZIP64 code
@@ -192,9 +195,9 @@ void write_shared_header(std::ostream &stream, const npy::file_entry &header) {
   write(stream, static_cast<std::uint16_t>(header.filename.length()));
 }
 
-std::uint16_t read_shared_header(std::istream &stream,
-                                 npy::file_entry &header) {
-  read16(stream); // general purpose bit flag
+std::uint16_t read_shared_header(std::istream &stream, npy::file_entry &header,
+                                 std::uint16_t &general_purpose_bit_flag) {
+  general_purpose_bit_flag = read16(stream);
   header.compression_method = read16(stream);
   read32(stream); // time
   header.crc32 = read32(stream);
@@ -217,7 +220,8 @@ void write_local_header(std::ostream &stream, const npy::file_entry &header,
   }
 }
 
-npy::file_entry read_local_header(std::istream &stream) {
+npy::file_entry read_local_header(std::istream &stream,
+                                  const npy::file_entry &central) {
   assert_sig(stream, LOCAL_HEADER_SIG, "local_header");
   std::uint16_t version = read16(stream);
   if (version > ZIP64_VERSION) {
@@ -226,7 +230,8 @@ npy::file_entry read_local_header(std::istream &stream) {
 
   npy::file_entry entry;
 
-  std::uint16_t filename_length = read_shared_header(stream, entry);
+  std::uint16_t flags;
+  std::uint16_t filename_length = read_shared_header(stream, entry, flags);
   std::uint16_t extra_field_length = read16(stream);
   std::vector<char> buffer(filename_length);
   stream.read(buffer.data(), filename_length);
@@ -236,6 +241,13 @@ npy::file_entry read_local_header(std::istream &stream) {
     read_zip64_extra(stream, entry, false);
   }
 
+  if ((flags & DATA_DESCRIPTOR_FLAG) && entry.crc32 == 0 &&
+      entry.compressed_size == 0 && entry.uncompressed_size == 0) {
+    entry.crc32 = central.crc32;
+    entry.compressed_size = central.compressed_size;
+    entry.uncompressed_size = central.uncompressed_size;
+  }
+
   return entry;
 }
 
@@ -272,7 +284,8 @@ npy::file_entry read_central_directory_header(std::istream &stream) {
   }
 
   npy::file_entry entry;
-  std::uint16_t filename_length = read_shared_header(stream, entry);
+  std::uint16_t flags;
+  std::uint16_t filename_length = read_shared_header(stream, entry, flags);
   std::uint16_t extra_field_length = read16(stream);
   read16(stream); // file comment length
   read16(stream); // disk number start
@@ -488,7 +501,7 @@ std::string read_file(std::istream &input,
   input.clear(); // an earlier read may have failed
   input.seekg(entry.offset, std::ios::beg);
 
-  file_entry local = read_local_header(input);
+  file_entry local = read_local_header(input, entry);
   if (!entry.check(local)) {
     throw std::runtime_error("Central directory and local headers disagree");
   }
-- 
2.43.0


From 304f2986e0d9b8c311f9356fd79ebc299fbcddf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:49 +0000
Subject: [PATCH 27/30] fix: archives written to a pipe had no valid offsets

---
 src/npz.cpp | 29 ++++++++++++++++++++++++++---
 1 file changed, 26 insertions(+), 3 deletions(-)

diff --git a/src/npz.cpp b/src/npz.cpp
index 53b4dd4..a642a73 100644
--- a/src/npz.cpp
+++ b/src/npz.cpp
@@ -19,6 +19,8 @@ const std::array<std::uint8_t, 4> ZIP64_LOCATOR_SIG = {0x50, 0x4B, 0x06, 0x07};
 
 const std::array<std::uint8_t, 4> EXTERNAL_ATTR = {0x00, 0x00, 0x80, 0x01};
 const std::array<std::uint8_t, 4> TIME = {0x00, 0x00, 0x21, 0x00};
+const int LOCAL_HEADER_SIZE = 30;
+const int CD_HEADER_SIZE = 46;
 const int CD_END_SIZE = 22;
 const int ZIP64_LOCATOR_SIZE = 20;
 const std::uint16_t STANDARD_VERSION =
@@ -129,6 +131,25 @@ std::uint16_t determine_extra_length(const npy::file_entry &header,
   return length > 0 ? length + 4 : 0;
 }
 
+// The position at which the next byte is written. A destination which cannot
+// seek (e.g. a pipe) does not know it, but then nothing has been written apart
+// from the entries.
+std::uint64_t position(std::ostream &stream,
+                       const std::vector<npy::file_entry> &entries) {
+  std::streamoff offset = stream.tellp();
+  if (offset >= 0) {
+    return static_cast<std::uint64_t>(offset);
+  }
+
+  if (entries.empty()) {
+    return 0;
+  }
+
+  const npy::file_entry &last = entries.back();
+  return last.offset + LOCAL_HEADER_SIZE + last.filename.length() +
+         determine_extra_length(last, false) + last.compressed_size;
+}
+
 void write_zip64_extra(std::ostream &stream, const npy::file_entry &header,
                        bool include_offset) {
   std::vector<std::uint64_t> extra;
@@ -425,12 +446,14 @@ void read_entries(std::istream &input,
 
 void close(std::ostream &output, const std::vector<file_entry> &entries) {
   CentralDirectory dir;
-  dir.offset = static_cast<std::uint64_t>(output.tellp());
+  dir.offset = position(output, entries);
+  dir.size = 0;
   for (auto &header : entries) {
     write_central_directory_header(output, header);
+    dir.size += CD_HEADER_SIZE + header.filename.length() +
+                determine_extra_length(header, true);
   }
 
-  dir.size = static_cast<std::uint64_t>(output.tellp()) - dir.offset;
   dir.num_entries = entries.size();
   if (dir.num_entries >= ZIP64_PLACEHOLDER16 || dir.size > ZIP64_LIMIT ||
       dir.offset > ZIP64_LIMIT) {
@@ -469,7 +492,7 @@ void write_file(std::ostream &output, std::vector<file_entry> &entries,
                       compressed_size,
                       uncompressed_size,
                       static_cast<std::uint16_t>(compression_method),
-                      static_cast<std::uint64_t>(output.tellp())};
+                      position(output, entries)};
 
   bool zip64 = uncompressed_size > ZIP64_LIMIT || compressed_size > ZIP64_LIMIT;
   write_local_header(output, entry, zip64);
-- 
2.43.0


From ed8e9acbbab4870af810f753a1b776926583c03e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:54 +0000
Subject: [PATCH 28/30] fix: static objects could not use the library

The tables of type codes are created on first use, and never destroyed:
before they were constructed, arrays were saved with an empty type code and
none could be loaded; after they were destroyed, freed memory was read.
---
 src/dtype.cpp | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/src/dtype.cpp b/src/dtype.cpp
index 913aa0b..e638e8f 100644
--- a/src/dtype.cpp
+++ b/src/dtype.cpp
@@ -9,15 +9,26 @@
 #define GETC(x) static_cast<char>((x).get())
 
 namespace {
-std::array<std::string, 13> BIG_ENDIAN_DTYPES = {
+// The tables are created when they are first used and never destroyed, so that
+// objects with static storage duration can use the library as well.
+const std::array<std::string, 13> &big_endian_dtypes() {
+  static const auto &dtypes = *new const std::array<std::string, 13>{
     "|i1", "|u1", ">i2", ">u2", ">i4",  ">u4", ">i8",
     ">u8", ">f4", ">f8", ">c8", ">c16", "|b1"};
+  return dtypes;
+}
 
-std::array<std::string, 13> LITTLE_ENDIAN_DTYPES = {
+const std::array<std::string, 13> &little_endian_dtypes() {
+  static const auto &dtypes = *new const std::array<std::string, 13>{
     "|i1", "|u1", "<i2", "<u2", "<i4",  "<u4", "<i8",
     "<u8", "<f4", "<f8", "<c8", "<c16", "|b1"};
+  return dtypes;
+}
 
-std::map<std::string, std::pair<npy::data_type_t, npy::endian_t>> DTYPE_MAP = {
+typedef std::map<std::string, std::pair<npy::data_type_t, npy::endian_t>>
+    DtypeMap;
+const DtypeMap &dtype_map() {
+  static const DtypeMap &dtypes = *new const DtypeMap{
     {"|u1", {npy::data_type_t::UINT8, npy::endian_t::NATIVE}},
     {"|i1", {npy::data_type_t::INT8, npy::endian_t::NATIVE}},
     {"<u2", {npy::data_type_t::UINT16, npy::endian_t::LITTLE}},
@@ -41,6 +52,8 @@ std::map<std::string, std::pair<npy::data_type_t, npy::endian_t>> DTYPE_MAP = {
     {"<c16", {npy::data_type_t::COMPLEX128, npy::endian_t::LITTLE}},
     {">c16", {npy::data_type_t::COMPLEX128, npy::endian_t::BIG}},
     {"|b1", {npy::data_type_t::BOOL, npy::endian_t::NATIVE}}};
+  return dtypes;
+}
 } // namespace
 
 namespace npy {
@@ -54,15 +67,15 @@ const std::string &to_dtype(data_type_t dtype, endian_t endianness) {
   }
 
   if (endianness == npy::endian_t::BIG) {
-    return BIG_ENDIAN_DTYPES[static_cast<size_t>(dtype)];
+    return big_endian_dtypes()[static_cast<size_t>(dtype)];
   }
 
-  return LITTLE_ENDIAN_DTYPES[static_cast<size_t>(dtype)];
+  return little_endian_dtypes()[static_cast<size_t>(dtype)];
 }
 
 const std::pair<data_type_t, endian_t> &from_dtype(const std::string &dtype) {
-  auto entry = DTYPE_MAP.find(dtype);
-  if (entry == DTYPE_MAP.end()) {
+  auto entry = dtype_map().find(dtype);
+  if (entry == dtype_map().end()) {
     throw std::runtime_error("Unsupported dtype: " + dtype);
   }
 
-- 
2.43.0


From 60cdfcae740c6bfbba1c1f6d24b80f2cb0af9208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:12 +0000
Subject: [PATCH 29/30] fix: a tensor that was moved from claimed an element it
 did not have

---
 include/npy/npy.h | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/include/npy/npy.h b/include/npy/npy.h
index 987ec53..ca78f5d 100644
--- a/include/npy/npy.h
+++ b/include/npy/npy.h
@@ -755,11 +755,10 @@ public:
         m_values(other.m_values) {}
 
   /// @brief Move constructor.
-  tensor(tensor<T> &&other)
-      : m_shape(std::move(other.m_shape)),
-        m_ravel_strides(std::move(other.m_ravel_strides)),
-        m_fortran_order(other.m_fortran_order), m_dtype(other.m_dtype),
-        m_values(std::move(other.m_values)) {}
+  /// @details The other tensor is left empty.
+  tensor(tensor<T> &&other) : tensor(std::vector<size_t>(1, 0)) {
+    *this = std::move(other);
+  }
 
   /// @brief Load a tensor from the specified location on disk.
   static tensor<T> from_file(const std::string &path) {
@@ -946,12 +945,14 @@ public:
   }
 
   /// @brief Move assignment operator.
+  /// @details The other tensor receives the previous value of this one, as the
+  /// shape of a tensor must match its elements at all times.
   tensor<T> &operator=(tensor<T> &&other) {
-    m_shape = std::move(other.m_shape);
-    m_ravel_strides = std::move(other.m_ravel_strides);
-    m_fortran_order = other.m_fortran_order;
-    m_dtype = other.m_dtype;
-    m_values = std::move(other.m_values);
+    std::swap(m_shape, other.m_shape);
+    std::swap(m_ravel_strides, other.m_ravel_strides);
+    std::swap(m_fortran_order, other.m_fortran_order);
+    std::swap(m_dtype, other.m_dtype);
+    std::swap(m_values, other.m_values);
     return *this;
   }
 
-- 
2.43.0


From d8887904ceb72550573b18f3021e20b00f821331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:27 +0000
Subject: [PATCH 30/30] fix: names beyond ASCII were not marked as UTF-8 in
 archives

---
 src/npz.cpp | 41 ++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 40 insertions(+), 1 deletion(-)

diff --git a/src/npz.cpp b/src/npz.cpp
index a642a73..6d1c066 100644
--- a/src/npz.cpp
+++ b/src/npz.cpp
@@ -27,6 +27,9 @@ const std::uint16_t STANDARD_VERSION =
     20; // 2.0 File is encrypted using traditional PKWARE encryption
 const std::uint16_t ZIP64_VERSION = 45; // 4.5 File uses ZIP64 format extensions
 
+// the filename is encoded as UTF-8 (other readers assume code page 437 without)
+const std::uint16_t UTF8_FLAG = 0x0800;
+
 // the CRC and sizes follow the data, and are zero in the local header
 const std::uint16_t DATA_DESCRIPTOR_FLAG = 0x0008;
 
@@ -204,8 +207,44 @@ void read_zip64_extra(std::istream &stream, npy::file_entry &header,
   }
 }
 
+// whether the text is valid UTF-8 and has characters beyond ASCII
+bool is_utf8_not_ascii(const std::string &text) {
+  bool is_ascii = true;
+  for (size_t i = 0; i < text.size();) {
+    std::uint32_t code = static_cast<std::uint8_t>(text[i++]);
+    if (code < 0x80) {
+      continue;
+    }
+
+    is_ascii = false;
+    int length = code < 0xE0 ? 1 : code < 0xF0 ? 2 : 3; // of the continuation
+    if (code < 0xC2 || code > 0xF4 || text.size() - i < size_t(length)) {
+      return false;
+    }
+
+    code &= 0x3F >> length;
+    for (int j = 0; j < length; ++j) {
+      std::uint8_t next = static_cast<std::uint8_t>(text[i++]);
+      if ((next & 0xC0) != 0x80) {
+        return false;
+      }
+
+      code = (code << 6) | (next & 0x3F);
+    }
+
+    // overlong forms, surrogates and what lies beyond Unicode
+    if ((length == 2 && code < 0x800) || (code >= 0xD800 && code < 0xE000) ||
+        (length == 3 && code < 0x10000) || code > 0x10FFFF) {
+      return false;
+    }
+  }
+
+  return !is_ascii;
+}
+
 void write_shared_header(std::ostream &stream, const npy::file_entry &header) {
-  std::uint16_t general_purpose_big_flag = 0;
+  std::uint16_t general_purpose_big_flag =
+      is_utf8_not_ascii(header.filename) ? UTF8_FLAG : 0;
   write(stream, general_purpose_big_flag);
   write(stream, header.compression_method);
   stream.write(reinterpret_cast<const char *>(TIME.data()), TIME.size());
-- 
2.43.0

