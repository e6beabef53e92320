From c3449af35a2af3b677191a93d28c41014773b536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:53 +0000
Subject: [PATCH 01/24] fix: uncompressed reader looped forever when a record
 was larger than its buffer

---
 spoc/io.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/spoc/io.h b/spoc/io.h
index f41f265..c944bcd 100644
--- a/spoc/io.h
+++ b/spoc/io.h
@@ -99,10 +99,6 @@ inline point_record::point_records read_uncompressed_points (std::istream &s,
     const size_t total_points,
     const size_t extra_fields)
 {
-    // Allocate the buffer
-    const size_t buffer_size = 1 * 1024;
-    std::vector<char> buffer (buffer_size);
-
     // Determine sizes
     const size_t struct_size =
         sizeof(double) // x
@@ -116,7 +112,11 @@ inline point_record::point_records read_uncompressed_points (std::istream &s,
         + sizeof(uint16_t); // b
     const size_t extra_size = extra_fields * sizeof(uint64_t);
     const size_t record_size = struct_size + extra_size;
+
+    // Allocate the buffer, it must hold at least one record
+    const size_t buffer_size = std::max (size_t (1 * 1024), record_size);
     const size_t records_per_buffer = buffer_size / record_size;
+    std::vector<char> buffer (buffer_size);
 
     // Allocate the records
     point_record::point_records p (total_points, point_record::point_record (extra_fields));
-- 
2.43.0


From 1ac9b000c81cd693b03f779920216b0cf46c041f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:53 +0000
Subject: [PATCH 02/24] fix: more than 255 extra fields were silently truncated
 in the header

---
 spoc/file.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/spoc/file.h b/spoc/file.h
index 238df40..86e045f 100644
--- a/spoc/file.h
+++ b/spoc/file.h
@@ -146,6 +146,8 @@ class spoc_file
     header::header get_header () const
     {
         const size_t extra_fields = get_extra_fields ();
+        if (extra_fields > 0xFF)
+            throw std::runtime_error ("The number of extra fields may not exceed 255");
         const size_t total_points = prs.size ();
         header::header h (major_version, minor_version, wkt, extra_fields, total_points, compressed);
 
-- 
2.43.0


From 76b506378f1170c57c5b168199097eaa47843ec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:53 +0000
Subject: [PATCH 03/24] fix: truncated files were read as if they were complete

---
 spoc/header.h       | 2 ++
 spoc/io.h           | 6 ++++++
 spoc/point_record.h | 2 ++
 3 files changed, 10 insertions(+)

diff --git a/spoc/header.h b/spoc/header.h
index c76d2ce..a4af96f 100644
--- a/spoc/header.h
+++ b/spoc/header.h
@@ -172,6 +172,8 @@ inline header read_header (std::istream &s)
     s.read (reinterpret_cast<char*>(&h.extra_fields), sizeof(uint8_t));
     s.read (reinterpret_cast<char*>(&h.total_points), sizeof(uint64_t));
     s.read (reinterpret_cast<char*>(&h.compressed), sizeof(uint8_t));
+    if (!s)
+        throw std::runtime_error ("Unexpected end of spoc file header");
     return h;
 }
 
diff --git a/spoc/io.h b/spoc/io.h
index c944bcd..eda0e46 100644
--- a/spoc/io.h
+++ b/spoc/io.h
@@ -75,6 +75,8 @@ inline std::vector<T> read_compressed (std::istream &s, const size_t size)
     // Get number of compressed bytes
     uint64_t n = 0;
     s.read (reinterpret_cast<char*>(&n), sizeof(uint64_t));
+    if (!s)
+        throw std::runtime_error ("Unexpected end of compressed point records");
 
     // If a '0' was written, the vector is empty
     if (n == 0)
@@ -83,6 +85,8 @@ inline std::vector<T> read_compressed (std::istream &s, const size_t size)
     // Read compressed bytes
     std::vector<uint8_t> c (n);
     s.read (reinterpret_cast<char *> (&c[0]), n);
+    if (!s)
+        throw std::runtime_error ("Unexpected end of compressed point records");
 
     // Decompress
     std::vector<T> x (size);
@@ -130,6 +134,8 @@ inline point_record::point_records read_uncompressed_points (std::istream &s,
             ? records_per_buffer
             : total_points - i;
         s.read (&buffer[0], total_records * record_size);
+        if (!s)
+            throw std::runtime_error ("Unexpected end of point records");
 
         // Convert from raw memory to record
         for (size_t j = 0; j < total_records; ++j)
diff --git a/spoc/point_record.h b/spoc/point_record.h
index c6353e3..7b3cd4c 100644
--- a/spoc/point_record.h
+++ b/spoc/point_record.h
@@ -158,6 +158,8 @@ inline point_record read_point_record (std::istream &s, const size_t extra_field
         + sizeof(uint16_t));
     if (p.extra.size () != 0)
         s.read (reinterpret_cast<char*>(&p.extra[0]), p.extra.size () * sizeof(uint64_t));
+    if (!s)
+        throw std::runtime_error ("Unexpected end of point records");
     return p;
 }
 
-- 
2.43.0


From 57fd346c0c7fb737e0e47673e8cb20cb94b45b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:53 +0000
Subject: [PATCH 04/24] fix: replace-not wrote the classification instead of
 the named field

---
 apps/transform/transform.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/apps/transform/transform.h b/apps/transform/transform.h
index d043456..3e5046f 100644
--- a/apps/transform/transform.h
+++ b/apps/transform/transform.h
@@ -251,7 +251,7 @@ OP get_replace_not_op (const std::string &field_name,
         throw std::runtime_error ("Not enough values were specified in the replace-not command");
 
     // Get the last value
-    const int r = v.back ();
+    const unsigned r = v.back ();
 
     // Remove it
     v.pop_back ();
@@ -302,11 +302,11 @@ OP get_replace_not_op (const std::string &field_name,
             switch (field_name[0])
             {
                 case 'c': p.c = r; break;
-                case 'p': p.c = r; break;
-                case 'i': p.c = r; break;
-                case 'r': p.c = r; break;
-                case 'g': p.c = r; break;
-                case 'b': p.c = r; break;
+                case 'p': p.p = r; break;
+                case 'i': p.i = r; break;
+                case 'r': p.r = r; break;
+                case 'g': p.g = r; break;
+                case 'b': p.b = r; break;
                 case 'e': // extra
                 {
                     assert (is_extra_field (field_name));
-- 
2.43.0


From ea10f94c382f0bd69065c06a7eebf3cfc77a3183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:53 +0000
Subject: [PATCH 05/24] fix: the noise options of spoc_transform were rejected
 as invalid

---
 apps/transform/transform_cmd.h | 40 ++++++++++++++++++++++++++++++++++
 1 file changed, 40 insertions(+)

diff --git a/apps/transform/transform_cmd.h b/apps/transform/transform_cmd.h
index addd80c..bac135b 100644
--- a/apps/transform/transform_cmd.h
+++ b/apps/transform/transform_cmd.h
@@ -138,6 +138,26 @@ inline args get_args (int argc, char **argv, const std::string &usage)
                 args.commands.push_back (get_command ("copy-field", optarg));
                 break;
             }
+            case GAUSSIAN_NOISE:
+            {
+                args.commands.push_back (get_command ("gaussian-noise", optarg));
+                break;
+            }
+            case GAUSSIAN_NOISE_X:
+            {
+                args.commands.push_back (get_command ("gaussian-noise-x", optarg));
+                break;
+            }
+            case GAUSSIAN_NOISE_Y:
+            {
+                args.commands.push_back (get_command ("gaussian-noise-y", optarg));
+                break;
+            }
+            case GAUSSIAN_NOISE_Z:
+            {
+                args.commands.push_back (get_command ("gaussian-noise-z", optarg));
+                break;
+            }
             case QUANTIZE_XYZ:
             {
                 args.commands.push_back (get_command ("quantize-xyz", optarg));
@@ -193,6 +213,26 @@ inline args get_args (int argc, char **argv, const std::string &usage)
                 args.commands.push_back (get_command ("set", optarg));
                 break;
             }
+            case UNIFORM_NOISE:
+            {
+                args.commands.push_back (get_command ("uniform-noise", optarg));
+                break;
+            }
+            case UNIFORM_NOISE_X:
+            {
+                args.commands.push_back (get_command ("uniform-noise-x", optarg));
+                break;
+            }
+            case UNIFORM_NOISE_Y:
+            {
+                args.commands.push_back (get_command ("uniform-noise-y", optarg));
+                break;
+            }
+            case UNIFORM_NOISE_Z:
+            {
+                args.commands.push_back (get_command ("uniform-noise-z", optarg));
+                break;
+            }
         }
     }
 
-- 
2.43.0


From ab04d3cfff93c0f5640ea56c47ac4fe1093f8e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:53 +0000
Subject: [PATCH 06/24] fix: get-field read past the extra fields when the
 field does not exist

---
 apps/tool/tool.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/apps/tool/tool.h b/apps/tool/tool.h
index 75b7d6c..d3cb36e 100644
--- a/apps/tool/tool.h
+++ b/apps/tool/tool.h
@@ -54,7 +54,8 @@ inline void get_field (const T &f, std::ostream &os, const std::string &field_na
             case 'e': // extra
             {
                 assert (app_utils::is_extra_field (field_name));
-                assert (j < p.extra.size ());
+                if (j >= p.extra.size ())
+                    throw std::runtime_error ("Invalid extra field specification");
                 os << p.extra[j] << std::endl;
             }
             break;
-- 
2.43.0


From e4b790fff5c4def7e82e993ce89e36286973e58b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:53 +0000
Subject: [PATCH 07/24] fix: set-field accepted malformed values and rejected a
 missing final newline

---
 apps/tool/tool.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apps/tool/tool.h b/apps/tool/tool.h
index d3cb36e..5848548 100644
--- a/apps/tool/tool.h
+++ b/apps/tool/tool.h
@@ -170,7 +170,7 @@ inline T set_field (const T &f, std::istream &field_ifs, const std::string &fiel
             field_ifs >> f_size_t[i];
 
         // Make sure there are still values to read
-        if (field_ifs.eof ())
+        if (field_ifs.fail ())
             throw std::runtime_error ("Reached end-of-file before reading all field values");
     }
 
-- 
2.43.0


From 13872851e9342e51d07540b511aa7372e5f55ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:53 +0000
Subject: [PATCH 08/24] fix: get-field lost the last digit of coordinates

---
 apps/tool/tool.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apps/tool/tool.h b/apps/tool/tool.h
index 5848548..8ac5494 100644
--- a/apps/tool/tool.h
+++ b/apps/tool/tool.h
@@ -27,7 +27,7 @@ inline void get_field (const T &f, std::ostream &os, const std::string &field_na
         case 'x':
         case 'y':
         case 'z':
-            os << std::setprecision(std::numeric_limits<double>::digits10 + 1);
+            os << std::setprecision(std::numeric_limits<double>::max_digits10);
         break;
     }
 
-- 
2.43.0


From 573f380e62e3c483aabdf10f6c255d2931dd4a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:53 +0000
Subject: [PATCH 09/24] fix: quantizing overflowed int for coordinates beyond
 2^31 times the precision

---
 apps/transform/transform.h | 7 ++++---
 spoc/utils.h               | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/apps/transform/transform.h b/apps/transform/transform.h
index 3e5046f..9b528fa 100644
--- a/apps/transform/transform.h
+++ b/apps/transform/transform.h
@@ -3,6 +3,7 @@
 #include "spoc/app_utils.h"
 #include "spoc/spoc.h"
 #include <cassert>
+#include <cmath>
 #include <iostream>
 #include <limits>
 #include <random>
@@ -172,9 +173,9 @@ OP get_quantize_op (const double precision)
     OP op = [=] (PR p)
     {
         // Quantize the point
-        p.x = static_cast<int> (p.x / precision) * precision;
-        p.y = static_cast<int> (p.y / precision) * precision;
-        p.z = static_cast<int> (p.z / precision) * precision;
+        p.x = std::trunc (p.x / precision) * precision;
+        p.y = std::trunc (p.y / precision) * precision;
+        p.z = std::trunc (p.z / precision) * precision;
         return p;
     };
 
diff --git a/spoc/utils.h b/spoc/utils.h
index e7f8d63..2adefc9 100644
--- a/spoc/utils.h
+++ b/spoc/utils.h
@@ -1,5 +1,6 @@
 #pragma once
 #include "contracts.h"
+#include <cmath>
 #include <functional>
 
 namespace spoc
@@ -44,9 +45,9 @@ void quantize (T &p, const double precision)
     for (size_t i = 0; i < p.size (); ++i)
     {
         // Quantize the point
-        p[i].x = static_cast<int> (p[i].x / precision) * precision;
-        p[i].y = static_cast<int> (p[i].y / precision) * precision;
-        p[i].z = static_cast<int> (p[i].z / precision) * precision;
+        p[i].x = std::trunc (p[i].x / precision) * precision;
+        p[i].y = std::trunc (p[i].y / precision) * precision;
+        p[i].z = std::trunc (p[i].z / precision) * precision;
     }
 }
 
-- 
2.43.0


From e8bc473f77df77ca448e8f96e74faf03ae48453e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:53 +0000
Subject: [PATCH 10/24] fix: compressed files lost the sign of negative zeros

---
 spoc/io.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/spoc/io.h b/spoc/io.h
index eda0e46..b024c16 100644
--- a/spoc/io.h
+++ b/spoc/io.h
@@ -25,8 +25,9 @@ namespace io
 template<typename T>
 inline bool all_zero (const std::vector<T> &x)
 {
+    // A negative zero is not all-zero: its sign bit has to be saved
     if (std::any_of (x.begin (), x.end (),
-        [](const T &i) { return i != 0; }))
+        [](const T &i) { return i != 0 || std::signbit (static_cast<double> (i)); }))
         return false;
     return true;
 }
-- 
2.43.0


From feb80523fb8c732fee75eac2940553350667cb77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:53 +0000
Subject: [PATCH 11/24] fix: a header with an over-long WKT was written with a
 truncated length

---
 spoc/header.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spoc/header.h b/spoc/header.h
index a4af96f..2192a70 100644
--- a/spoc/header.h
+++ b/spoc/header.h
@@ -134,7 +134,7 @@ inline bool operator!= (const header &a, const header &b)
 /// @param h Header struct
 inline void write_header (std::ostream &s, const header &h)
 {
-    if (!h.check_signature ())
+    if (!h.is_valid ())
         throw std::runtime_error ("Invalid spoc file format");
     s.write (reinterpret_cast<const char*>(h.signature), 4 * sizeof(char));
     s.write (reinterpret_cast<const char*>(&h.major_version), sizeof(uint8_t));
-- 
2.43.0


From 0420daa7f8c3d966595afd6edeb20d47da1ee7f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:08 +0000
Subject: [PATCH 12/24] fix: vectors of 4 GiB or more were silently truncated
 by the compressor

---
 spoc/compression.h | 32 ++++++++++++++++++++++++++------
 1 file changed, 26 insertions(+), 6 deletions(-)

diff --git a/spoc/compression.h b/spoc/compression.h
index 2b4605e..1b15f37 100644
--- a/spoc/compression.h
+++ b/spoc/compression.h
@@ -1,8 +1,10 @@
 #pragma once
 
+#include <algorithm>
 #include <cassert>
 #include <cstdint>
 #include <iostream>
+#include <limits>
 #include <stdexcept>
 #include <string>
 #include <vector>
@@ -78,6 +80,9 @@ struct zlib_inflator
     }
 };
 
+// The most bytes that can be passed to zlib at once
+constexpr size_t MAX_AVAIL_IN = std::numeric_limits<uInt>::max ();
+
 // Compress 'nbytes' pointed to by 'p'. The 'level' parameter can be 1
 // to 9, where 1 is the fastest, and 9 is the best compression. 0 means
 // no compression, and -1 means use the default compression.
@@ -90,14 +95,21 @@ inline std::vector<uint8_t> compress (const uint8_t *p, const size_t nbytes, con
     zlib_deflator deflator (level);
 
     // Get bytes directly from the input vector
-    deflator.s.avail_in = nbytes;
+    size_t remaining = nbytes;
     deflator.s.next_in = const_cast<unsigned char *> (p);
 
     do {
+        // The number of available bytes is only 32 bits wide
+        if (deflator.s.avail_in == 0)
+        {
+            deflator.s.avail_in = std::min (remaining, MAX_AVAIL_IN);
+            remaining -= deflator.s.avail_in;
+        }
+
         // Compress from input to output buffer
         deflator.s.avail_out = BUFFER_SIZE;
         deflator.s.next_out = &output_buffer[0];
-        deflate (&deflator.s, Z_FINISH);
+        deflate (&deflator.s, remaining == 0 ? Z_FINISH : Z_NO_FLUSH);
         const auto compressed_bytes = BUFFER_SIZE - deflator.s.avail_out;
 
         // Save compressed bytes
@@ -105,7 +117,7 @@ inline std::vector<uint8_t> compress (const uint8_t *p, const size_t nbytes, con
         output.insert (output.end (),
             output_buffer.begin (),
             output_buffer.begin () + compressed_bytes);
-    } while (deflator.s.avail_out == 0);
+    } while (deflator.s.avail_out == 0 || remaining != 0);
 
     return output;
 }
@@ -155,13 +167,21 @@ inline std::vector<uint8_t> decompress (const std::vector<uint8_t> &input)
     zlib_inflator inflator;
 
     // Get bytes directory from input vector
-    inflator.s.avail_in = input.size ();
+    size_t remaining = input.size ();
+    int ret = Z_OK;
     inflator.s.next_in = const_cast<unsigned char *> (&input[0]);
 
     do {
+        // The number of available bytes is only 32 bits wide
+        if (inflator.s.avail_in == 0)
+        {
+            inflator.s.avail_in = std::min (remaining, MAX_AVAIL_IN);
+            remaining -= inflator.s.avail_in;
+        }
+
         inflator.s.avail_out = BUFFER_SIZE;
         inflator.s.next_out = &output_buffer[0];
-        const auto ret = inflate (&inflator.s, Z_NO_FLUSH);
+        ret = inflate (&inflator.s, Z_NO_FLUSH);
         switch (ret)
         {
             // GCOV_EXCL_START
@@ -178,7 +198,7 @@ inline std::vector<uint8_t> decompress (const std::vector<uint8_t> &input)
         output.insert (output.end (),
             output_buffer.begin (),
             output_buffer.begin () + decompressed_bytes);
-    } while (inflator.s.avail_out == 0);
+    } while (ret != Z_STREAM_END && (inflator.s.avail_out == 0 || remaining != 0));
 
     return output;
 }
-- 
2.43.0


From 73f1eb653459b72d4dbb5c0b7fd7821f0628dae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:08 +0000
Subject: [PATCH 13/24] fix: incomplete deflate data was decompressed as if it
 were complete

---
 spoc/compression.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/spoc/compression.h b/spoc/compression.h
index 1b15f37..df3f000 100644
--- a/spoc/compression.h
+++ b/spoc/compression.h
@@ -200,6 +200,11 @@ inline std::vector<uint8_t> decompress (const std::vector<uint8_t> &input)
             output_buffer.begin () + decompressed_bytes);
     } while (ret != Z_STREAM_END && (inflator.s.avail_out == 0 || remaining != 0));
 
+    // GCOV_EXCL_START
+    if (ret != Z_STREAM_END)
+        throw std::runtime_error (zlib_error_string (Z_DATA_ERROR));
+    // GCOV_EXCL_STOP
+
     return output;
 }
 
@@ -229,7 +234,7 @@ inline void decompress (std::istream &is, std::ostream &os)
 
         // GCOV_EXCL_START
         if (inflator.s.avail_in == 0)
-            break;
+            throw std::runtime_error (zlib_error_string (Z_DATA_ERROR));
         // GCOV_EXCL_STOP
 
         inflator.s.next_in = &input_buffer[0];
-- 
2.43.0


From 19f8a10ffdf77d22956e971ab1d2b970cfebcc65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:22 +0000
Subject: [PATCH 14/24] fix: field names with junk after the extra field number
 were accepted

---
 spoc/app_utils.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/spoc/app_utils.h b/spoc/app_utils.h
index eef04f2..c64a3f6 100644
--- a/spoc/app_utils.h
+++ b/spoc/app_utils.h
@@ -95,6 +95,10 @@ int get_extra_index (const std::string &f)
     // Skip over the 'e'
     e.erase (0, 1);
 
+    // Everything that follows must be a digit
+    if (e.find_first_not_of ("0123456789") != std::string::npos)
+        return -1;
+
     // Convert to int
     int n;
     try { n = stoi (e); }
-- 
2.43.0


From b930345b2b25d33669ff2578ca9d16c48c8e027c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:56 +0000
Subject: [PATCH 15/24] fix: JSON statistics of classifications and point IDs
 were 'unknown type: j'

---
 spoc/json.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/spoc/json.h b/spoc/json.h
index f681258..88e3b3e 100644
--- a/spoc/json.h
+++ b/spoc/json.h
@@ -20,6 +20,7 @@ namespace json
 //      char,
 //      uint8_t,
 //      uint16_t,
+//      uint32_t,
 //      uint64_t,
 //      float,
 //      double,
@@ -93,6 +94,10 @@ inline void pretty_print (std::ostream &s, const json::value &v, const int inden
     {
         s << std::any_cast<uint16_t> (v);
     }
+    else if (v.type () == typeid (uint32_t))
+    {
+        s << std::any_cast<uint32_t> (v);
+    }
     else if (v.type () == typeid (uint64_t))
     {
         s << std::any_cast<uint64_t> (v);
@@ -172,6 +177,8 @@ inline std::ostream &operator<< (std::ostream &s, const json::value &v)
         s << int (std::any_cast<uint8_t> (v));
     else if (v.type () == typeid (uint16_t))
         s << std::any_cast<uint16_t> (v);
+    else if (v.type () == typeid (uint32_t))
+        s << std::any_cast<uint32_t> (v);
     else if (v.type () == typeid (uint64_t))
         s << std::any_cast<uint64_t> (v);
     else if (v.type () == typeid (float))
-- 
2.43.0


From 63cb1190ab7ec1cde4ff3c143ec27f07e8c3db61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:56 +0000
Subject: [PATCH 16/24] fix: classifications of 2^31 and more were reported as
 negative numbers

---
 apps/info/info.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/apps/info/info.h b/apps/info/info.h
index 4942653..eee4aec 100644
--- a/apps/info/info.h
+++ b/apps/info/info.h
@@ -15,7 +15,7 @@ namespace info_app
 template<typename T>
 inline std::map<std::string,size_t> get_class_count_map (const T &c)
 {
-    std::unordered_map<int,size_t> m;
+    std::unordered_map<typename T::value_type,size_t> m;
 
     // Count each classification
     //
@@ -323,7 +323,7 @@ inline void process (std::ostream &os,
 
             for (auto i : class_count_map)
             {
-                const auto j = std::stoi (i.first);
+                const auto j = std::stoul (i.first);
                 const auto l = class_map.find (j) == class_map.end ()
                     ? "undefined"
                     : class_map.at (j);
-- 
2.43.0


From 6233a37557e7991ab321a2bebd86347f1405a8fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:57 +0000
Subject: [PATCH 17/24] fix: the documented short option -a of spoc_transform
 was rejected

---
 apps/transform/transform_cmd.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apps/transform/transform_cmd.h b/apps/transform/transform_cmd.h
index bac135b..4b7acbc 100644
--- a/apps/transform/transform_cmd.h
+++ b/apps/transform/transform_cmd.h
@@ -100,7 +100,7 @@ inline args get_args (int argc, char **argv, const std::string &usage)
             {0, 0, 0, 0}
         };
 
-        int c = getopt_long(argc, argv, "hve", long_options, &option_index);
+        int c = getopt_long(argc, argv, "hvea:", long_options, &option_index);
         if (c == -1)
             break;
 
-- 
2.43.0


From 99969b8c719212a49214c489c049ca17f0dca082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:57 +0000
Subject: [PATCH 18/24] fix: no neighbors were found in voxels whose index
 exceeds 31 bits

---
 spoc/radius_search.h | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/spoc/radius_search.h b/spoc/radius_search.h
index 686d84b..9742065 100644
--- a/spoc/radius_search.h
+++ b/spoc/radius_search.h
@@ -1,5 +1,6 @@
 #pragma once
 
+#include <cstdint>
 #include <vector>
 
 #include "spoc/point_record.h"
@@ -39,16 +40,16 @@ class random_neighbor_selector
         , voxel_counts (total_voxels)
     {
         // Get the voxel indexes for the 27 voxels
-        const int i1 = static_cast<int> (ijk.i) - 1;
-        const int i2 = static_cast<int> (ijk.i) + 2;
-        const int j1 = static_cast<int> (ijk.j) - 1;
-        const int j2 = static_cast<int> (ijk.j) + 2;
-        const int k1 = static_cast<int> (ijk.k) - 1;
-        const int k2 = static_cast<int> (ijk.k) + 2;
+        const int64_t i1 = static_cast<int64_t> (ijk.i) - 1;
+        const int64_t i2 = static_cast<int64_t> (ijk.i) + 2;
+        const int64_t j1 = static_cast<int64_t> (ijk.j) - 1;
+        const int64_t j2 = static_cast<int64_t> (ijk.j) + 2;
+        const int64_t k1 = static_cast<int64_t> (ijk.k) - 1;
+        const int64_t k2 = static_cast<int64_t> (ijk.k) + 2;
         size_t n = 0;
-        for (int i = i1; i < i2; ++i)
-            for (int j = j1; j < j2; ++j)
-                for (int k = k1; k < k2; ++k)
+        for (int64_t i = i1; i < i2; ++i)
+            for (int64_t j = j1; j < j2; ++j)
+                for (int64_t k = k1; k < k2; ++k)
                     voxel_indexes[n++] = spoc::voxel::voxel_index (i, j, k);
 
         // There should have been 27
-- 
2.43.0


From 98b2fa37591d34d1830c5cd20293aa8fbfe35ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:57 +0000
Subject: [PATCH 19/24] fix: contradictory selections of what to compare were
 not rejected

---
 apps/diff/diff.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apps/diff/diff.cpp b/apps/diff/diff.cpp
index c349918..608d0cc 100644
--- a/apps/diff/diff.cpp
+++ b/apps/diff/diff.cpp
@@ -46,7 +46,7 @@ int main (int argc, char **argv)
             clog << "filename2\t'" << args.fn2 << "'" << endl;
         }
 
-        if (args.header_only + args.data_only + !args.fields.empty () > 2)
+        if (args.header_only + args.data_only + !args.fields.empty () > 1)
             throw runtime_error ("Can't specify more than 1 of 'header-only', 'data-only', and specific fields");
 
         if (args.verbose)
-- 
2.43.0


From 11eed62360a12619e298578d16a6bfa5ed4f7532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:06 +0000
Subject: [PATCH 20/24] fix: the manual pages listed options that do not exist

---
 apps/info/info.1.md | 2 +-
 apps/tool/tool.1.md | 3 ---
 2 files changed, 1 insertion(+), 4 deletions(-)

diff --git a/apps/info/info.1.md b/apps/info/info.1.md
index 27847fc..440f781 100644
--- a/apps/info/info.1.md
+++ b/apps/info/info.1.md
@@ -72,7 +72,7 @@ highest 25% of the values are spread out over the range 89 to 4088.
 \-\-classification-info, -l
 : Toggle classification information switch
 
-\-\-metric-info, -l
+\-\-metric-info, -m
 : Toggle metric information switch
 
 \-\-compact, -c
diff --git a/apps/tool/tool.1.md b/apps/tool/tool.1.md
index 656b435..29026d1 100644
--- a/apps/tool/tool.1.md
+++ b/apps/tool/tool.1.md
@@ -25,9 +25,6 @@ Collection of tools to run on a SPOC file
 \-\-version, -e
 :   Print version information and exit
 
-\-\-random-seed=*#*, -r *#*
-:   Set the random seed equal to *#*
-
 \-\-resolution=*#*
 :   Set the resolution used for upsampling
 
-- 
2.43.0


From 19d06388aafce0c202f3b066dde98948fecafa6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:14 +0000
Subject: [PATCH 21/24] fix: compressing or decompressing nothing referred to
 the first element of an empty vector

---
 spoc/compression.h | 6 +++---
 spoc/io.h          | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/spoc/compression.h b/spoc/compression.h
index df3f000..217d262 100644
--- a/spoc/compression.h
+++ b/spoc/compression.h
@@ -124,7 +124,7 @@ inline std::vector<uint8_t> compress (const uint8_t *p, const size_t nbytes, con
 
 inline std::vector<uint8_t> compress (const std::vector<uint8_t> &input, const int level = -1)
 {
-    return compress (&input[0], input.size (), level);
+    return compress (input.data (), input.size (), level);
 }
 
 inline void compress (std::istream &is, std::ostream &os, const int level)
@@ -169,7 +169,7 @@ inline std::vector<uint8_t> decompress (const std::vector<uint8_t> &input)
     // Get bytes directory from input vector
     size_t remaining = input.size ();
     int ret = Z_OK;
-    inflator.s.next_in = const_cast<unsigned char *> (&input[0]);
+    inflator.s.next_in = const_cast<unsigned char *> (input.data ());
 
     do {
         // The number of available bytes is only 32 bits wide
@@ -215,7 +215,7 @@ inline void decompress (const std::vector<uint8_t> &input, uint8_t *output, cons
     if (d.size () != output_bytes)
         throw std::runtime_error ("Can't decompress: unexpected number of decompressed bytes");;
     // GCOV_EXCL_STOP
-    std::copy (&d[0], &d[0] + output_bytes, output);
+    std::copy (d.begin (), d.end (), output);
 }
 
 inline void decompress (std::istream &is, std::ostream &os)
diff --git a/spoc/io.h b/spoc/io.h
index b024c16..c09669e 100644
--- a/spoc/io.h
+++ b/spoc/io.h
@@ -91,7 +91,7 @@ inline std::vector<T> read_compressed (std::istream &s, const size_t size)
 
     // Decompress
     std::vector<T> x (size);
-    spoc::compression::decompress (c, reinterpret_cast<uint8_t *> (&x[0]), x.size () * sizeof(T));
+    spoc::compression::decompress (c, reinterpret_cast<uint8_t *> (x.data ()), x.size () * sizeof(T));
 
     return x;
 }
-- 
2.43.0


From 63ccba5ff3c9d7e7931bae73839b499785cbef3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:03:12 +0000
Subject: [PATCH 22/24] fix: encoding or decoding no points referred to the
 first element of an empty vector

---
 spoc/point.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spoc/point.h b/spoc/point.h
index 82048a7..4c2cc69 100644
--- a/spoc/point.h
+++ b/spoc/point.h
@@ -182,7 +182,7 @@ inline std::vector<uint8_t> encode_points (const std::vector<point<T>> &points)
     // Output bytes
     std::vector<uint8_t> bytes;
     // Encode the points (NOT PORTABLE)
-    const uint8_t *pd = reinterpret_cast<const uint8_t *> (&points[0]);
+    const uint8_t *pd = reinterpret_cast<const uint8_t *> (points.data ());
     bytes.insert (bytes.end (), pd, pd + points.size () * sizeof(point<T>));
     return bytes;
 }
@@ -196,7 +196,7 @@ inline std::vector<point<T>> decode_points (const std::vector<uint8_t> &bytes)
     // Decoded points
     std::vector<point<T>> points;
     // Decode the points (NOT PORTABLE)
-    const point<T> *pc = reinterpret_cast<const point<T> *> (&bytes[0]);
+    const point<T> *pc = reinterpret_cast<const point<T> *> (bytes.data ());
     const size_t total_points = bytes.size () / sizeof(point<T>);
     points.insert (points.end (), pc, pc + total_points);
     return points;
-- 
2.43.0


From 15c0ed07ff5e921f35f3b0643cc16332c5477fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:30:15 +0000
Subject: [PATCH 23/24] fix: text after the number of a coordinate criterion
 was ignored

---
 apps/filter/filter.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/apps/filter/filter.h b/apps/filter/filter.h
index 86965b2..1b934a1 100644
--- a/apps/filter/filter.h
+++ b/apps/filter/filter.h
@@ -8,6 +8,7 @@
 #include <iostream>
 #include <limits>
 #include <random>
+#include <stdexcept>
 #include <vector>
 #include <unordered_map>
 
@@ -146,7 +147,11 @@ inline T remove_coords (const T &f, const std::string &op)
     double compare_value = std::numeric_limits<double>::quiet_NaN();
     try
     {
-        compare_value = std::stod(ops[2]);
+        size_t sz = 0;
+        compare_value = std::stod(ops[2], &sz);
+        // The value must not be followed by anything else
+        if (sz != ops[2].size())
+            throw std::invalid_argument(ops[2]);
     }
     catch (const std::exception &e)
     {
-- 
2.43.0


From 101b9bd8c493ab04bfda5a81e192612e776e2dce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:40:21 +0000
Subject: [PATCH 24/24] fix: report a missing field name instead of asserting
 on it

---
 spoc/app_utils.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/spoc/app_utils.h b/spoc/app_utils.h
index c64a3f6..7deab0f 100644
--- a/spoc/app_utils.h
+++ b/spoc/app_utils.h
@@ -127,7 +127,8 @@ bool check_field_name (const std::string &f)
 std::string consume_field_name (std::string &s)
 {
     // Check string
-    assert (!s.empty ());
+    if (s.empty ())
+        throw std::runtime_error ("Expected a field name");
 
     // Get the char
     char c = s[0];
-- 
2.43.0

