// the documented file layout, written independently of the library
#pragma once
#include "vpspoc.h"
namespace vp
{
inline void le (std::string &s, uint64_t v, int n) { for (int i = 0; i < n; ++i) s += char (v >> (8 * i) & 255); }
inline uint64_t ule (const std::string &s, size_t o, int n) { uint64_t v = 0; for (int i = n - 1; i >= 0; --i) v = v << 8 | uint8_t (s[o + i]); return v; }
inline std::string rec_bytes (const PR &p) { std::string s; le (s, ubits (p.x), 8); le (s, ubits (p.y), 8); le (s, ubits (p.z), 8); le (s, p.c, 4); le (s, p.p, 4); le (s, p.i, 2); le (s, p.r, 2); le (s, p.g, 2); le (s, p.b, 2); for (auto e : p.extra) le (s, e, 8); return s; }
inline std::string hdr_bytes (const std::string &w, size_t ne, size_t n, int comp, int maj = spoc::MAJOR_VERSION, int min = spoc::MINOR_VERSION) { std::string s = "SPOC"; le (s, maj, 1); le (s, min, 1); le (s, w.size (), 2); s += w; le (s, ne, 1); le (s, n, 8); le (s, comp, 1); return s; }
inline std::string file_bytes (const std::string &w, size_t ne, const PRS &v) { std::string s = hdr_bytes (w, v.empty () ? 0 : ne, v.size (), 0); for (auto &p : v) s += rec_bytes (p); return s; }
}
