// generators and bit-exact comparison for the library's types
#pragma once
#include "vp.h"
#include "spoc/spoc.h"
namespace vp
{
using PR = spoc::point_record::point_record;
using PRS = spoc::point_record::point_records;
using SF = spoc::file::spoc_file;
using PD = spoc::point::point<double>;
inline PR record (size_t ne, unsigned style = 0)
{
    PR p (ne);
    auto d = [&] { return style == 1 ? coord () : style == 2 ? 0.0 : style == 3 ? (coin () ? 0.0 : -0.0) : style == 4 ? 123.5 : anyd (); };
    p.x = d (); p.y = d (); p.z = d ();
    if (style == 2) return p;
    p.c = integer<uint32_t> (); p.p = integer<uint32_t> ();
    p.i = integer<uint16_t> (); p.r = integer<uint16_t> (); p.g = integer<uint16_t> (); p.b = integer<uint16_t> ();
    for (auto &e : p.extra) e = integer<uint64_t> ();
    return p;
}
// whole columns are sometimes zero, constant, or differ in a single place
inline PRS records (size_t n, size_t ne, bool finite = false)
{
    PRS v; v.reserve (n);
    const unsigned st = below (3) == 0 ? (finite ? (coin () ? 2 : 4) : 2 + below (3)) : (finite ? 1 : below (2));
    for (size_t k = 0; k < n; ++k) v.push_back (record (ne, st));
    if (!n) return v;
    const uint64_t mask = coin (3) ? rng () () : coin (3) ? ~0ull : 0;
    for (auto &p : v)
    {
        if (mask & 1) p.x = 0; 
        if (mask & 2) p.y = 0;
        if (mask & 4) p.z = 0;
        if (mask & 8) p.c = 0;
        if (mask & 16) p.p = 0;
        if (mask & 32) p.i = 0;
        if (mask & 64) p.r = 0;
        if (mask & 128) p.g = 0;
        if (mask & 256) p.b = 0;
        for (size_t j = 0; j < ne; ++j) if (mask >> (9 + j % 50) & 1) p.extra[j] = 0;
    }
    if (coin (3))   // one lonely value in an otherwise zero column
    {
        PR &p = v[coin () ? n - 1 : below (n)];
        switch (below (10)) { case 0: p.x = finite ? coord () : anyd (); break; case 1: p.y = coord (); break; case 2: p.z = coord (); break;
            case 3: p.c = integer<uint32_t> (); break; case 4: p.p = 1; break; case 5: p.i = 0x100; break; case 6: p.r = 1; break;
            case 7: p.g = 0xFF00; break; case 8: p.b = 1; break; default: if (ne) p.extra[below (ne)] = 1ull << below (64); }
    }
    return v;
}
inline bool same (const PR &a, const PR &b)
{
    return same (a.x, b.x) && same (a.y, b.y) && same (a.z, b.z) && a.c == b.c && a.p == b.p && a.i == b.i && a.r == b.r && a.g == b.g && a.b == b.b && a.extra == b.extra;
}
inline bool same (const PRS &a, const PRS &b)
{
    if (a.size () != b.size ()) return false;
    for (size_t i = 0; i < a.size (); ++i) if (!same (a[i], b[i])) return false;
    return true;
}
inline std::string show (const PR &p)
{
    std::ostringstream s; s.precision (17);
    s << "(" << p.x << "," << p.y << "," << p.z << " c" << p.c << " p" << p.p << " i" << p.i << " r" << p.r << " g" << p.g << " b" << p.b << " extra[" << p.extra.size () << "]";
    for (size_t i = 0; i < p.extra.size () && i < 4; ++i) s << " " << p.extra[i];
    s << ")"; return s.str ();
}
inline std::string show (const PRS &v) { std::ostringstream s; s << v.size () << " records"; for (size_t i = 0; i < v.size () && i < 3; ++i) s << " " << show (v[i]); return s.str (); }
inline bool same (const SF &a, const SF &b)
{
    return a.get_major_version () == b.get_major_version () && a.get_minor_version () == b.get_minor_version () && a.get_wkt () == b.get_wkt () && a.get_compressed () == b.get_compressed () && same (a.get_point_records (), b.get_point_records ());
}
inline std::string wkt () { switch (below (6)) { case 0: return ""; case 1: return str (size (0xFFFF)); case 2: return str (0xFFFF - below (2)); case 3: return std::string ("a\0b\n", 4); default: return str (below (300), true); } }
inline size_t extras () { switch (below (4)) { case 0: return 0; case 1: return size (255); case 2: return below (9); default: return size (300) % 256; } }
}
