// independent oracle of the transform operations
#pragma once
#include "vpspoc.h"
#include "apps/transform/transform.h"
namespace vp
{
struct OpT { std::string name, params; std::function<PR (const PR &, bool &)> f; };   // f: sets the flag when an error is required
inline std::string num (double v) { std::ostringstream s; s.precision (17); s << v; return s.str (); }
inline unsigned field_bits (char c) { return c == 'c' || c == 'p' ? 32 : c == 'e' ? 64 : 16; }
inline uint64_t getf (const PR &p, const std::string &n, bool &bad)
{
    switch (n[0]) { case 'c': return p.c; case 'p': return p.p; case 'i': return p.i; case 'r': return p.r; case 'g': return p.g; case 'b': return p.b; }
    const uint64_t j = strtoull (n.c_str () + 1, nullptr, 10); if (j >= p.extra.size ()) { bad = true; return 0; } return p.extra[j];
}
inline void putf (PR &p, const std::string &n, uint64_t v, bool &bad)
{
    switch (n[0]) { case 'c': p.c = uint32_t (v); return; case 'p': p.p = uint32_t (v); return; case 'i': p.i = uint16_t (v); return; case 'r': p.r = uint16_t (v); return; case 'g': p.g = uint16_t (v); return; case 'b': p.b = uint16_t (v); return; }
    const uint64_t j = strtoull (n.c_str () + 1, nullptr, 10); if (j >= p.extra.size ()) { bad = true; return; } p.extra[j] = v;
}
// a name of an integer field; sometimes of an extra field that is not there
inline std::string ifield (size_t ne)
{
    static const char *s[] = {"c", "p", "i", "r", "g", "b"};
    if (coin (3) || (ne > 9 && coin ())) { uint64_t j = ne && !coin (12) ? (coin () ? below (ne) : ne - 1) : ne + below (3); return "e" + std::to_string (j); }
    return s[below (6)];
}
// a value for the field: present ones are more interesting than random ones
inline unsigned val31 (const PRS &v, const std::string &n)
{
    bool bad = false;
    if (v.size () && coin ()) { const uint64_t x = getf (v[below (v.size ())], n, bad); if (x < (1ull << 31)) return unsigned (x); }
    const unsigned b = field_bits (n[0]) == 16 ? 0xFFFF : 0x7FFFFFFF;
    return unsigned (integer<uint32_t> ()) & b;
}
inline OpT random_op (const PRS &v, size_t ne, bool errors)
{
    using namespace std;
    static const char ax[] = {'x', 'y', 'z'};
    const char a = ax[below (3)];
    auto ref = [] (PR &p, char c) -> double & { return c == 'x' ? p.x : c == 'y' ? p.y : p.z; };
    const string A (1, a);
    switch (below (10))
    {
        case 0: { const double d = coord (); return {"add-" + A, num (d), [=] (const PR &q, bool &) { PR p = q; ref (p, a) += d; return p; }}; }
        case 1: { const double d = coord (); return {"scale-" + A, num (d), [=] (const PR &q, bool &) { PR p = q; ref (p, a) *= d; return p; }}; }
        case 2: { const double d = coin () ? 90.0 * double (below (9)) - 360 : coord (); const double r = d * M_PI / 180.0;
            return {"rotate-" + A, num (d), [=] (const PR &q, bool &) { PR p = q; const double c = cos (r), s = sin (r);
                const char u = a == 'x' ? 'y' : 'x', w = a == 'z' ? 'y' : 'z'; PR o = q; ref (p, u) = ref (o, u) * c - ref (o, w) * s; ref (p, w) = ref (o, u) * s + ref (o, w) * c; return p; }}; }
        case 3: { const double d = coin () ? 1.0 : coin () ? 0.01 : fabs (coord ()) + 0.001; return {"quantize-xyz", num (d), [=] (const PR &q, bool &) { PR p = q; p.x = trunc (p.x / d) * d; p.y = trunc (p.y / d) * d; p.z = trunc (p.z / d) * d; return p; }}; }
        case 4: { string f = ifield (ne), g = ifield (ne); return {"copy-field", f + "," + g, [=] (const PR &q, bool &bad) { PR p = q; const uint64_t s = getf (q, f, bad); putf (p, g, s, bad); return p; }}; }
        case 5: { string f = ifield (ne); const unsigned x = val31 (v, f), y = val31 (v, f); return {"replace", f + "," + to_string (x) + "," + to_string (y), [=] (const PR &q, bool &bad) { PR p = q; if (getf (q, f, bad) == x) putf (p, f, y, bad); return p; }}; }
        case 6: { string f = ifield (ne); vector<unsigned> l; for (size_t k = 1 + below (4); k; --k) l.push_back (val31 (v, f)); const unsigned y = val31 (v, f); string s = f; for (auto k : l) s += "," + to_string (k); s += "," + to_string (y);
            return {"replace-not", s, [=] (const PR &q, bool &bad) { PR p = q; const uint64_t c = getf (q, f, bad); if (!count (l.begin (), l.end (), c)) putf (p, f, y, bad); return p; }}; }
        case 7: case 8: { if (coin (3)) { const double d = coord (); return {"set", A + "," + num (d), [=] (const PR &q, bool &) { PR p = q; ref (p, a) = d; return p; }}; }
            string f = ifield (ne); const unsigned b = field_bits (f[0]); double d = b == 16 ? integer<uint16_t> () : b == 32 ? integer<uint32_t> () : double (integer<uint64_t> () >> 11); if (coin (4)) d += 0.75; if (b == 16 && d >= 65536) d = 65535; if (b == 32 && d >= 4294967296.0) d = 4294967295.0;
            return {"set", f + "," + num (d), [=] (const PR &q, bool &bad) { PR p = q; putf (p, f, uint64_t (d), bad); return p; }}; }
        default:
            if (!errors) { const double d = 1; return {"add-x", "1", [=] (const PR &q, bool &) { PR p = q; p.x += d; return p; }}; }
            static const char *bad[][2] = {{"no-such-command", "1"}, {"add-x", "abc"}, {"copy-field", "x,c"}, {"copy-field", "c,y"}, {"copy-field", "q,c"}, {"replace", "z,1,2"}, {"replace", "c,1"}, {"replace-not", "c,1"}, {"replace-not", "x,1,2"}, {"set", "w,1"}, {"set", "c"}, {"rotate-z", "?"}, {"replace", "e1x,1,2"}, {"scale-y", ""}, {"quantize-xyz", "."}};
            { const auto &b = bad[below (15)]; return {b[0], b[1], nullptr}; }
    }
}
}
