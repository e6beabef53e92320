#include "vplayout.h"
#include "spoc/extent.h"
using namespace vp;
static bool eq (const PD &a, const PD &b) { return same (a.x, b.x) && same (a.y, b.y) && same (a.z, b.z); }
static PD pt () { return {anyd (), anyd (), anyd ()}; }
static std::string raw (const std::vector<PD> &v) { std::string s; for (auto &p : v) { le (s, ubits (p.x), 8); le (s, ubits (p.y), 8); le (s, ubits (p.z), 8); } return s; }
static bool bytes (const std::vector<uint8_t> &b, const std::string &s) { return b.size () == s.size () && std::equal (b.begin (), b.end (), s.begin (), [] (uint8_t x, char y) { return x == uint8_t (y); }); }
template<class T> void list (const std::vector<spoc::point::point<T>> &v, const char *what)
{
    begin (std::string ("list of ") + std::to_string (v.size ()) + " points of " + what);
    const auto b = spoc::point::encode_points (v); CHECK (b.size () == v.size () * 3 * sizeof (T), "size " << b.size ());
    const auto g = spoc::point::decode_points<T> (b); CHECK (g.size () == v.size (), "number of points " << g.size ());
    for (size_t k = 0; k < v.size (); ++k) CHECK (!memcmp (&g[k].x, &v[k].x, sizeof (T)) && !memcmp (&g[k].y, &v[k].y, sizeof (T)) && !memcmp (&g[k].z, &v[k].z, sizeof (T)), "point " << k << " differs");
}
int main ()
{
    init ();
    for (unsigned long n = 0; more (n, 2000); ++n)
    {
        const PD p = pt (); std::ostringstream o; o.precision (17); o << "point" << p; begin (o.str ());
        const auto b = spoc::point::encode_point (p); CHECK (bytes (b, raw ({p})), "encoding of a point (" << b.size () << " bytes)"); CHECK (eq (spoc::point::decode_point (b), p), "point decoded as" << spoc::point::decode_point (b));
        spoc::extent::extent e; e.minp = pt (); e.maxp = pt (); std::ostringstream q; q.precision (17); q << "extent" << e.minp << " to" << e.maxp; begin (q.str ());
        const auto c = spoc::extent::encode_extent (e); CHECK (bytes (c.first, raw ({e.minp})) && bytes (c.second, raw ({e.maxp})), "encoding of an extent (" << c.first.size () << " and " << c.second.size () << " bytes)"); const auto f = spoc::extent::decode_extent (c); CHECK (eq (f.minp, e.minp) && eq (f.maxp, e.maxp), "extent decoded as" << f.minp << " to" << f.maxp);
        std::vector<PD> v (coin (10) ? size (5000) : below (20)); for (auto &x : v) x = pt (); list (v, "doubles"); begin ("list of " + std::to_string (v.size ()) + " points"); CHECK (bytes (spoc::point::encode_points (v), raw (v)), "encoding of a list");
        std::vector<spoc::point::point<uint16_t>> u (below (20)); for (auto &x : u) x = {integer<uint16_t> (), integer<uint16_t> (), integer<uint16_t> ()}; list (u, "16-bit integers");
    }
    finish ();
}
