#include "vpspoc.h"
#include "spoc/extent.h"
using namespace vp;
namespace ex = spoc::extent;
static std::string show (const ex::extent &e) { std::ostringstream s; s.precision (17); s << e.minp << " .." << e.maxp; return s.str (); }
template<class T> static void go (const T &v)
{
    std::ostringstream d; d.precision (17); d << "extent of " << v.size () << " points"; for (size_t i = 0; i < v.size () && i < 4; ++i) d << " (" << v[i].x << "," << v[i].y << "," << v[i].z << ")";
    begin (d.str ());
    const auto e = ex::get_extent (v);
    auto dim = [&] (auto get, double lo, double hi, const char *n) {
        if (v.empty ()) { CHECK (lo == std::numeric_limits<double>::max () && hi == std::numeric_limits<double>::lowest (), n << " of an empty cloud"); return; }
        bool al = false, ah = false;
        for (auto &p : v) { const double c = get (p); CHECK (lo <= c && c <= hi, n << " " << c << " outside " << show (e)); al |= c == lo; ah |= c == hi; }
        CHECK (al && ah, n << " bound not attained: " << show (e));
    };
    dim ([] (auto &p) { return p.x; }, e.minp.x, e.maxp.x, "x"); dim ([] (auto &p) { return p.y; }, e.minp.y, e.maxp.y, "y"); dim ([] (auto &p) { return p.z; }, e.minp.z, e.maxp.z, "z");
    CHECK (e == e, "extent equality");
    if (v.size () > 1)
    {
        const size_t k = below (v.size () + 1);
        const auto a = ex::get_extent (T (v.begin (), v.begin () + k)), b = ex::get_extent (T (v.begin () + k, v.end ()));
        CHECK (ex::get_total_extent (a, b) == e, "total extent of the parts " << show (ex::get_total_extent (a, b)) << " differs from " << show (e));
        CHECK (ex::get_total_extent (b, a) == e, "total extent is symmetric");
        CHECK (ex::all_less_equal (e.minp, e.maxp), "min <= max");
        const double dx = e.maxp.x - e.minp.x, dy = e.maxp.y - e.minp.y, dz = e.maxp.z - e.minp.z;
        auto close = [] (double a, double b) { return eqv (a, b) || std::fabs (a - b) <= 1e-12 * std::fabs (b); };
        CHECK (close (ex::get_volume (e), dx * dy * dz) && close (ex::get_area (e), dx * dy), "volume/area of " << show (e));
        auto f = e; switch (below (6)) { case 0: f.minp.x -= 1e9; break; case 1: f.minp.y -= 1e9; break; case 2: f.minp.z -= 1e9; break; case 3: f.maxp.x += 1e9; break; case 4: f.maxp.y += 1e9; break; default: f.maxp.z += 1e9; }
        if (std::fabs (e.minp.x) < 1e12 && std::fabs (e.maxp.x) < 1e12) CHECK (!(f == e), "different extents compare equal");
        auto g = e.minp; switch (below (3)) { case 0: g.x = e.maxp.x + 1e9; break; case 1: g.y = e.maxp.y + 1e9; break; default: g.z = e.maxp.z + 1e9; }
        CHECK (!ex::all_less_equal (g, e.maxp), "all_less_equal ignores a coordinate");
    }
}
int main ()
{
    init ();
    for (unsigned long n = 0; more (n, 200); ++n)
    {
        PRS v = records (size (coin (20) ? 70000 : 300), 0, true);
        if (coin (3)) for (auto &p : v) { p.x = -std::fabs (p.x) - 1; p.y = -std::fabs (p.y) - 1; p.z = -std::fabs (p.z) - 1; }
        go (v);
        std::vector<PD> q; for (auto &p : v) q.push_back (PD {p.x, p.y, p.z});
        go (q);
    }
    finish ();
}
