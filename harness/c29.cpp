#include "vpspoc.h"
#include "spoc/extent.h"
using namespace vp;
template<class T> static void go (const T &v)
{
    using P = typename T::value_type;
    std::ostringstream d; d.precision (17); d << v.size () << " points"; for (size_t i = 0; i < v.size () && i < 4; ++i) d << " (" << v[i].x << "," << v[i].y << "," << v[i].z << ")";
    spoc::extent::extent e; auto some = [&] (char c) { if (v.empty () || coin (3)) return coord (); const P &p = v[below (v.size ())]; return c == 'x' ? p.x : c == 'y' ? p.y : p.z; };
    e.minp = PD {some ('x'), some ('y'), some ('z')}; e.maxp = PD {some ('x'), some ('y'), some ('z')};
    if (coin ()) { if (e.minp.x > e.maxp.x) std::swap (e.minp.x, e.maxp.x); if (e.minp.y > e.maxp.y) std::swap (e.minp.y, e.maxp.y); if (e.minp.z > e.maxp.z) std::swap (e.minp.z, e.maxp.z); }
    if (coin (3)) { e.minp.z = -1e300; e.maxp.z = 1e300; }
    { std::ostringstream s; s.precision (17); s << "crop " << d.str () << " to " << e.minp << " .." << e.maxp; begin (s.str ()); }
    const T c = spoc::utils::crop (v, e);
    size_t k = 0;
    for (size_t i = 0; i < v.size (); ++i)
    {
        const P &p = v[i];
        const bool out = p.x < e.minp.x || p.y < e.minp.y || p.z < e.minp.z || p.x > e.maxp.x || p.y > e.maxp.y || p.z > e.maxp.z;
        if (out) continue;
        CHECK (k < c.size (), "point " << i << " inside is missing");
        CHECK (same (c[k].x, p.x) && same (c[k].y, p.y) && same (c[k].z, p.z), "point " << i);
        if constexpr (std::is_same_v<P, PR>) CHECK (same (c[k], p), "record " << i);
        ++k;
    }
    CHECK (k == c.size (), "crop kept " << c.size () << " points, expected " << k);
    const double prec = coin (3) ? 1.0 : coin () ? std::pow (10.0, -double (below (5))) : std::fabs (coord ()) + 0.001;
    { std::ostringstream s; s.precision (17); s << "quantize " << d.str () << " to " << prec; begin (s.str ()); }
    T w = v; spoc::utils::quantize (w, prec);
    CHECK (w.size () == v.size (), "size");
    for (size_t i = 0; i < v.size (); ++i)
    {
        auto qz = [&] (double a) { return std::trunc (a / prec) * prec; };
        CHECK (eqv (w[i].x, qz (v[i].x)) && eqv (w[i].y, qz (v[i].y)) && eqv (w[i].z, qz (v[i].z)), "point " << i << " (" << v[i].x << "," << v[i].y << "," << v[i].z << ") gives (" << w[i].x << "," << w[i].y << "," << w[i].z << ")");
        P b = w[i]; b.x = v[i].x; b.y = v[i].y; b.z = v[i].z;
        if constexpr (std::is_same_v<P, PR>) CHECK (same (b, v[i]), "another field of point " << i);
    }
    CHECK (throws ([&] { T u = v; spoc::utils::quantize (u, 0.0); }), "zero precision accepted");
    begin ("center of " + d.str ());
    if (v.size ())
    {
        const P m = spoc::utils::get_center (v); long double x = 0, y = 0, z = 0, ax = 1e-9, ay = 1e-9, az = 1e-9; for (auto &p : v) { x += p.x; y += p.y; z += p.z; ax += std::fabs (p.x); ay += std::fabs (p.y); az += std::fabs (p.z); }
        const long double n = v.size (), t = 1e-10L;
        CHECK (std::fabs (double (m.x - x / n)) <= t * ax && std::fabs (double (m.y - y / n)) <= t * ay && std::fabs (double (m.z - z / n)) <= t * az, "center " << m.x << "," << m.y << "," << m.z);
    }
}
int main ()
{
    init ();
    for (unsigned long n = 0; more (n, 100); ++n)
    {
        PRS v = records (size (coin (20) ? 70000 : 300), below (3), true);
        go (v);
        std::vector<PD> q; for (auto &p : v) q.push_back (PD {p.x, p.y, p.z});
        go (q);
    }
    finish ();
}
