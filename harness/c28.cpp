#include "vpspoc.h"
#include "spoc/radius_search.h"
#include <mutex>
using namespace vp;
int main ()
{
    init ();
    for (unsigned long n = 0; more (n, 500); ++n)
    {
        std::vector<PD> v (1 + (coin (8) ? size (600) : below (60))); const unsigned st = below (4); const double far = coin (3) ? 1e12 : 0; for (auto &p : v) { if (st == 0) p = {double (below (5)), double (below (5)), double (below (3))}; else if (st == 1) p = {500000 + below (4000) / 1000.0, 4000000 + below (4000) / 1000.0, below (2000) / 1000.0}; else p = {below (100) / 16.0, -double (below (100)) / 16.0, below (40) / 16.0}; if (far && coin ()) p.x += far; }
        const double r = far ? 1.0 : coin () ? 1.0 : 0.125 * (1 + below (20)); const bool crowd = n % 5 == 3;
        // a crowd in the surrounding voxels but outside the radius, a few points inside
        if (crowd) { v.clear (); const size_t m = 200 + below (900); for (size_t k = 0; k < m; ++k) { PD p = {r * (1.3 + below (600) / 1000.0), r * (below (1900) / 1000.0), r * (below (1900) / 1000.0)}; v.push_back (p); } for (size_t k = 1 + below (4); k-- > 0;) v.insert (v.begin () + below (v.size ()), PD {r * (below (200) / 1000.0), r * (below (200) / 1000.0), 0.0}); v.push_back ({0, 0, 0}); }
        const size_t mx = crowd && coin () ? 1 + below (6) : coin (4) ? 0 : coin () ? 32 : coin () ? below (12) : 1000;
        std::vector<size_t> pi, ni; const unsigned mode = below (4); for (size_t k = 0; k < v.size (); ++k) { if (coin ()) pi.push_back (k); if (coin ()) ni.push_back (k); } std::shuffle (ni.begin (), ni.end (), rng ());
        std::vector<size_t> all; for (size_t k = 0; k < v.size (); ++k) all.push_back (k); if (mode == 1) ni = pi; if (mode == 2) ni = all; if (mode == 3) pi = ni = all;
        std::ostringstream o; o.precision (17); o << v.size () << " points from" << v[0] << ", radius " << r << ", at most " << mx << ", " << pi.size () << " searched among " << ni.size () << ", mode " << mode; begin (o.str ());
        std::map<size_t, std::vector<size_t>> got; std::mutex mu; auto op = [&] (size_t i, const std::vector<size_t> &nb) { std::lock_guard<std::mutex> g (mu); CHECK (!got.count (i), "point " << i << " was searched twice"); got[i] = nb; };
        if (mode == 0) spoc::radius_search::radius_search (v, pi, ni, r, op, mx); if (mode == 1) spoc::radius_search::radius_search_indexes (v, pi, r, op, mx); if (mode == 2) spoc::radius_search::radius_search_all_neighbors (v, pi, r, op, mx); if (mode == 3) spoc::radius_search::radius_search_all (v, r, op, mx);
        CHECK (got.size () == pi.size (), got.size () << " points were searched"); PD lo = v[0]; for (auto &p : v) { lo.x = std::min (lo.x, p.x); lo.y = std::min (lo.y, p.y); lo.z = std::min (lo.z, p.z); }
        auto cell = [&] (const PD &p, int k) { return std::trunc (k == 0 ? (p.x - lo.x) / r : k == 1 ? (p.y - lo.y) / r : (p.z - lo.z) / r); };
        for (size_t i = 0; i < pi.size (); ++i)
        {
            CHECK (got.count (i), "point " << i << " was not searched"); const auto &nb = got[i]; std::set<size_t> s; CHECK (nb.size () <= mx, nb.size () << " neighbors");
            for (auto j : nb) { CHECK (j < ni.size (), "neighbor " << j << " is not eligible"); CHECK (s.insert (j).second, "neighbor " << j << " twice"); const PD &a = v[pi[i]], &b = v[ni[j]]; const double d = std::sqrt ((a.x - b.x) * (a.x - b.x) + (a.y - b.y) * (a.y - b.y) + (a.z - b.z) * (a.z - b.z)); CHECK (d <= r, "neighbor" << b << " of" << a << " at distance " << d); }
            if (nb.size () < mx) for (size_t j = 0; j < ni.size (); ++j) { const PD &a = v[pi[i]], &b = v[ni[j]]; const double d = std::sqrt ((a.x - b.x) * (a.x - b.x) + (a.y - b.y) * (a.y - b.y) + (a.z - b.z) * (a.z - b.z)); bool close = true; for (int k = 0; k < 3; ++k) close = close && std::abs (cell (a, k) - cell (b, k)) <= 1; if (close && d <= r) CHECK (s.count (j), "neighbor" << b << " of" << a << " at distance " << d << " is missing"); }
        }
        if (mode == 3) { const auto q = spoc::radius_search::radius_search_get_neighbors (v, r); CHECK (q.size () == v.size (), "number of lists"); if (mx == 32) for (size_t i = 0; i < v.size (); ++i) CHECK (std::set<size_t> (q[i].begin (), q[i].end ()) == std::set<size_t> (got[i].begin (), got[i].end ()), "list of point " << i); }
    }
    finish ();
}
