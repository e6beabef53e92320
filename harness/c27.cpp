#include "vpapp.h"
#include "spoc/subsampling.h"
#define main filter_main
#include "apps/filter/filter.cpp"
#undef main
using namespace vp;
int main ()
{
    init ();
    for (unsigned long n = 0; more (n, 500); ++n)
    {
        PRS v = records (coin (6) ? size (1500) : below (50), below (3), true); const unsigned st = below (4); for (auto &p : v) { if (st < 2) { p.x = int (below (6)) - 3; p.y = below (4) / 2.0; p.z = coin () ? 0.0 : -0.0; } else if (st == 2) { p.x = below (1000) / 100.0; p.y = 5e5 + below (1000) / 100.0; p.z = below (300) / 100.0; } }
        const double res = coin () ? 1.0 : 0.05 + below (100) / 20.0; const size_t seed = coin () ? 0 : 1 + below (1000); std::ostringstream o; o.precision (17); o << "resolution " << res << ", seed " << seed << ", " << show (v); begin (o.str ());
        double x0 = 1e300, y0 = 1e300, z0 = 1e300; for (auto &p : v) { x0 = std::min (x0, p.x); y0 = std::min (y0, p.y); z0 = std::min (z0, p.z); }
        auto cell = [&] (const PR &p) { return std::make_tuple (std::trunc ((p.x - x0) / res), std::trunc ((p.y - y0) / res), std::trunc ((p.z - z0) / res)); }; auto loc = [] (const PR &p) { return std::make_tuple (p.x + 0.0, p.y + 0.0, p.z + 0.0); };
        auto check = [&] (const std::vector<size_t> &r, auto key, const char *what) { std::set<decltype (key (PR ()))> all, seen; std::vector<size_t> first; for (size_t k = 0; k < v.size (); ++k) if (all.insert (key (v[k])).second) first.push_back (k); std::set<size_t> once; for (auto j : r) { CHECK (j < v.size (), what << ": index " << j); CHECK (once.insert (j).second, what << ": record " << j << " twice"); CHECK (seen.insert (key (v[j])).second, what << ": two records of one group, the second is " << j); } CHECK (seen.size () == all.size (), what << ": " << seen.size () << " of " << all.size () << " groups"); if (!seed) CHECK (r == first, what << ": not the first records in order"); };
        const auto a = spoc::subsampling::get_subsample_indexes (v, res, seed); check (a, cell, "subsampling"); const auto b = spoc::subsampling::get_unique_xyz_indexes (v, seed); check (b, loc, "unique locations");
        const PRS s = spoc::subsampling::subsample_points (v, res, seed); PRS w; for (auto j : a) w.push_back (v[j]); CHECK (same (s, w), "subsample_points returned " << show (s));
        const SF f (coin () ? "" : "w", coin (), v); PRS u; for (auto j : b) u.push_back (v[j]); const SF g = spoc::filter_app::unique_xyz (f, seed), h = spoc::filter_app::subsample_file (f, res, seed); CHECK (same (g, SF (f.get_wkt (), f.get_compressed (), u)), "unique_xyz returned " << show (g)); CHECK (same (h, SF (f.get_wkt (), f.get_compressed (), w)), "subsample_file returned " << show (h));
        if (!coin (4)) continue;
        std::ostringstream r; r.precision (17); r << "--subsample=" << res; const auto q = run (filter_main, {r.str (), "-a", std::to_string (seed)}, save (f)); CHECK (q.ret == 0, "failed: " << q.err); CHECK (same (load (q.out), SF (f.get_wkt (), f.get_compressed (), w)), "the program (--subsample) wrote " << show (load (q.out))); const auto t = run (filter_main, {"--unique-xyz", "-a", std::to_string (seed)}, save (f)); CHECK (t.ret == 0, "failed: " << t.err); CHECK (same (load (t.out), g), "the program (--unique-xyz) wrote " << show (load (t.out)));
    }
    finish ();
}
