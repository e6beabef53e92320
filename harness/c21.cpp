#include "vpapp.h"
#define main tool_main
#include "apps/tool/tool.cpp"
#undef main
using namespace vp;
int main ()
{
    init ();
    for (unsigned long n = 0; more (n, 300); ++n)
    {
        PRS v = records (1 + (coin (5) ? size (800) : below (60)), below (4), true); const double w = coin () ? 1 + below (30) : 0.25 * (1 + below (40)); for (auto &p : v) { p.x = 100 + (coin () ? below (8) : below (800) / 100.0); p.y = -50 + (coin () ? below (8) : below (800) / 100.0); p.z = coin () ? below (4) : below (400) / 100.0; } (void) w;
        const double res = coin () ? 1.0 : coin () ? 0.5 : 0.1 + below (50) / 10.0; double x0 = v[0].x, y0 = v[0].y, z0 = v[0].z, x1 = x0, y1 = y0, z1 = z0; for (auto &p : v) { x0 = std::min (x0, p.x); y0 = std::min (y0, p.y); z0 = std::min (z0, p.z); x1 = std::max (x1, p.x); y1 = std::max (y1, p.y); z1 = std::max (z1, p.z); }
        PRS u = records (below (40), below (4), true); for (auto &p : u) { const PR &q = v[below (v.size ())]; p.x = coin () ? q.x : std::min (x1, q.x + 0.25); p.y = coin () ? q.y : std::min (y1, q.y + 0.5); p.z = coin () ? q.z : std::max (z0, q.z - 0.25); if (coin ()) p.c = below (5); }
        const SF l (coin () ? "" : "low", coin (), u), f (coin () ? "" : "high", coin (), v); std::ostringstream d; d << "resolution " << res << ", low " << show (l) << ", high " << show (f); begin (d.str ());
        auto cell = [&] (const PR &p) { return std::make_tuple (std::trunc ((p.x - x0) / res), std::trunc ((p.y - y0) / res), std::trunc ((p.z - z0) / res)); };
        std::map<std::tuple<double, double, double>, uint32_t> m; for (auto &p : u) m[cell (p)] = p.c; for (auto &p : v) { auto i = m.find (cell (p)); if (i != m.end ()) p.c = i->second; } const SF want (f.get_wkt (), f.get_compressed (), v);
        std::ostringstream log; const SF g = spoc::tool_app::upsample_classifications (l, f, res, coin (), log); for (size_t k = 0; k < v.size () && k < g.get_point_records ().size (); ++k) CHECK (same (g.get_point_record (k), v[k]), "record " << k << " is " << show (g.get_point_record (k)) << " instead of " << show (v[k])); CHECK (same (g, want), "result " << show (g));
        CHECK (throws ([&] { spoc::tool_app::upsample_classifications (l, f, -double (below (2)), false, log); }), "a resolution that is not positive was accepted");
        if (!coin (4)) continue;
        const std::string hi = scratch () + "/hi"; put (hi, save (f)); std::ostringstream o; o.precision (17); o << res; const auto r = run (tool_main, {"--upsample-classifications=" + hi, "--resolution=" + o.str ()}, save (l)); CHECK (r.ret == 0, "the program failed: " << r.err); CHECK (same (load (r.out), want), "the program wrote " << show (load (r.out))); CHECK (run (tool_main, {"--upsample-classifications=" + hi}, save (l)).ret != 0, "accepted without a resolution");
    }
    finish ();
}
