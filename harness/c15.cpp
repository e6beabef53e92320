#include "vpapp.h"
#define main tile_main
#include "apps/tile/tile.cpp"
#undef main
using namespace vp;
// the cell of a record, from the documented grid over the extent
static std::pair<double, double> cell (double x, double y, double x0, double y0, double sx, double sy) { return {sx > 0 ? std::trunc ((x - x0) / sx) : 0, sy > 0 ? std::trunc ((y - y0) / sy) : 0}; }
int main ()
{
    init ();
    for (unsigned long n = 0; more (n, 300); ++n)
    {
        const size_t ne = below (3); const size_t cnt = coin (5) ? size (1500) : below (40); PRS v = records (cnt, ne, true);
        if (coin ()) for (auto &p : v) { p.x = double (below (20)); p.y = double (below (30)) / 2; } if (coin (5)) for (auto &p : v) p.x = 7.25; if (coin (5)) for (auto &p : v) p.y = -3;
        const SF f (coin () ? "" : str (below (50), true), coin (), v); const auto e = spoc::extent::get_extent (v);
        double x0 = 0, y0 = 0, x1 = 0, y1 = 0; if (!v.empty ()) { x0 = x1 = v[0].x; y0 = y1 = v[0].y; } for (auto &p : v) { x0 = std::min (x0, p.x); x1 = std::max (x1, p.x); y0 = std::min (y0, p.y); y1 = std::max (y1, p.y); }
        const double dx = x1 - x0, dy = y1 - y0;
        const unsigned tiles = 1 + below (coin () ? 5 : 60); std::vector<std::string> a; double sx = -1, sy = -1; const double w = std::max (std::max (dx, dy), 1e-3);
        switch (below (4))
        {
            case 0: { const double s = spoc::tile_app::get_tile_size (e, tiles); a.push_back ("--tiles=" + std::to_string (tiles)); sx = sy = s; if (!v.empty ()) { begin ("tile size for " + std::to_string (tiles) + " tiles of " + show (v)); CHECK (s > 0, "tile size " << s); CHECK (s * tiles >= std::max (dx, dy) * 0.999999999 && s * tiles <= std::max (dx, dy) * 1.000000001 + 1e-5, "tile size " << s); } break; }
            case 1: sx = sy = coin () ? w / (1 + below (30)) : 1 + below (4); break;
            case 2: sx = coin (4) ? w / (1 + below (30)) : 0.5 * (1 + below (8)); sy = -1; break;
            default: sx = coin () ? w / (1 + below (20)) : 1; sy = coin () ? w / (1 + below (20)) : 0.5; if (coin (4)) sx = -1; break;
        }
        if (sx > 0 && dx / sx > 5000) sx = dx / 50; if (sy > 0 && dy / sy > 5000) sy = dy / 50;
        std::ostringstream o; o.precision (17); o << "tiles of " << sx << " by " << sy << " over " << dx << " by " << dy << ", " << show (v); begin (o.str ());
        const auto ix = spoc::tile_app::get_tile_indexes (v, e, sx, sy); CHECK (ix.size () == v.size (), "number of indexes");
        std::map<std::pair<double, double>, size_t> c2i; std::map<size_t, std::pair<double, double>> i2c; std::map<size_t, PRS> parts; std::map<size_t, std::vector<size_t>> who;
        for (size_t k = 0; k < v.size (); ++k)
        {
            const auto c = cell (v[k].x, v[k].y, x0, y0, sx, sy);
            if (c2i.count (c)) CHECK (c2i[c] == ix[k], "records of the same cell are in different tiles (record " << k << ")"); else c2i[c] = ix[k];
            if (i2c.count (ix[k])) CHECK (i2c[ix[k]] == c, "records of different cells share a tile (record " << k << ")"); else i2c[ix[k]] = c;
            parts[ix[k]].push_back (v[k]); who[ix[k]].push_back (k);
        }
        const auto m = spoc::tile_app::get_tile_map (ix); CHECK (m.size () == who.size (), "number of tiles"); for (auto &t : who) { CHECK (m.count (t.first) == 1, "tile " << t.first << " is missing"); CHECK (m.at (t.first) == t.second, "the records of tile " << t.first); }
        // the program
        if (v.empty () || !coin (3)) continue;
        const std::string dir = scratch () + "/t"; std::filesystem::remove_all (dir); std::filesystem::create_directory (dir);
        if (a.empty ()) { auto sz = [] (double s) { std::ostringstream q; q.precision (17); q << s; return q.str (); }; if (sx == sy && coin ()) a.push_back ("--tile-size=" + sz (sx)); else { if (sx > 0) a.push_back ("--tile-size-x=" + sz (sx)); if (sy > 0) a.push_back ("--tile-size-y=" + sz (sy)); } if (sx <= 0 && sy <= 0) continue; }
        const std::string in = scratch () + (coin () ? "/in.spoc" : "/in.zpoc"); const bool fi = coin (); const unsigned dg = coin () ? 3 : below (7); a.push_back ("--prefix=" + dir + "/p"); a.push_back ("--digits=" + std::to_string (dg));
        if (fi) { put (in, save (f)); a.push_back (in); } const auto r = run (tile_main, a, fi ? "" : save (f)); CHECK (r.ret == 0, "failed: " << r.err);
        size_t files = 0; for (auto &t : std::filesystem::directory_iterator (dir)) { (void) t; ++files; } CHECK (files == parts.size (), files << " files for " << parts.size () << " tiles");
        for (auto &t : parts) { std::string num = std::to_string (t.first); while (num.size () < dg) num = "0" + num; const std::string fn = dir + "/p" + num + (fi ? in.substr (in.size () - 5) : f.get_compressed () ? ".zpoc" : ".spoc"); CHECK (std::filesystem::exists (fn), "no file for tile " << t.first); const SF g = load (get (fn)); CHECK (same (g, SF (f.get_wkt (), f.get_compressed (), t.second)), "tile " << t.first << " holds " << show (g)); }
        const auto again = run (tile_main, a, fi ? "" : save (f)); CHECK (again.ret != 0, "existing files were overwritten without --force");
        std::filesystem::remove_all (dir);
    }
    finish ();
}
