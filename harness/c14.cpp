#include "vpapp.h"
#define main filter_main
#include "apps/filter/filter.cpp"
#undef main
using namespace vp;
static bool in (const std::vector<int> &v, int c) { return std::find (v.begin (), v.end (), c) != v.end (); }
template<class K> SF want (const SF &f, K keep) { PRS v; for (auto &p : f.get_point_records ()) if (keep (p)) v.push_back (p); return SF (f.get_wkt (), f.get_compressed (), v); }
int main ()
{
    init ();
    for (unsigned long n = 0; more (n, 400); ++n)
    {
        SF f = cloud (1500); PRS v = f.get_point_records (); if (coin ()) for (auto &p : v) p.c = below (coin () ? 4 : 40); f = SF (f.get_wkt (), f.get_compressed (), v);
        std::vector<int> cls; for (size_t k = below (5); k; --k) cls.push_back (v.empty () || coin (3) ? (coin () ? int (below (6)) : int (integer<uint32_t> ())) : int (v[below (v.size ())].c));
        std::unordered_set<int> cs (cls.begin (), cls.end ()); std::string d; for (int c : cls) d += " " + std::to_string (c);
        begin ("classes" + d + " of " + show (f));
        auto isin = [&] (const PR &p) { return in (cls, int (p.c)); }; auto isout = [&] (const PR &p) { return !in (cls, int (p.c)); };
        const SF k = spoc::filter_app::keep_classes (f, cs), r = spoc::filter_app::remove_classes (f, cs);
        CHECK (same (k, want (f, isin)), "keep_classes returned " << show (k)); CHECK (same (r, want (f, isout)), "remove_classes returned " << show (r));
        CHECK (k.get_point_records ().size () + r.get_point_records ().size () == v.size (), "the parts are not complementary");
        // thresholds
        const char co = "xyz"[below (3)]; const bool gt = coin (); double t = v.empty () || coin () ? anyd () : (co == 'x' ? v[below (v.size ())].x : co == 'y' ? v[below (v.size ())].y : v[below (v.size ())].z); if (coin (5)) t = below (20); if (t != t) t = 0.5; if (std::fpclassify (t) == FP_SUBNORMAL) t = 0;
        std::ostringstream o; o.precision (17); o << co << ' ' << (gt ? '>' : '<') << ' ' << t; const std::string op = o.str ();
        begin ("threshold '" + op + "' on " + show (f));
        auto keep = [&] (const PR &p) { const double q = co == 'x' ? p.x : co == 'y' ? p.y : p.z; return gt ? !(q > t) : !(q < t); };
        SF g; try { g = spoc::filter_app::remove_coords (f, op); } catch (const std::exception &e) { CHECK (false, "refused: " << e.what ()); }
        CHECK (same (g, want (f, keep)), "remove_coords returned " << show (g));
        std::string bad; switch (below (12)) { case 9: bad = "x > 1a"; break; case 10: bad = "y < 2.5,3"; break; case 11: bad = "z > 0x"; break; case 0: bad = "w > 1"; break; case 1: bad = "x >= 1"; break; case 2: bad = "x > "; break; case 3: bad = "x > abc"; break; case 4: bad = "x>1"; break; case 5: bad = "x > 1 2"; break; case 6: bad = "x  > 1"; break; case 7: bad = "X > 1"; break; default: bad = std::string (1, "xyz"[below (3)]) + " " + (coin () ? "=" : "") + " 1"; }
        begin ("malformed threshold '" + bad + "'"); CHECK (throws ([&] { spoc::filter_app::remove_coords (f, bad); }), "accepted"); CHECK (throws ([&] { spoc::filter_app::remove_coords (f, ""); }), "an empty criterion was accepted");
        // the program
        std::vector<std::string> a; std::vector<int> kc, rc; for (int c : cls) { const bool kk = coin (); (kk ? kc : rc).push_back (c); a.push_back (kk ? "--keep-class=" + std::to_string (c) : "--remove-class=" + std::to_string (c)); } const bool th = coin (); if (th) a.push_back ("--remove-coords=" + op);
        std::string l; for (auto &s : a) l += " " + s; const std::string in1 = scratch () + "/i", out1 = scratch () + "/o"; const bool fi = coin (), fo = fi && coin ();
        const std::string b = save (f); if (fi) { put (in1, b); a.push_back (in1); } if (fo) a.push_back (out1);
        begin ("filter" + l + " on " + show (f)); const auto res = run (filter_main, a, fi ? "" : b); CHECK (res.ret == 0, "failed: " << res.err);
        SF e = f; if (!kc.empty ()) e = want (e, [&] (const PR &p) { return in (kc, int (p.c)); }); if (!rc.empty ()) e = want (e, [&] (const PR &p) { return !in (rc, int (p.c)); }); if (th) e = want (e, keep);
        const SF q = load (fo ? get (out1) : res.out); CHECK (same (q, e), "the program wrote " << show (q) << " instead of " << show (e));
    }
    finish ();
}
