#include "vpapp.h"
#define main merge_main
#include "apps/merge/merge.cpp"
#undef main
using namespace vp;
int main ()
{
    init ();
    for (unsigned long n = 0; more (n, 400); ++n)
    {
        const size_t ne = coin () ? below (3) : extras (); std::vector<SF> fs; for (size_t k = 2 + below (3); k; --k) fs.push_back (SF (coin () ? "" : str (below (9), true), coin (), records (coin (6) ? size (1500) : below (20), ne)));
        const unsigned id = integer<uint32_t> (); const SF &f1 = fs[0]; SF f2 = fs[1];
        begin ("append " + show (f1) + " with ID " + std::to_string (id) + " to " + show (f2)); std::ostringstream log; spoc::merge_app::append (f1, f2, id, coin (), log);
        PRS w = fs[1].get_point_records (); for (auto p : f1.get_point_records ()) { p.p = id; w.push_back (p); } CHECK (same (f2, SF (fs[1].get_wkt (), fs[1].get_compressed (), w)), "result " << show (f2));
        SF f0 ("w", false, f1.get_point_records ()); SF s = f0; begin ("append a cloud to an empty one"); SF em ("w", true); spoc::merge_app::append (s, em, id, true); CHECK (em.get_point_records ().size () == s.get_point_records ().size (), "records");
        if (!f1.get_point_records ().empty ()) { SF o ("", false, records (1 + below (4), ne ? ne - 1 + 2 * below (2) : 1)); const SF before = o; begin ("append " + show (f1) + " to " + show (o)); CHECK (throws ([&] { spoc::merge_app::append (f1, o, id, true); }), "accepted"); CHECK (same (o, before), "changed although refused"); }
        // the program
        std::vector<std::string> a; PRS all; bool comp = true; const bool fixed = coin (); const int fid = int (below (0x7fffffff)); std::string d; if (fixed) a.push_back ("--point-id=" + std::to_string (fid)); if (coin ()) a.push_back ("--quiet");
        for (size_t k = 0; k < fs.size (); ++k) { const std::string fn = scratch () + "/m" + std::to_string (k); put (fn, save (fs[k])); a.push_back (fn); comp &= fs[k].get_compressed (); for (auto p : fs[k].get_point_records ()) { p.p = fixed ? fid : k; all.push_back (p); } d += " " + show (fs[k]); }
        begin ("merge" + (fixed ? " with ID " + std::to_string (fid) : std::string ()) + d); const auto r = run (merge_main, a); CHECK (r.ret == 0, "failed: " << r.err);
        const SF g = load (r.out); CHECK (same (g, SF (fs[0].get_wkt (), comp, all)), "the program wrote " << show (g));
        if (coin (8)) { const std::string fn = scratch () + "/odd"; put (fn, save (SF ("", false, records (1, ne + 1 > 255 ? 0 : ne + 1)))); bool some = false; for (auto &f : fs) some |= !f.get_point_records ().empty (); auto b = a; b.push_back (fn); if (some) { begin ("merge with a file that has another number of extra fields"); CHECK (run (merge_main, b).ret != 0, "accepted"); } }
    }
    finish ();
}
