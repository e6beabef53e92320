#include "vplayout.h"
using namespace vp;
int main ()
{
    init ();
    for (unsigned long n = 0; more (n, 150); ++n)
    {
        const size_t ne = coin () ? below (6) : extras (); const bool sparse = n % 16 == 9;
        PRS v = sparse ? PRS (50000 + below (150000), spoc::point_record::point_record (below (3))) : records (coin (6) ? size (5000) : below (60), ne);
        // few values other than zero, anywhere in a long column
        if (sparse) for (unsigned k = below (8); k-- > 0;) { auto &q = v[coin () ? v.size () - 1 - below (20000) : below (v.size ())]; switch (below (10)) { case 0: q.x = coin () ? -0.0 : 1; break; case 1: q.y = 1e-300; break; case 2: q.z = -1; break; case 3: q.c = 1; break; case 4: q.p = 1u << 31; break; case 5: q.i = 256; break; case 6: q.r = 1; break; case 7: q.g = 1; break; case 8: q.b = 0x8000; break; default: if (!q.extra.empty ()) q.extra.back () = 1ull << 63; } }
        const std::string w = wkt ();
        const SF f (w, true, v); const bool gw = coin (), gr = coin (); const size_t tail = coin () ? 0 : below (40);
        begin ("compressed, wkt of " + std::to_string (w.size ()) + " bytes, " + std::to_string (ne) + " extra fields, " + (gw ? "write_spoc_file, " : "write_spoc_file_compressed, ") + (gr ? "read_spoc_file, " : "read_spoc_file_compressed, ") + (sparse ? std::to_string (v.size ()) + " records that are almost all zero" : show (v)));
        std::stringstream s; if (gw) spoc::io::write_spoc_file (s, f); else spoc::io::write_spoc_file_compressed (s, f);
        const std::string b = s.str (); std::stringstream t (b + std::string (tail, 'T'));
        SF g; try { g = gr ? spoc::io::read_spoc_file (t) : spoc::io::read_spoc_file_compressed (t); } catch (const std::exception &e) { CHECK (false, "the file just written was refused: " << e.what ()); }
        CHECK (g.get_wkt () == w, "spatial reference string"); CHECK (g.get_compressed (), "compression flag");
        CHECK (g.get_major_version () == f.get_major_version () && g.get_minor_version () == f.get_minor_version (), "version");
        CHECK (g.get_point_records ().size () == v.size (), "read " << g.get_point_records ().size () << " of " << v.size () << " records");
        for (size_t i = 0; i < v.size (); ++i) CHECK (same (g.get_point_records ()[i], v[i]), "record " << i << ": wrote " << show (v[i]) << ", read " << show (g.get_point_records ()[i]));
        CHECK (size_t (t.tellg ()) == b.size (), "consumed " << t.tellg () << " of " << b.size () << " bytes");
    }
    finish ();
}
