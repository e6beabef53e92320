#include "vplayout.h"
using namespace vp;
int main ()
{
    init ();
    for (unsigned long n = 0; more (n, 300); ++n)
    {
        const size_t ne = extras (); const PRS v = records (coin (4) ? size (5000) : below (60), ne); const std::string w = wkt ();
        const SF f (w, false, v); const bool gw = coin (), gr = coin (); const size_t tail = coin () ? 0 : below (40);
        begin ("wkt of " + std::to_string (w.size ()) + " bytes, " + std::to_string (ne) + " extra fields, " + (gw ? "write_spoc_file, " : "write_spoc_file_uncompressed, ") + (gr ? "read_spoc_file, " : "read_spoc_file_uncompressed, ") + show (v));
        std::stringstream s; if (gw) spoc::io::write_spoc_file (s, f); else spoc::io::write_spoc_file_uncompressed (s, f);
        const std::string b = s.str (); std::stringstream t (b + std::string (tail, 'T'));
        SF g; try { g = gr ? spoc::io::read_spoc_file (t) : spoc::io::read_spoc_file_uncompressed (t); } catch (const std::exception &e) { CHECK (false, "the file just written was refused: " << e.what ()); }
        CHECK (g.get_wkt () == w, "spatial reference string"); CHECK (!g.get_compressed (), "compression flag");
        CHECK (g.get_major_version () == f.get_major_version () && g.get_minor_version () == f.get_minor_version (), "version");
        CHECK (g.get_point_records ().size () == v.size (), "read " << g.get_point_records ().size () << " of " << v.size () << " records");
        for (size_t i = 0; i < v.size (); ++i) CHECK (same (g.get_point_records ()[i], v[i]), "record " << i << ": wrote " << show (v[i]) << ", read " << show (g.get_point_records ()[i]));
        CHECK (size_t (t.tellg ()) == b.size (), "consumed " << t.tellg () << " of " << b.size () << " bytes");
    }
    finish ();
}
