#include "vplayout.h"
using namespace vp;
int main ()
{
    init ();
    for (unsigned long n = 0; more (n, 300); ++n)
    {
        const size_t ne = extras (); const PRS v = records (coin (4) ? size (3000) : below (40), ne); const std::string w = wkt ();
        begin ("wkt of " + std::to_string (w.size ()) + " bytes, " + std::to_string (ne) + " extra fields, " + show (v));
        const std::string want = file_bytes (w, ne, v);
        std::stringstream s; if (coin ()) spoc::io::write_spoc_file_uncompressed (s, SF (w, false, v)); else spoc::io::write_spoc_file (s, SF (w, false, v));
        const std::string b = s.str (); size_t at = 0; while (at < b.size () && at < want.size () && b[at] == want[at]) ++at;
        CHECK (b == want, "the file differs from the documented layout at byte " << at << " of " << want.size ());
        std::stringstream t (want); SF g; try { g = coin () ? spoc::io::read_spoc_file (t) : spoc::io::read_spoc_file_uncompressed (t); } catch (const std::exception &e) { CHECK (false, "a file in the documented layout was refused: " << e.what ()); }
        CHECK (same (g, SF (w, false, v)), "a file in the documented layout was read differently");
        // headers and single records
        const bool comp = coin (); const size_t tp = integer<uint64_t> (); const unsigned e8 = integer<uint8_t> ();
        spoc::header::header h (w, e8, tp, comp); std::stringstream hs; spoc::header::write_header (hs, h);
        CHECK (hs.str () == hdr_bytes (w, e8, tp, comp), "header layout");
        std::stringstream hr (hdr_bytes (w, e8, tp, comp)); const auto h2 = spoc::header::read_header (hr);
        CHECK (h2.wkt == w && h2.extra_fields == e8 && h2.total_points == tp && bool (h2.compressed) == comp && h2.major_version == spoc::MAJOR_VERSION && h2.minor_version == spoc::MINOR_VERSION, "header read back");
        const PR p = record (ne); std::stringstream ps; spoc::point_record::write_point_record (ps, p); CHECK (ps.str () == rec_bytes (p), "record layout");
        std::stringstream pr (rec_bytes (p)); CHECK (same (spoc::point_record::read_point_record (pr, ne), p), "record read back");
        // compressed: header, then one length-prefixed block per column
        if (coin (4)) { std::stringstream cs; spoc::io::write_spoc_file (cs, SF (w, true, v)); const std::string c = cs.str (); const std::string hb = hdr_bytes (w, v.empty () ? 0 : ne, v.size (), 1); CHECK (c.substr (0, hb.size ()) == hb, "header of a compressed file"); size_t o = hb.size (); const size_t cols = 9 + (v.empty () ? 0 : ne); for (size_t k = 0; k < cols; ++k) { CHECK (o + 8 <= c.size (), "column " << k << " has no length"); const uint64_t len = ule (c, o, 8); o += 8 + len; CHECK (o <= c.size (), "column " << k << " is cut"); } CHECK (o == c.size (), "bytes after the last column"); }
    }
    finish ();
}
