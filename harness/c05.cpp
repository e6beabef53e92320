#include "vplayout.h"
using namespace vp;
int main ()
{
    init ();
    for (unsigned long n = 0; more (n, 800); ++n)
    {
        const bool comp = coin (); const size_t ne = coin () ? below (5) : extras (); const PRS v = records (coin (8) ? size (800) : below (20), ne); const std::string w = coin () ? str (below (20)) : wkt ();
        std::stringstream s; spoc::io::write_spoc_file (s, SF (w, comp, v)); const std::string good = s.str (); const size_t hl = 18 + w.size ();
        std::string b = good; std::string d; bool must = true; const unsigned kind = below (8); bool hdr = true;
        switch (kind)
        {
            case 0: { const size_t k = below (4); b[k] ^= char (1 + below (255)); d = "signature byte " + std::to_string (k) + " is " + std::to_string (int (uint8_t (b[k]))); break; }
            case 1: { const size_t k = 4 + below (2); b[k] = char (integer<uint8_t> ()); must = b[k] != good[k]; d = "version byte " + std::to_string (k) + " is " + std::to_string (int (uint8_t (b[k]))); break; }
            case 2: { const size_t k = below (hl); b.resize (k); d = "cut to " + std::to_string (k) + " of " + std::to_string (hl) + " header bytes"; break; }
            case 3: { if (b.size () == hl) { must = false; break; } const size_t k = hl + below (b.size () - hl); b.resize (k); hdr = false; d = "cut to " + std::to_string (k) + " of " + std::to_string (good.size ()) + " bytes"; break; }
            case 4: { if (b.size () == hl) { must = false; break; } const size_t k = b.size () - 1 - below (std::min<size_t> (9, b.size () - hl)); b.resize (k); hdr = false; d = "cut to " + std::to_string (k) + " of " + std::to_string (good.size ()) + " bytes"; break; }
            case 5: { hdr = false; d = "the wrong reader"; break; }
            case 6: { if (comp) { must = false; break; } hdr = false; std::string c; le (c, v.size () + 1 + below (5), 8); b.replace (9 + w.size (), 8, c); d = "more records announced than present"; break; }
            default: must = false; d = "intact";
        }
        begin ((comp ? "compressed" : "uncompressed") + std::string (", wkt of ") + std::to_string (w.size ()) + " bytes, " + std::to_string (ne) + " extra fields, " + d + ", " + show (v));
        auto rd = [&] (int) { std::stringstream t (b); return spoc::io::read_spoc_file (t); };
        if (kind == 5) { std::stringstream t (b); CHECK (throws ([&] { if (comp) spoc::io::read_spoc_file_uncompressed (t); else spoc::io::read_spoc_file_compressed (t); }), "the wrong reader accepted the file"); continue; }
        if (must)
        {
            CHECK (throws ([&] { rd (0); }), "accepted by read_spoc_file");
            CHECK (throws ([&] { std::stringstream t (b); if (comp) spoc::io::read_spoc_file_compressed (t); else spoc::io::read_spoc_file_uncompressed (t); }), "accepted by the reader of its kind");
            if (hdr) CHECK (throws ([&] { std::stringstream t (b); spoc::header::read_header (t); }), "accepted by read_header");
        }
        else
        {
            std::stringstream t (b); SF g; try { g = spoc::io::read_spoc_file (t); } catch (const std::exception &e) { CHECK (false, "an intact file was refused: " << e.what ()); }
            CHECK (same (g, SF (w, comp, v)), "an intact file was read differently");
        }
        if (coin (4)) { const PR p = record (ne); const std::string r = rec_bytes (p); const size_t k = below (r.size ()); begin ("a record of " + std::to_string (r.size ()) + " bytes cut to " + std::to_string (k)); std::stringstream t (r.substr (0, k)); bool th = throws ([&] { spoc::point_record::read_point_record (t, ne); }); CHECK (th || !t, "a cut record was read without any sign of it"); }
    }
    finish ();
}
