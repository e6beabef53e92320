#include "vplayout.h"
using namespace vp;
// counts what reaches the stream
struct counting : std::streambuf { size_t n = 0; int overflow (int c) override { ++n; return c == EOF ? 0 : c; } std::streamsize xsputn (const char *, std::streamsize k) override { n += k; return k; } };
template<class F> void refuses (const char *what, F f) { counting c; std::ostream s (&c); CHECK (throws ([&] { f (s); }), what << " did not refuse"); CHECK (c.n == 0, what << " wrote " << c.n << " bytes before it refused"); }
int main ()
{
    init ();
    for (unsigned long n = 0; more (n, 250); ++n)
    {
        const bool comp = coin (); const unsigned kind = below (6);
        size_t ne = coin () ? below (4) : extras (); std::string w = coin () ? "" : wkt (); std::string d = "acceptable";
        if (kind == 0) { ne = coin () ? 256 : coin () ? 257 + below (3) : 256 * (1 + below (5)) + below (2); d = "too many extra fields"; }
        if (kind == 1) { w = str (coin () ? 65536 : 65537 + size (70000)); d = "text too long"; }
        const PRS v = records (kind == 0 ? 1 + below (5) : below (30), ne); const SF f (w, comp, v);
        begin ((comp ? "compressed, wkt of " : "uncompressed, wkt of ") + std::to_string (w.size ()) + " bytes, " + std::to_string (ne) + " extra fields, " + d + ", " + show (v));
        auto w1 = [&] (std::ostream &s) { spoc::io::write_spoc_file (s, f); };
        auto w2 = [&] (std::ostream &s) { spoc::io::write_spoc_file_uncompressed (s, f); };
        auto w3 = [&] (std::ostream &s) { spoc::io::write_spoc_file_compressed (s, f); };
        if (kind <= 1) { refuses ("write_spoc_file", w1); refuses ("write_spoc_file_uncompressed", w2); refuses ("write_spoc_file_compressed", w3); if (kind == 1 || !v.empty ()) CHECK (throws ([&] { f.get_header (); }), "get_header did not refuse"); }
        else if (comp) refuses ("write_spoc_file_uncompressed", w2);
        else refuses ("write_spoc_file_compressed", w3);
        // headers
        const size_t tp = integer<uint64_t> (); spoc::header::header h ("", integer<uint8_t> (), tp, comp);
        auto wh = [&] (std::ostream &s) { spoc::header::write_header (s, h); };
        if (kind == 2) { const size_t k = below (4); const char c = char (integer<uint8_t> ()); const bool bad = c != h.signature[k]; h.signature[k] = c; begin ("header whose signature byte " + std::to_string (k) + " is " + std::to_string (int (uint8_t (c)))); if (bad) { refuses ("write_header", wh); CHECK (!h.is_valid (), "is_valid"); } else { std::stringstream s; wh (s); CHECK (h.is_valid (), "is_valid"); } }
        if (kind == 1) { begin ("header with a text of " + std::to_string (w.size ()) + " bytes"); CHECK (throws ([&] { spoc::header::header g (w, 0, 0, false); }), "the constructor did not refuse"); h.wkt = w; refuses ("write_header", wh); }
        if (kind < 2) continue;
        // what is accepted describes itself correctly
        std::stringstream s; try { w1 (s); } catch (const std::exception &e) { CHECK (false, "an acceptable cloud was refused: " << e.what ()); }
        const std::string b = s.str (); const std::string hb = hdr_bytes (w, v.empty () ? 0 : ne, v.size (), comp);
        CHECK (b.substr (0, hb.size ()) == hb, "the header contradicts the data");
        if (!comp) CHECK (b.size () == hb.size () + v.size () * (40 + 8 * ne), "size of the data");
    }
    finish ();
}
