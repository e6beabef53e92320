// FLAGS: -lz
#include "vp.h"
#include "spoc/compression.h"
using namespace vp; namespace cz = spoc::compression;
using B = std::vector<uint8_t>;
static B data (size_t n, unsigned kind)
{
    B b (n); uint64_t s = rng () ();
    auto r = [&] { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s; };
    for (size_t i = 0; i < n; ++i) b[i] = kind == 0 ? 0 : kind == 1 ? uint8_t (r ()) : kind == 2 ? uint8_t (i / 7) : kind == 3 ? uint8_t (r () % 4) : uint8_t (i % 251);
    return b;
}
// a source that hands out its bytes in small portions
struct slow : std::streambuf { const B &b; size_t p = 0, step; char buf[4096]; slow (const B &b, size_t step) : b (b), step (step) {} int_type underflow () override { if (p >= b.size ()) return traits_type::eof (); const size_t n = std::min ({step, sizeof buf, b.size () - p}); memcpy (buf, &b[p], n); p += n; setg (buf, buf, buf + n); return traits_type::to_int_type (buf[0]); } };
int main ()
{
    init (); const size_t M = 1 << 20;
    for (unsigned long n = 0; more (n, 40); ++n)
    {
        size_t sz; switch (below (8)) { case 0: sz = below (20); break; case 1: sz = M - 400 + below (800); break; case 2: sz = (1 + below (3)) * M; break; case 3: sz = size (3 * M); break; case 4: sz = M + below (2) * M + below (3) - 1; break; case 5: sz = size (4096); break; case 6: sz = below (70000); break; default: sz = below (100); }
        const unsigned kind = below (5); const B d = data (sz, kind); const int level = int (below (11)) - 1;
        begin (std::to_string (sz) + " bytes of kind " + std::to_string (kind) + " at level " + std::to_string (level));
        const B c = coin () ? cz::compress (d, level) : cz::compress (d.data (), d.size (), level);
        B e; try { e = cz::decompress (c); } catch (const std::exception &x) { CHECK (false, "the compressed bytes were refused: " << x.what ()); }
        CHECK (e == d, "buffer: " << e.size () << " bytes came back");
        B fixed (sz + 1, 0xAA); cz::decompress (c, fixed.data (), sz); CHECK (std::equal (d.begin (), d.end (), fixed.begin ()) && fixed[sz] == 0xAA, "buffer of fixed size");
        CHECK (throws ([&] { cz::decompress (c, fixed.data (), sz + 1); }), "a wrong size was accepted");
        { slow sb (d, 1 + below (4096)); std::istream is (&sb); std::stringstream fs (std::string (d.begin (), d.end ())), os, r; if (coin ()) cz::compress (is, os, level); else cz::compress (fs, os, level);
          const std::string cs = os.str (); std::stringstream ci (cs); try { cz::decompress (ci, r); } catch (const std::exception &x) { CHECK (false, "the compressed stream was refused: " << x.what ()); }
          const std::string rs = r.str (); CHECK (rs.size () == d.size () && std::equal (d.begin (), d.end (), rs.begin (), [] (uint8_t a, char b) { return a == uint8_t (b); }), "stream: " << rs.size () << " bytes came back");
          for (int k = 0; k < 4; ++k) { const size_t cut = coin () ? 1 + below (std::min<size_t> (cs.size (), 12)) : 1 + below (cs.size ()); desc () = std::to_string (sz) + " bytes of kind " + std::to_string (kind) + ", stream cut by " + std::to_string (cut); std::stringstream t (cs.substr (0, cs.size () - cut)), o; CHECK (throws ([&] { cz::decompress (t, o); }), "an incomplete stream was accepted"); } }
        for (int k = 0; k < 4; ++k) { const size_t cut = coin () ? 1 + below (std::min<size_t> (c.size (), 12)) : 1 + below (c.size ()); desc () = std::to_string (sz) + " bytes of kind " + std::to_string (kind) + ", buffer cut by " + std::to_string (cut); B t (c.begin (), c.end () - cut); t.reserve (t.size () + 1); CHECK (throws ([&] { cz::decompress (t); }), "incomplete data were accepted"); }
        if (sz) for (int k = 0; k < 4; ++k) { B t = c; const size_t at = below (t.size ()); t[at] ^= 1 + below (255); desc () = std::to_string (sz) + " bytes of kind " + std::to_string (kind) + ", compressed byte " + std::to_string (at) + " damaged"; B ref (4 * sz + 4096); uLongf rn = ref.size (); const int rc = ::uncompress (ref.data (), &rn, t.data (), t.size ()); B e2; bool th = false; try { e2 = cz::decompress (t); } catch (const std::exception &) { th = true; }
            if (rc == Z_OK) CHECK (!th && e2.size () == rn && std::equal (e2.begin (), e2.end (), ref.begin ()), "zlib itself decodes these bytes differently"); else if (rc == Z_DATA_ERROR) CHECK (th, "data that zlib finds corrupt were accepted"); }
    }
    if (thorough ()) { begin ("4 GiB + 5 zero bytes at level 1", 800); const size_t sz = (size_t (1) << 32) + 5; B d (sz); d[sz - 1] = 7; const B c = cz::compress (d, 1); const B e = cz::decompress (c); CHECK (e == d, "4 GiB"); }
    finish ();
}
