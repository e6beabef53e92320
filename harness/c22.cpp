#include "vpapp.h"
#define main compress_main
#include "apps/compress/compress.cpp"
#undef main
#define main decompress_main
#include "apps/decompress/decompress.cpp"
#undef main
#define main srs_main
#include "apps/srs/srs.cpp"
#undef main
using namespace vp;
static SF flag (const SF &f, bool c) { return SF (f.get_wkt (), c, f.get_point_records ()); }
template<class F> std::string inout (F prog, std::vector<std::string> a, const std::string &b, bool &ok)
{
    const std::string in = scratch () + "/i", out = scratch () + "/o"; const bool fi = coin (), fo = fi && coin (); if (fi) { put (in, b); a.push_back (in); } if (fo) { put (out, coin () ? "" : "old contents"); a.push_back (out); }
    const auto r = run (prog, a, fi ? "" : b); ok = r.ret == 0; return fo ? get (out) : r.out;
}
int main ()
{
    init ();
    for (unsigned long n = 0; more (n, 250); ++n)
    {
        const SF f = cloud (1500); const SF u = flag (f, false), z = flag (f, true); bool ok;
        begin ("compress " + show (u)); std::string o = inout (compress_main, {}, save (u), ok); CHECK (ok, "failed"); CHECK (same (load (o), z), "result " << show (load (o)));
        begin ("decompress " + show (z)); o = inout (decompress_main, {}, save (z), ok); CHECK (ok, "failed"); CHECK (same (load (o), u), "result " << show (load (o))); CHECK (o == save (u), "compressing and decompressing does not give the original file");
        begin ("compress a compressed file " + show (z)); inout (compress_main, {}, save (z), ok); CHECK (!ok, "accepted"); begin ("decompress an uncompressed file " + show (u)); inout (decompress_main, {}, save (u), ok); CHECK (!ok, "accepted");
        std::string w = coin () ? str (below (2000), true) : std::string ("w") + str (size (65534), true); for (auto &c : w) if (c == 0) c = 'x'; if (w.empty () || w[0] == '-') w = "w" + w; if (w.size () > 65535) w.resize (65535); if (coin (8)) w = "";
        begin ("set a reference system of " + std::to_string (w.size ()) + " bytes on " + show (f)); const SF want (w, f.get_compressed (), f.get_point_records ());
        if (coin ()) { const auto r = run (srs_main, {"--srs=" + w}, save (f)); CHECK (r.ret == 0, "failed: " << r.err); CHECK (same (load (r.out), want), "result " << show (load (r.out))); }
        else { const std::string in = scratch () + "/si", out = scratch () + "/so"; put (in, save (f)); const auto r = run (srs_main, {"-s", w, in, out}); CHECK (r.ret == 0, "failed: " << r.err); CHECK (same (load (get (out)), want), "result " << show (load (get (out)))); CHECK (get (in) == save (f), "the input file was changed"); CHECK (run (srs_main, {"-s", w, in}).ret != 0, "one file name was accepted"); }
        begin ("show the reference system of " + show (f)); const auto r = run (srs_main, {}, save (f)); CHECK (r.ret == 0 && r.out == f.get_wkt () + "\n", "printed " << r.out.size () << " bytes");
        if (coin (4)) { const std::string a = scratch () + "/a", b = scratch () + "/b"; put (a, save (f)); put (b, save (want)); const auto q = run (srs_main, {a, b}); CHECK (q.ret == 0 && q.out == f.get_wkt () + "\n" + w + "\n", "printed for two files"); }
    }
    finish ();
}
