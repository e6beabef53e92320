#include "vptransform.h"
#include "apps/transform/transform_cmd.h"
using namespace vp;
using CMD = spoc::transform_cmd::command;
// the documented layout of an uncompressed file, written independently of the code
static void le (std::string &s, uint64_t v, int n) { for (int i = 0; i < n; ++i) s += char (v >> (8 * i) & 255); }
static std::string bytes (const PR &p) { std::string s; le (s, ubits (p.x), 8); le (s, ubits (p.y), 8); le (s, ubits (p.z), 8); le (s, p.c, 4); le (s, p.p, 4); le (s, p.i, 2); le (s, p.r, 2); le (s, p.g, 2); le (s, p.b, 2); for (auto e : p.extra) le (s, e, 8); return s; }
static std::string head (const std::string &w, size_t ne, size_t n, int comp) { std::string s = "SPOC"; le (s, spoc::MAJOR_VERSION, 1); le (s, spoc::MINOR_VERSION, 1); le (s, w.size (), 2); s += w; le (s, ne, 1); le (s, n, 8); le (s, comp, 1); return s; }
static double rd (const std::string &s, size_t o) { uint64_t b = 0; for (int i = 7; i >= 0; --i) b = b << 8 | uint8_t (s[o + i]); return bits (b); }
int main ()
{
    init ();
    for (unsigned long n = 0; more (n, 1500); ++n)
    {
        const size_t ne = coin (3) ? 0 : extras (); const PRS v = records (coin (50) ? size (2000) : below (30), ne); const std::string w = coin () ? "" : wkt ();
        std::vector<OpT> ops; for (size_t k = 1 + below (coin (8) ? 12 : 4); k; --k) ops.push_back (random_op (v, ne, coin (6)));
        std::string d; std::vector<CMD> cmds; for (auto &o : ops) { d += "--" + o.name + "=" + o.params + " "; cmds.push_back (CMD {o.name, o.params}); }
        std::string in = head (w, ne, v.size (), 0), tail; for (auto &p : v) in += bytes (p);
        bool bad = false; for (auto &o : ops) bad |= !o.f;
        PRS want; if (!bad) for (auto p : v) { for (auto &o : ops) { p = o.f (p, bad); if (bad) break; } want.push_back (p); }
        const int kind = coin (12) ? 1 : coin (12) ? 2 : coin (12) ? 3 : 0; size_t cut = 0;
        if (kind == 1) in = head (w, ne, v.size (), 1) + in.substr (head (w, ne, v.size (), 0).size ());
        if (kind == 2) { cut = 1 + below (in.size ()); in.resize (in.size () - cut); }
        if (kind == 3) tail = "XYZ";
        begin (d + "kind " + std::to_string (kind) + " cut " + std::to_string (cut) + " wkt " + std::to_string (w.size ()) + " extra " + std::to_string (ne) + " on " + show (v));
        std::stringstream is (in + tail), os; bool thrown = false;
        try { spoc::transform_app::apply (is, os, cmds, n); } catch (const std::exception &) { thrown = true; }
        const bool must = bad || kind == 1 || kind == 2;
        CHECK (thrown == must, (must ? "an input that has to be refused was accepted" : "a valid input was refused"));
        if (must) continue;
        const std::string h = head (w, ne, v.size (), 0), o = os.str ();
        CHECK (o.substr (0, h.size ()) == h, "the header was changed");
        const size_t rs = 40 + 8 * ne;
        CHECK (o.size () == h.size () + v.size () * rs, "output of " << o.size () << " bytes for " << v.size () << " records");
        for (size_t i = 0; i < v.size (); ++i)
        {
            const std::string a = o.substr (h.size () + i * rs, rs), b = bytes (want[i]);
            CHECK (a.substr (24) == b.substr (24) && eqv (rd (a, 0), want[i].x) && eqv (rd (a, 8), want[i].y) && eqv (rd (a, 16), want[i].z), "record " << i << ": expected " << show (want[i]) << ", got " << rd (a, 0) << "," << rd (a, 8) << "," << rd (a, 16));
        }
        // noise: one record per input record, the same on every run with the same seed
        std::vector<CMD> nz; const char *nn[] = {"gaussian-noise", "gaussian-noise-x", "gaussian-noise-y", "gaussian-noise-z", "uniform-noise", "uniform-noise-x", "uniform-noise-y", "uniform-noise-z"}; const size_t ni = below (8); nz.push_back (CMD {nn[ni], "2.5"});
        begin (std::string ("--") + nn[ni] + "=2.5 on " + show (v));
        std::string r[2]; for (auto &x : r) { std::stringstream i2 (in), o2; spoc::transform_app::apply (i2, o2, nz, n); x = o2.str (); }
        CHECK (r[0] == r[1], "the same seed gives different output");
        CHECK (r[0].size () == o.size (), "size of the output");
        const std::string nm = nn[ni]; const char last = nm.back ();
        size_t moved[3] = {0, 0, 0}, fin = 0;
        for (size_t i = 0; i < v.size (); ++i)
        {
            const std::string a = r[0].substr (h.size () + i * rs, rs); CHECK (a.substr (24) == bytes (v[i]).substr (24), "noise changed another field of record " << i);
            const double c[3] = {v[i].x, v[i].y, v[i].z}; bool f = true;
            for (int k = 0; k < 3; ++k) { const double g = rd (a, 8 * k); if (!(std::fabs (c[k]) < 1e6)) f = false; if (!eqv (g, c[k])) ++moved[k]; if ((last == 'x' && k != 0) || (last == 'y' && k != 1) || (last == 'z' && k != 2)) CHECK (eqv (g, c[k]), "noise on a coordinate that was not named, record " << i); }
            fin += f;
        }
        if (fin > 3) for (int k = 0; k < 3; ++k) if (last == 'e' || last == 'x' + k) CHECK (moved[k] > 0, "no noise on coordinate " << k);
    }
    finish ();
}
