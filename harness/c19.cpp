#include "vpapp.h"
#define main tool_main
#include "apps/tool/tool.cpp"
#undef main
using namespace vp;
static bool rest (PR a, PR b) { a.x = b.x; a.y = b.y; a.z = b.z; return same (a, b); }
static void moved (const SF &f, const SF &g, const char *what, bool z, bool mean)
{
    const PRS &a = f.get_point_records (), &b = g.get_point_records (); CHECK (g.get_wkt () == f.get_wkt () && g.get_compressed () == f.get_compressed () && a.size () == b.size (), what << " changed the file"); if (a.empty ()) return;
    for (int k = 0; k < (z ? 3 : 2); ++k)
    {
        auto get = [k] (const PR &p) { return k == 0 ? p.x : k == 1 ? p.y : p.z; };
        long double s = 0, big = 0; double lo = get (a[0]); for (auto &p : a) { s += get (p); big = std::max (big, std::abs ((long double) get (p))); lo = std::min (lo, get (p)); } const long double off = mean ? s / a.size () : lo;
        for (size_t n = 0; n < a.size (); ++n) { if (mean) CHECK (std::abs ((long double) get (b[n]) - (get (a[n]) - off)) <= big * 1e-12L * (1 + a.size () / 1000) + 1e-300L, what << ": coordinate " << k << " of record " << n << " is " << get (b[n])); else CHECK (get (b[n]) == get (a[n]) - lo, what << ": coordinate " << k << " of record " << n << " is " << get (b[n]) << " instead of " << get (a[n]) - lo); }
        // one common offset: records with equal coordinates stay equal, and the order is kept
        for (size_t n = 0; n + 1 < a.size (); ++n) { if (get (a[n]) == get (a[n + 1])) CHECK (get (b[n]) == get (b[n + 1]), what << ": different offsets"); if (get (a[n]) <= get (a[n + 1])) CHECK (get (b[n]) <= get (b[n + 1]), what << ": the order changed"); }
    }
    for (size_t n = 0; n < a.size (); ++n) { CHECK (rest (a[n], b[n]), what << ": other fields of record " << n << " changed"); if (!z) CHECK (same (a[n].z, b[n].z), what << ": z of record " << n << " changed"); }
}
int main ()
{
    init (); std::clog.clear (std::ios::failbit);
    for (unsigned long n = 0; more (n, 400); ++n)
    {
        const SF f = cloud (1500, true); const bool z = coin (); begin (std::string (z ? "xyz" : "xy") + " of " + show (f));
        moved (f, spoc::tool_app::recenter (f, z), "recenter", z, true); moved (f, spoc::tool_app::subtract_min (f, z), "subtract_min", z, false);
        const int sz = coin () ? int (below (12)) : int (below (256)); begin ("resize to " + std::to_string (sz) + " extra fields: " + show (f));
        PRS w = f.get_point_records (); for (auto &p : w) { std::vector<uint64_t> e; for (int k = 0; k < sz; ++k) e.push_back (size_t (k) < p.extra.size () ? p.extra[k] : 0); p.extra = e; } const SF want (f.get_wkt (), f.get_compressed (), w);
        CHECK (same (spoc::tool_app::resize_extra (f, sz), want), "result " << show (spoc::tool_app::resize_extra (f, sz))); CHECK (throws ([&] { spoc::tool_app::resize_extra (f, -1 - int (below (3))); }), "a negative number was accepted");
        if (!coin (3)) continue;
        const std::string in = scratch () + "/i", out = scratch () + "/o"; auto prog = [&] (const std::string &o) { std::vector<std::string> a {o}; const bool fi = coin (), fo = fi && coin (); if (fi) { put (in, save (f)); a.push_back (in); } if (fo) a.push_back (out); begin ("tool " + o + " on " + show (f)); const auto r = run (tool_main, a, fi ? "" : save (f)); CHECK (r.ret == 0, "failed: " << r.err); return load (fo ? get (out) : r.out); };
        moved (f, prog (z ? "--recenter-xyz" : "--recenter-xy"), "recenter", z, true); moved (f, prog (z ? "--subtract-min-xyz" : "--subtract-min-xy"), "subtract-min", z, false); const SF g = prog ("--resize-extra=" + std::to_string (sz)); CHECK (same (g, want), "result " << show (g));
        for (auto b : {"--resize-extra=-1", "--resize-extra=256", "--resize-extra=x"}) { begin (std::string ("tool ") + b); CHECK (run (tool_main, {b}, save (f)).ret != 0, "accepted"); }
    }
    finish ();
}
