#include "vpapp.h"
#define main tool_main
#include "apps/tool/tool.cpp"
#undef main
using namespace vp;
static std::string field (size_t ne, bool present) { if (coin (3) && (ne || !present)) return "e" + std::to_string (present ? below (ne) : coin () ? ne + below (4) : below (200)); return std::string (1, "xyzcpirgb"[below (9)]); }
static bool real (const std::string &f) { return f[0] == 'x' || f[0] == 'y' || f[0] == 'z'; }
static double fin () { double d; do d = anyd (); while (!std::isfinite (d) || std::fpclassify (d) == FP_SUBNORMAL); return d; }
int main ()
{
    init ();
    for (unsigned long n = 0; more (n, 400); ++n)
    {
        SF f = cloud (1500, true); PRS v = f.get_point_records (); for (auto &p : v) { if (coin ()) p.x = fin (); if (coin ()) p.y = fin (); if (coin ()) p.z = fin (); } f = SF (f.get_wkt (), f.get_compressed (), v); const size_t ne = f.get_extra_fields ();
        std::string l = field (ne, true); begin ("get " + l + " of " + show (f)); std::ostringstream os; spoc::tool_app::get_field (f, os, l);
        auto check = [&] (const std::string &text) { std::istringstream is (text); std::string s; size_t k = 0; for (; std::getline (is, s); ++k) { CHECK (k < v.size (), "more lines than records"); const PR &p = v[k];
            if (real (l)) { char *e; const double d = strtod (s.c_str (), &e); CHECK (!*e && !s.empty () && same (d, l[0] == 'x' ? p.x : l[0] == 'y' ? p.y : p.z), "line " << k << " is '" << s << "'"); }
            else { const uint64_t u = l[0] == 'c' ? p.c : l[0] == 'p' ? p.p : l[0] == 'i' ? p.i : l[0] == 'r' ? p.r : l[0] == 'g' ? p.g : l[0] == 'b' ? p.b : p.extra[std::stoi (l.substr (1))]; CHECK (s == std::to_string (u), "line " << k << " is '" << s << "' instead of " << u); } } CHECK (k == v.size (), k << " lines for " << v.size () << " records"); CHECK (text.empty () || text.back () == '\n', "the last line is not complete"); };
        check (os.str ());
        if (!v.empty ()) { const std::string b = "e" + std::to_string (ne + below (3)); begin ("get " + b + " of " + show (f)); CHECK (throws ([&] { std::ostringstream o; spoc::tool_app::get_field (f, o, b); }), "accepted"); } for (auto b : {"w", "", "xx", "e", "E1"}) { begin (std::string ("get '") + b + "'"); CHECK (throws ([&] { std::ostringstream o; spoc::tool_app::get_field (f, o, b); }), "accepted"); }
        // set
        std::string m = coin (4) ? field (ne, false) : field (ne, true); if (m[0] == 'e' && std::stoi (m.substr (1)) > 254) m = "e254"; std::ostringstream t; PRS w = v; const char sep = coin () ? '\n' : ' '; const size_t j = m[0] == 'e' ? std::stoi (m.substr (1)) : 0; if (m[0] == 'e' && j >= ne) for (auto &p : w) p.extra.resize (j + 1);
        for (auto &p : w) { if (real (m)) { const double d = fin (); (m[0] == 'x' ? p.x : m[0] == 'y' ? p.y : p.z) = d; char b[64]; snprintf (b, 64, "%.17g", d); t << b << sep; } else { uint64_t u = 0; switch (m[0]) { case 'c': u = p.c = integer<uint32_t> (); break; case 'p': u = p.p = integer<uint32_t> (); break; case 'i': u = p.i = integer<uint16_t> (); break; case 'r': u = p.r = integer<uint16_t> (); break; case 'g': u = p.g = integer<uint16_t> (); break; case 'b': u = p.b = integer<uint16_t> (); break; default: u = p.extra[j] = integer<uint64_t> (); } t << u << sep; } }
        const SF want (f.get_wkt (), f.get_compressed (), w); std::string txt = t.str (); if (coin () && !txt.empty ()) txt.pop_back ();
        if (!txt.empty () || v.empty ()) { begin ("set " + m + " of " + show (f)); std::istringstream is (txt.empty () ? "\n" : txt); const SF g = spoc::tool_app::set_field (f, is, m); CHECK (same (g, want), "result " << show (g)); }
        if (!v.empty ()) { std::string cut = t.str (); if (coin ()) { size_t at = cut.find_last_of (" \n", cut.size () - 2); cut = at == std::string::npos ? "" : cut.substr (0, at + 1); } else { const size_t k = below (v.size ()); size_t at = 0; for (size_t z = 0; z < k; ++z) at = cut.find (sep, at) + 1; cut = cut.substr (0, at) + "abc" + cut.substr (cut.find (sep, at)); } begin ("set " + m + " from missing or malformed values, " + show (f)); std::istringstream is (cut); CHECK (throws ([&] { spoc::tool_app::set_field (f, is, m); }), "accepted"); }
        for (auto b : {"w", "xx", "e"}) { begin (std::string ("set '") + b + "'"); std::istringstream is ("1 2 3"); CHECK (throws ([&] { spoc::tool_app::set_field (f, is, b); }), "accepted"); }
        if (!coin (3)) continue;
        const std::string in = scratch () + "/i", out = scratch () + "/o", fl = scratch () + "/f"; put (in, save (f)); begin ("tool --get-field=" + l + " on " + show (f)); const auto r = run (tool_main, {"--get-field=" + l, in}); CHECK (r.ret == 0, "failed: " << r.err); check (r.out);
        if (!v.empty ()) { put (fl, txt); begin ("tool --set-field=" + m + " on " + show (f)); const auto q = run (tool_main, {"-s", m, "-f", fl, in, out}); CHECK (q.ret == 0, "failed: " << q.err); CHECK (same (load (get (out)), want), "result"); begin ("tool --set-field without values"); CHECK (run (tool_main, {"-s", m, in, out}).ret != 0, "accepted"); }
    }
    finish ();
}
