#include "vpapp.h"
#define main diff_main
#include "apps/diff/diff.cpp"
#undef main
using namespace vp;
static bool eqcol (const PRS &a, const PRS &b, char f)
{
    if (a.size () != b.size ()) return false;
    for (size_t k = 0; k < a.size (); ++k)
    {
        const PR &p = a[k], &q = b[k]; bool e;
        switch (f) { case 'x': e = p.x == q.x; break; case 'y': e = p.y == q.y; break; case 'z': e = p.z == q.z; break; case 'c': e = p.c == q.c; break; case 'p': e = p.p == q.p; break; case 'i': e = p.i == q.i; break; case 'r': e = p.r == q.r; break; case 'g': e = p.g == q.g; break; case 'b': e = p.b == q.b; break; default: e = p.extra[f - '0'] == q.extra[f - '0']; }
        if (!e) return false;
    }
    return true;
}
template<class T> void flip (T &v) { v ^= T (1) << below (sizeof (T) * 8); }
int main ()
{
    init ();
    for (unsigned long n = 0; more (n, 500); ++n)
    {
        const bool nans = coin (6); const size_t ne = coin () ? below (12) : extras (); PRS v = records (coin (5) ? size (1500) : below (30), ne, !nans); std::string w = coin () ? "" : wkt (); bool c = coin ();
        const SF a (w, c, v); std::string d;
        for (size_t k = below (3); k; --k)   // a few differences
        {
            const size_t at = v.empty () ? 0 : coin () ? v.size () - 1 : below (v.size ()); const unsigned kind = below (15); if (v.empty () && kind < 11) continue; d += " " + std::to_string (kind) + "@" + std::to_string (at);
            switch (kind) { case 0: v[at].x = coin () ? -v[at].x : std::nextafter (v[at].x, 1e300); break; case 1: v[at].y = coin () ? -v[at].y : std::nextafter (v[at].y, 1e300); break; case 2: v[at].z = coin () ? -v[at].z : anyd (); break; case 3: flip (v[at].c); break; case 4: flip (v[at].p); break; case 5: flip (v[at].i); break; case 6: flip (v[at].r); break; case 7: flip (v[at].g); break; case 8: flip (v[at].b); break;
                case 9: case 10: if (ne) flip (v[at].extra[coin () ? v[at].extra.size () - 1 : below (v[at].extra.size ())]); break; case 11: w += 'x'; if (w.size () > 65535) w = "x"; break; case 12: c = !c; break; case 13: if (!v.empty ()) { if (coin ()) v.pop_back (); else v.push_back (v[below (v.size ())]); } break; default: if (!v.empty () && v[0].extra.size () < 255) { const bool grow = coin () || v[0].extra.empty (); for (auto &p : v) p.extra.resize (p.extra.size () + (grow ? 1 : -1)); } }
        }
        const SF b (w, c, v); const PRS &pa = a.get_point_records (), &pb = b.get_point_records (); const size_t ea = pa.empty () ? 0 : pa[0].extra.size (), eb = pb.empty () ? 0 : pb[0].extra.size ();
        const bool heq = a.get_wkt () == b.get_wkt () && a.get_compressed () == b.get_compressed () && pa.size () == pb.size () && ea == eb;
        bool deq = pa.size () == pb.size () && ea == eb; for (char f : std::string ("xyzcpirgb")) deq = deq && eqcol (pa, pb, f); if (deq) for (size_t k = 0; k < pa.size (); ++k) deq = deq && pa[k].extra == pb[k].extra;
        std::vector<int> fields; const unsigned mode = below (4); bool want = mode == 0 ? heq && deq : mode == 1 ? heq : mode == 2 ? deq : true; std::string l; bool unknown = false, skip = false;
        if (mode == 3) for (size_t k = 1 + below (4); k; --k) { char f = coin (4) ? char ('0' + below (10)) : "xyzcpirgb"[below (9)]; if (coin (12)) f = "eXw:/ "[below (6)]; l += f; fields.push_back (f); const bool known = std::string ("xyzcpirgb0123456789").find (f) != std::string::npos; if (!known) { unknown = true; break; } if (isdigit (f)) { const size_t ix = f - '0'; if ((ix < ea) != (ix < eb)) { skip = true; break; } if (ix >= ea) continue; } if (!eqcol (pa, pb, f)) { want = false; break; } }
        if (skip) continue;
        const bool rev = coin (); const char *names[] = {"everything", "header only", "data only", "fields "};
        begin (std::string (names[mode]) + l + (rev ? ", reversed" : "") + ", changes" + d + " (kind@record), of " + show (a));
        auto call = [&] { return spoc::diff_app::diff (a, b, mode == 1, mode == 2, fields, rev); };
        if (unknown) { if (want) CHECK (throws (call), "an unknown field was accepted"); }
        else { const int r = call (); CHECK ((r == 0) == (want != rev), "diff says " << r << (want ? " for equal parts" : " for different parts")); }
        // the program
        if (!coin (3)) continue;
        std::vector<std::string> arg; if (mode == 1) arg.push_back (coin () ? "-a" : "--header-only"); if (mode == 2) arg.push_back (coin () ? "-d" : "--data-only"); if (mode == 3) { if (coin ()) arg.push_back ("--field=" + l); else for (char f : l) arg.push_back (std::string ("-f") + f); } if (rev) arg.push_back ("--reverse");
        const std::string f1 = scratch () + "/d1", f2 = scratch () + "/d2"; put (f1, save (a)); put (f2, save (b)); arg.push_back (f1); arg.push_back (f2);
        const auto r = run (diff_main, arg); if (unknown) { if (want) CHECK (r.ret != 0, "the program accepted an unknown field"); } else CHECK ((r.ret == 0) == (want != rev), "the program says " << r.ret << (want ? " for equal parts" : " for different parts") << " " << r.err);
        arg.insert (arg.begin (), mode == 1 ? "-d" : "-a"); if (mode && mode < 3) { begin ("header and data only at once"); CHECK (run (diff_main, arg).ret != 0, "accepted"); }
    }
    finish ();
}
