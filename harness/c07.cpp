// the file object: every sequence of operations keeps all records at the same number of extra fields
#include "vpspoc.h"
using namespace vp;
static bool consistent (const PRS &v) { for (auto &p : v) if (p.extra.size () != v[0].extra.size ()) return false; return true; }
struct Model { unsigned maj, mnr; std::string wkt; bool comp; PRS prs; };
static void agree (const SF &f, const Model &m, const char *op)
{
    CHECK (f.get_major_version () == m.maj && f.get_minor_version () == m.mnr, op << ": version " << f.get_major_version () << "." << f.get_minor_version ());
    CHECK (f.get_wkt () == m.wkt, op << ": wkt");
    CHECK (f.get_compressed () == m.comp, op << ": compressed flag");
    CHECK (same (f.get_point_records (), m.prs), op << ": records, have " << show (f.get_point_records ()) << " want " << show (m.prs));
    CHECK (f.is_valid (), op << ": is_valid");
    CHECK (f.get_extra_fields () == (m.prs.empty () ? 0 : m.prs[0].extra.size ()), op << ": extra field count");
    for (size_t i = 0; i < m.prs.size (); i += 1 + m.prs.size () / 5) CHECK (same (f.get_point_record (i), m.prs[i]), op << ": record " << i);
    const size_t ef = f.get_extra_fields ();
    if (ef > 255 || m.wkt.size () > 0xFFFF) { CHECK (throws ([&] { f.get_header (); }), op << ": header of an unrepresentable file"); return; }
    auto h = f.get_header ();
    CHECK (h.is_valid () && h.major_version == m.maj && h.minor_version == m.mnr && h.wkt == m.wkt && h.extra_fields == ef && h.total_points == m.prs.size () && (h.compressed != 0) == m.comp, op << ": header");
}
int main ()
{
    init ();
    for (unsigned long n = 0; more (n, 300); ++n)
    {
        std::ostringstream d; d << "operation sequence " << n << " (seed " << env ("VP_SEED", 1) << "):";
        begin (d.str ());
        SF f; Model m {0, 2, "", false, {}};
        m.maj = spoc::MAJOR_VERSION; m.mnr = spoc::MINOR_VERSION;
        const unsigned len = 1 + below (12);
        for (unsigned k = 0; k < len; ++k)
        {
            const size_t ne = coin (4) ? extras () : m.prs.empty () ? below (4) : coin (5) ? below (4) : m.prs[0].extra.size ();
            PRS v = records (size (coin (10) ? 300 : 6), ne);
            if (coin (4) && v.size () > 1) v[coin () ? v.size () - 1 : below (v.size ())].extra.resize (below (5));
            const bool ok = consistent (v);
            const unsigned op = below (13);
            d << " " << op; desc () = d.str ();
            switch (op)
            {
                case 0: { bool t = false; try { SF g (m.wkt, m.comp, v); f = g; } catch (const std::runtime_error &) { t = true; }
                    CHECK (t == !ok, "constructor accepts iff consistent"); if (!t) { m.prs = v; m.maj = spoc::MAJOR_VERSION; m.mnr = spoc::MINOR_VERSION; } agree (f, m, "ctor"); break; }
                case 1: { bool t = false; const uint8_t a = integer<uint8_t> (), b = integer<uint8_t> (); const bool c = coin (); const auto w = wkt ();
                    try { SF g (a, b, w, c, v); f = g; } catch (const std::runtime_error &) { t = true; }
                    CHECK (t == !ok, "constructor accepts iff consistent"); if (!t) m = Model {a, b, w, c, v}; agree (f, m, "ctor5"); break; }
                case 2: { PR p = record (ne); const bool good = m.prs.empty () || m.prs[0].extra.size () == ne; bool t = false;
                    try { f.push_back (p); } catch (const std::runtime_error &) { t = true; } CHECK (t == !good, "push_back accepts iff consistent"); if (!t) m.prs.push_back (p); agree (f, m, "push_back"); break; }
                case 3: { f.resize_extra_fields (ne); for (auto &p : m.prs) p.extra.resize (ne); agree (f, m, "resize_extra_fields"); break; }
                case 4: { if (m.prs.empty ()) break; const size_t i = below (m.prs.size ()); PR p = record (ne); bool t = false;
                    try { f.set_point_record (i, p); } catch (const std::runtime_error &) { t = true; } CHECK (t == (ne != m.prs[0].extra.size ()), "set_point_record accepts iff consistent"); if (!t) m.prs[i] = p; agree (f, m, "set_point_record"); break; }
                case 5: { PRS w = v; bool t = false; try { f.set_point_records (w); } catch (const std::runtime_error &) { t = true; } CHECK (t == !ok, "set_point_records accepts iff consistent"); if (!t) m.prs = v; CHECK (same (w, v), "argument changed"); agree (f, m, "set_point_records"); break; }
                case 6: { PRS w = v; bool t = false; try { f.move_point_records (w); } catch (const std::runtime_error &) { t = true; } CHECK (t == !ok, "move_point_records accepts iff consistent"); if (!t) { m.prs = v; } else CHECK (same (w, v), "argument changed"); agree (f, m, "move_point_records"); break; }
                case 7: { PRS w = f.move_point_records (); CHECK (same (w, m.prs), "moved out"); m.prs.clear (); agree (f, m, "move out"); break; }
                case 8: { m.wkt = wkt (); f.set_wkt (m.wkt); agree (f, m, "set_wkt"); break; }
                case 9: { m.comp = coin (); f.set_compressed (m.comp); agree (f, m, "set_compressed"); break; }
                case 10: { SF g (f); agree (g, m, "copy"); SF e = f.clone_empty (); Model z = m; z.prs.clear (); agree (e, z, "clone_empty"); agree (f, m, "source of copy"); break; }
                case 11: { if (!ok) break; SF g ("other", !m.comp, v); Model o {spoc::MAJOR_VERSION, spoc::MINOR_VERSION, "other", !m.comp, v}; f.swap (g); agree (g, m, "swap"); agree (f, o, "swap"); m = o; break; }
                default: { f = *&f; agree (f, m, "self assignment"); SF g; g = f; agree (g, m, "assignment"); break; }
            }
        }
    }
    finish ();
}
