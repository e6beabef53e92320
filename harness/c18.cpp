#include "vpapp.h"
#define main info_main
#include "apps/info/info.cpp"
#undef main
using namespace vp;
static std::string num (double d, int prec) { std::vector<char> b (400); snprintf (&b[0], b.size (), "%.*f", prec, d); return &b[0]; }
static std::string num (unsigned long d, int) { return std::to_string (d); }
struct sum { std::string label; size_t n; std::vector<std::string> text, js; };   // range min max q0 q1 q2 q3 q4, steps
template<class T> sum stat (const std::string &label, std::vector<T> x)
{
    sum s {label, x.size (), {}, {}}; if (x.empty ()) return s; std::sort (x.begin (), x.end ()); const size_t n = x.size ();
    using W = std::conditional_t<std::is_same_v<T, double>, double, unsigned long>; const W lo = x.front (), hi = x.back (), a = x[n / 4], b = x[n / 2], c = x[3 * n / 4];
    for (int k = 0; k < 2; ++k) { auto &o = k ? s.js : s.text; const int p = k ? 15 : 3; for (W v : {W (hi - lo), lo, hi, lo, a, b, c, hi, W (a - lo), W (b - a), W (c - b), W (hi - c)}) o.push_back (num (v, p)); }
    return s;
}
static std::string text (const sum &s, bool compact, bool q)
{
    const auto &t = s.text; if (!s.n) return compact ? "" : s.label + "\t0\nsize\t0\nmin\t0\nmax\t0\n";
    if (q) return compact ? s.label + "\trange=" + t[0] + ", " + t[3] + " + " + t[8] + " + " + t[9] + " + " + t[10] + " + " + t[11] + " = " + t[7] + "\n" : s.label + "\t" + std::to_string (s.n) + "\nrange\t" + t[0] + "\nq0\t" + t[3] + "\nq1\t" + t[4] + "\nq2\t" + t[5] + "\nq3\t" + t[6] + "\nq4\t" + t[7] + "\n";
    return compact ? s.label + "\trange=" + t[0] + ", min=" + t[1] + ", max=" + t[2] + "\n" : s.label + "\t" + std::to_string (s.n) + "\nrange\t" + t[0] + "\nmin\t" + t[1] + "\nmax\t" + t[2] + "\n";
}
// reads the JSON-like output into path -> text
struct parser
{
    const std::string &s; size_t i = 0; std::map<std::string, std::string> m;
    void ws () { while (i < s.size () && isspace ((unsigned char) s[i])) ++i; }
    std::string quoted () { CHECK (i < s.size () && s[i] == '\'', "output at " << i); const size_t e = s.find ('\'', i + 1); CHECK (e != std::string::npos, "output"); std::string r = s.substr (i + 1, e - i - 1); i = e + 1; return r; }
    void value (const std::string &path)
    {
        ws (); CHECK (i < s.size (), "the output ends early");
        if (s[i] == '{') { ++i; ws (); while (i < s.size () && s[i] != '}') { const std::string k = quoted (); ws (); CHECK (s[i] == ':', "output at " << i); ++i; value (path + "/" + k); ws (); if (s[i] == ',') ++i; ws (); } CHECK (i < s.size (), "output"); ++i; m[path + "/"] = "{}"; }
        else if (s[i] == '[') { ++i; ws (); size_t n = 0; while (i < s.size () && s[i] != ']') { value (path + "/" + std::to_string (n++)); ws (); if (s[i] == ',') ++i; ws (); } CHECK (i < s.size (), "output"); ++i; m[path + "/size"] = std::to_string (n); }
        else if (s[i] == '\'') m[path] = quoted ();
        else { const size_t b = i; while (i < s.size () && !strchr (",}] \n", s[i])) ++i; m[path] = s.substr (b, i - b); }
    }
};
int main ()
{
    init ();
    for (unsigned long n = 0; more (n, 500); ++n)
    {
        const size_t ne = coin () ? below (4) : below (12); PRS v = records (coin (4) ? size (1200) : below (30), ne, true); if (coin ()) for (auto &p : v) p.c = coin (20) ? integer<uint32_t> () : below (30); const std::string w = coin () ? "" : "GEOGCS[" + std::to_string (below (1000)) + "]"; const SF f (w, coin (), v);
        const bool js = coin (), h = coin (), s = coin (), c = coin (), m = coin (4), co = coin (), q = coin ();
        begin (std::string (js ? "JSON" : "text") + (h ? " header" : "") + (s ? " summary" : "") + (c ? " classes" : "") + (m ? " metrics" : "") + (co ? " compact" : "") + (q ? " quartiles" : "") + " of " + show (f));
        std::ostringstream os; spoc::info_app::process (os, f, js, h, s, c, m, co, q); const std::string got = os.str ();
        std::vector<sum> st; auto col = [&] (const char *l, auto g) { std::vector<std::decay_t<decltype (g (PR ()))>> x; for (auto &p : v) x.push_back (g (p)); st.push_back (stat (l, x)); };
        col ("x", [] (const PR &p) { return p.x; }); col ("y", [] (const PR &p) { return p.y; }); col ("z", [] (const PR &p) { return p.z; }); col ("c", [] (const PR &p) { return p.c; }); col ("p", [] (const PR &p) { return p.p; }); col ("i", [] (const PR &p) { return p.i; }); col ("r", [] (const PR &p) { return p.r; }); col ("g", [] (const PR &p) { return p.g; }); col ("b", [] (const PR &p) { return p.b; });
        if (!v.empty ()) for (size_t k = 0; k < ne; ++k) col (("extra_" + std::to_string (k)).c_str (), [k] (const PR &p) { return p.extra.size () > k ? p.extra[k] : 0; });
        std::map<std::string, size_t> cnt; for (auto &p : v) { std::string k = std::to_string (p.c); while (k.size () < 3) k = "0" + k; ++cnt[k]; }
        const auto cm = spoc::info_app::get_class_count_map (spoc::point_record::get_c (v)); size_t tot = 0; for (auto &t : cm) tot += t.second; CHECK (tot == v.size (), "the class counts add up to " << tot << " of " << v.size ()); CHECK (cm == cnt, "class counts");
        std::map<std::string, double> met; std::set<std::pair<double, double>> gi; std::set<std::tuple<double, double, double>> vi; double x0 = 1e300, y0 = 1e300, z0 = 1e300, x1 = -1e300, y1 = -1e300; for (auto &p : v) { x0 = std::min (x0, p.x); y0 = std::min (y0, p.y); z0 = std::min (z0, p.z); x1 = std::max (x1, p.x); y1 = std::max (y1, p.y); } for (auto &p : v) { gi.insert ({std::trunc (p.x - x0), std::trunc (p.y - y0)}); vi.insert ({std::trunc (p.x - x0), std::trunc (p.y - y0), std::trunc (p.z - z0)}); }
        if (!v.empty ()) { met["extent_point_density"] = v.size () / ((x1 - x0) * (y1 - y0)); met["grid_point_density"] = double (v.size ()) / gi.size (); met["voxel_point_density"] = double (v.size ()) / vi.size (); }
        if (!js)
        {
            std::string want; if (h) want += "major_version\t" + std::to_string (spoc::MAJOR_VERSION) + "\nminor_version\t" + std::to_string (spoc::MINOR_VERSION) + "\nogc_wkt\t'" + w + "'\ntotal_points\t" + std::to_string (v.size ()) + "\ncompressed\t" + (f.get_compressed () ? "true" : "false") + "\n";
            if (s) for (auto &t : st) want += text (t, co, q);
            const size_t base = want.size ();
            std::istringstream rest (got.size () >= base ? got.substr (base) : ""); std::string l; CHECK (got.substr (0, base) == want, "the output differs: " << got.substr (0, 600) << " instead of " << want.substr (0, 600));
            if (c) { std::map<std::string, size_t> r; while (std::getline (rest, l) && l.substr (0, 4) == "cls_") { const size_t t = l.find ('\t'); r[l.substr (4, t - 4)] = std::stoul (l.substr (t + 1)); } CHECK (r == cnt, "class counts in the text"); } else std::getline (rest, l);
            if (m && !v.empty ()) { std::map<std::string, double> r; do { const size_t t = l.find ('\t'); if (t != std::string::npos) r[l.substr (0, t)] = std::strtod (l.c_str () + t + 1, nullptr); } while (std::getline (rest, l)); for (auto &t : met) CHECK (r.count (t.first) && (r[t.first] == t.second || std::abs (r[t.first] - t.second) <= 1e-9 * std::abs (t.second) + 1e-12), "metric " << t.first << " is " << r[t.first] << " instead of " << t.second); }
        }
        else
        {
            parser p {got}; p.value (""); auto &g = p.m; auto is = [&] (const std::string &k, const std::string &x) { CHECK (g.count (k), "no entry " << k); CHECK (g[k] == x, k << " is " << g[k] << " instead of " << x); };
            if (h) { is ("/header/wkt", w); is ("/header/total_points", std::to_string (v.size ())); is ("/header/compressed", std::to_string (int (f.get_compressed ()))); is ("/header/major_version", std::to_string (spoc::MAJOR_VERSION)); is ("/header/minor_version", std::to_string (spoc::MINOR_VERSION)); } else CHECK (!g.count ("/header/"), "a header was not asked for");
            if (s) for (size_t k = 0; k < st.size (); ++k) { const std::string b = k < 9 ? "/summary/" + st[k].label + "/" : "/summary/extra/" + std::to_string (k - 9) + "/"; auto &t = st[k].js; if (!st[k].n) { is (b + "size", "0"); is (b + "min", "0"); is (b + "max", "0"); } else { is (b + "range", t[0]); if (q) for (int z = 0; z < 5; ++z) is (b + "q" + std::to_string (z), t[3 + z]); else { is (b + "min", t[1]); is (b + "max", t[2]); } } } else CHECK (!g.count ("/summary/"), "a summary was not asked for");
            if (s) is ("/summary/extra/size", std::to_string (v.empty () ? 0 : ne));
            if (c) { for (auto &t : cnt) is ("/classifications/" + t.first, std::to_string (t.second)); size_t k = 0; for (auto &t : g) k += t.first.substr (0, 17) == "/classifications/" && t.first.size () > 17; CHECK (k == cnt.size (), "number of classes " << k); } else CHECK (!g.count ("/classifications/"), "classes were not asked for");
            if (m && !v.empty ()) for (auto &t : met) { bool any = false; for (auto &z : g) if (z.first.find ("/" + t.first) != std::string::npos && z.second.find_first_of ("0123456789") == 0) { any = true; const double r = std::strtod (z.second.c_str (), nullptr); CHECK (std::abs (r - t.second) <= 1e-9 * std::abs (t.second) + 1e-12, "metric " << t.first << " is " << r); } (void) any; }
        }
        if (coin (4)) { std::vector<std::string> a; if (js) a.push_back ("-j"); if (!h) a.push_back ("-a"); if (!s) a.push_back ("-s"); if (!c) a.push_back ("-l"); if (!m) a.push_back ("-m"); if (!co) a.push_back ("-c"); if (q) a.push_back ("-q"); const bool file = coin (); const std::string fn = scratch () + "/i"; if (file) { put (fn, save (f)); a.push_back (fn); } const auto r = run (info_main, a, file ? "" : save (f)); CHECK (r.ret == 0, "failed: " << r.err); CHECK (r.out == got, "the program prints something else"); }
    }
    finish ();
}
