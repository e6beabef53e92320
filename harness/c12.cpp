#include "vp.h"
#include "spoc/app_utils.h"
using namespace vp; using namespace spoc::app_utils;
static bool name_ok (const std::string &s)
{
    if (s.size () == 1) return std::string ("xyzcpirgb").find (s[0]) != std::string::npos;
    if (s.size () < 2 || s[0] != 'e') return false;
    for (size_t i = 1; i < s.size (); ++i) if (s[i] < '0' || s[i] > '9') return false;
    size_t k = 1; while (k + 1 < s.size () && s[k] == '0') ++k;
    const std::string t = s.substr (k); return t.size () < 10 || (t.size () == 10 && t <= "2147483647");
}
static std::string word () { switch (below (7)) { case 0: return std::string (1, "xyzcpirgb"[below (9)]); case 1: return "e" + std::to_string (below (300)); case 2: return "e" + std::to_string (integer<uint32_t> ()); case 3: return std::string (1, char ('a' + below (26))); case 4: { std::string s; for (size_t k = below (5); k; --k) s += "e0123456789xyzXE"[below (16)]; return s; } case 5: return "e00" + std::to_string (below (12)); default: return std::string (1, "XYZCPIRGBE"[below (10)]) + (coin () ? "1" : ""); } }
int main ()
{
    init ();
    for (unsigned long n = 0; more (n, 20000, 0.6); ++n)
    {
        const std::string w = word ();
        begin ("field name '" + w + "'");
        CHECK (check_field_name (w) == name_ok (w), "check_field_name says " << check_field_name (w));
        if (name_ok (w) && w[0] == 'e' && w.size () > 1) CHECK (get_extra_index (w) == int (strtol (w.c_str () + 1, nullptr, 10)) && is_extra_field (w), "index " << get_extra_index (w));
        if (name_ok (w) && w.size () == 1) CHECK (!is_extra_field (w) && get_extra_index (w) == -1, "a plain field was taken for an extra field");
        for (auto s : {"e1x", "e+1", "e 1", "e-1", "e1 ", "e", "", "ee1", "xx", "x1", "e1.5"}) { begin (std::string ("field name '") + s + "'"); CHECK (!check_field_name (s), "accepted"); }
        // a list: a name, numbers, a floating value, a rest
        std::vector<int64_t> iv; for (size_t k = below (5); k; --k) iv.push_back (int64_t (int32_t (integer<uint32_t> ())));
        const double d = coord (); std::ostringstream ds; ds.precision (17); ds << d;
        const char sep = coin () ? ',' : coin () ? ':' : ';';
        std::string s = w, rest = coin () ? "" : "rest of it";
        if (w.empty ()) continue;
        for (auto v : iv) s += sep + std::to_string (v);
        s += sep + ds.str (); if (!rest.empty ()) s += sep + rest;
        begin ("consume '" + s + "'");
        std::string t = s;
        if (!name_ok (w)) { CHECK (throws ([&] { consume_field_name (t); }), "accepted"); continue; }
        CHECK (consume_field_name (t) == w, "name");
        for (auto v : iv) { const unsigned g = consume_int (t); CHECK (g == unsigned (v), "number " << v << " read as " << g); }
        const double g = consume_double (t); CHECK (eqv (g, d), "number " << d << " read as " << g);
        CHECK (t == rest, "rest '" << t << "'");
        // lists of whole numbers
        std::string l; for (auto v : iv) l += (l.empty () ? "" : std::string (1, sep)) + std::to_string (v);
        begin ("consume_ints '" + l + "'");
        std::string u = l;
        if (iv.empty ()) { CHECK (throws ([&] { consume_ints (u); }), "empty list accepted"); continue; }
        const auto q = consume_ints (u); CHECK (q.size () == iv.size (), q.size () << " numbers"); for (size_t k = 0; k < q.size (); ++k) CHECK (q[k] == unsigned (iv[k]), "number " << k);
        CHECK (u.empty (), "rest");
        for (auto b : {"", "abc", ",1", "-", "99999999999999999999"}) { std::string x = b; begin (std::string ("consume_int '") + b + "'"); CHECK (throws ([&] { consume_int (x); }), "accepted"); }
        for (auto b : {"", ",x", " x", "1x", "-"}) { std::string x = b; begin (std::string ("consume_field_name '") + b + "'"); CHECK (throws ([&] { consume_field_name (x); }), "accepted"); }
        for (auto b : {"", "abc", ",1", "-", "."}) { std::string x = b; begin (std::string ("consume_double '") + b + "'"); CHECK (throws ([&] { consume_double (x); }), "accepted"); }
        { std::string a = "1,2,x,3"; const auto z = consume_ints (a); CHECK (z.size () == 2 && a == "x,3", "list that ends in a name"); }
    }
    finish ();
}
