#include "vptransform.h"
using namespace vp; using namespace spoc::transform_app; using namespace spoc::app_utils;
// one operation at a time, built by its factory function
static bool build (const OpT &o, size_t ne, OP &op)
{
    std::string s = o.params; const char ax = o.name.empty () ? 0 : o.name.back ();
    if (o.name == "copy-field") { auto a = consume_field_name (s), b = consume_field_name (s); op = get_copy_field_op (a, b, ne); }
    else if (o.name == "replace") { auto a = consume_field_name (s); auto u = consume_int (s), w = consume_int (s); op = get_replace_op (a, u, w, ne); }
    else if (o.name == "replace-not") { auto a = consume_field_name (s); op = get_replace_not_op (a, consume_ints (s), ne); }
    else if (o.name == "set") { auto a = consume_field_name (s); op = get_set_op (a, consume_double (s), ne); }
    else
    {
        const double d = strtod (o.params.c_str (), nullptr);
        if (o.name == "quantize-xyz") op = get_quantize_op (d);
        else if (o.name.rfind ("add-", 0) == 0) op = ax == 'x' ? get_add_x_op (d) : ax == 'y' ? get_add_y_op (d) : get_add_z_op (d);
        else if (o.name.rfind ("scale-", 0) == 0) op = ax == 'x' ? get_scale_x_op (d) : ax == 'y' ? get_scale_y_op (d) : get_scale_z_op (d);
        else if (o.name.rfind ("rotate-", 0) == 0) op = ax == 'x' ? get_rotate_x_op (d) : ax == 'y' ? get_rotate_y_op (d) : get_rotate_z_op (d);
        else return false;
    }
    return true;
}
static bool eq (const PR &a, const PR &b) { PR c = a; c.x = b.x; c.y = b.y; c.z = b.z; return same (c, b) && eqv (a.x, b.x) && eqv (a.y, b.y) && eqv (a.z, b.z); }
int main ()
{
    init ();
    for (unsigned long n = 0; more (n, 3000); ++n)
    {
        const size_t ne = coin (3) ? 0 : extras (); PRS v = records (1 + below (6), ne);
        const OpT o = random_op (v, ne, false);
        begin (o.name + "=" + o.params + " on " + show (v));
        OP op; if (!build (o, ne, op)) continue;
        for (auto &p : v)
        {
            bool bad = false; const PR want = o.f (p, bad); const PR before = p;
            PR got (ne); bool thrown = false;
            try { got = op (p); } catch (const std::exception &) { thrown = true; }
            CHECK (thrown == bad, (bad ? "an extra field that is not there was accepted for " : "refused: ") << show (p));
            CHECK (bad || eq (got, want), "operation gives " << show (got) << ", expected " << show (want) << " from " << show (p));
            CHECK (same (p, before), "the argument was changed");
        }
        for (auto f : {"x", "y", "z"})
        {
            CHECK (throws ([&] { get_copy_field_op (f, "c", ne); }) && throws ([&] { get_copy_field_op ("c", f, ne); }), "copy of a coordinate was accepted");
            CHECK (throws ([&] { get_replace_op (f, 1, 2, ne); }) && throws ([&] { get_replace_not_op (f, {1, 2}, ne); }), "replacement of a coordinate was accepted");
        }
        // noise moves only the coordinates it is asked to move
        const double m[3] = {coin () ? 0.0 : 1 + below (9), coin () ? 0.0 : 1 + below (9), coin () ? 0.0 : 1 + below (9)};
        begin ("noise " + num (m[0]) + " " + num (m[1]) + " " + num (m[2]) + " on " + show (v));
        OP u = get_uniform_noise_op (n, m[0], m[1], m[2]), g = get_gaussian_noise_op (n, m[0], m[1], m[2]);
        for (auto &p : v)
            for (int k = 0; k < 2; ++k)
            {
                PR q = k ? g (p) : u (p); 
                CHECK ((m[0] != 0 || same (q.x, p.x)) && (m[1] != 0 || same (q.y, p.y)) && (m[2] != 0 || same (q.z, p.z)), "a coordinate without noise changed");
                if (!k) CHECK (!(std::fabs (p.x) < 1e6 && std::fabs (q.x - p.x) > m[0] * (1 + 1e-9) + 1e-6) && !(std::fabs (p.y) < 1e6 && std::fabs (q.y - p.y) > m[1] * (1 + 1e-9) + 1e-6) && !(std::fabs (p.z) < 1e6 && std::fabs (q.z - p.z) > m[2] * (1 + 1e-9) + 1e-6), "noise larger than its magnitude");
                q.x = p.x; q.y = p.y; q.z = p.z; CHECK (same (q, p), "another field changed");
            }
    }
    finish ();
}
