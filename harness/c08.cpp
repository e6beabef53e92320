#include "vpspoc.h"
using namespace vp;
namespace pr = spoc::point_record;
template<class T, class F> static void col (const std::vector<T> &v, const PRS &p, F f, const char *n)
{
    CHECK (v.size () == p.size (), n << ": length " << v.size ());
    for (size_t i = 0; i < p.size (); ++i) { T a = v[i], b = f (p[i]); CHECK (memcmp (&a, &b, sizeof (T)) == 0, n << "[" << i << "]"); }
}
int main ()
{
    init ();
    for (unsigned long n = 0; more (n, 200); ++n)
    {
        const size_t ne = coin (3) ? extras () : below (5);
        PRS v = records (size (coin (20) ? 70000 : 400), ne);
        begin ("columns of " + show (v));
        SF f ("", false, v);
#define COL(F) col (f.get_##F (), v, [] (const PR &p) { return p.F; }, "get_" #F); col (pr::get_##F (v), v, [] (const PR &p) { return p.F; }, "get_" #F);
        COL (x) COL (y) COL (z) COL (c) COL (p) COL (i) COL (r) COL (g) COL (b)
        for (size_t k = 0; k < ne && k < 40; ++k) { const size_t kk = coin () ? k : ne - 1 - k; col (f.get_extra (kk), v, [&] (const PR &p) { return p.extra[kk]; }, "get_extra"); }
        CHECK (pr::get_extra_fields_size (v) == (v.empty () ? 0 : ne), "extra field count");
        auto zero = [&] (auto g) { for (auto &p : v) if (g (p) != 0) return false; return true; };
#define Z(F) const bool z##F = zero ([] (const PR &p) { return p.F; }); CHECK (pr::has_all_zero_##F (v) == z##F, "has_all_zero_" #F);
        Z (c) Z (p) Z (i) Z (r) Z (g) Z (b)
        CHECK (pr::has_all_zero_rgb (v) == (zr && zg && zb), "has_all_zero_rgb");
        for (size_t k = 0; k < ne; ++k) CHECK (pr::has_all_zero_extra (k, v) == zero ([&] (const PR &p) { return p.extra[k]; }), "has_all_zero_extra " << k);
    }
    finish ();
}
