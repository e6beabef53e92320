#include "vpspoc.h"
using namespace vp;
namespace af = spoc::affine;
template<class T> static void go (const T &v, const char *kind)
{
    const double s = coin () ? coord () : anyd ();
    const double deg = coin () ? double (int (below (73)) - 36) * 10 : coord ();
    typename T::value_type o; o.x = coord (); o.y = coord (); o.z = coord ();
    const double r = deg * M_PI / 180.0;
    std::ostringstream d; d.precision (17); d << kind << " n=" << v.size () << " s=" << s << " degrees=" << deg;
    using P = typename T::value_type;
    auto run = [&] (const char *name, auto f, auto g, double tol) {
        T w = v; begin (d.str () + " " + name); f (w);
        CHECK (w.size () == v.size (), "size");
        for (size_t i = 0; i < v.size (); ++i)
        {
            P want = v[i]; g (want);
            auto close = [&] (double a, double b) { return eqv (a, b) || std::fabs (a - b) <= tol * (std::fabs (v[i].x) + std::fabs (v[i].y) + std::fabs (v[i].z)); };
            CHECK (close (w[i].x, want.x) && close (w[i].y, want.y) && close (w[i].z, want.z), name << " point " << i << " (" << v[i].x << "," << v[i].y << "," << v[i].z << ") gives (" << w[i].x << "," << w[i].y << "," << w[i].z << ")");
            P back = w[i]; back.x = v[i].x; back.y = v[i].y; back.z = v[i].z;
            if constexpr (std::is_same_v<P, PR>) CHECK (same (back, v[i]), name << " changed another field of point " << i);
        }
    };
    run ("add_x", [&] (T &w) { af::add_x (w, s); }, [&] (P &p) { p.x += s; }, 0);
    run ("add_y", [&] (T &w) { af::add_y (w, s); }, [&] (P &p) { p.y += s; }, 0);
    run ("add_z", [&] (T &w) { af::add_z (w, s); }, [&] (P &p) { p.z += s; }, 0);
    run ("add", [&] (T &w) { af::add (w, o); }, [&] (P &p) { p.x += o.x; p.y += o.y; p.z += o.z; }, 0);
    run ("scale_x", [&] (T &w) { af::scale_x (w, s); }, [&] (P &p) { p.x *= s; }, 0);
    run ("scale_y", [&] (T &w) { af::scale_y (w, s); }, [&] (P &p) { p.y *= s; }, 0);
    run ("scale_z", [&] (T &w) { af::scale_z (w, s); }, [&] (P &p) { p.z *= s; }, 0);
    run ("rotate_x", [&] (T &w) { af::rotate_x (w, deg); }, [&] (P &p) { const double y = p.y, z = p.z; p.y = y * cos (r) - z * sin (r); p.z = y * sin (r) + z * cos (r); }, 1e-12);
    run ("rotate_y", [&] (T &w) { af::rotate_y (w, deg); }, [&] (P &p) { const double x = p.x, z = p.z; p.x = x * cos (r) - z * sin (r); p.z = x * sin (r) + z * cos (r); }, 1e-12);
    run ("rotate_z", [&] (T &w) { af::rotate_z (w, deg); }, [&] (P &p) { const double x = p.x, y = p.y; p.x = x * cos (r) - y * sin (r); p.y = x * sin (r) + y * cos (r); }, 1e-12);
}
int main ()
{
    init ();
    for (unsigned long n = 0; more (n, 60); ++n)
    {
        PRS v = records (size (coin (20) ? 70000 : 300), below (3), coin ());
        go (v, "records");
        std::vector<PD> q; for (auto &p : v) q.push_back (PD {p.x, p.y, p.z});
        go (q, "points");
    }
    finish ();
}
