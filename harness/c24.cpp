// compares every parallel operation on many threads with the same operation on one
#include "vpspoc.h"
#include "spoc/affine.h"
#include "spoc/radius_search.h"
#include <omp.h>
using namespace vp;
template<class F> auto with (int t, F f) { omp_set_num_threads (t); auto r = f (); omp_set_num_threads (8); return r; }
static bool eq (const std::vector<PD> &a, const std::vector<PD> &b) { if (a.size () != b.size ()) return false; for (size_t k = 0; k < a.size (); ++k) if (!same (a[k].x, b[k].x) || !same (a[k].y, b[k].y) || !same (a[k].z, b[k].z)) return false; return true; }
int main ()
{
    init (); omp_set_dynamic (0);
    for (unsigned long n = 0; more (n, 40); ++n)
    {
        const size_t cnt = coin () ? 20000 + below (20000) : below (2000); std::vector<PD> v (cnt); for (auto &p : v) p = {coord (), coord (), below (1000) / 10.0}; const int t = 2 + below (15); begin (std::to_string (cnt) + " points on " + std::to_string (t) + " threads", 120);
        const double s = coord (); auto both = [&] (const char *what, auto f) { auto g = [&] { auto q = v; f (q); return q; }; const auto one = with (1, g); for (int k = 0; k < 3; ++k) CHECK (eq (with (t, g), one), what << " differs"); };
        namespace A = spoc::affine; both ("rotate_x", [&] (auto &q) { A::rotate_x (q, s); }); both ("rotate_y", [&] (auto &q) { A::rotate_y (q, s); }); both ("rotate_z", [&] (auto &q) { A::rotate_z (q, s); }); both ("add", [&] (auto &q) { A::add_x (q, s); A::add_y (q, s); A::add_z (q, s); A::scale_x (q, 1.5); A::scale_y (q, 2.5); A::scale_z (q, -1.0); A::add (q, PD {1, 2, 3}); }); both ("quantize", [&] (auto &q) { spoc::utils::quantize (q, 0.125); });
        std::vector<PD> u (std::min<size_t> (cnt, 3000)); for (auto &p : u) p = {below (400) / 40.0, below (400) / 40.0, below (40) / 40.0};
        auto vox = [&] { auto r = spoc::voxel::get_voxel_indexes (u, 0.5); std::vector<std::tuple<size_t, size_t, size_t>> z; for (auto &x : r) z.push_back ({x.i, x.j, x.k}); return z; }; if (!u.empty ()) { const auto one = with (1, vox); for (int k = 0; k < 3; ++k) CHECK (with (t, vox) == one, "voxel indexes differ"); }
        auto rs = [&] { return spoc::radius_search::radius_search_get_neighbors (u, 0.5); }; if (!u.empty ()) { const auto one = with (1, rs); CHECK (with (t, rs) == one, "neighbors differ"); }
        const SF f ("w", true, records (cnt / 4, below (12))); auto wr = [&] { std::stringstream o; spoc::io::write_spoc_file (o, f); return o.str (); }; const auto one = with (1, wr); for (int k = 0; k < 2; ++k) CHECK (with (t, wr) == one, "compressed file differs"); auto rd = [&] { std::stringstream i (one); return spoc::io::read_spoc_file (i); }; const SF g = with (t, rd); CHECK (same (g, f), "compressed file read differently");
    }
    finish ();
}
