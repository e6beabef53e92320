#include "vpspoc.h"
#include "spoc/voxel.h"
using namespace vp; using namespace spoc::voxel;
int main ()
{
    init ();
    for (unsigned long n = 0; more (n, 1500); ++n)
    {
        std::vector<PD> v (coin (6) ? 1 + size (5000) : 1 + below (40)); const unsigned st = below (4); for (auto &p : v) { if (st == 0) p = {double (below (9)), double (below (9)), double (below (9))}; else if (st == 1) p = {500000 + below (8000) / 1000.0, 4000000 + below (8000) / 1000.0, below (4000) / 1000.0}; else if (st == 2) p = {-double (below (50)) / 4, double (int (below (200)) - 100) / 8, -3}; else p = {coord (), coord (), coord ()}; }
        const double res = coin () ? 1.0 : coin () ? 0.125 * (1 + below (30)) : 0.01 + below (1000) / 37.0; PD lo = v[0]; for (auto &p : v) { lo.x = std::min (lo.x, p.x); lo.y = std::min (lo.y, p.y); lo.z = std::min (lo.z, p.z); }
        std::ostringstream o; o.precision (17); o << v.size () << " points," << v[0] << (v.size () > 1 ? "," : ""); if (v.size () > 1) o << v[1]; o << ", resolution " << res; begin (o.str ());
        auto cell = [&] (const PD &p) { return voxel_index (size_t (std::trunc ((p.x - lo.x) / res)), size_t (std::trunc ((p.y - lo.y) / res)), size_t (std::trunc ((p.z - lo.z) / res))); };
        const auto vi = get_voxel_indexes (v, res); CHECK (vi.size () == v.size (), "number of voxel indexes"); for (size_t k = 0; k < v.size (); ++k) CHECK (vi[k].i == cell (v[k]).i && vi[k].j == cell (v[k]).j && vi[k].k == cell (v[k]).k, "point " << k << " at" << v[k] << " is in voxel " << vi[k].i << "," << vi[k].j << "," << vi[k].k << " instead of " << cell (v[k]).i << "," << cell (v[k]).j << "," << cell (v[k]).k);
        std::vector<size_t> sub; for (size_t k = below (v.size () + 1); k; --k) sub.push_back (below (v.size ())); const auto vs = get_voxel_indexes (v, sub, res); CHECK (vs.size () == sub.size (), "number of voxel indexes of a subset"); for (size_t k = 0; k < sub.size (); ++k) CHECK (vs[k] == vi[sub[k]], "voxel of entry " << k << " of a subset");
        auto tup = [] (const voxel_index &x) { return std::make_tuple (x.i, x.j, x.k); }; std::map<std::tuple<size_t, size_t, size_t>, std::vector<size_t>> want; for (size_t k = 0; k < vi.size (); ++k) want[tup (vi[k])].push_back (k);
        const auto m = get_voxel_index_map (vi); CHECK (m.size () == want.size (), m.size () << " voxels in the map instead of " << want.size ()); for (auto &e : m) { CHECK (!e.second.empty (), "an empty voxel"); CHECK (want.count (tup (e.first)) && want[tup (e.first)] == e.second, "points of voxel " << e.first.i << "," << e.first.j << "," << e.first.k); }
        const auto s = get_voxel_index_set (vi); CHECK (s.size () == want.size (), s.size () << " voxels in the set instead of " << want.size ()); for (auto &e : s) CHECK (want.count (tup (e)), "a voxel that is not occupied");
    }
    finish ();
}
