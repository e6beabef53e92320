#include "vpspoc.h"
#include "spoc/voxel.h"
#include <unordered_set>
using namespace vp;
static double near (double d) { switch (below (6)) { case 0: return -d; case 1: return std::nextafter (d, 1e300); case 2: return anyd (); case 3: return bits (ubits (d) ^ (1ull << below (64))); default: return d; } }
template<class T> void flip (T &v) { v ^= T (1) << below (sizeof (T) * 8); }
static void points ()
{
    PD a {anyd (), anyd (), anyd ()}; PD b = a; const unsigned k = below (4);
    if (k == 0) b.x = near (b.x); if (k == 1) b.y = near (b.y); if (k == 2) b.z = near (b.z); if (coin (4)) b.z = near (b.z);
    PD c {near (coin () ? a.x : b.x), near (a.y), near (b.z)};
    std::ostringstream o; o.precision (17); o << "points" << a << " and" << b << " and" << c; begin (o.str ());
    const bool e = a.x == b.x && a.y == b.y && a.z == b.z;
    CHECK ((a == b) == e && (b == a) == e, "points: == says " << (a == b)); CHECK ((a != b) == !e, "points: != says " << (a != b));
    if (e) CHECK (spoc::point::point_hash<double> () (a) == spoc::point::point_hash<double> () (b), "equal points have different hash values");
    auto nan = [] (const PD &p) { return p.x != p.x || p.y != p.y || p.z != p.z; };
    if (nan (a) || nan (b) || nan (c)) return;
    const bool l = a.x < b.x || (a.x == b.x && (a.y < b.y || (a.y == b.y && a.z < b.z)));
    CHECK ((a < b) == l, "points: < says " << (a < b)); CHECK (!(a < a), "irreflexive"); CHECK (!((a < b) && (b < a)), "asymmetric");
    CHECK (!((a < b) && (b < c)) || (a < c), "transitive"); CHECK ((!(a < b) && !(b < a)) == e, "equivalence is equality");
}
static void recs ()
{
    PR a = record (below (5)); PR b = a; const unsigned k = below (12);
    switch (k) { case 0: b.x = near (b.x); break; case 1: b.y = near (b.y); break; case 2: b.z = near (b.z); break; case 3: flip (b.c); break; case 4: flip (b.p); break; case 5: flip (b.i); break; case 6: flip (b.r); break; case 7: flip (b.g); break; case 8: flip (b.b); break;
        case 9: if (!b.extra.empty ()) flip (b.extra[below (b.extra.size ())]); break; case 10: b.extra.push_back (below (2)); break; default: break; }
    if (coin (8)) std::swap (b.r, b.g);
    begin ("records " + show (a) + " and " + show (b));
    bool x = a.extra.size () == b.extra.size (); for (size_t j = 0; x && j < a.extra.size (); ++j) x = a.extra[j] == b.extra[j];
    const bool e = a.x == b.x && a.y == b.y && a.z == b.z && a.c == b.c && a.p == b.p && a.i == b.i && a.r == b.r && a.g == b.g && a.b == b.b && x;
    CHECK ((a == b) == e && (b == a) == e, "records: == says " << (a == b)); CHECK ((a != b) == !e, "records: != says " << (a != b));
    if (e) { CHECK (spoc::point_record::point_record_hash () (a) == spoc::point_record::point_record_hash () (b), "equal records have different hash values"); std::unordered_set<PR, spoc::point_record::point_record_hash> s; s.insert (a); CHECK (s.count (b) == 1, "a set does not find an equal record"); }
}
static void headers ()
{
    spoc::header::header a (integer<uint8_t> (), integer<uint8_t> (), coin () ? wkt () : str (below (4)), integer<uint8_t> (), integer<uint64_t> (), coin ()); auto b = a; const unsigned k = below (9);
    switch (k) { case 0: flip (b.signature[below (4)]); break; case 1: flip (b.major_version); break; case 2: flip (b.minor_version); break; case 3: if (b.wkt.empty ()) b.wkt = "x"; else flip (b.wkt[coin () ? b.wkt.size () - 1 : below (b.wkt.size ())]); break; case 4: flip (b.extra_fields); break; case 5: flip (b.total_points); break; case 6: b.compressed = !b.compressed; break; case 7: b.wkt += std::string (1, '\0'); break; default: break; }
    begin ("headers that differ in part " + std::to_string (k) + " (8: in none), text of " + std::to_string (a.wkt.size ()) + " bytes");
    CHECK ((a == b) == (k == 8) && (b == a) == (k == 8), "headers: == says " << (a == b)); CHECK ((a != b) == (k != 8), "headers: != says " << (a != b));
}
static void voxels ()
{
    spoc::voxel::voxel_index a (integer<uint64_t> (), integer<uint64_t> (), integer<uint64_t> ()), b = a; const unsigned k = below (4); if (k == 0) flip (b.i); if (k == 1) flip (b.j); if (k == 2) flip (b.k);
    begin ("voxels " + std::to_string (a.i) + "," + std::to_string (a.j) + "," + std::to_string (a.k) + ", part " + std::to_string (k) + " changed (3: none)");
    CHECK ((a == b) == (k == 3), "voxels: == says " << (a == b)); if (k == 3) CHECK (spoc::voxel::voxel_index_hash () (a) == spoc::voxel::voxel_index_hash () (b), "hash");
}
static void colours ()
{
    auto d = [] { return integer<uint16_t> (); }; using P16 = spoc::point::point<uint16_t>; P16 a {d (), d (), d ()}, b {coin () ? a.x : d (), coin () ? a.y : d (), coin () ? a.z : d ()};
    begin ("small points " + std::to_string (a.x) + "," + std::to_string (a.y) + "," + std::to_string (a.z) + " and " + std::to_string (b.x) + "," + std::to_string (b.y) + "," + std::to_string (b.z));
    const bool e = a.x == b.x && a.y == b.y && a.z == b.z; CHECK ((a == b) == e && (a != b) == !e, "equality"); if (e) CHECK (spoc::point::point_hash<uint16_t> () (a) == spoc::point::point_hash<uint16_t> () (b), "hash");
    CHECK ((a < b) == (std::tie (a.x, a.y, a.z) < std::tie (b.x, b.y, b.z)), "order");
}
int main () { init (); for (unsigned long n = 0; more (n, 20000); ++n) { points (); recs (); headers (); voxels (); colours (); } finish (); }
