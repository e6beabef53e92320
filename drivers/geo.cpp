// Verification driver: makes clang instantiate the library's geometry
// templates.  It only calls public functions; it has no logic of its own.
// The functions in `client` are under contract themselves: the operation that
// they hand to the radius search records every call it gets.
#include "spoc/affine.h"
#include "spoc/extent.h"
#include "spoc/point.h"
#include "spoc/point_record.h"
#include "spoc/radius_search.h"
#include "spoc/subsampling.h"
#include "spoc/utils.h"
#include "spoc/voxel.h"
namespace vp_driver {
using PD = spoc::point::point<double>;
using PTS = std::vector<PD>;
using PRS = spoc::point_record::point_records;
using IDX = std::vector<size_t>;
inline void points (PD &a, const PD &b, PTS &v, std::vector<uint8_t> &bytes)
{
    using namespace spoc::point;
    bool q = a == b; q = a != b; q = a < b; (void) q;
    a += b; a -= b; a = a + b; a = a - b;
    size_t h = point_hash<double> () (a); (void) h;
    double d = spoc::point::distance (a, b); (void) d;
    bytes = encode_point (a); a = decode_point (bytes);
    bytes = encode_points (v); v = decode_points<double> (bytes);
    auto e = spoc::extent::decode_extent (spoc::extent::encode_extent (spoc::extent::get_extent (v))); (void) e;
}
namespace client
{
template<typename T> void search (const T &p, const IDX &from, const IDX &in, double r, size_t limit, std::vector<IDX> &out, IDX &calls)
{
    spoc::radius_search::radius_search (p, from, in, r, [&] (size_t i, const IDX &n) { out[i] = n; ++calls[i]; }, limit);
}
template<typename T> void search_indexes (const T &p, const IDX &of, double r, size_t limit, std::vector<IDX> &out, IDX &calls)
{
    spoc::radius_search::radius_search_indexes (p, of, r, [&] (size_t i, const IDX &n) { out[i] = n; ++calls[i]; }, limit);
}
template<typename T> void search_all_neighbors (const T &p, const IDX &from, double r, size_t limit, std::vector<IDX> &out, IDX &calls)
{
    spoc::radius_search::radius_search_all_neighbors (p, from, r, [&] (size_t i, const IDX &n) { out[i] = n; ++calls[i]; }, limit);
}
template<typename T> void search_all (const T &p, double r, size_t limit, std::vector<IDX> &out, IDX &calls)
{
    spoc::radius_search::radius_search_all (p, r, [&] (size_t i, const IDX &n) { out[i] = n; ++calls[i]; }, limit);
}
}
template<typename T> void cloud (T &p, const IDX &idx)
{
    using namespace spoc;
    typename T::value_type v;
    affine::add_x (p, 1.0); affine::add_y (p, 1.0); affine::add_z (p, 1.0);
    affine::add (p, v);
    affine::scale_x (p, 1.0); affine::scale_y (p, 1.0); affine::scale_z (p, 1.0);
    affine::rotate_x (p, 1.0); affine::rotate_y (p, 1.0); affine::rotate_z (p, 1.0);
    utils::quantize (p, 1.0);
    v = utils::get_center (p);
    const extent::extent e = extent::get_extent (p);
    p = utils::crop (p, e);
    auto x = voxel::get_voxel_indexes (p, e, 1.0);
    x = voxel::get_voxel_indexes (p, 1.0);
    x = voxel::get_voxel_indexes (p, idx, 1.0);
    auto s = voxel::get_voxel_index_set (x);
    auto m = voxel::get_voxel_index_map (x);
    auto i = subsampling::get_subsample_indexes (p, 1.0, size_t (0));
    i = subsampling::get_unique_xyz_indexes (p, size_t (0));
    p = subsampling::subsample_points (p, 1.0, size_t (0));
    auto n = radius_search::radius_search_get_neighbors (p, 1.0);
    IDX calls;
    client::search (p, idx, idx, 1.0, 1, n, calls);
    client::search_indexes (p, idx, 1.0, 1, n, calls);
    client::search_all_neighbors (p, idx, 1.0, 1, n, calls);
    client::search_all (p, 1.0, 1, n, calls);
}
void all (PTS &a, PRS &b, const IDX &idx) { cloud (a, idx); cloud (b, idx); size_t h = spoc::point_record::point_record_hash () (b[0]); (void) h; }
}
