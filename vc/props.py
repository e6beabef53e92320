"""Which functions' contracts decide which property."""
MODULES = ['lib_data', 'lib_data2']

PR, FL, HD, IO, PT, AF, EX, UT = 'spoc::point_record::', 'spoc::file::', 'spoc::header::', 'spoc::io::', 'spoc::point::', 'spoc::affine::', 'spoc::extent::', 'spoc::utils::'
SF = FL + 'spoc_file::'
PROPS = {}


def prop(pid, title, roots, harness=None, **kw):
    PROPS[pid] = dict(title=title, roots=roots, harness=harness, **kw)


def q(tu, pre, names):
    return [(tu, pre + n) for n in names.split()]


prop('C07', 'A point cloud object is consistent at all times', q('io', SF, 'spoc_file clone_empty is_valid get_major_version get_minor_version get_wkt get_compressed get_point_records get_point_record get_extra_fields get_header set_wkt set_compressed push_back resize_extra_fields swap operator= set_point_record set_point_records move_point_records') + q('io', FL, 'all_same_size_extra'), 'c07.cpp')
prop('C08', 'Column views agree with the records', q('io', SF, 'get_x get_y get_z get_c get_p get_i get_r get_g get_b get_extra') + q('io', PR, 'get_x get_y get_z get_c get_p get_i get_r get_g get_b get_extra get_extra_fields_size has_all_zero_c has_all_zero_p has_all_zero_i has_all_zero_r has_all_zero_g has_all_zero_b has_all_zero_rgb has_all_zero_extra'), 'c08.cpp')
prop('C23', 'Affine operations transform every point by the documented map', q('geo', AF, 'add_x add_y add_z add rotate_x rotate_y rotate_z scale_x scale_y scale_z'), 'c23.cpp')
prop('C25', 'Extents are tight bounds', q('geo', EX, 'get_extent get_total_extent all_less_equal get_volume get_area operator=='), 'c25.cpp')
prop('C29', 'Crop, quantize and center', q('geo', UT, 'crop quantize get_center'), 'c29.cpp')
MODULES += ['lib_io', 'apps', 'lib_geo', 'apps2', 'lib_zio', 'lib_rs', 'lib_enc', 'apps3', 'mains']
TR, AU, FA, MA = 'spoc::transform_app::', 'spoc::app_utils::', 'spoc::filter_app::', 'spoc::merge_app::'
VX, SS = 'spoc::voxel::', 'spoc::subsampling::'
HDR = q('io', HD, 'write_header read_header')
REC = q('io', PR, 'write_point_record read_point_record')
RUP = q('io', IO, 'read_uncompressed_points')
ZF = q('io', IO, 'all_zero compress_field write_compressed read_compressed read_compressed_points') + q('io', 'spoc::compression::', 'decompress')
WU, WC, WA = [q('io', IO, 'write_spoc_file' + s) for s in ('_uncompressed', '_compressed', '')]
RU, RC, RA = [q('io', IO, 'read_spoc_file' + s) for s in ('_uncompressed', '_compressed', '')]


def RT(kind):
    return [('io', 'lemma:roundtrip (%s%s)' % (kind, v)) for v in ('', ', either reader', ', either writer', ', either writer and reader')]


def bounded(pid, title, what, roots=[], **kw):
    prop(pid, title, roots, pid.lower() + '.cpp', level='other', explanation=what, bounded=[what], **kw)


BND = 'The contracts above the proved functions are not discharged yet; the rest of the property is decided by executing the real code on generated inputs against an independent specification (bounded, not proved).'
prop('C01', 'Uncompressed files read back exactly what was written', HDR + REC + RUP + WU + RU + WA + RA + RT('uncompressed'), 'c01.cpp')
prop('C02', 'Compressed files read back exactly what was written', HDR + ZF + WC + RC + WA + RA + RT('compressed'), 'c02.cpp')
bounded('C03', 'Compression is lossless for buffers and streams of any length', BND)
prop('C04', 'Files have exactly the documented byte layout', HDR + REC + RUP + ZF + WU + WC + WA + RU + RC + RA, 'c04.cpp')
prop('C05', 'Foreign, truncated or mismatched input is rejected', HDR + REC + RUP + ZF + RU + RC + RA, 'c05.cpp')
prop('C06', 'Writers refuse what the format cannot represent', HDR + REC + WU + WC + WA + q('io', SF, 'get_header'), 'c06.cpp')
prop('C09', 'Equality compares everything and hashing respects it', q('geo', PT, 'operator== operator!= operator<') + q('geo', PR + 'point_record::', 'operator== operator!=') + q('io', HD, 'operator== operator!=') + [('geo', VX + 'voxel_index::operator=='), ('geo', EX + 'operator==')] + q('geo', 'lemma:', 'voxel-hash point-hash record-hash point-order'), 'c09.cpp')
bounded('C10', 'Transforming streams every record once, in order', BND, [('transform', HD + 'read_header'), ('transform', HD + 'write_header'), ('transform', PR + 'read_point_record'), ('transform', PR + 'write_point_record')])
prop('C11', 'Each transform operation changes only what it names', q('transform', TR, 'get_add_x_op get_add_y_op get_add_z_op get_scale_x_op get_scale_y_op get_scale_z_op get_rotate_x_op get_rotate_y_op get_rotate_z_op get_quantize_op get_copy_field_op get_replace_op get_replace_not_op get_set_op get_gaussian_noise_op get_uniform_noise_op'), 'c11.cpp')
bounded('C12', 'Field names and numbers on the command line are parsed strictly', BND, q('transform', AU, 'is_extra_field get_extra_index check_field_name consume_field_name consume_int consume_double'))
bounded('C13', 'Every documented command line option takes effect', BND)
prop('C14', 'Filters keep exactly the matching records, in order', q('filter', FA, 'keep_classes remove_classes detail::split remove_coords'), 'c14.cpp')
bounded('C15', 'Tiling partitions the cloud', 'Tile indexes and the tile map are proved; the program that writes the tiles is executed on generated clouds (bounded).', q('tile', 'spoc::tile_app::', 'get_tile_size get_tile_indexes get_tile_map') + q('tile', 'spoc::extent::', 'get_extent'))
bounded('C16', 'Merging appends every record with the right point ID', BND, q('merge', MA, 'append'))
prop('C17', 'Comparing files reports every difference', q('diff', 'spoc::diff_app::', 'diff') + q('diff', SF, 'get_header') + q('diff', PR, 'get_x get_y get_z get_c get_p get_i get_r get_g get_b get_extra get_extra_fields_size'), 'c17.cpp')
bounded('C18', 'Statistics describe the records exactly', BND)
prop('C22', 'Changing compression or reference system changes nothing else', [('compress', 'main'), ('decompress', 'main'), ('srs', 'main')] + q('io', SF, 'set_wkt set_compressed'), 'c22.cpp')
VOX = q('geo', VX, 'get_voxel_index get_voxel_indexes voxel_index::operator== voxel_index::voxel_index') + [('geo', 'lemma:voxel-hash')]
prop('C26', 'Voxel maps partition the points', VOX + q('geo', VX, 'get_voxel_index_set get_voxel_index_map'), 'c26.cpp')
prop('C27', 'Subsampling keeps exactly one record per voxel or location', VOX + q('geo', SS, 'get_subsample_indexes get_unique_xyz_indexes subsample_points') + q('filter', FA, 'unique_xyz subsample_file') + [('geo', PT + 'operator=='), ('geo', 'lemma:point-hash')], 'c27.cpp')
TL = 'spoc::tool_app::'
AUP = q('tool', AU, 'is_extra_field get_extra_index check_field_name')
prop('C19', 'Recentering, minimum subtraction and resizing change only what they should', q('tool', TL, 'recenter subtract_min resize_extra') + q('tool', SF, 'resize_extra_fields is_valid'), 'c19.cpp')
prop('C20', 'Getting a field as text and setting it back is exact', q('tool', TL, 'get_field set_field') + AUP, 'c20.cpp')
prop('C21', 'Upsampling classifications only copies classes within a voxel', q('tool', TL, 'upsample_classifications') + q('tool', VX, 'get_voxel_index get_voxel_indexes voxel_index::operator== get_voxel_index_map'), 'c21.cpp')
RS = q('geo', 'spoc::radius_search::', 'random_neighbor_selector::random_neighbor_selector random_neighbor_selector::get_total_points_left random_neighbor_selector::operator() get_neighbors radius_search_get_neighbors') + q('geo', 'vp_driver::client::', 'search search_indexes search_all_neighbors search_all')
prop('C28', 'Radius search returns the points within the radius', RS + q('geo', PT, 'distance') + VOX + q('geo', VX, 'get_voxel_index_map'), 'c28.cpp')
PAR = q('geo', AF, 'add_x add_y add_z add rotate_x rotate_y rotate_z scale_x scale_y scale_z') + q('geo', UT, 'quantize') + q('geo', VX, 'get_voxel_indexes') + q('io', IO, 'read_compressed_points write_spoc_file_compressed')
prop('C24', 'Parallel loops are free of data races', PAR + q('geo', 'spoc::radius_search::', 'get_neighbors radius_search_get_neighbors') + q('geo', 'vp_driver::client::', 'search search_indexes search_all_neighbors search_all'), 'c24.cpp')
prop('C30', 'Byte encodings of points and extents are invertible', q('geo', PT, 'append_double encode_point decode_point encode_points decode_points') + q('geo', EX, 'encode_extent decode_extent') + [('geo', 'lemma:encode-decode')], 'c30.cpp')
