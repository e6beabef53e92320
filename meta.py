#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vc.props import PROPS
P = []


def p(pid, title, statement, over, qtext, why, files, mech, claim=None, level='proof', note='', na=None):
    P.append(dict(id=pid, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, note=note, level=level, na=na))


IN = ['inputs']
p('C01', 'Uncompressed files read back exactly what was written',
  'Any point cloud whose records all have the same number (0 to 255) of extra fields, written as an uncompressed file and read back, gives the same header data and the same records in the same order, bit for bit, whatever the coordinate and field values. This holds for the uncompressed and for the format-detecting writer and reader, and the reader consumes exactly the bytes that were written.',
  IN, 'every point cloud: any number of records, any values, any number of extra fields from 0 to 255, any spatial reference string up to 65535 bytes',
  'Tests write a few clouds of up to some thousand records with 0 to 8 extra fields; the chunked reader behaves differently for every record size and record count, including sizes larger than its buffer.',
  ['spoc/io.h', 'spoc/header.h', 'spoc/point_record.h', 'spoc/file.h'],
  [('chunked record reader', 'spoc/io.h read_uncompressed_points'), ('record writer', 'spoc/point_record.h write_point_record'), ('header writer and reader', 'spoc/header.h')])
p('C02', 'Compressed files read back exactly what was written',
  'Any point cloud whose records all have the same number (0 to 255) of extra fields, written as a compressed file and read back, gives the same header data and the same records in the same order, bit for bit, including columns that are entirely zero, negative zeros and NaNs. The same holds through the format-detecting writer and reader.',
  IN, 'every point cloud, given that zlib itself is lossless',
  'Tests round-trip random clouds with a handful of sizes; all-zero columns, columns with one non-zero value, sign bits and every extra field position are combinations a sample does not reach.',
  ['spoc/io.h', 'spoc/compression.h', 'spoc/header.h', 'spoc/file.h'],
  [('column split and all-zero elision', 'spoc/io.h write_spoc_file_compressed, compress_field, all_zero'), ('column reader', 'spoc/io.h read_compressed_points, read_compressed')])
p('C03', 'Compression is lossless for buffers and streams of any length',
  'Decompressing what was compressed gives back exactly the original bytes, for every byte sequence of every length, at every compression level, both for memory buffers and for streams. Compressed data that ends early, or that zlib finds corrupt, is reported as an error and never returned as if it were complete.',
  IN, 'every byte sequence, every compression level -1 to 9, every way zlib may split its output over calls',
  'Tests compress three byte sequences of at most some megabytes; the loops depend on where zlib stops relative to the 1 MiB buffers and on the 32-bit counters of zlib.',
  ['spoc/compression.h'],
  [('deflate and inflate loops', 'spoc/compression.h compress, decompress')])
p('C04', 'Files have exactly the documented byte layout',
  'A file starts with the four signature characters, major and minor version bytes, a 16-bit length and that many bytes of spatial reference text, an extra field count byte, a 64-bit record count and a compression flag byte; an uncompressed record is three 64-bit floats, two 32-bit and four 16-bit integers and one 64-bit integer per extra field, with nothing in between. What the writers emit and what the readers accept is this layout and no other.',
  IN, 'every header and every record',
  'The existing tests read back what the same code wrote, so writer and reader could deviate from the documented layout together.',
  ['README.md', 'spoc/header.h', 'spoc/point_record.h', 'spoc/io.h'],
  [('header serialisation', 'spoc/header.h write_header, read_header'), ('record serialisation', 'spoc/point_record.h write_point_record, read_point_record')])
p('C05', 'Foreign, truncated or mismatched input is rejected',
  'Reading a header or a file fails with an error when the signature is wrong, when the version is not the supported one, when the input ends before the header or the announced records are complete, or when the compression flag is not the one the chosen reader handles. It never yields a point cloud made of anything but bytes that were present.',
  IN, 'every input byte sequence',
  'Tests try a few damaged headers and no truncated file; the guarantee is about every prefix and every byte sequence.',
  ['spoc/header.h', 'spoc/io.h', 'spoc/point_record.h'],
  [('signature and version checks', 'spoc/header.h read_header'), ('stream state checks', 'spoc/io.h')])
p('C06', 'Writers refuse what the format cannot represent',
  'Writing fails with an error, before any byte is written, for a spatial reference string longer than 65535 bytes, more than 255 extra fields, a bad signature, or a writer whose mode differs from the compression flag of the cloud. No writer emits a header that contradicts the data that follows it.',
  IN, 'every point cloud and every header',
  'The limits lie far outside what tests write.',
  ['spoc/header.h', 'spoc/file.h', 'spoc/io.h'],
  [('header validity check', 'spoc/header.h write_header, is_valid'), ('extra field limit', 'spoc/file.h get_header')])
p('C07', 'A point cloud object is consistent at all times',
  'After any sequence of constructions, copies, assignments, swaps, moves and edits, all records of a point cloud have the same number of extra fields, and its contents are exactly those the operations prescribe. An operation that would break this fails with an error and leaves the cloud unchanged, and the generated header always describes the current contents.',
  ['histories', 'inputs'], 'every sequence of operations, with every argument',
  'Tests call each operation a few times on small clouds; an invariant has to survive every history, including failing operations.',
  ['spoc/file.h'], [('consistency check', 'spoc/file.h all_same_size_extra'), ('copy and swap', 'spoc/file.h operator=, swap')])
p('C08', 'Column views and zero tests agree with the records',
  'Each column accessor returns, for every record in order, exactly that field and no other, and each all-zero query is true exactly when that field is zero in every record.',
  IN, 'every list of records and every extra field index',
  'Tests look at a few short clouds in which most fields have similar values.',
  ['spoc/point_record.h', 'spoc/file.h'], [('column loops', 'spoc/point_record.h get_*, has_all_zero_*')])
p('C09', 'Equality compares everything and hashing respects it',
  'Points, records and headers compare equal exactly when all their visible fields are equal, inequality is its negation, and the order on points is a strict weak order on numbers. Values that compare equal have equal hash values, so that sets and maps of points and records find them.',
  IN, 'every pair of values, including NaN and signed zeros',
  'Tests compare values that differ in one or two fields; equality has to look at each field for every pair.',
  ['spoc/point.h', 'spoc/point_record.h', 'spoc/header.h', 'spoc/utils.h', 'spoc/voxel.h'],
  [('comparison operators', 'spoc/point.h, spoc/point_record.h, spoc/header.h'), ('hashes', 'spoc/utils.h hash_combine, spoc/point.h point_hash, spoc/point_record.h point_record_hash, spoc/voxel.h voxel_index_hash')])
p('C10', 'Transforming streams every record once, in order',
  'Transforming an uncompressed stream writes the same header followed by exactly one record per input record, in the same order, each being the input record with the requested operations applied in the order given. A compressed or incomplete input, an unknown operation or malformed parameters are errors.',
  IN, 'every input stream and every sequence of operations',
  'Tests apply single operations to small random clouds and mostly check that nothing throws.',
  ['apps/transform/transform.h'], [('streaming loop and command dispatch', 'apps/transform/transform.h apply')])
p('C11', 'Each transform operation changes only what it names',
  'Adding, scaling, rotating, quantizing, setting, copying and replacing change exactly the named coordinate or field to the documented value and leave every other field of the record alone. Naming an extra field the record does not have is an error, and so is copying or replacing a coordinate.',
  IN, 'every record, every field name, every parameter',
  'Tests use few field names and do not look at the fields that should stay the same.',
  ['apps/transform/transform.h'], [('operation factories', 'apps/transform/transform.h get_*_op')])
p('C12', 'Field names and numbers on the command line are parsed strictly',
  'Exactly the documented field names are accepted, an extra field name denotes the index it spells, and consuming a list of names and numbers yields them in order and leaves the rest of the text. Text that does not begin with such a name or number is an error.',
  IN, 'every text', 'Tests try a few names and numbers.',
  ['spoc/app_utils.h'], [('parsers', 'spoc/app_utils.h check_field_name, get_extra_index, consume_*')])
p('C13', 'Every documented command line option takes effect',
  'Each program accepts each option it documents, in any order and number, and records exactly the requested settings and file names; repeated operations of the transform program keep their order. An undocumented option or a surplus argument is an error.',
  ['inputs', 'configurations'], 'every command line', 'No test runs the option parsers with all options.',
  ['apps/*/*_cmd.h', 'spoc/cmd.h'], [('option tables and switches', 'apps/*/*_cmd.h get_args')])
p('C14', 'Filters keep exactly the matching records, in order',
  'Keeping or removing classes, and removing by a coordinate threshold, return exactly those records that satisfy the criterion, unchanged, in their original order, with the same file metadata. Keeping and removing the same classes split the cloud into two complementary parts, and a malformed criterion is an error.',
  IN, 'every cloud, class set and threshold', 'Tests count the results on random clouds.',
  ['apps/filter/filter.h'], [('filter loops', 'apps/filter/filter.h')])
p('C15', 'Tiling partitions the cloud',
  'Every record of a tiled cloud ends up in exactly one tile, and two records share a tile exactly when they fall into the same cell of the grid over the extent. Nothing is lost or duplicated, and the order inside a tile is the original order.',
  IN, 'every cloud with finite coordinates and every tile size for which the grid has fewer than 2^31 rows and columns', 'Tests check a few totals.',
  ['apps/tile/tile.h', 'apps/tile/tile.cpp'], [('grid index', 'apps/tile/tile.h get_tile_indexes'), ('grouping', 'apps/tile/tile.h get_tile_map')])
p('C16', 'Merging appends every record with the right point ID',
  'Appending one cloud to another adds all of its records, in order, after the existing ones, changing nothing but the point ID, which becomes the given number; existing records do not change. Clouds with a different number of extra fields are refused.',
  IN, 'every pair of clouds', 'Tests merge two small clouds.',
  ['apps/merge/merge.h'], [('append loop', 'apps/merge/merge.h append')])
p('C17', 'Comparing files reports every difference',
  'The comparison reports equality exactly when the selected parts, header, data or single fields, are equal in both files, whichever field, record or extra field differs. The reversed mode reports the opposite, and an unknown field is an error.',
  IN, 'every pair of files and every selection', 'Tests change one value in one place.',
  ['apps/diff/diff.h'], [('comparison', 'apps/diff/diff.h diff')])
p('C18', 'Statistics describe the records exactly',
  'The reported record count, per-field minima and maxima and class counts are those of the records: every minimum and maximum is attained and bounds every record, and the class counts add up to the number of records.',
  IN, 'every cloud', 'Tests print statistics of random clouds without checking them.',
  ['apps/info/info.h'], [('accumulation', 'apps/info/info.h')])
p('C19', 'Recentering, minimum subtraction and resizing change only what they should',
  'Recentering subtracts one common offset, the mean, from the chosen coordinates of every record, minimum subtraction subtracts the minimum, and neither changes anything else. Resizing the extra fields keeps the values of the fields that remain, sets new ones to zero, and changes nothing else.',
  IN, 'every cloud', 'Tests call the functions without looking at the result.',
  ['apps/tool/tool.h', 'spoc/file.h'], [('loops', 'apps/tool/tool.h recenter, subtract_min, resize_extra')])
p('C20', 'Getting a field as text and setting it back is exact',
  'Getting a field writes one line per record, in order, with enough digits to restore the exact value; setting a field from such text stores each value in the record of the same position and changes no other field. Setting an extra field the cloud does not have yet adds it; missing or malformed values, and getting a field the cloud does not have, are errors.',
  IN, 'every cloud, every field and every text', 'Tests do not compare the values and use integers only.',
  ['apps/tool/tool.h'], [('text output and input', 'apps/tool/tool.h get_field, set_field')])
p('C21', 'Upsampling classifications only copies classes within a voxel',
  'Upsampling leaves everything but classifications unchanged; a record keeps its classification unless the low resolution cloud has a record in the same voxel, and then gets the classification of the last such record.',
  IN, 'every pair of clouds and every positive resolution for which the voxel numbers of all records of both clouds, relative to the extent of the high resolution cloud, are representable', 'One test uses a single random cloud.',
  ['apps/tool/tool.h', 'spoc/voxel.h'], [('voxel lookup', 'apps/tool/tool.h upsample_classifications')])
p('C22', 'Changing compression or reference system changes nothing else',
  'Compressing, decompressing, and setting the spatial reference system of a file produce a file that differs from the input in nothing but the compression flag or the reference string.',
  IN, 'every input file', 'The integration tests use one sample file.',
  ['apps/compress/compress.cpp', 'apps/decompress/decompress.cpp', 'apps/srs/srs.cpp'], [('main functions', 'apps/compress, apps/decompress, apps/srs')])
p('C23', 'Affine operations transform every point by the documented map',
  'Offsetting, scaling and rotating a cloud applies the documented map to every point exactly once, using the original coordinates on the right hand side, and changes nothing but the coordinates concerned.',
  IN, 'every cloud and every parameter', 'Tests look at a few points.',
  ['spoc/affine.h'], [('parallel loops', 'spoc/affine.h')])
p('C24', 'Parallel loops are free of data races',
  'In every parallel loop or section, no two iterations touch the same object unless both only read it, so the result does not depend on the number of threads or their interleaving.',
  ['schedules'], 'every schedule and every number of threads', 'A test run exercises one schedule.',
  ['spoc/affine.h', 'spoc/io.h', 'spoc/utils.h', 'spoc/voxel.h', 'spoc/radius_search.h'], [('OpenMP pragmas', 'spoc/*.h')])
p('C25', 'Extents are tight bounds',
  'The extent of a cloud contains every point and is attained in every direction, and the total extent of two extents is the smallest that contains both.',
  IN, 'every cloud with numeric coordinates', 'Tests use a few random clouds.',
  ['spoc/extent.h'], [('min/max loop', 'spoc/extent.h get_extent, get_total_extent')])
p('C26', 'Voxel maps partition the points',
  'Every point belongs to exactly one voxel, the one whose cell contains it relative to the minimum of the extent; the voxel map lists every point index exactly once, in increasing order, under its own voxel, and has no empty entries; the voxel set is exactly the set of occupied voxels.',
  IN, 'every cloud with numeric coordinates and every positive resolution', 'Tests use a few grids.',
  ['spoc/voxel.h'], [('voxel index', 'spoc/voxel.h get_voxel_index, get_voxel_indexes'), ('grouping', 'spoc/voxel.h get_voxel_index_map')])
p('C27', 'Subsampling keeps exactly one record per voxel or location',
  'Subsampling returns each input record at most once and exactly one record from every occupied voxel, and removing duplicate locations returns exactly one record for every distinct location. Without a random seed it is always the first one, in input order.',
  IN, 'every cloud, resolution and seed', 'Tests count results on random clouds.',
  ['spoc/subsampling.h', 'apps/filter/filter.h'], [('first-seen loop', 'spoc/subsampling.h')])
p('C28', 'Radius search returns the points within the radius',
  'Every returned neighbor is an eligible point whose distance is at most the radius, no neighbor is listed twice, and at most the allowed number is returned. When the limit is not reached, every eligible point of the 27 surrounding voxels within the radius is listed.',
  ['inputs', 'configurations'], 'every cloud, radius, index subset and limit', 'Tests compare with brute force on random clouds with few points.',
  ['spoc/radius_search.h', 'spoc/voxel.h'], [('sampling without replacement over 27 voxels', 'spoc/radius_search.h random_neighbor_selector, get_neighbors')])
p('C29', 'Cropping, quantizing and centering are exact',
  'Cropping keeps exactly the points inside the closed box, unchanged and in order. Quantizing truncates each coordinate to a multiple of the precision, for coordinates of any size, and rejects precision zero; the center is the mean of the coordinates.',
  IN, 'every cloud, box and precision', 'Tests use a few small clouds.',
  ['spoc/utils.h'], [('loops', 'spoc/utils.h crop, quantize, get_center')])
p('C30', 'Byte encodings of points and extents are invertible',
  'Decoding the encoding of a point, a list of points or an extent gives the same values bit for bit, and the encoding has exactly the size of the data.',
  IN, 'every point, list and extent', 'Tests use a few random values.',
  ['spoc/point.h', 'spoc/extent.h'], [('byte copies', 'spoc/point.h encode_*, decode_*')])
p('C31', 'The Python module exposes the same data and functions',
  'Each attribute and function of the Python module reads, writes or calls exactly the corresponding field or function of the library.',
  IN, 'every object', 'Python tests look at a few attributes.',
  ['spocpy/spocpy/spocpy.cpp'], [('binding table', 'spocpy/spocpy/spocpy.cpp')],
  na='the bindings are pybind11 template metaprogramming over CPython; no deductive verifier here handles the C API of the interpreter, and a table comparison would be a test, not a contract proof')
p('C32', 'Integer rescaling of coordinates is invertible within its resolution',
  'Mapping coordinates to 64-bit integers over an extent and back restores each coordinate to within the resolution of a double over that extent.',
  IN, 'every extent and every point inside it', 'Tests use random points in a few extents.',
  ['spoc/extent.h'], [('rescale and restore', 'spoc/extent.h rescale, restore')],
  na='the statement is a floating-point error bound over double and uint64 conversions; floating-point operations are uninterpreted apart from order facts in this verifier, and no available back end decides nonlinear IEEE error bounds over unbounded inputs')

NOTES = {}


def main():
    with open('properties.jsonl', 'w') as f:
        for x in P:
            f.write(json.dumps(dict(id=x['id'], title=x['title'], statement=x['statement'], quantifier=dict(over=x['over'], text=x['qtext']), why_tests_cant=x['why'], anchors=dict(files=x['files'], mechanism=[dict(name=a, where=b) for a, b in x['mech']]))) + '\n')
    checks, na = [], []
    for x in P:
        if x['id'] in PROPS:
            pr = PROPS[x['id']]
            checks.append(dict(property=x['id'], quick_cmd='python3-vt -m vc.check %s --quick' % x['id'], thorough_cmd='python3-vt -m vc.check %s --thorough' % x['id'],
                               technique='contract-based deductive verification of the real code (clang AST, VC generator, Z3), with execution of the real code as counterexample replay',
                               level=pr.get('level', 'proof'), level_note=pr.get('note') or (pr['explanation'] if pr.get('level', 'proof') != 'proof' else None) or 'Every obligation generated from the current source is discharged by Z3 for all inputs, without bounds. Trusted: clang front end, the VC generator in vc/, Z3, and the assumed contracts of the C++ library that the evidence lists; doubles are bit patterns with uninterpreted arithmetic and IEEE order facts.'))
        else:
            na.append(dict(property=x['id'], reason=x['na'] or 'its check is not finished yet'))
    json.dump(dict(version=1, setup_cmd='python3-vt -c "from vc import check; check.build_extractor()"', checks=checks, not_applicable=na,
                   notes='Design, assumptions and findings: DESIGN.md. Fixed defects of the code under test: known_findings.txt.'), open('MANIFEST.json', 'w'), indent=1)


main()
