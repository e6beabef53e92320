// Verification driver: makes clang instantiate the library's format and data
// structure code.  It only calls public functions; it has no logic of its own.
#include "spoc/compression.h"
#include "spoc/file.h"
#include "spoc/header.h"
#include "spoc/io.h"
#include "spoc/point.h"
#include "spoc/point_record.h"
namespace vp_driver {
void io (std::istream &is, std::ostream &os, spoc::file::spoc_file &f)
{
    spoc::io::write_spoc_file (os, f);
    f = spoc::io::read_spoc_file (is);
}
}
