// runs a program's main function on redirected standard streams
#pragma once
#include "vpspoc.h"
#include <filesystem>
#include <getopt.h>
namespace vp
{
struct result { int ret; std::string out, err; };
template<class F> result run (F main_, const std::vector<std::string> &args, const std::string &in = std::string ())
{
    std::vector<std::string> a {"prog"}; a.insert (a.end (), args.begin (), args.end ());
    std::vector<char *> v; for (auto &s : a) v.push_back (&s[0]);
    v.push_back (nullptr);
    std::istringstream is (in); std::ostringstream os, es;
    auto *ci = std::cin.rdbuf (is.rdbuf ()), *co = std::cout.rdbuf (os.rdbuf ()), *ce = std::cerr.rdbuf (es.rdbuf ());
    std::cin.clear (); std::cout.clear (); std::cerr.clear ();
    std::ios plain (nullptr); std::cout.copyfmt (plain);
    optind = 0; opterr = 0;
    const int r = main_ (int (a.size ()), v.data ());
    std::cin.rdbuf (ci); std::cout.rdbuf (co); std::cerr.rdbuf (ce); std::cin.clear (); std::cout.clear ();
    return {r, os.str (), es.str ()};
}
inline std::string scratch () { static std::string d = env_s ("VP_SCRATCH", "/tmp"); return d; }
inline void put (const std::string &fn, const std::string &s) { std::ofstream f (fn, std::ios::binary); f << s; }
inline std::string get (const std::string &fn) { std::ifstream f (fn, std::ios::binary); std::stringstream s; s << f.rdbuf (); return s.str (); }
inline std::string save (const SF &f) { std::stringstream s; spoc::io::write_spoc_file (s, f); return s.str (); }
inline SF load (const std::string &b) { std::stringstream s (b); return spoc::io::read_spoc_file (s); }
inline SF cloud (size_t mx, bool finite = false, size_t maxextra = 255)
{
    const size_t ne = std::min (extras (), maxextra); const PRS v = records (coin (4) ? size (mx) : below (40), ne, finite);
    return SF (coin () ? "" : wkt (), coin (), v);
}
inline std::string show (const SF &f) { return (f.get_compressed () ? "compressed, wkt of " : "uncompressed, wkt of ") + std::to_string (f.get_wkt ().size ()) + " bytes, " + show (f.get_point_records ()); }
}
