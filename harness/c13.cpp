#include "vpapp.h"
#include "apps/compress/compress_cmd.h"
#include "apps/decompress/decompress_cmd.h"
#include "apps/diff/diff_cmd.h"
#include "apps/filter/filter_cmd.h"
#include "apps/info/info_cmd.h"
#include "apps/merge/merge_cmd.h"
#include "apps/srs/srs_cmd.h"
#include "apps/tile/tile_cmd.h"
#include "apps/tool/tool_cmd.h"
#include "apps/transform/transform_cmd.h"
using namespace vp;
enum kind { NONE, INT, NAT, REAL, TEXT };
struct opt { std::string name; char sh; kind k; };
struct use { std::string name, arg; };
struct line { std::vector<std::string> argv, pos; std::vector<use> uses; std::string text; };
static std::string value (kind k)
{
    switch (k) { case INT: return std::to_string (int (integer<uint32_t> ())); case NAT: return std::to_string (below (2000000000)); case REAL: { std::ostringstream o; o.precision (17); o << (coin () ? -1 : 1) * (coin () ? 0.125 * below (1000) : coord ()); return o.str (); }
        default: switch (below (5)) { case 0: return "-x"; case 1: return "a b\tc"; case 2: return "--field"; case 3: return "=1"; default: { std::string s = str (1 + below (6), true); return s; } } }
}
static line make (const std::vector<opt> &opts, size_t npos, size_t nopt)
{
    line l; std::vector<std::vector<std::string>> groups; std::vector<size_t> order;
    for (size_t k = 0; k < nopt; ++k)
    {
        const opt &o = opts[below (opts.size ())]; use u {o.name, o.k == NONE ? "" : value (o.k)}; std::vector<std::string> g; const bool sh = o.sh && coin ();
        if (o.k == NONE) g = {sh ? std::string ("-") + o.sh : "--" + o.name};
        else if (coin ()) { if (sh && u.arg.empty ()) g = {std::string ("-") + o.sh, u.arg}; else g = {sh ? std::string ("-") + o.sh + u.arg : "--" + o.name + "=" + u.arg}; }
        else g = {sh ? std::string ("-") + o.sh : "--" + o.name, u.arg};
        // bundled short flags
        if (o.k == NONE && sh && !groups.empty () && coin () && groups.back ().size () == 1 && groups.back ()[0].size () >= 2 && groups.back ()[0][0] == '-' && groups.back ()[0][1] != '-' && groups.back ()[0].find_first_not_of ("-") != std::string::npos)
        {
            bool flags = true; for (size_t c = 1; c < groups.back ()[0].size (); ++c) { bool is = false; for (auto &q : opts) is |= q.sh == groups.back ()[0][c] && q.k == NONE; flags &= is; }
            if (flags && !l.uses.empty ()) { groups.back ()[0] += o.sh; l.uses.push_back (u); continue; }
        }
        groups.push_back (g); l.uses.push_back (u);
    }
    for (size_t k = 0; k < npos; ++k) { std::string f = "file" + std::to_string (below (100)); l.pos.push_back (f); }
    size_t gi = 0, pi = 0; while (gi < groups.size () || pi < l.pos.size ()) { if (pi < l.pos.size () && (gi == groups.size () || coin ())) l.argv.push_back (l.pos[pi++]); else { for (auto &s : groups[gi]) l.argv.push_back (s); ++gi; } }
    for (auto &s : l.argv) l.text += " '" + s + "'";
    return l;
}
template<class F> auto parse (F f, const std::vector<std::string> &args, bool &threw)
{
    static std::vector<std::string> keep; keep = {"prog"}; keep.insert (keep.end (), args.begin (), args.end ()); std::vector<char *> v; for (auto &s : keep) v.push_back (&s[0]); v.push_back (nullptr);
    optind = 0; opterr = 0; threw = false; decltype (f (1, v.data (), std::string ("prog"))) r;
    try { r = f (int (keep.size ()), v.data (), std::string ("prog")); } catch (const std::exception &) { threw = true; }
    return r;
}
// a documented program: its options, how many file names it takes, the settings that a line asks for
template<class A, class F, class W, class C> void program (const std::string &name, F f, std::vector<opt> opts, size_t lo, size_t hi, W want, C cmp, size_t maxopt = 7)
{
    opts.push_back ({"verbose", 'v', NONE}); opts.push_back ({"version", 'e', NONE});
    const size_t np = lo + below (hi - lo + 1); line l = make (opts, np, below (maxopt + 1)); bool threw;
    begin (name + l.text); A got = parse (f, l.argv, threw); A w; const bool bad = !want (w, l);
    for (auto &u : l.uses) { if (u.name == "verbose") w.verbose = true; if (u.name == "version") w.version = true; }
    CHECK (threw == bad, (threw ? "refused" : "accepted")); if (bad) return;
    CHECK (got.verbose == w.verbose && got.version == w.version && !got.help, "verbose, version or help"); cmp (got, w);
    // undocumented options, missing arguments, surplus file names, help
    if (coin (4)) { auto a = l.argv; a.insert (a.begin (), coin () ? "--no-such-option" : "-Z"); begin (name + " with an unknown option"); parse (f, a, threw); CHECK (threw, "accepted"); }
    if (coin (4)) for (auto &o : opts) if (o.k != NONE) { begin (name + " --" + o.name + " without its argument"); parse (f, {"--" + o.name}, threw); CHECK (threw, "accepted"); }
    if (coin (4)) { begin (name + " --help"); std::vector<std::string> a {coin () ? "--help" : "-h"}; for (size_t k = 0; k < lo; ++k) a.push_back ("f"); A h = parse (f, a, threw); CHECK (!threw && h.help, "help"); }
    if (coin (4) && hi < 3) { begin (name + " with too many file names"); std::vector<std::string> a (hi + 1 + below (2), "f"); parse (f, a, threw); CHECK (threw, "accepted"); }
    if (coin (4) && lo > 0) { begin (name + " with too few file names"); std::vector<std::string> a (below (lo), "f"); parse (f, a, threw); CHECK (threw, "accepted"); }
}
#define SAME(m) CHECK (got.m == w.m, "setting " #m)
static auto inout = [] (auto &w, const line &l) { if (l.pos.size () > 0) w.input_fn = l.pos[0]; if (l.pos.size () > 1) w.output_fn = l.pos[1]; };
struct nullbuf : std::streambuf { int overflow (int c) override { return c == EOF ? 0 : c; } };
int main ()
{
    init (); std::clog.rdbuf (new nullbuf); std::clog.clear ();
    for (unsigned long n = 0; more (n, 1500); ++n)
    {
        program<spoc::compress_cmd::args> ("compress", spoc::compress_cmd::get_args, {}, 0, 2, [] (auto &w, const line &l) { inout (w, l); return true; }, [] (auto &got, auto &w) { SAME (input_fn); SAME (output_fn); });
        program<spoc::decompress_cmd::args> ("decompress", spoc::decompress_cmd::get_args, {}, 0, 2, [] (auto &w, const line &l) { inout (w, l); return true; }, [] (auto &got, auto &w) { SAME (input_fn); SAME (output_fn); });
        program<spoc::diff_cmd::args> ("diff", spoc::diff_cmd::get_args, {{"header-only", 'a', NONE}, {"data-only", 'd', NONE}, {"field", 'f', TEXT}, {"reverse", 'r', NONE}}, 2, 2,
            [] (auto &w, const line &l) { w.fn1 = l.pos[0]; w.fn2 = l.pos[1]; for (auto &u : l.uses) { if (u.name == "header-only") w.header_only = true; if (u.name == "data-only") w.data_only = true; if (u.name == "reverse") w.reverse = true; if (u.name == "field") for (char c : u.arg) w.fields.push_back (c); } return true; },
            [] (auto &got, auto &w) { SAME (header_only); SAME (data_only); SAME (fields); SAME (reverse); SAME (fn1); SAME (fn2); });
        program<spoc::filter_cmd::args> ("filter", spoc::filter_cmd::get_args, {{"keep-class", 'k', INT}, {"random-seed", 'a', NAT}, {"remove-class", 'r', INT}, {"unique-xyz", 'u', NONE}, {"subsample", 's', REAL}, {"remove-coords", 'c', TEXT}}, 0, 2,
            [] (auto &w, const line &l) { inout (w, l); for (auto &u : l.uses) { if (u.name == "keep-class") w.keep_classes.insert (std::stoi (u.arg)); if (u.name == "remove-class") w.remove_classes.insert (std::stoi (u.arg)); if (u.name == "random-seed") w.random_seed = std::stoul (u.arg); if (u.name == "unique-xyz") w.unique_xyz = true; if (u.name == "subsample") w.subsample = std::stod (u.arg); if (u.name == "remove-coords") w.remove_coords = u.arg; } return true; },
            [] (auto &got, auto &w) { SAME (keep_classes); SAME (remove_classes); SAME (random_seed); SAME (unique_xyz); SAME (subsample); SAME (remove_coords); SAME (input_fn); SAME (output_fn); });
        program<spoc::info_cmd::args> ("info", spoc::info_cmd::get_args, {{"json", 'j', NONE}, {"header-info", 'a', NONE}, {"summary-info", 's', NONE}, {"classification-info", 'l', NONE}, {"metric-info", 'm', NONE}, {"compact", 'c', NONE}, {"quartiles", 'q', NONE}}, 0, 5,
            [] (auto &w, const line &l) { w.json = false; w.header_info = w.summary_info = w.classification_info = w.metric_info = w.compact = true; w.quartiles = false; w.fns = l.pos; auto t = [] (bool &b) { b = !b; }; for (auto &u : l.uses) { if (u.name == "json") t (w.json); if (u.name == "header-info") t (w.header_info); if (u.name == "summary-info") t (w.summary_info); if (u.name == "classification-info") t (w.classification_info); if (u.name == "metric-info") t (w.metric_info); if (u.name == "compact") t (w.compact); if (u.name == "quartiles") t (w.quartiles); } return true; },
            [] (auto &got, auto &w) { SAME (json); SAME (header_info); SAME (summary_info); SAME (classification_info); SAME (metric_info); SAME (compact); SAME (quartiles); SAME (fns); });
        program<spoc::merge_cmd::args> ("merge", spoc::merge_cmd::get_args, {{"quiet", 'q', NONE}, {"point-id", 'p', INT}}, 0, 6,
            [] (auto &w, const line &l) { w.quiet = false; w.point_id = -1; w.fns = l.pos; for (auto &u : l.uses) { if (u.name == "quiet") w.quiet = !w.quiet; if (u.name == "point-id") w.point_id = std::stoi (u.arg); } return true; },
            [] (auto &got, auto &w) { SAME (quiet); SAME (point_id); SAME (fns); });
        program<spoc::srs_cmd::args> ("srs", spoc::srs_cmd::get_args, {{"srs", 's', TEXT}}, 0, 4,
            [] (auto &w, const line &l) { w.fns = l.pos; for (auto &u : l.uses) if (u.name == "srs") { w.srs = u.arg; w.set_srs = true; } return true; },
            [] (auto &got, auto &w) { SAME (srs); SAME (set_srs); SAME (fns); });
        program<spoc::tile_cmd::args> ("tile", spoc::tile_cmd::get_args, {{"force", 'f', NONE}, {"tiles", 't', NAT}, {"digits", 'd', NAT}, {"tile-size", 's', REAL}, {"tile-size-x", 'x', REAL}, {"tile-size-y", 'y', REAL}, {"prefix", 'p', TEXT}}, 0, 1,
            [] (auto &w, const line &l) { w.force = false; w.tiles = 2; w.digits = 3; w.tile_size = w.tile_size_x = w.tile_size_y = -1; if (!l.pos.empty ()) w.fn = l.pos[0]; for (auto &u : l.uses) { if (u.name == "force") w.force = true; if (u.name == "tiles") w.tiles = std::stoul (u.arg); if (u.name == "digits") w.digits = std::stoul (u.arg); if (u.name == "tile-size") w.tile_size = std::stod (u.arg); if (u.name == "tile-size-x") w.tile_size_x = std::stod (u.arg); if (u.name == "tile-size-y") w.tile_size_y = std::stod (u.arg); if (u.name == "prefix") w.prefix = u.arg; } return true; },
            [] (auto &got, auto &w) { SAME (force); SAME (tiles); SAME (digits); SAME (tile_size); SAME (tile_size_x); SAME (tile_size_y); SAME (prefix); SAME (fn); });
        {
            std::vector<opt> o {{"get-field", 'g', TEXT}, {"recenter-xy", 0, NONE}, {"recenter-xyz", 0, NONE}, {"resize-extra", 0, INT}, {"set-field", 's', TEXT}, {"subtract-min-xy", 0, NONE}, {"subtract-min-xyz", 0, NONE}, {"upsample-classifications", 0, TEXT}};
            std::vector<opt> use1; for (size_t k = 1 + below (2); k; --k) use1.push_back (o[below (o.size ())]); if (coin (3)) use1 = o;
            use1.push_back ({"field-filename", 'f', TEXT}); use1.push_back ({"resolution", 0, REAL});
            program<spoc::tool_cmd::args> ("tool", spoc::tool_cmd::get_args, use1, 0, 2,
                [] (auto &w, const line &l) { inout (w, l); size_t nc = 0; w.resolution = 0; for (auto &u : l.uses) { if (u.name == "field-filename") w.field_fn = u.arg; else if (u.name == "resolution") w.resolution = std::stod (u.arg); else if (u.name != "verbose" && u.name != "version") { ++nc; w.command.name = u.name; w.command.params = u.arg; } } return nc <= 1; },
                [] (auto &got, auto &w) { CHECK (got.command.name == w.command.name && got.command.params == w.command.params, "command '" << got.command.name << "' with '" << got.command.params << "'"); SAME (resolution); SAME (field_fn); SAME (input_fn); SAME (output_fn); }, 5);
        }
        {
            std::vector<opt> o {{"random-seed", 'a', NAT}}; for (auto s : {"add-x", "add-y", "add-z", "copy-field", "gaussian-noise", "gaussian-noise-x", "gaussian-noise-y", "gaussian-noise-z", "quantize-xyz", "replace", "replace-not", "rotate-x", "rotate-y", "rotate-z", "scale-x", "scale-y", "scale-z", "set", "uniform-noise", "uniform-noise-x", "uniform-noise-y", "uniform-noise-z"}) o.push_back ({s, 0, TEXT});
            program<spoc::transform_cmd::args> ("transform", spoc::transform_cmd::get_args, o, 0, 2,
                [] (auto &w, const line &l) { inout (w, l); w.random_seed = 0; for (auto &u : l.uses) { if (u.name == "random-seed") w.random_seed = std::stoul (u.arg); else if (u.name != "verbose" && u.name != "version") w.commands.push_back ({u.name, u.arg}); } return true; },
                [] (auto &got, auto &w) { CHECK (got.commands.size () == w.commands.size (), "number of commands"); for (size_t k = 0; k < w.commands.size (); ++k) CHECK (got.commands[k].name == w.commands[k].name && got.commands[k].params == w.commands[k].params, "command " << k << " is '" << got.commands[k].name << "' with '" << got.commands[k].params << "'"); SAME (random_seed); SAME (input_fn); SAME (output_fn); }, 12);
        }
    }
    finish ();
}
