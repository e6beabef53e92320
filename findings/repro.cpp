// Reproduces each defect recorded in /verif/known_findings.txt against the
// real code.  Prints "DEFECT <n>" for each that shows, nothing otherwise.
#include "spoc/spoc.h"
#include "spoc/app_utils.h"
#include "spoc/cmd.h"
#include "apps/transform/transform.h"
#include "apps/transform/transform_cmd.h"
#include "apps/tool/tool.h"
#include <sstream>
#include <csignal>
#include <sys/wait.h>
#include <unistd.h>
using namespace spoc;
using PR = point_record::point_record;
static PR rec (size_t ne) { PR p; p.x = 1; p.y = 2; p.z = 3; p.c = 4; p.p = 5; p.i = 6; p.r = 7; p.g = 8; p.b = 9; p.extra.resize (ne, 7); return p; }
template<class F> bool throws (F f) { try { f (); } catch (const std::exception &) { return true; } return false; }
// run in a child with an alarm; true if the child returned true in time
template<class F> bool child (F f)
{
    pid_t k = fork ();
    if (k == 0) { alarm (5); bool ok = false; try { ok = f (); } catch (...) { ok = false; } _exit (ok ? 0 : 1); }
    int st = 0; waitpid (k, &st, 0);
    return WIFEXITED (st) && WEXITSTATUS (st) == 0;
}
static void defect (int n, const char *s) { std::cout << "DEFECT " << n << " " << s << std::endl; }
int main ()
{
    // 1: many extra fields, uncompressed
    if (!child ([] {
        file::spoc_file f ("w", false, {rec (124), rec (124)});
        std::stringstream s; io::write_spoc_file (s, f); auto g = io::read_spoc_file (s);
        return g.get_point_records () == f.get_point_records (); }))
        defect (1, "124 extra fields do not read back");
    // 2
    { file::spoc_file f ("w", false, {rec (256)}); if (!throws ([&] { f.get_header (); })) defect (2, "256 extra fields wrap to 0 in the header"); }
    // 3
    { file::spoc_file f ("w", false, {rec (1), rec (1), rec (1)}); std::stringstream s; io::write_spoc_file (s, f);
      auto t = s.str (); t.resize (t.size () - 10); std::istringstream i (t);
      if (!throws ([&] { io::read_spoc_file (i); })) defect (3, "truncated uncompressed file accepted");
      std::istringstream e (t.substr (0, 9)); if (!throws ([&] { header::read_header (e); })) defect (3, "truncated header accepted"); }
    { file::spoc_file f ("w", true, {PR (), PR ()}); std::stringstream s; io::write_spoc_file (s, f);
      auto t = s.str (); t.resize (t.size () - 30); std::istringstream i (t);
      if (!throws ([&] { io::read_spoc_file (i); })) defect (3, "truncated compressed file accepted"); }
    { std::istringstream e (std::string (5, 'x')); if (!throws ([&] { point_record::read_point_record (e, 1); })) defect (3, "truncated record accepted"); }
    // 4
    { auto op = transform_app::get_replace_not_op ("p", {1, 9}, 0); auto q = op (rec (0)); auto w = rec (0); w.p = 9; if (!(q == w)) defect (4, "replace-not on p"); }
    { auto op = transform_app::get_replace_not_op ("e0", {1, 0xFFFFFFFFu}, 1); auto q = op (rec (1)); if (q.extra[0] != 0xFFFFFFFFu) defect (4, "replace-not sign extension"); }
    // 5
    for (std::string n : {"gaussian-noise", "gaussian-noise-x", "gaussian-noise-y", "gaussian-noise-z", "uniform-noise", "uniform-noise-x", "uniform-noise-y", "uniform-noise-z"})
    { std::string a0 = "x", a1 = "--" + n + "=1"; char *av[] = {&a0[0], &a1[0], nullptr}; optind = 0;
      std::clog.setstate (std::ios::failbit);
      if (throws ([&] { auto a = transform_cmd::get_args (2, av, ""); if (a.commands.size () != 1 || a.commands[0].name != n) throw std::runtime_error (""); })) defect (5, n.c_str ()); }
    // 6
    { file::spoc_file f ("w", false, {rec (1)}); std::ostringstream s;
      if (!child ([&] { return throws ([&] { tool_app::get_field (f, s, "e1"); }); })) defect (6, "get-field on a missing extra field is not an error"); }
    // 7
    { file::spoc_file f ("w", false, {rec (1), rec (1)}); std::istringstream s ("5\n6");
      if (throws ([&] { tool_app::set_field (f, s, "c"); })) defect (7, "set-field rejects a last line without newline");
      std::istringstream t ("5\nabc\n"); if (!throws ([&] { tool_app::set_field (f, t, "c"); })) defect (7, "set-field accepts a malformed value"); }
    // 8
    { auto p = rec (0); p.x = 0.1 + 0.2; file::spoc_file f ("w", false, {p}); std::ostringstream s; tool_app::get_field (f, s, "x");
      if (std::stod (s.str ()) != p.x) defect (8, "get-field x does not read back"); }
    // 9
    { auto p = rec (0); p.x = 4e6; auto q = transform_app::get_quantize_op (0.001) (p); if (std::fabs (q.x - 4e6) > 0.001) defect (9, "quantize op overflows");
      std::vector<PR> v {p}; utils::quantize (v, 0.001); if (std::fabs (v[0].x - 4e6) > 0.001) defect (9, "utils::quantize overflows"); }
    // 10
    { auto p = rec (0); p.x = -0.0; file::spoc_file f ("w", true, {p, p}); std::stringstream s; io::write_spoc_file (s, f); auto g = io::read_spoc_file (s);
      if (!std::signbit (g.get_point_records ()[0].x)) defect (10, "sign of -0.0 lost in a compressed file"); }
    // 12
    { header::header h; h.wkt.resize (70000); std::ostringstream s; if (!throws ([&] { header::write_header (s, h); })) defect (12, "header with 70000 byte WKT written malformed"); }
    { file::spoc_file f ("w", true, {rec (0)}); f.set_wkt (std::string (70000, 'a')); std::ostringstream s; if (!throws ([&] { io::write_spoc_file (s, f); })) defect (12, "file"); }
    return 0;
}
