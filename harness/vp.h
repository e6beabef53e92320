// Shared support of the replay harnesses: they execute the real code of /repo
// on generated inputs against the same specification that the contracts state.
#pragma once
#include <algorithm>
#include <cmath>
#include <csignal>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <limits>
#include <map>
#include <random>
#include <set>
#include <sstream>
#include <string>
#include <vector>
#include <chrono>
#include <sys/types.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <unistd.h>

namespace vp
{
inline std::string &desc () { static std::string d; return d; }
inline std::map<std::string, unsigned long> &counts () { static std::map<std::string, unsigned long> c; return c; }
inline void finish ()
{
    for (auto &c : counts ()) std::cout << "COUNT " << c.first << " " << c.second << "\n";
    std::cout.flush ();
}
[[noreturn]] inline void fail (const std::string &what)
{
    std::cout << "FAILING INPUT: " << desc () << "\nVIOLATED: " << what << std::endl;
    finish ();
    _exit (1);
}
#define CHECK(cond, msg) do { if (!(cond)) { std::ostringstream o_; o_.precision (17); o_ << msg << "   [" << #cond << "]"; vp::fail (o_.str ()); } } while (0)
inline char *dbuf () { static char b[4096]; return b; }
inline void on_alarm (int) { const char m[] = "FAILING INPUT: (hang) "; (void) !write (1, m, sizeof m - 1); (void) !write (1, dbuf (), strlen (dbuf ())); const char n[] = "\nVIOLATED: the call did not return\n"; (void) !write (1, n, sizeof n - 1); _exit (1); }
inline void on_crash (int s) { const char m[] = "FAILING INPUT: (crash) "; (void) !write (1, m, sizeof m - 1); (void) !write (1, dbuf (), strlen (dbuf ())); const char n[] = "\nVIOLATED: the call crashed\n"; (void) !write (1, n, sizeof n - 1); _exit (1); (void) s; }
inline unsigned long env (const char *n, unsigned long d) { const char *s = getenv (n); return s && *s ? strtoul (s, nullptr, 10) : d; }
inline std::mt19937_64 &rng () { static std::mt19937_64 r (env ("VP_SEED", 1) * 7919 + 17); return r; }
inline uint64_t below (uint64_t n) { return n ? rng () () % n : 0; }
inline bool coin (unsigned k = 2) { return below (k) == 0; }
inline bool thorough () { const char *s = getenv ("VP_TIER"); return s && std::string (s) == "thorough"; }
inline std::string env_s (const char *n, const std::string &d) { const char *s = getenv (n); return s && *s ? s : d; }
inline const std::vector<uint64_t> &dict ()
{
    static std::vector<uint64_t> d = [] {
        std::vector<uint64_t> v; std::stringstream s (env_s ("VP_DICT", "")); std::string t;
        while (std::getline (s, t, ',')) v.push_back (strtoull (t.c_str (), nullptr, 10));
        if (v.empty ()) v.push_back (10);
        return v; } ();
    return d;
}
struct clock_t_ { std::chrono::steady_clock::time_point t = std::chrono::steady_clock::now (); double s () const { return std::chrono::duration<double> (std::chrono::steady_clock::now () - t).count (); } };
inline clock_t_ &start () { static clock_t_ c; return c; }
inline double budget () { return env ("VP_SECONDS", 15); }
// starts a case: its description is printed if the case fails, hangs or crashes
inline void begin (const std::string &d, unsigned limit = 60)
{
    desc () = d; strncpy (dbuf (), d.c_str (), 4000); ++counts ()["cases"]; alarm (limit);
}
inline void init ()
{
    start (); signal (SIGALRM, on_alarm);
    for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL}) signal (s, on_crash);
    std::clog.setstate (std::ios::failbit);
    struct rlimit r { rlim_t (20) << 30, rlim_t (20) << 30 }; 
#ifndef __SANITIZE_ADDRESS__
    setrlimit (RLIMIT_AS, &r);
#endif
    (void) r;
}
// integers biased to boundaries, and to the literals that occur in the code
template<typename T> T integer ()
{
    switch (below (8))
    {
        case 0: return 0;
        case 1: return T (1) << below (sizeof (T) * 8);
        case 2: return T (~T (0)) - T (below (3));
        case 3: return T ((T (1) << below (sizeof (T) * 8)) - 1);
        case 4: return T (dict ()[below (dict ().size ())] + below (3) - 1);
        case 5: return T (below (16));
        case 6: return T (below (256));
        default: return T (rng () ());
    }
}
// a small size biased to boundaries and dictionary values
inline size_t size (size_t mx)
{
    switch (below (6))
    {
        case 0: return std::min<size_t> (below (4), mx);
        case 1: { uint64_t v = dict ()[below (dict ().size ())] + below (3) - 1; return v <= mx ? v : below (mx + 1); }
        case 2: { uint64_t v = (uint64_t (1) << below (20)) + below (3) - 1; return v <= mx ? v : below (mx + 1); }
        case 3: return std::min<size_t> (below (40), mx);
        case 4: return mx - below (std::min<size_t> (3, mx + 1));
        default: return below (mx + 1);
    }
}
inline double bits (uint64_t b) { double d; memcpy (&d, &b, 8); return d; }
inline uint64_t ubits (double d) { uint64_t b; memcpy (&b, &d, 8); return b; }
// doubles of every kind
inline double anyd ()
{
    switch (below (12))
    {
        case 0: return 0.0;
        case 1: return -0.0;
        case 2: return double (int64_t (below (2001)) - 1000);
        case 3: return (double (int64_t (below (2000001)) - 1000000)) / 1000.0;
        case 4: return 500000.0 + below (1000000) / 1000.0;
        case 5: return 4000000.0 + below (1000000000) / 1000.0;
        case 6: return bits (rng () ());
        case 7: return std::numeric_limits<double>::infinity () * (coin () ? 1 : -1);
        case 8: return std::numeric_limits<double>::quiet_NaN ();
        case 9: return std::numeric_limits<double>::denorm_min () * double (below (5));
        case 10: return std::numeric_limits<double>::max () * (coin () ? 1 : -1);
        default: return double (dict ()[below (dict ().size ())]) * (coin () ? 1 : -1);
    }
}
// finite, of moderate size
inline double coord ()
{
    switch (below (8))
    {
        case 0: return 0.0;
        case 1: return double (int64_t (below (21)) - 10);
        case 2: return (double (int64_t (below (2001)) - 1000)) / 8.0;
        case 3: return (double (int64_t (below (2000001)) - 1000000)) / 1000.0;
        case 4: return 500000.0 + below (1000000) / 1000.0;
        case 5: return 4000000.0 + below (1000000000) / 1000.0;
        case 6: { uint64_t v = dict ()[below (dict ().size ())]; return v < (1ull << 40) ? double (v) * (coin () ? 1 : -1) : 1.0; }
        default: return (double (rng () () >> 11) / 9007199254740992.0 - 0.5) * std::pow (10.0, double (below (9)));
    }
}
inline bool same (double a, double b) { return ubits (a) == ubits (b); }
// equal as IEEE values, or both NaN
inline bool eqv (double a, double b) { return a == b || (a != a && b != b); }
template<class F> bool throws (F f) { try { f (); } catch (const std::exception &) { return true; } return false; }
inline std::string str (size_t n, bool text = false) { std::string s (n, ' '); for (auto &c : s) c = text ? char (' ' + below (95)) : char (below (256)); return s; }
// keeps going until the time is up, or for a number of rounds
inline bool more (unsigned long i, unsigned long least, double part = 1.0) { return i < least || start ().s () < budget () * part; }
}
