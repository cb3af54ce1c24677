// Shared plumbing of the monitors: seeded randomness, counters, violation and
// evidence records. Every harness prints, on stdout,
//   CASE <json>   one finished case (its description and what was observed)
//   BAD <json>    an oracle failed; the process then exits with status 1
// Crashes, sanitizer reports and hangs are seen by the runner (check.py).
#pragma once
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <random>
#include <string>
#include <vector>

using std::string;

namespace vf {
inline thread_local std::mt19937_64 R;
inline uint64_t rnd(uint64_t n) { return n ? R() % n : 0; }
inline bool chance(uint32_t num, uint32_t den) { return R() % den < num; }
inline uint64_t cur_seed;
inline string cur_mode, cur_desc;
inline thread_local string last_op;
inline std::map<string, uint64_t> ev;   // observed events of this case
inline uint64_t op_index;

inline string hex(const string &s) {
    string r; char b[3];
    for (unsigned char c : s) { snprintf(b, 3, "%02x", c); r += b; }
    return r;
}
inline string esc(const string &s) {
    string r;
    for (char c : s) { if (c == '"' || c == '\\') r += '\\'; if ((unsigned char)c >= 32) r += c; }
    return r;
}
[[noreturn]] inline void bad(const char *fmt, ...) {
    char b[4096]; va_list a; va_start(a, fmt); vsnprintf(b, sizeof b, fmt, a); va_end(a);
    printf("BAD {\"mode\":\"%s\",\"seed\":%lu,\"op\":%lu,\"desc\":\"%s\",\"last_op\":\"%s\",\"what\":\"%s\"}\n", cur_mode.c_str(),
           cur_seed, op_index, esc(cur_desc).c_str(), esc(last_op).c_str(), esc(b).c_str());
    fflush(stdout);
    _exit(1);
}
inline void reset_signals() {
    for (int s : {SIGSEGV, SIGFPE, SIGILL, SIGBUS, SIGABRT}) signal(s, SIG_DFL);
}
inline void begin_case(const string &mode, uint64_t seed) {
    cur_mode = mode; cur_seed = seed; cur_desc.clear(); last_op.clear(); ev.clear(); op_index = 0;
    uint64_t h = seed * 0x9E3779B97F4A7C15ull;
    for (char c : mode) h = (h ^ (unsigned char)c) * 0x100000001B3ull;
    R.seed(h);
    fprintf(stderr, "@%lu\n", seed);
}
inline void end_case() {
    printf("CASE {\"seed\":%lu,\"desc\":\"%s\",\"ev\":{", cur_seed, esc(cur_desc).c_str());
    bool f = true;
    for (auto &p : ev) { printf("%s\"%s\":%lu", f ? "" : ",", p.first.c_str(), p.second); f = false; }
    printf("}}\n");
    fflush(stdout);
}
}
