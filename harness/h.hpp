// common part of the harnesses: seeded generator, counters, crash reporting
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <csignal>
#include <string>
#include <sstream>
#include <vector>
#include <map>
#include <set>
#include <cmath>
#include <iostream>
#include <unistd.h>
namespace H {
static unsigned long long st; static long cases = 0, nontriv = 0, nfail = 0, nsample = 0;
static char cur[8192];
static std::map<std::string, long> parts;
static FILE* out;
inline unsigned long long rnd() { st ^= st << 13; st ^= st >> 7; st ^= st << 17; return st * 2685821657736338717ULL >> 11; }
inline int R(int n) { return n <= 0 ? 0 : (int)(rnd() % n); }            // 0..n-1
inline int R(int a, int b) { return a + R(b - a + 1); }
inline double D() { return (rnd() % 1000003) / 1000003.0; }
inline bool thorough() { const char* t = getenv("VERIF_TIER"); return t && !strcmp(t, "thorough"); }
inline long N(long quick, long deep = 0) { return thorough() ? (deep ? deep : quick * 20) : quick; }
inline void fail(const std::string& s) { if(nfail++ < 20) { fprintf(out, "FAIL %s\n", s.c_str()); fflush(out); } }
inline void onsig(int s) { char b[9000]; int n = snprintf(b, sizeof b, "FAIL %s in case: %s\n", s == SIGALRM ? "no termination" : "crash", cur); if(write(fileno(out), b, n)) {} _exit(1); }
// announce a case; part = what is exercised
inline void Case(const std::string& part, const std::string& desc, bool nontrivial = true) {
    cases++; if(nontrivial) nontriv++; parts[part]++;
    snprintf(cur, sizeof cur, "%s: %s", part.c_str(), desc.c_str());
    for(char* p = cur; *p; p++) if(*p == '\n') *p = '~';
    if(nontrivial && parts[part] <= 1 && nsample++ < 12) { fprintf(out, "SAMPLE %s\n", cur); fflush(out); }
}
#define CHECK(c, msg) do { if(!(c)) { std::ostringstream os__; os__ << H::cur << " :: " << msg; std::string s__ = os__.str(); for(size_t i__ = 0; i__ < s__.size(); i__++) if(s__[i__] == '\n') s__[i__] = '~'; H::fail(s__); } } while(0)
inline bool close(double a, double b, double eps = 1e-6) { if(a == b) return true; double m = std::max(1.0, std::max(std::fabs(a), std::fabs(b))); return std::fabs(a - b) <= eps * m; }
inline void init(const char* rule) {
    out = fdopen(dup(1), "w"); if(!freopen("/dev/null", "w", stdout)) {} 
    const char* s = getenv("VERIF_SEED"); st = 88172645463325252ULL ^ ((unsigned long long)(s ? atoll(s) : 1) * 0x9E3779B97F4A7C15ULL); if(!st) st = 1; for(int i = 0; i < 20; i++) rnd();
    fprintf(out, "RULE %s\n", rule);
    struct sigaction a; memset(&a, 0, sizeof a); a.sa_handler = onsig;
    sigaction(SIGSEGV, &a, 0); sigaction(SIGABRT, &a, 0); sigaction(SIGFPE, &a, 0); sigaction(SIGBUS, &a, 0); sigaction(SIGALRM, &a, 0);
    const char* l = getenv("VERIF_LIMIT"); alarm(l ? atoi(l) : 150);
}
inline int done() {
    fprintf(out, "CASES %ld\nNONTRIVIAL %ld\n", cases, nontriv);
    for(std::map<std::string, long>::iterator i = parts.begin(); i != parts.end(); ++i) fprintf(out, "PART %s %ld\n", i->first.c_str(), i->second);
    fflush(out); _exit(nfail ? 1 : 0);
}
template <class T> std::string str(const T& t) { std::ostringstream o; o << t; return o.str(); }
template <class T> std::string vstr(const std::vector<T>& t) { std::ostringstream o; o << "["; for(size_t i = 0; i < t.size(); i++) o << (i ? " " : "") << t[i]; o << "]"; return o.str(); }
}
