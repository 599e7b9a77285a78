// SRC: src/lib/eval-measure.cc src/lib/eval-measure-bleu.cc src/lib/eval-measure-nist.cc src/lib/eval-measure-interp.cc src/lib/eval-measure-adv-interp.cc src/lib/eval-measure-loader.cc src/lib/eval-measure-wer.cc src/lib/eval-measure-ribes.cc src/lib/eval-measure-zeroone.cc src/lib/eval-measure-ter.cc src/lib/math-query.cc src/lib/sparse-map.cc src/lib/dict.cc src/lib/symbol-set.cc src/lib/cfg-data.cc src/tercpp/*.cpp
// LIBS: -Wl,--unresolved-symbols=ignore-all
#include "h.hpp"
#include <travatar/eval-measure-wer.h>
#include <travatar/eval-measure-ribes.h>
#include <travatar/eval-measure-ter.h>
#include <travatar/eval-measure-zeroone.h>
#include <travatar/eval-measure-loader.h>
#include <travatar/dict.h>
#include <boost/scoped_ptr.hpp>
using namespace travatar; using namespace std; using namespace H;
static Sentence rs(int lo = 0) { Sentence s; int n = R(lo, R(3) ? 7 : 14), v = R(1, 6); for(int i = 0; i < n; i++) s.push_back(R(v)); return s; }
static Sentence near(const Sentence& a) { Sentence s; for(size_t i = 0; i < a.size(); i++) { int k = R(8); if(k == 0) continue; s.push_back(k == 1 ? R(6) : a[i]); if(k == 2) s.push_back(R(6)); } if(s.size() > 2 && !R(3)) { int i = R(s.size()), j = R(s.size()); swap(s[i], s[j]); } if(s.size() > 3 && !R(3)) rotate(s.begin(), s.begin() + R(s.size()), s.end()); return s; }
static Sentence perm(int n) { Sentence s; for(int i = 0; i < n; i++) s.push_back(i); for(int i = n - 1; i > 0; i--) swap(s[i], s[R(i + 1)]); return s; }
static map<pair<int, int>, int> memo; static const Sentence *LA, *LB;
static int lev(int i, int j) { if(!i) return j; if(!j) return i; pair<int, int> k(i, j); map<pair<int, int>, int>::iterator f = memo.find(k); if(f != memo.end()) return f->second; int v = (*LA)[i-1] == (*LB)[j-1] ? lev(i-1, j-1) : 1 + min(lev(i-1, j-1), min(lev(i-1, j), lev(i, j-1))); memo[k] = v; return v; }
static int LEV(const Sentence& a, const Sentence& b) { memo.clear(); LA = &a; LB = &b; return lev(a.size(), b.size()); }
static int occ(const Sentence& g, const Sentence& s) { int c = 0; for(size_t i = 0; i + g.size() <= s.size(); i++) c += equal(g.begin(), g.end(), s.begin() + i); return c; }
static int at(const Sentence& g, const Sentence& s) { for(size_t i = 0; i + g.size() <= s.size(); i++) if(equal(g.begin(), g.end(), s.begin() + i)) return i; return -1; }
static double ribes(const Sentence& r, const Sentence& h, double al, double be) {
    if(r.empty()) return h.empty(); if(h.empty()) return 0; double bp = min(1.0, exp(1 - (double)r.size() / h.size())); vector<int> l; int n = h.size();
    for(int i = 0; i < n; i++) { Sentence g(1, h[i]); if(!occ(g, r)) continue; if(occ(g, r) == 1 && occ(g, h) == 1) { l.push_back(at(g, r)); continue; }
        for(int w = 1; w < max(i + 1, n - i + 1); w++) { if(w <= i) { Sentence c(h.begin() + i - w, h.begin() + i + 1); if(occ(c, r) == 1 && occ(c, h) == 1) { l.push_back(at(c, r) + w); break; } } if(i + w < n) { Sentence c(h.begin() + i, h.begin() + i + w + 1); if(occ(c, r) == 1 && occ(c, h) == 1) { l.push_back(at(c, r)); break; } } } }
    int m = l.size(); if(m == 1 && r.size() == 1) return pow(1.0 / n, al) * pow(bp, be); if(m < 2) return 0; int a = 0; for(int i = 0; i < m; i++) for(int j = i + 1; j < m; j++) a += l[i] < l[j]; return a / (m * (m - 1) / 2.0) * pow((double)m / n, al) * pow(bp, be); }
static double sc(const EvalMeasure& m, const Sentence& r, const Sentence& s) { return m.CalculateStats(r, s)->ConvertToScore(); }
int main() {
    init("random reference/system pairs (independent, edited, permuted, rotated; empty included) of 0-14 words over 1-6 word types");
    for(long it = 0; it < N(1500); it++) {
        Sentence r = rs(), s = R(4) ? near(r) : rs(); if(!R(6)) { int n = R(1, 9); r = perm(n); s = R(2) ? near(r) : perm(n); } string d = vstr(r) + "/" + vstr(s);
        { Case("WER", d, !r.empty() && !s.empty()); EvalMeasureWer w, wr(true); EvalStatsPtr st = w.CalculateStats(r, s), sr = wr.CalculateStats(r, s); int e = LEV(r, s); vector<double> v = st->GetVals(); CHECK(v.size() == 2 && v[0] == e && v[1] == r.size(), "statistics " << vstr(v) << " expected distance " << e); CHECK(sr->GetVals() == v, "reversed statistics"); double x = r.empty() ? 0 : (double)e / r.size(); CHECK(close(st->ConvertToScore(), x), "score " << st->ConvertToScore() << " expected " << x); CHECK(close(sr->ConvertToScore(), 1 - x), "reversed score " << sr->ConvertToScore()); CHECK(w.CalculateStats(s, r)->GetVals()[0] == e, "not symmetric");
          Sentence t = R(2) ? near(s) : rs(); double b = w.CalculateStats(s, t)->GetVals()[0], c = w.CalculateStats(r, t)->GetVals()[0]; CHECK(c <= e + b, "triangle inequality with " << vstr(t)); CHECK((e == 0) == (r == s), "zero distance"); boost::scoped_ptr<EvalMeasure> lw(EvalMeasureLoader::CreateMeasureFromString(R(2) ? "wer" : "wer:reverse=false")), lr(EvalMeasureLoader::CreateMeasureFromString("wer:reverse=true")); CHECK(close(sc(*lw, r, s), x) && close(sc(*lr, r, s), 1 - x), "loaded by name");
          EvalStatsPtr cl = sr->Clone(); CHECK(close(cl->ConvertToScore(), sr->ConvertToScore()), "clone"); EvalStatsPtr rd = lr->ReadStats(sr->WriteStats()); CHECK(close(rd->ConvertToScore(), sr->ConvertToScore()), "read back"); sr->PlusEquals(*wr.CalculateStats(s, t)); if(r.size() + s.size()) CHECK(close(sr->ConvertToScore(), 1 - (e + b) / (double)(r.size() + s.size())), "corpus score"); }
        { Case("zero-one", d); EvalMeasureZeroOne z; EvalStatsPtr st = z.CalculateStats(r, s); CHECK(st->GetVals().size() == 2 && st->GetVals()[0] == (r == s) && st->GetVals()[1] == 1 && st->ConvertToScore() == (r == s), "score " << st->ConvertToScore()); EvalStatsPtr o = z.CalculateStats(r, r); CHECK(o->ConvertToScore() == 1, "against itself"); st->PlusEquals(*o); CHECK(close(st->ConvertToScore(), (1 + (r == s)) / 2.0), "average"); CHECK(z.ReadStats(st->WriteStats())->Equals(*st), "read back"); }
        { double al = R(2) ? .25 : R(5) * .25, be = R(2) ? .1 : R(5) * .2; ostringstream o; o << d << " alpha=" << al << " beta=" << be; Case("RIBES", o.str(), !r.empty() && !s.empty()); EvalMeasureRibes m(al, be); EvalStatsPtr st = m.CalculateStats(r, s); double e = ribes(r, s, al, be); CHECK(st->GetVals().size() == 2 && st->GetVals()[1] == 1 && close(st->GetVals()[0], e) && close(st->ConvertToScore(), e), "score " << st->ConvertToScore() << " expected " << e); CHECK(e >= 0 && e <= 1, "range"); if(al == .25 && be == .1) { boost::scoped_ptr<EvalMeasure> l(EvalMeasureLoader::CreateMeasureFromString("ribes")); CHECK(close(sc(*l, r, s), e), "default configuration"); } ostringstream c; c << "ribes:alpha=" << al << ",beta=" << be; boost::scoped_ptr<EvalMeasure> l(EvalMeasureLoader::CreateMeasureFromString(c.str())); CHECK(close(sc(*l, r, s), e), "loaded by name");
          double self = ribes(r, r, al, be); CHECK(close(sc(m, r, r), self), "against itself " << sc(m, r, r) << " expected " << self); }
        { Case("TER", d, !r.empty() && !s.empty()); EvalMeasureTer t, ti(true); EvalStatsPtr st = t.CalculateStats(r, s); vector<double> v = st->GetVals(); int e = LEV(r, s); map<int, int> a; for(size_t i = 0; i < r.size(); i++) a[r[i]]++; int common = 0; for(size_t i = 0; i < s.size(); i++) if(a[s[i]]-- > 0) common++; int lo = max(r.size(), s.size()) - common; CHECK(v.size() == 2 && v[1] == r.size(), "statistics " << vstr(v)); CHECK(v[0] <= e, "edits " << v[0] << " exceed the Levenshtein distance " << e); CHECK(v[0] >= lo, "edits " << v[0] << " below the unordered lower bound " << lo); CHECK((v[0] == 0) == (r == s), "edits " << v[0] << " for " << (r == s ? "equal" : "different") << " sentences"); CHECK(v[0] == floor(v[0]), "fractional edits"); double x = r.empty() ? 0 : v[0] / r.size(); CHECK(close(st->ConvertToScore(), x) && close(ti.CalculateStats(r, s)->ConvertToScore(), 1 - x), "score"); boost::scoped_ptr<EvalMeasure> li(EvalMeasureLoader::CreateMeasureFromString("ter:inverse=true")); CHECK(close(sc(*li, r, s), 1 - x), "loaded by name"); CHECK(close(li->ReadStats(st->WriteStats())->ConvertToScore(), 1 - x), "read back"); CHECK(close(ti.CalculateStats(r, s)->Clone()->ConvertToScore(), 1 - x), "clone");
          if(r.size() >= 4 && r.size() <= 9) { Sentence p = perm(r.size()), q; int n = p.size(), b = R(1, n - 2), k = R(1, n - b); q.insert(q.end(), p.begin() + b, p.begin() + b + k); q.insert(q.begin() + 0, p.begin(), p.begin() + b); q.insert(q.end(), p.begin() + b + k, p.end()); Sentence mv(p.begin() + b, p.begin() + b + k); mv.insert(mv.end(), p.begin(), p.begin() + b); mv.insert(mv.end(), p.begin() + b + k, p.end()); Case("TER of one block move", vstr(p) + "/" + vstr(mv)); double x1 = t.CalculateStats(p, mv)->GetVals()[0]; CHECK(x1 == 1, "edits " << x1 << " expected 1"); } }
        { vector<Sentence> rr, ss2; for(int i = 0; i < 2; i++) { rr.push_back(rs(1)); ss2.push_back(near(rr[i])); } Case("factors", vstr(rr[1]) + "/" + vstr(ss2[1])); const char* nm[] = {"wer", "ter", "ribes"}; const char* k = nm[R(3)]; boost::scoped_ptr<EvalMeasure> m(EvalMeasureLoader::CreateMeasureFromString(string(k) + ":factor=1")), p(EvalMeasureLoader::CreateMeasureFromString(k)); CHECK(m->CalculateCachedStats(rr, ss2)->GetVals() == p->CalculateStats(rr[1], ss2[1])->GetVals(), k << " on factor 1"); CHECK(p->CalculateCachedStats(rr, ss2)->GetVals() == p->CalculateStats(rr[0], ss2[0])->GetVals(), k << " on factor 0"); }
    }
    return done();
}
