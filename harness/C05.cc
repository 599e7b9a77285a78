// SRC: src/lib/*.cc src/tercpp/*.cpp src/liblbfgs/*.c src/kenlm/lm/*.cc src/kenlm/util/*.cc src/marisa/*.cc
// LIBS: -Wl,--unresolved-symbols=ignore-all
#include "hg.hpp"
#include <travatar/eval-measure-wer.h>
#include <travatar/mert-geometry.h>
#include <travatar/tune-mert.h>
#include <travatar/tune-greedy-mert.h>
#include <travatar/tuning-example-nbest.h>
#include <travatar/tuning-example-forest.h>
using namespace travatar; using namespace std; using namespace H;
struct Hyp { FM f; double score; EvalStatsPtr st; };
typedef vector<Hyp> Hyps;
static FM rf(int n, bool gen) { FM f; for(int i = 1; i <= n; i++) if(R(4)) f[i] = gen ? D() * 4 - 2 : R(-3, 3); return f; }
static string fs(const FM& f) { ostringstream o; for(FM::const_iterator i = f.begin(); i != f.end(); ++i) o << i->first << ":" << i->second << " "; return o.str(); }
static vector<double> crossings(const Hyps& h, const FM& w, const FM& g) { vector<double> r; for(size_t i = 0; i < h.size(); i++) for(size_t j = 0; j < i; j++) { double a = dot(h[i].f, g), b = dot(h[j].f, g); if(!close(a, b, 1e-9)) r.push_back((dot(h[i].f, w) - dot(h[j].f, w)) / (b - a)); } return r; }
// the statistics of the hypotheses that are best (up to rounding) at w + x g
static vector<const Hyp*> bestat(const Hyps& h, const FM& w, const FM& g, double x) { double m = -1e300; for(size_t i = 0; i < h.size(); i++) m = max(m, dot(h[i].f, w) + x * dot(h[i].f, g)); vector<const Hyp*> r; for(size_t i = 0; i < h.size(); i++) if(dot(h[i].f, w) + x * dot(h[i].f, g) >= m - 1e-7 * max(1., fabs(m))) r.push_back(&h[i]); return r; }
static bool in(const vector<const Hyp*>& v, const EvalStats& s, double mult = 1) { for(size_t i = 0; i < v.size(); i++) { vector<double> a = v[i]->st->GetVals(), b = s.GetVals(); bool ok = a.size() == b.size(); for(size_t k = 0; ok && k < a.size(); k++) ok = close(a[k] * mult, b[k]); if(ok) return true; } return false; }
static vector<double> probes(vector<double> c) { sort(c.begin(), c.end()); vector<double> u; for(size_t i = 0; i < c.size(); i++) if(u.empty() || c[i] > u.back() + 1e-4) u.push_back(c[i]); vector<double> p; if(u.empty()) { p.push_back(0); return p; } p.push_back(u[0] - 1.7); for(size_t i = 0; i + 1 < u.size(); i++) p.push_back((u[i] + u[i+1]) / 2); p.push_back(u.back() + 1.3); return p; }
static void checkhull(const ConvexHull& h, const Hyps& hy, const FM& w, const FM& g, double mult, bool tiled) {
    vector<double> p = probes(crossings(hy, w, g));
    if(tiled) for(size_t i = 0; i < h.size(); i++) { CHECK(h[i].first.first <= h[i].first.second + 1e-7 * max(1., fabs(h[i].first.second)), "segment " << i << " is reversed"); if(i) CHECK(h[i].first.first == h[i-1].first.second, "gap before segment " << i); }
    if(h.size()) CHECK(h[0].first.first <= -1e300 && h.back().first.second >= 1e300, "hull does not span the line");
    for(size_t k = 0; k < p.size(); k++) { bool found = false; if(fabs(p[k]) < 1e-9) continue; for(size_t i = 0; i < h.size(); i++) if(h[i].first.first <= p[k] && p[k] <= h[i].first.second) { found = true; CHECK(in(bestat(hy, w, g, p[k]), *h[i].second, mult), "at " << p[k] << " the hull says " << vstr(h[i].second->GetVals())); } CHECK(found, "no segment at " << p[k]); }
    double x0 = 0; for(size_t i = 1; i < h.size(); i++) if(!(h[i].first.first > x0 || i == 0)) x0 = 0;
}
static boost::shared_ptr<TuningExampleNbest> mknb(int nf, bool gen, Hyps& hy, string& d) { boost::shared_ptr<TuningExampleNbest> e(new TuningExampleNbest); int n = R(1, 7), len = R(2, 9); for(int i = 0; i < n; i++) { Hyp h; h.f = (i && !R(4)) ? hy[R(i)].f : rf(nf, gen); h.st.reset(new EvalStatsWer(R(len + 1), len, true)); vector<double> v = h.st->GetVals(); hy.push_back(h); SparseMap m = sm(h.f); e->AddHypothesis(sv(m), h.st); d += "{" + fs(h.f) + "|" + vstr(v) + "}"; } return e; }
static EvalMeasureWer WER(true);
static boost::shared_ptr<TuningExampleForest> mkfo(int nf, bool gen, Hyps& hy, string& d, double mult) { vector<Sentence> refs(1); int rl = R(1, 5); for(int i = 0; i < rl; i++) refs[0].push_back(Dict::WID("t" + str(R(3)))); boost::shared_ptr<TuningExampleForest> e(new TuningExampleForest(&WER, refs, R(1000000), mult)); int k = R(3) ? 1 : 2;
    for(int q = 0; q < k; q++) { boost::shared_ptr<HyperGraph> g(rgraph(R(1, 5), 3, nf, 3, gen, 1, 60)); vector<Deriv> dv = derivs(g->GetNode(0), g->GetWords()); for(size_t i = 0; i < dv.size(); i++) { Hyp h; h.f = dv[i].f; h.st = WER.CalculateStats(refs[0], dv[i].w[0]); hy.push_back(h); } d += "forest " + gstr(*g) + " ref " + vstr(refs[0]) + " "; e->AddHypothesis(g); } return e; }
static double total(const vector<Hyps>& hs, const FM& w, const FM& g, double x, const vector<double>& mult, bool& tie) { EvalStatsPtr s; for(size_t i = 0; i < hs.size(); i++) { vector<const Hyp*> b = bestat(hs[i], w, g, x); for(size_t k = 1; k < b.size(); k++) if(b[k]->st->GetVals() != b[0]->st->GetVals()) tie = true; EvalStatsPtr t = b[0]->st->Times(mult[i]); if(s) s->PlusEquals(*t); else s = t; } return s->ConvertToScore(); }
int main() {
    GlobalVars::trg_factors = 1; GlobalVars::debug = 0;
    init("random n-best lists (1-7 hypotheses, repeated and parallel lines) and random forests (1-5 nodes, up to 60 derivations, two merged), integer and real features, against exhaustive enumeration at every interval of the line");
    for(long it = 0; it < N(1500); it++) {
        int nf = R(1, 4); bool gen = R(3); FM w = rf(nf, gen), g = rf(nf, gen); SparseMap W = sm(w), G = sm(g); string base = "w=" + fs(w) + "g=" + fs(g);
        { Hyps hy; string d; boost::shared_ptr<TuningExampleNbest> e = mknb(nf, gen, hy, d); Case("n-best hull", base + d, hy.size() > 1); checkhull(e->CalculateConvexHull(W, G), hy, w, g, 1, true);
          Case("model hypothesis", base + d); Weights ww(W); const ExamplePair& p = e->CalculateModelHypothesis(ww); double m = -1e300; for(size_t i = 0; i < hy.size(); i++) m = max(m, dot(hy[i].f, w)); CHECK(close(dot(fm(p.first), w), m), "not the best");
          set<WordId> cw, xp; e->CountWeights(cw); for(size_t i = 0; i < hy.size(); i++) for(FM::iterator j = hy[i].f.begin(); j != hy[i].f.end(); ++j) if(j->second != 0) xp.insert(j->first); for(set<WordId>::iterator i = xp.begin(); i != xp.end(); ++i) CHECK(cw.count(*i), "feature " << *i << " not counted");
          if(gen) { SparseMap gain = e->CalculatePotentialGain(W); vector<const Hyp*> cur = bestat(hy, w, FM(), 0); if(cur.size() == 1) for(int f = 1; f <= nf; f++) { double x = 0; for(size_t i = 0; i < hy.size(); i++) { FM a = hy[i].f, b = cur[0]->f; if(a[f] != b[f]) x = max(x, hy[i].st->ConvertToScore() - cur[0]->st->ConvertToScore()); } CHECK(close(gain.count(f) ? gain[f] : 0, x), "potential gain of " << f); } } }
        { double mult = R(3) ? 1 : 3; Hyps hy; string d; boost::shared_ptr<TuningExampleForest> e = mkfo(nf, gen, hy, d, mult); Case("forest hull", base + d, hy.size() > 1); checkhull(e->CalculateConvexHull(W, G), hy, w, g, mult, false); if(R(2)) { e->FindActiveFeatures(); FM g2; g2[R(2) ? 50 : R(1, nf)] = 1; SparseMap G2 = sm(g2); Case("forest hull, active features", "w=" + fs(w) + "g=" + fs(g2) + d); checkhull(e->CalculateConvexHull(W, G2), hy, w, g2, mult, false); } }
        { // semiring operations
          int k = R(1, 4); vector<vector<pair<double, double> > > sum; MertHull tot; string d = base; vector<boost::shared_ptr<HyperEdge> > keep; MertHullWeightFunction wf(W, G);
          for(int q = 0; q < k; q++) { int m = R(1, 3); vector<pair<double, double> > prod(1, make_pair(0., 0.)); MertHull ph(1); bool one = true; for(int z = 0; z < m; z++) { int a = R(1, 3); vector<pair<double, double> > alt, np; MertHull ah; for(int y = 0; y < a; y++) { boost::shared_ptr<HyperEdge> ed(new HyperEdge); FM f = rf(nf, gen); SparseMap fmm = sm(f); ed->SetFeatures(sv(fmm)); keep.push_back(ed); alt.push_back(make_pair(dot(f, g), dot(f, w))); MertHull eh = wf(*ed); ah += eh; d += "(" + fs(f) + ")"; } for(size_t x = 0; x < prod.size(); x++) for(size_t y = 0; y < alt.size(); y++) np.push_back(make_pair(prod[x].first + alt[y].first, prod[x].second + alt[y].second)); prod = np; if(one) { ph = ah; one = false; } else ph *= ah; d += z + 1 < m ? "*" : "+"; } tot += ph; sum.push_back(prod); }
          Case("hull sums and products", d); tot.Sort(); const vector<boost::shared_ptr<MertLine> >& L = tot.GetSortedSegs(); vector<pair<double, double> > all; for(int q = 0; q < k; q++) all.insert(all.end(), sum[q].begin(), sum[q].end());
          CHECK(L.size() >= 1 && L[0]->x <= -1e300, "first segment"); for(size_t i = 1; i < L.size(); i++) CHECK(L[i]->x > L[i-1]->x && L[i]->m > L[i-1]->m, "segments out of order at " << i);
          for(int q = 0; q < 8; q++) { double x = D() * 20 - 10, b = -1e300; for(size_t i = 0; i < all.size(); i++) b = max(b, all[i].first * x + all[i].second); size_t i = 0; while(i + 1 < L.size() && L[i+1]->x <= x) i++; CHECK(close(L[i]->m * x + L[i]->b, b), "at " << x << " the hull has " << L[i]->m * x + L[i]->b << " expected " << b); } }
        { int n = R(1, 4); vector<Hyps> hs(n); vector<double> mult(n, 1.); vector<boost::shared_ptr<TuningExample> > ex; nf = max(nf, 2); string d; bool near = false; for(int i = 0; i < n; i++) if(i && !R(4)) { int j = R(i); hs[i] = hs[j]; ex.push_back(ex[j]); mult[i] = mult[j]; d += " again " + str(j); } else if(R(3)) ex.push_back(mknb(nf, true, hs[i], d)); else { mult[i] = R(3) ? 1 : 2; ex.push_back(mkfo(nf, true, hs[i], d, mult[i])); } FM gw, gg; for(int i = 1; i <= nf; i++) { gw[i] = D() * 2 - 1; gg[i] = D() * 2 - 1; } SparseMap GW = sm(gw), GG = sm(gg);
          vector<double> c; for(int i = 0; i < n; i++) { Hyps uq; for(size_t k = 0; k < hs[i].size(); k++) { bool dup = false; for(size_t l = 0; l < uq.size(); l++) if(uq[l].f == hs[i][k].f) dup = true; if(!dup) uq.push_back(hs[i][k]); } vector<double> t = crossings(uq, gw, gg); if(dynamic_cast<TuningExampleNbest*>(ex[i].get())) { sort(t.begin(), t.end()); for(size_t k = 1; k < t.size(); k++) if(t[k] - t[k-1] < 1e-5) near = true; } c.insert(c.end(), t.begin(), t.end()); } sort(c.begin(), c.end()); c.erase(unique(c.begin(), c.end()), c.end()); for(size_t i = 0; i < c.size(); i++) { if(fabs(c[i]) < 1e-5) near = true; if(i && c[i] - c[i-1] > 1e-9 && c[i] - c[i-1] < 1e-5) near = true; }
          if(!near) { double lo = -1e305, hi = 1e305; if(!R(3)) { lo = D() * 4 - 3; hi = lo + D() * 4 + 0.01; } Case("line search", "w=" + fs(gw) + " g=" + fs(gg) + " range " + str(lo) + ".." + str(hi) + d, !c.empty()); LineSearchResult r = TuneMert::LineSearch(GW, GG, ex, RealSpan(lo < -1e300 ? -REAL_MAX : lo, hi > 1e300 ? REAL_MAX : hi)); vector<double> b; b.push_back(-1e9); b.insert(b.end(), c.begin(), c.end()); b.push_back(1e9); double best = -1e9; bool tie = false, t2 = false; for(size_t i = 0; i + 1 < b.size(); i++) if(b[i] < hi && b[i+1] > lo) best = max(best, total(hs, gw, gg, (b[i] + b[i+1]) / 2, mult, tie)); 
            if(!tie) { CHECK(close(r.after->ConvertToScore(), best), "best score " << r.after->ConvertToScore() << " expected " << best); CHECK(r.pos >= lo && r.pos <= hi, "position " << r.pos << " out of range"); if(r.pos - 1e-9 > lo && r.pos + 1e-9 < hi) CHECK(close(total(hs, gw, gg, r.pos, mult, t2), best), "score at the chosen position " << r.pos << " is " << total(hs, gw, gg, r.pos, mult, t2) << " expected " << best); t2 = false; double tb = total(hs, gw, gg, 0, mult, t2); if(!t2) CHECK(close(r.before->ConvertToScore(), tb), "score before " << r.before->ConvertToScore()); CHECK(close(r.gain, r.after->ConvertToScore() - r.before->ConvertToScore()), "gain"); 
              bool anyf = false; for(int i = 0; i < n; i++) for(size_t k = 0; k < hs[i].size(); k++) if(!hs[i][k].f.empty()) anyf = true; int kind = R(3); Case(kind == 0 ? "tuning, coordinates" : kind == 1 ? "tuning, random directions" : "greedy tuning", d); t2 = false; double s0 = total(hs, gw, FM(), 0, mult, t2), ret; bool t3 = t2; SparseMap res = GW; if(kind < 2) { TuneMert t; t.SetDirections(kind ? "coord rand=2" : "coord"); t.SetExamples(ex); t.Init(res); ret = t.RunTuning(res); } else { TuneGreedyMert t; t.SetThreads(0); t.SetExamples(ex); t.Init(res); cerr.setstate(ios::failbit); ret = t.RunTuning(res); cerr.clear(); } FM fw; for(SparseMap::iterator i = res.begin(); i != res.end(); ++i) fw[i->first] = i->second; t2 = false; double s1 = total(hs, fw, FM(), 0, mult, t2); if(anyf && !t2 && !t3 && (s0 > 1e-5 || s1 > 1e-5)) { CHECK(s1 >= s0 - 1e-6, "tuning lowered the score from " << s0 << " to " << s1 << " weights " << fs(fw)); CHECK(close(ret, s1, 1e-5), "reported " << ret << " but the tuned weights score " << s1); } } } }
        { Tune* t = new TuneMert; double a = D() * 4 - 3, b = a + D() * 3; t->SetRange(7, a, b); double v = D() * 4 - 2; SparseMap q; q[7] = v; pair<Real, Real> r = t->FindGradientRange(q, 7); Case("gradient range", str(a) + " " + str(b) + " " + str(v)); CHECK(close(v + r.first, a) && close(v + r.second, b), "range " << r.first << " " << r.second); r = t->FindGradientRange(q, 8); CHECK(r.first <= -1e300 && r.second >= 1e300, "default range"); FM g2 = rf(3, true), w2 = rf(3, true); SparseMap G2 = sm(g2), W2 = sm(w2); r = t->FindGradientRange(W2, G2, make_pair(a, b)); for(int i = 0; i < 4; i++) { double x = D() * 6 - 3; bool ok = true, edge = false; for(FM::iterator j = g2.begin(); j != g2.end(); ++j) { double y = (w2.count(j->first) ? w2[j->first] : 0) + x * j->second; if(j->second != 0 && (y < a || y > b)) ok = false; if(fabs(y - a) < 1e-7 || fabs(y - b) < 1e-7) edge = true; } if(!edge) CHECK(ok == (r.first <= x && x <= r.second), "range " << r.first << ".." << r.second << " at " << x << " for w " << fs(w2) << " g " << fs(g2)); } delete t; }
    }
    return done();
}
