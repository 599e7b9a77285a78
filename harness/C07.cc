// SRC: src/lib/*.cc src/tercpp/*.cpp src/liblbfgs/*.c src/kenlm/lm/*.cc src/kenlm/util/*.cc src/marisa/*.cc
// LIBS: -Wl,--unresolved-symbols=ignore-all
#include "hg.hpp"
#include <travatar/weights.h>
#include <travatar/softmax.h>
#include <algorithm>
using namespace travatar; using namespace std; using namespace H;
static Sentence UNK() { return Sentence(50, Dict::WID("<unk>")); }
static bool better(const Deriv& a, const Deriv& b) { return a.score > b.score; }
static bool samef(const FM& a, const SparseVector& v) { FM b = fm(v); set<int> ks; for(FM::const_iterator i = a.begin(); i != a.end(); ++i) ks.insert(i->first); for(FM::const_iterator i = b.begin(); i != b.end(); ++i) ks.insert(i->first); for(set<int>::iterator i = ks.begin(); i != ks.end(); ++i) { FM::const_iterator p = a.find(*i), q = b.find(*i); if(!close(p == a.end() ? 0 : p->second, q == b.end() ? 0 : q->second)) return false; } return true; }
static void nbest(HyperGraph& g, const string& d) {
    vector<Deriv> ds = derivs(g.GetNode(0), UNK()); stable_sort(ds.begin(), ds.end(), better); map<vector<int>, const Deriv*> by; for(size_t i = 0; i < ds.size(); i++) by[ds[i].edges] = &ds[i];
    for(int u = 0; u < 2; u++) {
        int n = R(3) ? R(1, 15) : (int)ds.size() + R(3); vector<double> want; map<vector<Sentence>, double> best;
        for(size_t i = 0; i < ds.size(); i++) { bool first = !best.count(ds[i].w); if(first) best[ds[i].w] = ds[i].score; if(!u || first) want.push_back(ds[i].score); }
        size_t k = min((size_t)n, want.size()); Case(u ? "distinct n-best" : "n-best", "n=" + str(n) + " " + d, ds.size() > 2);
        NbestList nb = g.GetNbest(n, u); CHECK(nb.size() == k, "list of " << nb.size() << " instead of " << k << " out of " << ds.size() << " derivations"); set<vector<int> > seen; set<vector<Sentence> > sent;
        for(size_t i = 0; i < nb.size(); i++) {
            if(i < k) CHECK(close(nb[i]->GetScore(), want[i]), "rank " << i << " has score " << nb[i]->GetScore() << " instead of " << want[i]);
            vector<int> es; for(size_t j = 0; j < nb[i]->GetEdges().size(); j++) es.push_back(nb[i]->GetEdge(j)->GetId());
            CHECK(by.count(es), "rank " << i << " is no derivation: " << vstr(es)); if(!by.count(es)) continue; const Deriv& dv = *by[es];
            CHECK(seen.insert(es).second, "rank " << i << " repeated"); CHECK(close(dv.score, nb[i]->GetScore()), "rank " << i << " score " << nb[i]->GetScore() << " of a derivation scoring " << dv.score);
            vector<Sentence> tr; for(size_t f = 0; f < nb[i]->GetTrgData().size(); f++) tr.push_back(nb[i]->GetTrgData()[f].words); CHECK(tr == dv.w, "rank " << i << " translation " << (tr.size() ? vstr(tr[0]) : "") << " instead of " << vstr(dv.w[0]));
            if(u) CHECK(sent.insert(tr).second, "rank " << i << " repeats a translation");
            for(size_t f = 0; f < dv.w.size(); f++) CHECK(nb[i]->CalcTranslation(f).words == dv.w[f], "factor " << f); CHECK(nb[i]->CalcTranslation(dv.w.size()).words.empty(), "missing factor");
            CHECK(samef(dv.f, nb[i]->CalcFeatures()) && samef(dv.f, nb[i]->GetFeatures()), "rank " << i << " features");
        } } }
static double cnt(const HyperNode* n) { double r = 0; for(size_t e = 0; e < n->GetEdges().size(); e++) { double c = 1; for(size_t t = 0; t < n->GetEdges()[e]->GetTails().size(); t++) c *= cnt(n->GetEdges()[e]->GetTails()[t]); r += c; } return r; }
static void viterbi(HyperGraph& g, const string& d) { Case("Viterbi", d, g.NumEdges() > 2); for(int i = 0; i < g.NumNodes(); i++) { if(cnt(g.GetNode(i)) > 300) continue; vector<Deriv> ds = derivs(g.GetNode(i), UNK()); double b = -1e300; for(size_t j = 0; j < ds.size(); j++) b = max(b, ds[j].score); CHECK(close(g.GetNode(i)->CalcViterbiScore(), b), "node " << i << " " << g.GetNode(i)->CalcViterbiScore() << " instead of " << b); } }
static double lse(const vector<double>& v) { long double m = -1e300L, s = 0; for(size_t i = 0; i < v.size(); i++) m = max(m, (long double)v[i]); for(size_t i = 0; i < v.size(); i++) s += expl(v[i] - m); return (double)(m + logl(s)); }
static void post(HyperGraph& g, const string& d) {
    vector<Deriv> ds = derivs(g.GetNode(0), UNK()); vector<double> sc; for(size_t i = 0; i < ds.size(); i++) sc.push_back(ds[i].score); double z = lse(sc); vector<double> ex(g.NumEdges(), 0); for(size_t i = 0; i < ds.size(); i++) for(size_t j = 0; j < ds[i].edges.size(); j++) ex[ds[i].edges[j]] += exp(ds[i].score - z);
    // terminals below some edges do not change anything
    HyperGraph c(g); if(R(2)) { int e0 = c.NumEdges(); HyperNode* t = new HyperNode(Dict::WID("leaf"), -1, make_pair(0, 1)); c.AddNode(t); for(int i = 0; i < e0; i++) if(!R(3)) c.GetEdge(i)->AddTail(t); }
    Case("inside-outside", d, ds.size() > 2); c.InsideOutsideNormalize(); for(int i = 0; i < (int)ex.size(); i++) CHECK(close(exp(c.GetEdge(i)->GetScore()), ex[i], 1e-6), "edge " << i << " expected " << ex[i] << " times, got " << exp(c.GetEdge(i)->GetScore()));
}
int main() {
    GlobalVars::debug = 0; cerr.setstate(ios::failbit);
    init("random acyclic hypergraphs of 1-7 nodes with shared nodes and ties in scores, one or two factors, edges re-scored by random weights and by large offsets; every derivation enumerated; score lists with spreads up to 1e6");
    for(long it = 0; it < N(900); it++) {
        int F = R(1, 2); GlobalVars::trg_factors = F; boost::shared_ptr<HyperGraph> g(rgraph(R(1, 7), 4, 4, 4, R(2), F, 150)); if(F == 2 && R(3) == 0) for(int i = 0; i < g->NumEdges(); i++) if(R(3) == 0) { CfgDataVector t = g->GetEdge(i)->GetTrgData(); t.resize(1); g->GetEdge(i)->SetTrgData(t); } string d = gstr(*g);
        if(R(4) == 0) { double off = R(2) ? 400 : -400; for(int i = 0; i < g->NumEdges(); i++) g->GetEdge(i)->SetScore(g->GetEdge(i)->GetScore() + off * R(3)); d = gstr(*g); }
        viterbi(*g, d); nbest(*g, d); post(*g, d);
        if(R(3) == 0) { Weights w; for(int x = 1; x <= 4; x++) if(R(3)) w.SetCurrent(x, R(2) ? R(-2, 2) : D() * 4 - 2); Case("edge scores", d); g->ScoreEdges(w); for(int i = 0; i < g->NumEdges(); i++) { double s = 0; FM f = fm(g->GetEdge(i)->GetFeatures()); for(FM::iterator k = f.begin(); k != f.end(); ++k) s += k->second * w.GetCurrent(k->first); CHECK(close(g->GetEdge(i)->GetScore(), s), "edge " << i << " scored " << g->GetEdge(i)->GetScore() << " instead of " << s); } g->ResetViterbiScores(); d = gstr(*g); viterbi(*g, d); nbest(*g, d); }
        { vector<double> v; int n = R(7); static const double S[] = {1, 10, 700, 1e6}; double s = S[R(4)]; for(int i = 0; i < n; i++) v.push_back((D() * 2 - 1) * s); string q = vstr(v); Case("log of a sum", q, n > 2); double a = AddLogProbs(v); CHECK(n ? close(a, lse(v), 1e-9) : a == -REAL_MAX, a << " instead of " << (n ? lse(v) : -REAL_MAX)); vector<double> p = Softmax(v); CHECK(p.size() == v.size(), "size"); double t = 0; for(size_t i = 0; i < p.size(); i++) { t += p[i]; CHECK(close(p[i], exp(v[i] - lse(v)), 1e-9), "entry " << i << " is " << p[i]); } if(n) CHECK(close(t, 1), "sum " << t); }
        { CfgData c; int n = R(7); vector<int> pos; for(int i = 0; i < n; i++) { c.words.push_back(R(2) ? R(5) : -1 - R(3)); if(c.words.back() < 0) pos.push_back(i); } Case("non-terminal order", vstr(c.words), n > 2); CHECK(c.GetNontermPositions() == pos, "positions " << vstr(c.GetNontermPositions())); bool ord = true; for(size_t i = 0; i < pos.size(); i++) if(c.words[pos[i]] != -1 - (int)i) ord = false; CHECK(c.NontermsAreOrdered() == ord, "ordered: " << c.NontermsAreOrdered()); CfgData b, b0; int m = R(3); for(int i = 0; i < m; i++) b.words.push_back(R(9) - 3); b0 = b; b.label = 5; c.label = 7; b.AppendChild(c); Sentence cc = b0.words; cc.insert(cc.end(), c.words.begin(), c.words.end()); CHECK(b.words == cc && b.label == 5 && b.syms.size() == 1 && b.syms[0] == 7, "append " << vstr(b.words)); }
    }
    return done();
}
