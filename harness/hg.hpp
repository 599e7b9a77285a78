// random acyclic hypergraphs and exhaustive enumeration of their derivations (oracle side)
#pragma once
#include "h.hpp"
#include <travatar/hyper-graph.h>
#include <travatar/cfg-data.h>
#include <travatar/dict.h>
#include <travatar/weights.h>
#include <travatar/global-debug.h>
namespace H {
using namespace travatar;
typedef std::map<int, double> FM;
struct Deriv { FM f; double score; std::vector<int> edges; std::vector<Sentence> w; Deriv() : score(0) {} };
inline double dot(const FM& a, const FM& b) { double s = 0; for(FM::const_iterator i = a.begin(); i != a.end(); ++i) { FM::const_iterator j = b.find(i->first); if(j != b.end()) s += i->second * j->second; } return s; }
inline FM fm(const SparseVector& v) { FM r; for(size_t i = 0; i < v.GetImpl().size(); i++) r[v.GetImpl()[i].first] += v.GetImpl()[i].second; return r; }
inline SparseMap sm(const FM& f) { SparseMap m; for(FM::const_iterator i = f.begin(); i != f.end(); ++i) m[i->first] = i->second; return m; }
inline SparseVector sv(const SparseMap& m) { return SparseVector(std::vector<SparsePair>(m.begin(), m.end())); }
inline std::vector<int> topo(int n) { std::vector<int> p(n); for(int i = 0; i < n; i++) p[i] = i; for(int i = n - 1; i > 1; i--) std::swap(p[i], p[1 + R(i)]); return p; }
// n nodes; node 0 is the root; every node has at least one edge; tails come later in a hidden topological order
inline HyperGraph* rgraph(int n, int maxe, int nfeat, int vocab, bool generic, int factors = 1, double bound = 300) {
    for(;;) {
        HyperGraph* g = new HyperGraph; std::vector<int> pos = topo(n); std::vector<double> cnt(n, 0); int L = 4; int unk = Dict::WID("<unk>");
        Sentence src; for(int i = 0; i < L; i++) src.push_back(Dict::WID("src" + str(i))); g->SetWords(src);
        for(int i = 0; i < n; i++) { int a = R(L); g->AddNode(new HyperNode(Dict::WID("X" + str(R(3))), -1, SpanId(a, a + 1))); }
        for(int k = n - 1; k >= 0; k--) { int e = R(1, maxe); for(int j = 0; j < e; j++) {
            HyperEdge* ed = new HyperEdge(g->GetNode(pos[k])); double c = 1; int nt = k == n - 1 ? 0 : std::min(R(3), 2); for(int t = 0; t < nt; t++) { int q = R(k + 1, n - 1); ed->AddTail(g->GetNode(pos[q])); c *= cnt[q]; } cnt[k] += c;
            CfgDataVector d; for(int f = 0; f < factors; f++) { Sentence s; for(int t = 0; t < nt; t++) s.push_back(-1 - t); int w = R(3); for(int t = 0; t < w; t++) s.insert(s.begin() + R((int)s.size() + 1), R(9) ? Dict::WID("t" + str(R(vocab))) : unk); if(nt == 2 && R(2)) { for(size_t x = 0; x < s.size(); x++) if(s[x] == -1) s[x] = -2; else if(s[x] == -2) s[x] = -1; } d.push_back(CfgData(s)); } ed->SetTrgData(d);
            SparseMap fv; for(int x = 0; x < nfeat; x++) if(R(3)) fv[x + 1] = generic ? D() * 4 - 2 : R(-3, 3); ed->SetFeatures(sv(fv)); ed->SetScore(generic ? D() * 4 - 2 : R(-3, 3));
            g->AddEdge(ed); g->GetNode(pos[k])->AddEdge(ed); } }
        if(cnt[0] <= bound) return g; delete g;
    }
}
inline std::vector<Deriv> derivs(const HyperNode* n, const Sentence& src) {
    std::vector<Deriv> ret; int unk = Dict::WID("<unk>");
    for(size_t e = 0; e < n->GetEdges().size(); e++) { const HyperEdge* ed = n->GetEdges()[e]; std::vector<std::vector<Deriv> > ch; for(size_t t = 0; t < ed->GetTails().size(); t++) ch.push_back(derivs(ed->GetTails()[t], src)); std::vector<size_t> ix(ch.size(), 0);
        for(;;) { Deriv d; d.score = ed->GetScore(); d.f = fm(ed->GetFeatures()); d.edges.push_back(ed->GetId()); for(size_t t = 0; t < ch.size(); t++) { const Deriv& c = ch[t][ix[t]]; d.score += c.score; for(FM::const_iterator i = c.f.begin(); i != c.f.end(); ++i) d.f[i->first] += i->second; d.edges.insert(d.edges.end(), c.edges.begin(), c.edges.end()); }
            for(size_t f = 0; f < ed->GetTrgData().size(); f++) { Sentence s; const Sentence& w = ed->GetTrgData()[f].words; for(size_t x = 0; x < w.size(); x++) if(w[x] < 0) { const Sentence& c = ch[-1 - w[x]][ix[-1 - w[x]]].w[f]; s.insert(s.end(), c.begin(), c.end()); } else s.push_back(w[x] == unk ? src[n->GetSpan().first] : w[x]); d.w.push_back(s); }
            while((int)d.w.size() < GlobalVars::trg_factors) d.w.push_back(Sentence()); ret.push_back(d); size_t t = 0; while(t < ch.size() && ++ix[t] == ch[t].size()) ix[t++] = 0; if(t == ch.size()) break; } }
    return ret;
}
inline std::string gstr(const HyperGraph& g) { std::ostringstream o; for(int i = 0; i < g.NumEdges(); i++) { const HyperEdge* e = g.GetEdge(i); o << (e->GetHead()->GetId()) << "<-"; for(size_t t = 0; t < e->GetTails().size(); t++) o << e->GetTails()[t]->GetId() << ","; o << "{"; for(size_t j = 0; j < e->GetFeatures().GetImpl().size(); j++) o << e->GetFeatures().GetImpl()[j].first << ":" << e->GetFeatures().GetImpl()[j].second << " "; o << "s" << e->GetScore() << "}" << (e->GetTrgData().size() ? vstr(e->GetTrgData()[0].words) : ""); o << " "; } return o.str(); }
}
