// SRC: src/lib/*.cc src/tercpp/*.cpp src/liblbfgs/*.c src/kenlm/lm/*.cc src/kenlm/util/*.cc src/marisa/*.cc
// LIBS: -Wl,--unresolved-symbols=ignore-all
#include "hg.hpp"
using namespace travatar; using namespace std; using namespace H;
static void deco(HyperGraph& g) { for(int i = 0; i < g.NumNodes(); i++) { HyperNode* n = g.GetNode(i); n->SetViterbiScore(R(5) ? R(-50, 50) / 4. : -REAL_MAX); if(R(2)) { set<int> s; for(int k = R(3); k > 0; k--) s.insert(R(6)); n->SetTrgSpan(s); } if(R(2)) n->SetFrontier(R(2) ? HyperNode::IS_FRONTIER : HyperNode::NOT_FRONTIER); int a = R(4); n->SetSpan(make_pair(a, a + R(1, 3))); n->SetTrgSym(Dict::WID("Y" + str(R(3)))); } for(int i = 0; i < g.NumEdges(); i++) if(R(2)) g.GetEdge(i)->SetSrcStr("r" + str(R(4)) + (R(3) ? "" : " \"q\"")); }
static void wide(HyperGraph& g) { int n = g.NumNodes(); for(int k = R(3); n > 1 && k > 0; k--) { int h = R(n); HyperEdge* e = new HyperEdge(g.GetNode(h)); for(int t = R(6); t > 0; t--) { int q = R(n); if(q != h) e->AddTail(g.GetNode(q)); } CfgDataVector d; d.push_back(CfgData(Sentence(R(3), 3))); e->SetTrgData(d); e->SetScore(R(9)); g.AddEdge(e); g.GetNode(h)->AddEdge(e); } }
static string node(const HyperNode& n) { ostringstream o; o << n.GetId() << "/" << n.GetSym() << "/" << n.GetTrgSym() << "/" << n.GetSpan().first << "-" << n.GetSpan().second << "/" << n.GetViterbiScore() << "/" << n.IsFrontier() << "/"; const set<int>& s = n.GetTrgSpan(); for(set<int>::const_iterator i = s.begin(); i != s.end(); ++i) o << *i << ","; o << "["; for(size_t i = 0; i < n.GetEdges().size(); i++) o << n.GetEdges()[i]->GetId() << " "; return o.str() + "]"; }
static string edge(const HyperEdge& e) { ostringstream o; o << e.GetId() << ":" << e.GetHead()->GetId() << "<-"; for(size_t t = 0; t < e.GetTails().size(); t++) o << e.GetTails()[t]->GetId() << ","; o << "{" << e.GetFeatures() << "}" << e.GetScore() << e.GetSrcStr(); for(size_t f = 0; f < e.GetTrgData().size(); f++) o << vstr(e.GetTrgData()[f].words) << e.GetTrgData()[f].label; return o.str(); }
static string graph(const HyperGraph& g) { string s = vstr(g.GetWords()) + "\n"; for(int i = 0; i < g.NumNodes(); i++) s += node(*g.GetNode(i)) + "\n"; for(int i = 0; i < g.NumEdges(); i++) s += edge(*g.GetEdge(i)) + "\n"; return s; }
static void wf(const HyperGraph& g) { for(int i = 0; i < g.NumNodes(); i++) { CHECK(g.GetNode(i)->GetId() == i, "node id"); for(size_t j = 0; j < g.GetNode(i)->GetEdges().size(); j++) { const HyperEdge* e = g.GetNode(i)->GetEdges()[j]; CHECK(e->GetId() >= 0 && e->GetId() < g.NumEdges() && g.GetEdge(e->GetId()) == e, "edge " << j << " of node " << i << " is not in the graph"); CHECK(e->GetHead() == g.GetNode(i), "head of an edge of node " << i); } } for(int i = 0; i < g.NumEdges(); i++) { const HyperEdge* e = g.GetEdge(i); CHECK(e->GetId() == i, "edge id"); int h = e->GetHead()->GetId(); CHECK(h >= 0 && h < g.NumNodes() && g.GetNode(h) == e->GetHead(), "head outside the graph"); for(size_t t = 0; t < e->GetTails().size(); t++) { int q = e->GetTails()[t]->GetId(); CHECK(q >= 0 && q < g.NumNodes() && g.GetNode(q) == e->GetTails()[t], "tail outside the graph"); } } }
// what a node or edge of a graph appended at (n0, e0) must look like
static string shiftn(const HyperNode& n, int n0, int e0) { ostringstream o; o << n.GetId() + n0 << "/" << n.GetSym() << "/" << n.GetTrgSym() << "/" << n.GetSpan().first << "-" << n.GetSpan().second << "/" << n.GetViterbiScore() << "/" << n.IsFrontier() << "/"; const set<int>& s = n.GetTrgSpan(); for(set<int>::const_iterator i = s.begin(); i != s.end(); ++i) o << *i << ","; o << "["; for(size_t i = 0; i < n.GetEdges().size(); i++) o << n.GetEdges()[i]->GetId() + e0 << " "; return o.str() + "]"; }
static string shifte(const HyperEdge& e, int n0, int e0) { ostringstream o; o << e.GetId() + e0 << ":" << e.GetHead()->GetId() + n0 << "<-"; for(size_t t = 0; t < e.GetTails().size(); t++) o << e.GetTails()[t]->GetId() + n0 << ","; o << "{" << e.GetFeatures() << "}" << e.GetScore() << e.GetSrcStr(); for(size_t f = 0; f < e.GetTrgData().size(); f++) o << vstr(e.GetTrgData()[f].words) << e.GetTrgData()[f].label; return o.str(); }
static HyperGraph* rulegraph(HyperGraph& src) { HyperGraph* g = new HyperGraph; g->SetEdgeType(HyperGraph::RULE_EDGE); g->SetWords(src.GetWords()); int n = R(1, 4); for(int i = 0; i < n; i++) g->AddNode(new HyperNode(Dict::WID("Z" + str(R(3))), -1, make_pair(i, i + 1))); int m = R(1, 5); for(int i = 0; i < m; i++) { int h = R(n); RuleEdge* e = new RuleEdge(g->GetNode(h)); if(h + 1 < n && R(2)) e->AddTail(g->GetNode(R(h + 1, n - 1))); e->SetScore(R(4) / 2.); double s = e->GetScore(); int k = R(3); for(int q = 0; q < k; q++) { HyperEdge* f = src.GetEdge(R(src.NumEdges())); e->AddFragmentEdge(f); s += f->GetScore(); } CHECK(close(e->GetScore(), s), "score with fragments"); g->AddEdge(e); g->GetNode(h)->AddEdge(e); } return g; }
int main() {
    GlobalVars::trg_factors = 1; GlobalVars::debug = 0; cerr.setstate(ios::failbit);
    init("random acyclic hypergraphs of 1-6 nodes with up to 4 edges per node, every node and edge attribute set at random, one or two factors, including empty graphs; compared attribute by attribute with what construction, copying and appending must give");
    for(long it = 0; it < N(3000); it++) {
        boost::shared_ptr<HyperGraph> g(R(12) ? rgraph(R(1, 6), 4, 3, 4, R(2), R(1, 2), 1e6) : new HyperGraph); deco(*g); if(R(2)) wide(*g); string before = graph(*g);
        Case("construction", before, g->NumEdges() > 1); wf(*g);
        { Case("copy", before, g->NumEdges() > 1); HyperGraph* c = new HyperGraph(*g); wf(*c); CHECK(graph(*c) == before, "copy is " << graph(*c)); CHECK(graph(*g) == before, "copying changed the original to " << graph(*g)); for(int i = 0; i < c->NumNodes(); i++) CHECK(c->GetNode(i) != g->GetNode(i), "shared node"); CHECK(c->CheckEqual(*g) && g->CheckEqual(*c), "copy is not equal"); CHECK(c->CheckMaybeEqual(*g), "copy is not maybe equal");
          string what; if(c->NumEdges()) { HyperEdge* e = c->GetEdge(R(c->NumEdges())); HyperNode* n = c->GetNode(R(c->NumNodes())); switch(R(9)) { case 0: e->SetScore(e->GetScore() + 5); what = "score"; break; case 1: e->SetSrcStr(e->GetSrcStr() + "z"); what = "source string"; break; case 2: e->GetTrgData()[0].words.push_back(3); what = "target words"; break; case 3: n->SetSym(n->GetSym() + 1); what = "symbol"; break; case 4: n->SetSpan(make_pair(n->GetSpan().first, n->GetSpan().second + 1)); what = "span"; break; case 5: { set<int> s = n->GetTrgSpan(); s.insert(17); n->SetTrgSpan(s); what = "target span"; break; } case 6: n->SetViterbiScore(123); what = "viterbi"; break; case 7: { SparseMap q; q[1] = 5; SparseVector v = e->GetFeatures(); v += sv(q); e->SetFeatures(v); what = "features"; break; } default: { Sentence w = c->GetWords(); w.push_back(5); c->SetWords(w); what = "words"; } } Case("inequality", what + " " + before); CHECK(!c->CheckEqual(*g) && !g->CheckEqual(*c), "graphs differing in " << what << " compare equal"); CHECK(graph(*g) == before, "changing the copy changed the original"); }
          delete c; Case("copy outlives", before); CHECK(graph(*g) == before, "deleting the copy changed the original"); HyperGraph* d = new HyperGraph(*g); g.reset(new HyperGraph(*d)); delete d; CHECK(graph(*g) == before, "copy of a copy"); }
        if(g->NumEdges()) { boost::shared_ptr<HyperGraph> r(rulegraph(*g)); string rb = graph(*r); Case("copy of a rule graph", rb); HyperGraph c(*r); wf(c); CHECK(graph(c) == rb, "copy is " << graph(c)); CHECK(c.GetEdgeType() == HyperGraph::RULE_EDGE, "edge type"); for(int i = 0; i < c.NumEdges(); i++) { RuleEdge *a = dynamic_cast<RuleEdge*>(c.GetEdge(i)), *b = dynamic_cast<RuleEdge*>(r->GetEdge(i)); CHECK(a && a != b && a->GetFragmentEdges() == b->GetFragmentEdges(), "fragments of edge " << i); CHECK(*a == *b, "rule edge equality"); } }
        { boost::shared_ptr<HyperGraph> h(R(12) ? rgraph(R(1, 5), 3, 3, 4, R(2), 1, 1e6) : new HyperGraph); deco(*h); if(R(2)) wide(*h); string hb = graph(*h); HyperGraph c(*g); int n0 = c.NumNodes(), e0 = c.NumEdges(); Case("append", before + " + " + hb, n0 && h->NumNodes()); int st = c.Append(*h); wf(c); CHECK(st == n0, "returned " << st); CHECK(c.NumNodes() == n0 + h->NumNodes() && c.NumEdges() == e0 + h->NumEdges(), "sizes"); CHECK(graph(*h) == hb, "the appended graph changed"); CHECK(c.GetWords() == g->GetWords(), "words"); for(int i = 0; i < n0; i++) CHECK(node(*c.GetNode(i)) == node(*g->GetNode(i)), "old node " << i << " is now " << node(*c.GetNode(i))); for(int i = 0; i < e0; i++) CHECK(edge(*c.GetEdge(i)) == edge(*g->GetEdge(i)), "old edge " << i); for(int i = 0; i < h->NumNodes() && n0 + i < c.NumNodes(); i++) CHECK(node(*c.GetNode(n0 + i)) == shiftn(*h->GetNode(i), n0, e0), "node " << n0 + i << " is " << node(*c.GetNode(n0 + i))); for(int i = 0; i < h->NumEdges() && e0 + i < c.NumEdges(); i++) CHECK(edge(*c.GetEdge(e0 + i)) == shifte(*h->GetEdge(i), n0, e0), "edge " << e0 + i << " is " << edge(*c.GetEdge(e0 + i))); if(R(2)) { int s2 = c.Append(*h); CHECK(s2 == n0 + h->NumNodes(), "second append"); wf(c); } }
        { Case("reversed edges", before); vector<vector<HyperEdge*> > rv = g->GetReversedEdges(); CHECK((int)rv.size() == g->NumNodes(), "size"); vector<multiset<int> > ex(g->NumNodes()), ac(g->NumNodes()); for(int i = 0; i < g->NumEdges(); i++) for(size_t t = 0; t < g->GetEdge(i)->GetTails().size(); t++) ex[g->GetEdge(i)->GetTail(t)->GetId()].insert(i); for(size_t i = 0; i < rv.size(); i++) for(size_t j = 0; j < rv[i].size(); j++) ac[i].insert(rv[i][j]->GetId()); for(int i = 0; i < g->NumNodes(); i++) CHECK(set<int>(ex[i].begin(), ex[i].end()) == set<int>(ac[i].begin(), ac[i].end()), "edges using node " << i); }
        { Case("labelled spans", before); std::map<SpanId, WordId> ls = g->GetLabeledSpans(), ex; for(int i = 0; i < g->NumNodes(); i++) ex.insert(make_pair(g->GetNode(i)->GetSpan(), g->GetNode(i)->GetSym())); CHECK(ls == ex, "got " << ls.size() << " expected " << ex.size()); }
        { Case("score reset", before); HyperGraph c(*g); c.ResetViterbiScores(); for(int i = 0; i < c.NumNodes(); i++) CHECK(c.GetNode(i)->GetViterbiScore() == -REAL_MAX, "node " << i); }
        { HyperGraph c; int n = R(1, 6); string d; vector<HyperNode*> want; for(int i = 0; i < n; i++) { HyperNode* x = new HyperNode; int sz = c.NumNodes(), id = -1; bool thr = false; if(R(3) == 0) { id = R(8); x->SetId(id); } else id = sz; d += str(id) + " "; Case("adding nodes", d); bool dup = id < (int)want.size() && want[id]; try { c.AddNode(x); } catch(std::runtime_error&) { thr = true; } CHECK(thr == dup, (thr ? "refused" : "accepted") << " id " << id); if(thr) { delete x; } else { if(id >= (int)want.size()) want.resize(id + 1, NULL); want[id] = x; CHECK(x->GetId() == id, "id given " << x->GetId()); } CHECK(c.NumNodes() == (int)want.size(), "number of nodes " << c.NumNodes()); for(size_t k = 0; k < want.size() && (int)k < c.NumNodes(); k++) CHECK(c.GetNode(k) == want[k], "node " << k); } }
        { HyperNode a, b; a.SetId(R(3)); b.SetId(R(3)); HyperEdge e(R(4) ? &a : NULL); Case("self loops", str(a.GetId()) + " " + str(b.GetId())); bool thr = false; try { e.AddTail(&b); } catch(std::runtime_error&) { thr = true; } CHECK(thr == (e.GetHead() && a.GetId() == b.GetId()), (thr ? "refused" : "accepted")); }
        if(g->NumEdges()) { HyperPath p, q; int n = R(4); for(int i = 0; i < n; i++) p.AddEdge(g->GetEdge(R(g->NumEdges()))); q.AddEdges(p.GetEdges()); p.SetScore(R(3)); q.SetScore(R(3)); Case("path equality", before); CHECK((p == q) == (p.GetScore() == q.GetScore()), "scores"); q.SetScore(p.GetScore()); q.AddEdge(g->GetEdge(0)); CHECK(p != q, "longer path"); ostringstream o, ex; p.Print(o); ex << "{\"edges\": ["; for(int i = 0; i < n; i++) ex << (i ? ", " : "") << p.GetEdge(i)->GetId(); ex << "], \"score\": " << p.GetScore() << "}"; CHECK(o.str() == ex.str(), o.str()); }
    }
    return done();
}
