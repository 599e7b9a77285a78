// SRC: src/lib/*.cc src/tercpp/*.cpp src/liblbfgs/*.c src/kenlm/lm/*.cc src/kenlm/util/*.cc src/marisa/marisa/*.cc src/marisa/marisa/grimoire/*/*.cc
// LIBS: -Wl,--unresolved-symbols=ignore-all
#include "hg.hpp"
#include <travatar/lookup-table-hash.h>
#include <travatar/lookup-table-marisa.h>
#include <travatar/translation-rule.h>
#include <boost/scoped_ptr.hpp>
#include <algorithm>
using namespace travatar; using namespace std; using namespace H;
static const char* syms[] = {"S", "NP", "VP", "PP", "NN"};
// a random parse forest over n words: node 0 is the root, nodes shared between edges
struct Gen { HyperGraph* g; int n; map<pair<int,pair<int,int> >, HyperNode*> memo; vector<HyperNode*> term; vector<pair<HyperNode*,int> > pend;
  HyperNode* node(int s, int a, int b) { pair<int,pair<int,int> > k(s, make_pair(a, b)); if(memo.count(k)) return memo[k]; HyperNode* x = new HyperNode(Dict::WID(syms[s]), -1, make_pair(a, b)); g->AddNode(x); memo[k] = x;
    int ne = R(3) ? 1 : 2; if(b - a == 1 && (s == 4 || R(3))) ne = 1, edge(x, vector<HyperNode*>(), a); else for(int e = 0; e < ne; e++) { vector<HyperNode*> t;
      if(b - a == 1) { if(s < 4) t.push_back(node(R(s + 1, 4), a, b)); else { edge(x, t, a); continue; } }
      else if(s < 3 && !R(4)) t.push_back(node(R(s + 1, 3), a, b));
      else { int c = a; while(c < b) { int d = R(c + 1, b); if(c == a && d == b) d = b - 1; t.push_back(node(R(5), c, d)); c = d; } }
      edge(x, t, -1); } return x; }
  void edge(HyperNode* h, const vector<HyperNode*>& t, int w) { HyperEdge* e = new HyperEdge(h); for(size_t i = 0; i < t.size(); i++) e->AddTail(t[i]); SparseMap f; if(R(2)) f[Dict::WID("pf" + str(R(3)))] = R(1, 4); e->SetFeatures(sv(f)); g->AddEdge(e); h->AddEdge(e); if(w >= 0) pend.push_back(make_pair(h, e->GetId())), lastw.push_back(w); }
  vector<int> lastw;
  void finish() { term.assign(n, (HyperNode*)0); for(size_t i = 0; i < pend.size(); i++) { int w = lastw[i]; if(!term[w]) { term[w] = new HyperNode(g->GetWords()[w], -1, make_pair(w, w + 1)); g->AddNode(term[w]); } g->GetEdge(pend[i].second)->AddTail(term[w]); } } };
static string q(int w) { return "\"" + Dict::WSym(w) + "\""; }
struct M { string s; vector<int> nt; FM f; };
// all fragments rooted at node x; depth-limited to keep the number small (rules deeper than that do not occur)
static vector<M> frags(const HyperNode* x, int depth, const M& pre) {
  vector<M> r; for(size_t e = 0; e < x->GetEdges().size(); e++) { const HyperEdge* ed = x->GetEdges()[e]; vector<M> cur(1, pre); cur[0].s += (pre.s.empty() ? "" : " ") + Dict::WSym(x->GetSym()) + " (";
    for(size_t t = 0; t < ed->GetTails().size(); t++) { const HyperNode* c = ed->GetTails()[t]; vector<M> nx; for(size_t i = 0; i < cur.size(); i++) {
        if(c->IsTerminal()) { M m = cur[i]; m.s += " " + q(c->GetSym()); nx.push_back(m); continue; }
        M m = cur[i]; m.s += " x" + str(m.nt.size()) + ":" + Dict::WSym(c->GetSym()); m.nt.push_back(c->GetId()); nx.push_back(m);
        if(depth > 1) { vector<M> sub = frags(c, depth - 1, cur[i]); nx.insert(nx.end(), sub.begin(), sub.end()); } }
      cur.swap(nx); if(cur.size() > 3000) return vector<M>(); }
    FM ef = fm(ed->GetFeatures()); for(size_t i = 0; i < cur.size(); i++) { cur[i].s += " )"; for(FM::iterator j = ef.begin(); j != ef.end(); ++j) cur[i].f[j->first] += j->second; r.push_back(cur[i]); } }
  return r; }
static string fstr(const FM& f) { ostringstream o; for(FM::const_iterator i = f.begin(); i != f.end(); ++i) if(i->second != 0) o << " " << Dict::WSym(i->first) << "=" << i->second; return o.str(); }
static string dstr(const CfgDataVector& d) { ostringstream o; for(size_t i = 0; i < d.size(); i++) { o << "{"; for(size_t k = 0; k < d[i].words.size(); k++) o << " " << (d[i].words[k] < 0 ? "x" + str(-1 - d[i].words[k]) : Dict::WSym(d[i].words[k])); o << "}"; } return o.str(); }
int main() {
    init("random parse forests (1-5 words, shared nodes, unary chains, edge features) and random rule tables sampled from their fragments and perturbed: the hash and the trie table give exactly the rule edges of the brute-force enumeration of all fragments (head, tails in source order, target side, added-up features, source string), unknown-word edges exactly where nothing matches or everywhere if asked; bad lines are refused");
    for(long it = 0; it < N(4000); it++) {
        Gen G; G.n = R(1, R(5) ? 4 : 5); G.g = new HyperGraph; boost::scoped_ptr<HyperGraph> own(G.g); Sentence ws; for(int i = 0; i < G.n; i++) ws.push_back(Dict::WID("w" + str(R(3)))); G.g->SetWords(ws); G.node(R(3), 0, G.n); G.finish(); HyperGraph& g = *G.g;
        bool bad = false; int dep = 4; vector<vector<M> > all(g.NumNodes()); int depth = R(2, dep); vector<pair<int,int> > pool; int longest = 0;
        for(int i = 0; i < g.NumNodes() && !bad; i++) if(!g.GetNode(i)->IsTerminal()) { all[i] = frags(g.GetNode(i), depth, M()); if(all[i].empty() || all[i].size() > 2000) bad = true; for(size_t j = 0; j < all[i].size(); j++) pool.push_back(make_pair(i, (int)j)); }
        if(bad) continue;
        // rule table; every rule is a fragment of at most the enumerated depth, or a corruption of one with the same bracketing
        map<string, vector<pair<string,FM> > > tab; vector<string> lines; int nr = R(0, 12); string d;
        for(int k = 0; k < nr; k++) { pair<int,int> p = pool[R((int)pool.size())]; M m = all[p.first][p.second]; string s = m.s; int nt = m.nt.size(); if(!R(5)) { size_t z = s.find(R(2) ? "NP" : "VP"); if(z != string::npos) s.replace(z, 2, "PP"); else { z = s.find("\"w0\""); if(z != string::npos) s.replace(z, 4, "\"w1\""); } }
            string t; vector<int> perm; for(int i = 0; i < nt; i++) perm.push_back(i); for(int i = nt - 1; i > 0; i--) swap(perm[i], perm[R(i + 1)]); string td = "{"; for(int i = 0; i < nt; i++) { if(R(2)) { t += " \"u" + str(i) + "\""; td += " u" + str(i); } t += " x" + str(perm[i]) + ":X"; td += " x" + str(perm[i]); } t += " \"r" + str(k) + "\""; td += " r" + str(k) + "}";
            FM f; f[Dict::WID("rf" + str(R(3)))] = R(1, 3); if(R(2)) f[Dict::WID("pf" + str(R(3)))] = R(1, 3); string fs = fstr(f); tab[s].push_back(make_pair(td, f)); lines.push_back(s + " |||" + t + " @ X |||" + fs); }
        sort(lines.begin(), lines.end()); string text; for(size_t i = 0; i < lines.size(); i++) { text += lines[i] + "\n"; d += lines[i] + " ;; "; } string ps = str(g.NumNodes()) + " nodes:"; for(int i = 0; i < g.NumEdges(); i++) { ps += " " + str(g.GetEdge(i)->GetHead()->GetId()) + "<-"; for(int t = 0; t < g.GetEdge(i)->NumTails(); t++) ps += str(g.GetEdge(i)->GetTail(t)->GetId()) + ","; }
        bool unkall = !R(4), save = R(2);
        map<int,int> nm; vector<int> rev; for(int i = 0; i < g.NumNodes(); i++) if(!g.GetNode(i)->IsTerminal()) { nm[i] = rev.size(); rev.push_back(i); }
        multiset<string> want; bool any = false; for(size_t r = 0; r < rev.size(); r++) { bool hit = false; const vector<M>& fr = all[rev[r]]; for(size_t j = 0; j < fr.size(); j++) if(tab.count(fr[j].s)) { hit = true; any = true; vector<pair<string,FM> >& ru = tab[fr[j].s]; for(size_t k = 0; k < ru.size(); k++) { FM f = ru[k].second; for(FM::const_iterator i = fr[j].f.begin(); i != fr[j].f.end(); ++i) f[i->first] += i->second; ostringstream o; o << r << "<-"; for(size_t t = 0; t < fr[j].nt.size(); t++) o << nm[fr[j].nt[t]] << ","; o << ru[k].first << fstr(f) << (save ? " src:" + fr[j].s : ""); want.insert(o.str()); } }
            if(!hit || unkall) { const HyperNode* x = g.GetNode(rev[r]); for(size_t e = 0; e < x->GetEdges().size(); e++) { const HyperEdge* ed = x->GetEdges()[e]; FM f = fm(ed->GetFeatures()); f[Dict::WID("unk")] += 1; ostringstream o; o << r << "<-"; string td = "{", ss = Dict::WSym(x->GetSym()) + " ("; int nt = 0; for(size_t t = 0; t < ed->GetTails().size(); t++) { const HyperNode* c = ed->GetTails()[t]; if(c->IsTerminal()) { td += " " + Dict::WSym(c->GetSym()); ss += " " + q(c->GetSym()); } else { o << nm[c->GetId()] << ","; td += " x" + str(nt); ss += " x" + str(nt) + ":" + Dict::WSym(c->GetSym()); nt++; } } ss += " )"; o << td << "}" << fstr(f) << (save ? " src:" + ss : ""); want.insert(o.str()); } } }
        for(int kind = 0; kind < 2; kind++) {
            Case(kind ? "trie table" : "hash table", ps + " table " + d, any); istringstream in(text); LookupTable* t = 0; if(kind) t = LookupTableMarisa::ReadFromRuleTable(in); else t = LookupTableHash::ReadFromRuleTable(in); boost::scoped_ptr<LookupTable> ot(t); t->SetMatchAllUnk(unkall); t->SetSaveSrcStr(save);
            boost::scoped_ptr<HyperGraph> r(t->TransformGraph(g)); CHECK(r->NumNodes() == (int)rev.size() && r->GetWords() == g.GetWords(), "nodes " << r->NumNodes()); if(r->NumNodes() != (int)rev.size()) continue;
            for(int i = 0; i < r->NumNodes(); i++) CHECK(r->GetNode(i)->GetId() == i && r->GetNode(i)->GetSym() == g.GetNode(rev[i])->GetSym() && r->GetNode(i)->GetSpan() == g.GetNode(rev[i])->GetSpan(), "node " << i);
            multiset<string> got; int inl = 0; for(int i = 0; i < r->NumNodes(); i++) inl += r->GetNode(i)->GetEdges().size(); CHECK(inl == r->NumEdges(), "edges at nodes " << inl << " of " << r->NumEdges());
            for(int i = 0; i < r->NumEdges(); i++) { const HyperEdge* e = r->GetEdge(i); ostringstream o; o << e->GetHead()->GetId() << "<-"; for(int k = 0; k < e->NumTails(); k++) o << e->GetTail(k)->GetId() << ","; CfgDataVector dv = e->GetTrgData(); o << dstr(dv) << fstr(fm(e->GetFeatures())) << (save ? " src:" + e->GetSrcStr() : ""); got.insert(o.str()); bool own2 = false; const vector<HyperEdge*>& he = e->GetHead()->GetEdges(); for(size_t k = 0; k < he.size(); k++) own2 |= he[k] == e; CHECK(own2, "edge " << i << " not at its head"); }
            if(got != want) { vector<string> a, b; set_difference(got.begin(), got.end(), want.begin(), want.end(), back_inserter(a)); set_difference(want.begin(), want.end(), got.begin(), got.end(), back_inserter(b)); CHECK(false, "extra " << (a.size() ? a[0] : "none") << " missing " << (b.size() ? b[0] : "none")); } }
        if(!R(20)) { string l = lines.empty() ? "A ( \"b\" )" : lines[0].substr(0, lines[0].find(" |||")); string text2 = text + (R(2) ? l + "\n" : l + " ||| \"x\" @ X\n"); for(int kind = 0; kind < 2; kind++) { Case("bad line", text2); istringstream in(text2); bool thr = false; try { if(kind) delete LookupTableMarisa::ReadFromRuleTable(in); else delete LookupTableHash::ReadFromRuleTable(in); } catch(std::exception& e) { thr = true; } CHECK(thr, "line with fewer than three columns accepted"); } }
    }
    return done();
}
