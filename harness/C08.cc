// SRC: src/lib/*.cc src/tercpp/*.cpp src/liblbfgs/*.c src/kenlm/lm/*.cc src/kenlm/util/*.cc src/marisa/*.cc
// LIBS: -Wl,--unresolved-symbols=ignore-all
#include "hg.hpp"
#include <travatar/forest-extractor.h>
#include <travatar/rule-composer.h>
#include <travatar/alignment.h>
#include <algorithm>
using namespace travatar; using namespace std; using namespace H;
typedef vector<int> VI;
static HyperGraph* G; static map<vector<int>, HyperNode*> memo; static int nlab;
static HyperNode* mk(int a, int b, bool term = false) { HyperNode* n = new HyperNode(Dict::WID(term ? "w" + str(a) : "N" + str(G->NumNodes())), -1, make_pair(a, b)); G->AddNode(n); return n; }
static HyperNode* grow(int a, int b, int depth, bool forest) {
    VI key; key.push_back(a); key.push_back(b); key.push_back(R(2)); key.push_back(depth > 3); if(forest && depth && memo.count(key) && R(3)) return memo[key];
    HyperNode* n = mk(a, b); int ne = forest && b - a > 1 && R(2) ? R(1, 3) : 1; set<VI> seen;
    for(int e = 0; e < ne; e++) {
        VI cut; cut.push_back(a); if(b - a > 1) { int k = R(5) ? R(2, min(3, b - a)) : 1; if(depth > 4 && k == 1) k = 2; set<int> c; while((int)c.size() < k - 1) c.insert(R(a + 1, b - 1)); cut.insert(cut.end(), c.begin(), c.end()); } cut.push_back(b); if(!seen.insert(cut).second) continue;
        HyperEdge* ed = new HyperEdge(n); ed->SetScore(R(-4, 0) / 2.); G->AddEdge(ed); n->AddEdge(ed);
        if(b - a == 1 && (R(3) || depth > 4)) { VI tk(2, -1); tk.push_back(a); if(!memo.count(tk)) memo[tk] = NULL; ed->AddTail(mk(a, b, true)); }
        else for(size_t i = 0; i + 1 < cut.size(); i++) ed->AddTail(grow(cut[i], cut[i + 1], depth + 1, forest));
    }
    memo[key] = n; return n;
}
static string tree(const HyperNode* n) { if(n->IsTerminal()) return Dict::WSym(n->GetSym()); string s; for(size_t e = 0; e < n->GetEdges().size(); e++) { s += (e ? " | (" : "(") + Dict::WSym(n->GetSym()); for(size_t t = 0; t < n->GetEdges()[e]->GetTails().size(); t++) s += " " + tree(n->GetEdges()[e]->GetTail(t)); s += ")"; } return s; }
struct Frag { VI edges; vector<const HyperNode*> vars; double score; int size; Frag() : score(0), size(0) {} bool operator<(const Frag& o) const { return edges != o.edges ? edges < o.edges : vars < o.vars; } };
static vector<Frag> cross(const vector<Frag>& a, const vector<Frag>& b) { vector<Frag> r; for(size_t i = 0; i < a.size(); i++) for(size_t j = 0; j < b.size(); j++) { Frag f = a[i]; f.edges.insert(f.edges.end(), b[j].edges.begin(), b[j].edges.end()); f.vars.insert(f.vars.end(), b[j].vars.begin(), b[j].vars.end()); f.score += b[j].score; f.size += b[j].size; r.push_back(f); } return r; }
static set<const HyperNode*> fr;
// all ways to expand n down to frontier nodes and words; limit: rules of up to that many minimal rules may replace frontier nodes
static vector<Frag> expand(const HyperNode* n, int limit) { vector<Frag> r; for(size_t e = 0; e < n->GetEdges().size(); e++) { Frag f; f.edges.push_back(n->GetEdges()[e]->GetId()); f.score = n->GetEdges()[e]->GetScore(); vector<Frag> cur(1, f); for(size_t t = 0; t < n->GetEdges()[e]->GetTails().size(); t++) { const HyperNode* c = n->GetEdges()[e]->GetTail(t); if(c->IsTerminal()) continue; vector<Frag> opt; if(fr.count(c)) { Frag v; v.vars.push_back(c); opt.push_back(v); if(limit > 1) { vector<Frag> d = expand(c, limit - 1); for(size_t i = 0; i < d.size(); i++) { d[i].size++; opt.push_back(d[i]); } } } else opt = expand(c, limit); cur = cross(cur, opt); vector<Frag> k; for(size_t i = 0; i < cur.size(); i++) if(cur[i].size < limit) k.push_back(cur[i]); cur = k; } r.insert(r.end(), cur.begin(), cur.end()); } return r; }
static Frag frag(const RuleEdge* e) { Frag f; for(size_t i = 0; i < e->GetFragmentEdges().size(); i++) f.edges.push_back(e->GetFragmentEdges()[i]->GetId()); f.score = e->GetScore(); return f; }
// surface of a rule, its words in source order and its variables; the choice of edges is read off the fragment
static void surface(const HyperNode* n, const set<int>& es, bool top, string& s, VI& words, vector<const HyperNode*>& vars) {
    const HyperEdge* use = NULL; for(size_t e = 0; e < n->GetEdges().size(); e++) if(es.count(n->GetEdges()[e]->GetId())) use = n->GetEdges()[e];
    if(n->IsTerminal()) { s += "\"" + Dict::WSym(n->GetSym()) + "\""; words.push_back(n->GetSpan().first); return; }
    if(!use) { s += "x" + str(vars.size()) + ":" + Dict::WSym(n->GetSym()); vars.push_back(n); return; }
    s += Dict::WSym(n->GetSym()) + " ("; for(size_t t = 0; t < use->GetTails().size(); t++) { s += " "; surface(use->GetTail(t), es, false, s, words, vars); } s += " )"; }
static string sset(const set<int>& s) { ostringstream o; for(set<int>::const_iterator i = s.begin(); i != s.end(); ++i) o << *i << ","; return o.str(); }
static void rules(const HyperGraph& rg, const map<const HyperNode*, int>& idx, const Sentence& src, const Sentence& trg, const Alignment& al, const LabeledSpans* labs, const string& d) {
    ForestExtractor ex; vector<const HyperNode*> back(idx.size()); for(map<const HyperNode*, int>::const_iterator i = idx.begin(); i != idx.end(); ++i) back[i->second] = i->first;
    for(int i = 0; i < rg.NumEdges(); i++) {
        const RuleEdge* e = static_cast<const RuleEdge*>(rg.GetEdge(i)); VI fe = frag(e).edges; set<int> es(fe.begin(), fe.end()); const HyperNode* h = back[e->GetHead()->GetId()]; string s; VI words; vector<const HyperNode*> vars; surface(h, es, true, s, words, vars);
        Case("rule text", d + " rule " + s, vars.size() > 1); string got = ex.RuleToString(*e, src, trg, al, labs);
        CHECK(e->GetTails().size() == vars.size(), "number of variables"); if(e->GetTails().size() != vars.size()) continue; for(size_t v = 0; v < vars.size(); v++) CHECK(e->GetTail(v)->GetId() == idx.find(vars[v])->second, "variable " << v << " is " << Dict::WSym(e->GetTail(v)->GetSym()) << " instead of " << Dict::WSym(vars[v]->GetSym()));
        const set<int>& sp = e->GetHead()->GetTrgSpan(); VI tw; ostringstream t; int prev = -1; for(int p = *sp.begin(); p <= *sp.rbegin(); p++) { int c = -1; for(size_t v = 0; v < vars.size(); v++) { const set<int>& q = rg.GetNode(idx.find(vars[v])->second)->GetTrgSpan(); if(*q.begin() <= p && p <= *q.rbegin()) { CHECK(c == -1, "target word " << p << " under two variables"); c = v; } } if(c < 0) { t << " \"" << Dict::WSym(trg[p]) << "\""; tw.push_back(p); } else if(c != prev) { t << " x" << c; if(labs) { const set<int>& q = rg.GetNode(idx.find(vars[c])->second)->GetTrgSpan(); LabeledSpans::const_iterator l = labs->find(make_pair(*q.begin(), *q.rbegin() + 1)); if(l != labs->end()) t << ":" << Dict::WSym(l->second); } } prev = c; }
        if(labs) { LabeledSpans::const_iterator l = labs->find(make_pair(*sp.begin(), *sp.rbegin() + 1)); if(l != labs->end()) t << " @ " << Dict::WSym(l->second); }
        ostringstream a; bool first = true; for(size_t x = 0; x < words.size(); x++) for(size_t y = 0; y < tw.size(); y++) if(al.Contains(words[x], tw[y])) { a << (first ? "" : " ") << x << "-" << y; first = false; }
        ostringstream want; want << s << " |||" << t.str() << " ||| " << exp(e->GetScore()) << " ||| " << a.str(); CHECK(got == want.str(), "printed " << got << " instead of " << want.str());
    } }
static multiset<string> edgeset(const HyperGraph& rg) { multiset<string> r; for(int i = 0; i < rg.NumEdges(); i++) { const RuleEdge* e = static_cast<const RuleEdge*>(rg.GetEdge(i)); string s = str(e->GetHead()->GetId()) + ":" + vstr(frag(e).edges) + ":"; for(size_t t = 0; t < e->GetTails().size(); t++) s += str(e->GetTail(t)->GetId()) + ","; ostringstream o; o << s << e->GetScore(); r.insert(o.str()); } return r; }
static string diff(const multiset<string>& a, const multiset<string>& b) { string s; for(multiset<string>::const_iterator i = a.begin(); i != a.end(); ++i) if(a.count(*i) != b.count(*i)) s += " extra/repeated " + *i; for(multiset<string>::const_iterator i = b.begin(); i != b.end(); ++i) if(!a.count(*i)) s += " missing " + *i; return s; }
int main() {
    GlobalVars::debug = 0; GlobalVars::trg_factors = 1; cerr.setstate(ios::failbit);
    init("random trees and packed forests over 1-6 words with unary chains, random alignments (crossing, many-to-many, unaligned words on both sides), random target labels; frontier, rules, composed rules, null attachment and rule text compared with their definitions");
    for(long it = 0; it < N(1500); it++) {
        memo.clear(); int L = R(1, 6), M = R(1, 6); bool forest = R(3) == 0; boost::shared_ptr<HyperGraph> g(new HyperGraph); G = g.get(); Sentence src, trg; for(int i = 0; i < L; i++) src.push_back(Dict::WID("w" + str(i))); for(int i = 0; i < M; i++) trg.push_back(Dict::WID("t" + str(i))); g->SetWords(src); grow(0, L, 0, forest); if(g->NumNodes() > 45) continue;
        Alignment al; int na = R(L + M); bool mono = R(3) == 0; for(int i = 0; i < na; i++) { int a = R(L), b = mono ? min(M - 1, a) : R(M); al.AddAlignment(make_pair(a, b)); } string d = tree(g->GetNode(0)) + " -> " + str(M) + " words, " + al.ToString();
        { Case("alignment text", al.ToString()); Alignment b = Alignment::FromString(al.ToString()); CHECK(b == al, "read back as " << b.ToString()); vector<set<int> > sa = al.GetSrcAlignments(); for(int i = 0; i < L; i++) for(int j = 0; j < M; j++) CHECK(al.Contains(i, j) == (i < (int)sa.size() && sa[i].count(j)), "link " << i << "-" << j); }
        // frontier by definition
        fr.clear(); map<const HyperNode*, set<int> > ts; for(int i = 0; i < g->NumNodes(); i++) { const HyperNode* n = g->GetNode(i); set<int> in, outw; for(set<pair<int,int> >::const_iterator a = al.GetAlignmentVector().begin(); a != al.GetAlignmentVector().end(); ++a) if(a->first >= n->GetSpan().first && a->first < n->GetSpan().second) in.insert(a->second); else outw.insert(a->second); ts[n] = in; if(n->IsTerminal() || in.empty()) continue; bool ok = true; for(int p = *in.begin(); p <= *in.rbegin(); p++) if(outw.count(p)) ok = false; if(ok) fr.insert(n); }
        ForestExtractor ex; boost::shared_ptr<HyperGraph> rg(ex.ExtractMinimalRules(*g, al)); Case("frontier", d, fr.size() > 2); map<const HyperNode*, int> idx; int k = 0; for(int i = 0; i < g->NumNodes(); i++) { const HyperNode* n = g->GetNode(i); CHECK((n->IsFrontier() == HyperNode::IS_FRONTIER) == (fr.count(n) > 0), "node " << Dict::WSym(n->GetSym()) << " over " << n->GetSpan().first << "-" << n->GetSpan().second); if(!n->IsTerminal() || 1) CHECK(n->IsTerminal() ? true : n->GetTrgSpan() == ts[n], "target span of " << Dict::WSym(n->GetSym()) << " " << sset(n->GetTrgSpan()) << " instead of " << sset(ts[n])); if(fr.count(n)) idx[n] = k++; }
        CHECK(rg->NumNodes() == k, rg->NumNodes() << " nodes instead of " << k); if(rg->NumNodes() != k) continue; for(map<const HyperNode*, int>::iterator i = idx.begin(); i != idx.end(); ++i) { const HyperNode* n = rg->GetNode(i->second); CHECK(n->GetSym() == i->first->GetSym() && n->GetSpan() == i->first->GetSpan() && n->GetTrgSpan() == ts[i->first] && n->GetId() == i->second, "node " << i->second); } CHECK(rg->GetWords() == src, "words");
        for(int q = 1; q <= 3; q++) { multiset<string> want; size_t tot = 0; for(map<const HyperNode*, int>::iterator i = idx.begin(); i != idx.end(); ++i) { vector<Frag> f = expand(i->first, q); tot += f.size(); if(tot > 3000) break; for(size_t j = 0; j < f.size(); j++) { string s = str(i->second) + ":" + vstr(f[j].edges) + ":"; for(size_t t = 0; t < f[j].vars.size(); t++) s += str(idx[f[j].vars[t]]) + ","; ostringstream o; o << s << f[j].score; want.insert(o.str()); } } if(tot > 3000) break;
            boost::shared_ptr<HyperGraph> cg; if(q == 1 && R(2)) cg = rg; else cg.reset(RuleComposer(q).TransformGraph(*rg)); Case(q == 1 ? "minimal rules" : "composed rules", str(q) + " " + d, want.size() > 3); multiset<string> got = edgeset(*cg); CHECK(got == want, diff(got, want)); for(int i = 0; i < cg->NumNodes(); i++) { int c = 0; for(int j = 0; j < cg->NumEdges(); j++) if(cg->GetEdge(j)->GetHead() == cg->GetNode(i)) c++; CHECK(c == (int)cg->GetNode(i)->GetEdges().size(), "edges of node " << i); }
            LabeledSpans labs; for(int x = R(8); x > 0; x--) { int a = R(M), b = R(a + 1, M); labs[make_pair(a, b)] = Dict::WID("L" + str(R(4))); } if(cg->NumEdges() < 120) rules(*cg, idx, src, trg, al, R(2) ? &labs : NULL, d);
            if(q == 2 && R(2)) { int ll = R(1, 3); boost::shared_ptr<HyperGraph> lg(RuleComposer(q, ll).TransformGraph(*rg)); Case("lexical rules", str(ll) + " " + d); multiset<string> l = edgeset(*lg), all; for(multiset<string>::iterator i = want.begin(); i != want.end(); ++i) CHECK(l.count(*i) == 1, "missing " << *i); for(int i = 0; i < lg->NumEdges(); i++) { const RuleEdge* e = static_cast<const RuleEdge*>(lg->GetEdge(i)); CHECK(l.count(*edgeset(*lg).begin()) >= 1, ""); int len = e->GetHead()->GetSpan().second - e->GetHead()->GetSpan().first; Frag f = frag(e); int fronts = 0; for(size_t x = 0; x < e->GetFragmentEdges().size(); x++) if(fr.count(e->GetFragmentEdges()[x]->GetHead())) fronts++; CHECK(fronts <= q || (len <= ll && e->GetTails().empty()), "rule of " << fronts << " minimal rules over " << len << " words"); } if(lg->NumEdges() < 60) rules(*lg, idx, src, trg, al, NULL, d); }
            // unaligned target words go to the highest node whose range contains them
            if(R(2)) { boost::shared_ptr<HyperGraph> tg(ex.AttachNullsTop(*cg, al, M)); Case("top attachment", d); vector<set<int> > want(tg->NumNodes()); for(int i = 0; i < tg->NumNodes(); i++) want[i] = cg->GetNode(i)->GetTrgSpan(); vector<int> st; if(tg->NumNodes()) st.push_back(0); set<int> done; while(!st.empty()) { int n = st.back(); st.pop_back(); if(!done.insert(n).second) continue; const HyperEdge* e = cg->GetNode(n)->GetEdge(0); int lo = n ? *cg->GetNode(n)->GetTrgSpan().begin() : 0, hi = n ? *cg->GetNode(n)->GetTrgSpan().rbegin() + 1 : M; set<int> cov; for(size_t t = 0; t < e->GetTails().size(); t++) { const set<int>& q2 = e->GetTail(t)->GetTrgSpan(); for(int p = *q2.begin(); p <= *q2.rbegin(); p++) cov.insert(p); st.push_back(e->GetTail(t)->GetId()); } for(int p = lo; p < hi; p++) if(!cov.count(p)) want[n].insert(p); } for(int i = 0; i < tg->NumNodes(); i++) CHECK(tg->GetNode(i)->GetTrgSpan() == want[i], "node " << i << " covers " << sset(tg->GetNode(i)->GetTrgSpan()) << " instead of " << sset(want[i])); CHECK(edgeset(*tg) == edgeset(*cg), "edges changed"); if(tg->NumEdges() < 60) rules(*tg, idx, src, trg, al, R(2) ? &labs : NULL, d + " top"); }
            if(q <= 2 && R(2) && cg->NumNodes()) { // every possible attachment
                int att = R(0, 2); ForestExtractor e2; e2.SetMaxAttach(att); e2.SetMaxNonterm(100); vector<bool> nul(M, true); for(set<pair<int,int> >::const_iterator a = al.GetAlignmentVector().begin(); a != al.GetAlignmentVector().end(); ++a) nul[a->second] = false;
                set<int> reach; vector<int> st(1, 0); while(!st.empty()) { int n = st.back(); st.pop_back(); if(!reach.insert(n).second) continue; for(size_t e = 0; e < cg->GetNode(n)->GetEdges().size(); e++) for(size_t t = 0; t < cg->GetNode(n)->GetEdge(e)->GetTails().size(); t++) st.push_back(cg->GetNode(n)->GetEdge(e)->GetTail(t)->GetId()); }
                map<int, vector<pair<int,int> > > exps; for(set<int>::iterator n = reach.begin(); n != reach.end(); ++n) { const set<int>& s = cg->GetNode(*n)->GetTrgSpan(); for(int i = *s.begin(); i >= max(0, *s.begin() - att) && (i == *s.begin() || nul[i]); i--) for(int j = *s.rbegin(); j < min(M, *s.rbegin() + 1 + att) && (j == *s.rbegin() || nul[j]); j++) exps[*n].push_back(make_pair(i, j)); }
                multiset<string> want, got; size_t nn = 1; for(size_t i = 0; i < exps[0].size(); i++) { ostringstream o; o << "root:" << Dict::WSym(cg->GetNode(0)->GetSym()) << exps[0][i].first << "-" << exps[0][i].second; want.insert(o.str()); }
                for(map<int, vector<pair<int,int> > >::iterator x = exps.begin(); x != exps.end(); ++x) { nn += x->second.size(); const HyperNode* n = cg->GetNode(x->first); for(size_t h = 0; h < x->second.size(); h++) for(size_t e = 0; e < n->GetEdges().size(); e++) { const RuleEdge* ed = static_cast<const RuleEdge*>(n->GetEdge(e)); size_t T = ed->GetTails().size(); vector<size_t> ix(T, 0); for(;;) { bool ok = true; set<int> used; ostringstream o; o << Dict::WSym(n->GetSym()) << x->second[h].first << "-" << x->second[h].second << "<-"; for(size_t t = 0; t < T; t++) { int c = ed->GetTail(t)->GetId(); pair<int,int> r = exps[c][ix[t]]; o << Dict::WSym(ed->GetTail(t)->GetSym()) << r.first << "-" << r.second << " "; for(int p = r.first; p <= r.second; p++) { if(!used.insert(p).second || p < x->second[h].first || p > x->second[h].second) ok = false; } } o << vstr(frag(ed).edges) << ed->GetScore(); if(ok) want.insert(o.str()); size_t t = 0; while(t < T && ++ix[t] == exps[ed->GetTail(t)->GetId()].size()) ix[t++] = 0; if(t == T) break; } } }
                if(want.size() < 3000) { boost::shared_ptr<HyperGraph> xg(e2.AttachNullsExhaustive(*cg, al, M)); Case("exhaustive attachment", str(att) + " " + d, want.size() > 5); CHECK(xg->NumNodes() == (int)nn, xg->NumNodes() << " nodes instead of " << nn); for(int i = 0; i < xg->NumNodes(); i++) CHECK(xg->GetNode(i)->GetId() == i, "id"); for(int i = 0; i < xg->NumEdges(); i++) { const RuleEdge* ed = static_cast<const RuleEdge*>(xg->GetEdge(i)); ostringstream o; const set<int>& hs = ed->GetHead()->GetTrgSpan(); if(ed->GetHead()->GetId() == 0) o << "root:"; else o << Dict::WSym(ed->GetHead()->GetSym()) << *hs.begin() << "-" << *hs.rbegin() << "<-"; for(size_t t = 0; t < ed->GetTails().size(); t++) { const set<int>& q2 = ed->GetTail(t)->GetTrgSpan(); o << Dict::WSym(ed->GetTail(t)->GetSym()) << *q2.begin() << "-" << *q2.rbegin() << (ed->GetHead()->GetId() ? " " : ""); } if(ed->GetHead()->GetId()) o << vstr(frag(ed).edges) << ed->GetScore(); got.insert(o.str()); } CHECK(got == want, diff(got, want)); } }
        }
        // composition of two rules with target sides
        { HyperNode h, t1, t2, u1, u2; h.SetId(0); t1.SetId(1); t2.SetId(2); u1.SetId(3); u2.SetId(4); h.SetSpan(make_pair(0, 4)); t1.SetSpan(make_pair(0, 2)); t2.SetSpan(make_pair(2, 4)); HyperNode* T[2] = {&t1, &t2}; int np = R(1, 2), tid = R(np), nc = R(3); RuleEdge p(&h), c(T[tid]); for(int i = 0; i < np; i++) p.AddTail(T[i]); HyperNode* U[2] = {&u1, &u2}; for(int i = 0; i < nc; i++) c.AddTail(U[i]); HyperEdge pe(&h), ce(T[tid]); p.AddFragmentEdge(&pe); c.AddFragmentEdge(&ce); int F = R(1, 2); CfgDataVector pd(F), cd(F); vector<Sentence> want(F); for(int f = 0; f < F; f++) { for(int i = 0; i < np; i++) pd[f].words.push_back(-1 - i); for(int w = R(3); w > 0; w--) pd[f].words.insert(pd[f].words.begin() + R(pd[f].words.size() + 1), R(5)); for(int i = 0; i < nc; i++) cd[f].words.push_back(-1 - i); for(int w = R(3); w > 0; w--) cd[f].words.insert(cd[f].words.begin() + R(cd[f].words.size() + 1), R(5)); if(R(2)) reverse(pd[f].words.begin(), pd[f].words.end()); if(R(2)) reverse(cd[f].words.begin(), cd[f].words.end());
              for(size_t x = 0; x < pd[f].words.size(); x++) { int w = pd[f].words[x]; if(w >= 0) want[f].push_back(w); else if(-1 - w < tid) want[f].push_back(w); else if(-1 - w > tid) want[f].push_back(-1 - (-1 - w + nc - 1)); else for(size_t y = 0; y < cd[f].words.size(); y++) want[f].push_back(cd[f].words[y] >= 0 ? cd[f].words[y] : -1 - (tid + -1 - cd[f].words[y])); } }
          p.SetTrgData(pd); c.SetTrgData(cd); p.SetScore(R(5)); c.SetScore(R(5)); Case("rule composition", vstr(pd[0].words) + " o " + vstr(cd[0].words)); boost::shared_ptr<RuleEdge> r(RuleComposer::ComposeEdge(p, c, tid)); CHECK((int)r->GetTrgData().size() == F, "factors"); for(int f = 0; f < F; f++) CHECK(r->GetTrgData()[f].words == want[f], "factor " << f << " gave " << vstr(r->GetTrgData()[f].words) << " instead of " << vstr(want[f])); vector<HyperNode*> tl; for(int i = 0; i < np; i++) if(i != tid) tl.push_back(T[i]); else for(int j = 0; j < nc; j++) tl.push_back(U[j]); CHECK(r->GetTails() == tl, "tails"); CHECK(r->GetScore() == p.GetScore() + c.GetScore() && r->GetHead() == &h && r->GetFragmentEdges().size() == 2, "score, head, fragments"); }
    }
    return done();
}
