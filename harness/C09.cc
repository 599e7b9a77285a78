// SRC: src/lib/*.cc src/tercpp/*.cpp src/liblbfgs/*.c src/kenlm/lm/*.cc src/kenlm/util/*.cc src/marisa/*.cc
// LIBS: -Wl,--unresolved-symbols=ignore-all
#include "h.hpp"
#include <travatar/hiero-extractor.h>
#include <travatar/alignment.h>
#include <travatar/dict.h>
#include <algorithm>
using namespace travatar; using namespace std; using namespace H;
typedef vector<int> VI; typedef HieroExtractor::PhrasePair PP;
static string pps(const PP& p) { return "[" + str(p.first.first) + "-" + str(p.first.second) + "/" + str(p.second.first) + "-" + str(p.second.second) + "]"; }
template <class S> static string diff(const S& a, const S& b) { string s = "got"; int k = 0; for(typename S::const_iterator i = a.begin(); i != a.end(); ++i) if(b.count(*i) != a.count(*i) && k++ < 4) s += " {" + str(*i) + "}x" + str(a.count(*i)); s += " wanted"; k = 0; for(typename S::const_iterator i = b.begin(); i != b.end(); ++i) if(b.count(*i) != a.count(*i) && k++ < 4) s += " {" + str(*i) + "}x" + str(b.count(*i)); return s; }
// one side of a rule: words of [a..b] with the spans replaced by x0, x1
static string side(const Sentence& w, pair<int,int> sp, const vector<pair<int,int> >& nt, VI* words, VI* seq) { string s; for(int i = sp.first; i <= sp.second; i++) { int x = -1; for(size_t k = 0; k < nt.size(); k++) if(i >= nt[k].first && i <= nt[k].second) x = k; if(x >= 0 && i != nt[x].first) continue; if(s.size()) s += " "; if(x >= 0) { s += "x" + str(x) + ":X"; seq->push_back(-1 - x); } else { s += "\"" + Dict::WSym(w[i]) + "\""; words->push_back(i); seq->push_back(w[i]); } } return s + " @ X"; }
int main() {
    init("random sentence pairs (1-9 words) with alignments from empty over permutations to dense, random length limits: extracted phrase pairs are compared with all consistent pairs, rules (words, variables, alignments) with all rules made from the tightest ones");
    for(long it = 0; it < N(8000); it++) {
        int n = R(1, R(4) ? 6 : 9), m = R(1, R(4) ? 6 : 9); Sentence src, trg; for(int i = 0; i < n; i++) src.push_back(Dict::WID("s" + str(R(3) ? i : 0))); for(int i = 0; i < m; i++) trg.push_back(Dict::WID("t" + str(R(3) ? i : 0)));
        set<pair<int,int> > ls; int style = R(4), nl = style == 0 ? R(3) : style == 1 ? R(n + m) : style == 2 ? R(n * 2) : min(n, m); VI perm; for(int i = 0; i < m; i++) perm.push_back(i); for(int i = m - 1; i > 0; i--) if(R(2)) swap(perm[i], perm[R(i + 1)]);
        for(int k = 0; k < nl; k++) { if(style == 3) { if(R(5)) ls.insert(make_pair(k, perm[k])); } else if(style == 2) { int i = R(n); ls.insert(make_pair(i, max(0, min(m - 1, i * m / n + R(-1, 1))))); } else ls.insert(make_pair(R(n), R(m))); }
        Alignment al; string d = str(n) + "x" + str(m); for(set<pair<int,int> >::iterator i = ls.begin(); i != ls.end(); ++i) { al.AddAlignment(*i); d += " " + str(i->first) + "-" + str(i->second); }
        HieroExtractor ex; int mp = R(3) ? R(1, 6) : 10, mt = R(3) ? R(1, 4) : 5; ex.SetMaxInitialPhrase(mp); ex.SetMaxTerminals(mt); d += " phrase<=" + str(mp) + " terminals<=" + str(mt) + " src " + Dict::PrintWords(src) + " trg " + Dict::PrintWords(trg);
        int ns = 0; for(set<pair<int,int> >::iterator i = ls.begin(); i != ls.end(); ++i) ns = max(ns, i->first + 1);
        vector<PP> want; for(int a = 0; a < ns; a++) for(int b = a; b < ns && b < a + mp; b++) for(int c = 0; c < m; c++) for(int e = c; e < m && e < c + mp; e++) { int in = 0; bool ok = true; for(set<pair<int,int> >::iterator i = ls.begin(); i != ls.end(); ++i) { bool x = i->first >= a && i->first <= b, y = i->second >= c && i->second <= e; if(x != y) ok = false; if(x && y) in++; } if(ok && in) want.push_back(make_pair(make_pair(a, b), make_pair(c, e))); }
        { Case("phrase pairs", d, want.size() > 2); vector<PP> got = ex.ExtractPhrase(al, src, trg); multiset<string> g, w; for(size_t i = 0; i < got.size(); i++) g.insert(pps(got[i])); for(size_t i = 0; i < want.size(); i++) w.insert(pps(want[i])); CHECK(g == w, diff(g, w)); }
        map<pair<int,int>, int> tight; for(size_t i = 0; i < want.size(); i++) { int len = want[i].second.second - want[i].second.first; if(!tight.count(want[i].first) || tight[want[i].first] > len) tight[want[i].first] = len; }
        vector<PP> tp; for(size_t i = 0; i < want.size(); i++) if(want[i].second.second - want[i].second.first == tight[want[i].first]) tp.push_back(want[i]);
        multiset<string> w, g; vector<multiset<string> > wg, gg;
        for(size_t i = 0; i < tp.size(); i++) { multiset<string> mine; vector<VI> sel(1); VI in; for(size_t j = 0; j < tp.size(); j++) { if(j == i || tp[j].first.first < tp[i].first.first || tp[j].first.second > tp[i].first.second || tp[j].second.first < tp[i].second.first || tp[j].second.second > tp[i].second.second) continue; in.push_back(j); sel.push_back(VI(1, j)); }
            for(size_t x = 0; x < in.size(); x++) for(size_t y = 0; y < in.size(); y++) { PP p = tp[in[x]], q = tp[in[y]]; if(p.first.second < q.first.first && (p.second.second < q.second.first || q.second.second < p.second.first)) { VI v; v.push_back(in[x]); v.push_back(in[y]); sel.push_back(v); } }
            for(size_t x = 0; x < sel.size(); x++) { vector<pair<int,int> > sn, tn; for(size_t k = 0; k < sel[x].size(); k++) { sn.push_back(tp[sel[x][k]].first); tn.push_back(tp[sel[x][k]].second); } VI sw, tw, ss, ts; string s = side(src, tp[i].first, sn, &sw, &ss) + " ||| " + side(trg, tp[i].second, tn, &tw, &ts); if((int)sw.size() > mt || (int)tw.size() > mt || sw.empty() || tw.empty()) continue; bool adj = false; for(size_t k = 1; k < ss.size(); k++) if(ss[k] < 0 && ss[k - 1] < 0) adj = true; if(adj) continue;
                multiset<string> as; for(size_t k = 0; k < sw.size(); k++) for(size_t l = 0; l < tw.size(); l++) if(ls.count(make_pair(sw[k], tw[l]))) as.insert(str(k) + "-" + str(l)); s += " |||"; for(multiset<string>::iterator k = as.begin(); k != as.end(); ++k) s += " " + *k; mine.insert(s + " {" + vstr(ss) + vstr(ts)); w.insert(s); }
            if(mine.size()) wg.push_back(mine); }
        Case("rules", d, w.size() > 3); vector<vector<HieroRule*> > got = ex.ExtractHieroRule(al, src, trg);
        for(size_t i = 0; i < got.size(); i++) { multiset<string> mine; CHECK(got[i].size() > 0, "empty group"); for(size_t j = 0; j < got[i].size(); j++) { HieroRule* r = got[i][j]; string s = r->ToString() + " |||"; multiset<string> as; for(size_t k = 0; k < r->GetAlignments().size(); k++) as.insert(str(r->GetAlignments()[k].first) + "-" + str(r->GetAlignments()[k].second)); for(multiset<string>::iterator k = as.begin(); k != as.end(); ++k) s += " " + *k; g.insert(s); mine.insert(s + " {" + vstr(r->GetSrcSent()) + vstr(r->GetTrgSent())); int nt = 0; for(size_t k = 0; k < r->GetSrcSent().size(); k++) nt += r->GetSrcSent()[k] < 0; CHECK(r->GetNumberOfNT() == nt, "number of variables " << r->GetNumberOfNT()); delete r; } gg.push_back(mine); }
        CHECK(g == w, diff(g, w)); sort(gg.begin(), gg.end()); sort(wg.begin(), wg.end()); if(g == w) CHECK(gg == wg, "rules grouped differently or words differ");
        // printed phrase pair
        if(want.size() && !R(4)) { PP p = want[R(want.size())]; string s; for(int k = p.first.first; k <= p.first.second; k++) s += (k > p.first.first ? " " : "") + Dict::WSym(src[k]); s += " ||| "; for(int k = p.second.first; k <= p.second.second; k++) s += (k > p.second.first ? " " : "") + Dict::WSym(trg[k]); Case("printed pairs", pps(p)); CHECK(HieroExtractor::PrintPhrasePair(p, src, trg) == s, HieroExtractor::PrintPhrasePair(p, src, trg)); }
    }
    return done();
}
