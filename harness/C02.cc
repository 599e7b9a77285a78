// SRC: src/lib/sparse-map.cc src/lib/dict.cc src/lib/symbol-set.cc src/lib/cfg-data.cc
#include "h.hpp"
#include <travatar/sparse-map.h>
#include <travatar/dict.h>
#include <travatar/symbol-set.h>
#include <travatar/string-util.h>
#include <travatar/cfg-data.h>
#include <boost/thread.hpp>
using namespace travatar; using namespace std; using namespace H;
static string word() { static const char* al = "abcx019_\"'=<>&\\|:@-."; string s; int n = 1 + R(4); for(int i = 0; i < n; i++) s += al[R(R(3) ? 10 : 20)]; return s; }
static string plain() { string s; int n = 1 + R(3); for(int i = 0; i < n; i++) s += (char)('a' + R(5)); return s; }
static string esc(const string& s) { string r; for(size_t i = 0; i < s.size(); i++) { if(s[i] == '"' || s[i] == '\\') r += '\\'; r += s[i]; } return r; }
static string xml(const string& s) { string r; for(size_t i = 0; i < s.size(); i++) switch(s[i]) { case '&': r += "&amp;"; break; case '"': r += "&quot;"; break; case '\'': r += "&apos;"; break; case '<': r += "&lt;"; break; case '>': r += "&gt;"; break; default: r += s[i]; } return r; }
template <class F> bool throws(F f) { try { f(); return false; } catch(std::exception&) { return true; } }
static string bad; static void pb() { Dict::ParseAnnotatedWords(bad); } static void ps() { Dict::ParseSparseMap(bad); } static void pv() { Dict::ParseSparseVector(bad); }
static CfgData rc(bool withlabel) {
    CfgData d; int n = R(6); for(int i = 0; i < n; i++) d.words.push_back(R(2) ? Dict::WID(word()) : -1 - R(14));
    int top = 0; for(int i = 0; i < n; i++) top = max(top, -d.words[i]);
    for(int i = 0; i < top; i++) { bool used = false; for(int j = 0; j < n; j++) used = used || d.words[j] == -1 - i; d.syms.push_back(used && R(4) ? Dict::WID(plain()) : -1); }
    while(d.syms.size() && d.syms.back() == -1) d.syms.pop_back();
    if(withlabel) d.label = Dict::WID(plain());
    return d;
}
static map<string,int> known;
struct Th { int id; vector<int> ids; void operator()() { for(int i = 0; i < 400; i++) { ostringstream o; o << "thr" << (i * 7 + id) % 500; ids.push_back(Dict::WID(o.str())); if(Dict::WSym(ids.back()) != o.str()) ids.back() = -7; } } };
int main() {
    init("random symbols over a punctuation-heavy alphabet, rule sides with 0-5 items, sparse vectors, texts with random white space");
    for(long it = 0; it < N(4000); it++) {
        string w = word();
        Case("symbols", w);
        int id = Dict::WID(w);
        CHECK(id >= 0 && Dict::WSym(id) == w, "symbol of id " << id << " is " << Dict::WSym(id));
        CHECK(!known.count(w) || known[w] == id, "id changed from " << known[w] << " to " << id); known[w] = id; CHECK(Dict::WID(w) == id, "second lookup differs");
        if(it % 200 == 0) { set<int> s; for(map<string,int>::iterator i = known.begin(); i != known.end(); ++i) { CHECK(s.insert(i->second).second, "two symbols share id " << i->second); CHECK(Dict::WSym(i->second) == i->first, "id " << i->second << " renamed"); } }
        Case("symbolset", w);
        { bool safe = R(2); SymbolSet<int> t(safe); vector<string> all; int n = 1 + R(6); for(int i = 0; i < n; i++) { string x = word(); size_t before = t.size(); bool seen = false; int at = -1; for(size_t k = 0; k < all.size(); k++) if(all[k] == x) { seen = true; at = k; }
            CHECK(t.GetId(x) == at, "lookup without adding gives " << t.GetId(x) << " expected " << at); CHECK(t.size() == before, "lookup added a symbol");
            int g = t.GetId(x, true); CHECK(g == (seen ? at : (int)all.size()), "id " << g); if(!seen) all.push_back(x); CHECK(t.size() == all.size() && t.hashCapacity() == all.size(), "size " << t.size()); }
          SymbolSet<int> c(t); c.GetId("zzzz_new", true); CHECK(t.size() == all.size(), "copy shares storage"); for(size_t k = 0; k < all.size(); k++) CHECK(c.GetSymbol(k) == all[k] && t.GetSymbol(k) == all[k] && c.GetId(all[k]) == (int)k, "copied table differs at " << k);
          stringstream ss; t.ToStream(ss); SymbolSet<int>* r = SymbolSet<int>::FromStream(ss); CHECK(r->size() == all.size(), "stream size"); for(size_t k = 0; k < all.size() && k < r->size(); k++) CHECK(r->GetSymbol(k) == all[k] && r->GetId(all[k]) == (int)k, "table read back differs at " << k); delete r; }
        { vector<string> ws; string txt = R(3) ? "" : " "; int n = R(5); for(int i = 0; i < n; i++) { ws.push_back(word()); if(i) txt += R(3) ? " " : R(2) ? "\t " : "\n"; txt += ws.back(); } if(!R(3)) txt += " ";
          Case("words", txt, n > 0); Sentence s = Dict::ParseWords(txt); CHECK(s.size() == ws.size(), "parsed " << s.size() << " words"); string j; for(int i = 0; i < n && i < (int)s.size(); i++) { CHECK(Dict::WSym(s[i]) == ws[i], "word " << i << " is " << Dict::WSym(s[i])); if(i) j += " "; j += ws[i]; } CHECK(Dict::PrintWords(s) == j, "printed " << Dict::PrintWords(s)); }
        { int n = 1 + R(3); CfgDataVector v; vector<Sentence> sv; bool nt = false; for(int i = 0; i < n; i++) { v.push_back(rc(R(2))); nt = nt || v.back().words.size(); }
          string p = Dict::PrintAnnotatedVector(v); Case("rule side", p, nt); CfgDataVector b; try { b = Dict::ParseAnnotatedVector(p); } catch(std::exception& e) { CHECK(false, "rejected: " << e.what()); continue; }
          CHECK(b.size() == v.size(), "columns " << b.size()); for(size_t i = 0; i < b.size() && i < v.size(); i++) { CHECK(b[i].words == v[i].words, "column " << i << " words " << vstr(b[i].words) << " expected " << vstr(v[i].words)); CHECK(b[i].label == v[i].label, "column " << i << " label"); for(int k = 0; k < 15; k++) CHECK(b[i].GetSym(k) == v[i].GetSym(k), "column " << i << " symbol " << k); }
          string w1; for(int i = 0; i < n; i++) { Sentence s; int m = R(4); for(int k = 0; k < m; k++) s.push_back(Dict::WID(plain())); sv.push_back(s); if(i) w1 += " |COL| "; w1 += Dict::PrintWords(s); }
          CfgDataVector cv; for(int i = 0; i < n; i++) cv.push_back(CfgData(sv[i])); CHECK(Dict::PrintWords(cv) == w1, "columns printed as " << Dict::PrintWords(cv)); vector<Sentence> pv = Dict::ParseWordVector(w1); CHECK(pv == sv, "columns of " << w1 << " not read back"); }
        { string t = plain(); bad = R(2) ? "x" : R(2) ? t + " @" : "\"a\" @ b c"; bool expect = bad == "x" || bad[bad.size() - 1] == '@' || bad[bad.size()-1] == 'c'; Case("bad rule", bad); if(expect) CHECK(throws(pb), "ill-formed rule accepted");
          bad = "x0"; CHECK(!throws(pb), "x0 rejected"); bad = "x1;A"; CHECK(throws(pb), "x1;A accepted"); bad = "word"; CHECK(throws(pb), "unquoted word accepted"); bad = "abc"; CHECK(throws(ps), "feature without = accepted"); CHECK(throws(pv), "feature without = accepted (vector)"); bad = "a=1 a=2"; CHECK(throws(ps), "duplicate feature accepted"); }
        { SparseMap m; map<string,double> mm; int n = R(5); for(int i = 0; i < n; i++) { string f = word(); double v = (R(41) - 20) * .25; if(v == 0) v = 1; m[Dict::WID(f)] = v; mm[f] = v; }
          string p = Dict::PrintSparseMap(m); Case("sparse", p, n > 0); SparseMap q = Dict::ParseSparseMap(p); CHECK(q == m && q.size() == m.size(), "map read back as " << Dict::PrintSparseMap(q)); SparseVector v = SparseVector(vector<SparsePair>(m.begin(), m.end())); string pv = Dict::PrintSparseVector(v); CHECK(Dict::ParseSparseVector(pv) == v, "vector read back differs");
          for(map<string,double>::iterator i = mm.begin(); i != mm.end(); ++i) { ostringstream o; o << i->first << "=" << i->second; CHECK((" " + p + " ").find(" " + o.str() + " ") != string::npos, o.str() << " missing from the printed map"); } }
        { string t = word() + (R(2) ? " " : "") + word(); Case("escape", t); CHECK(Dict::EscapeString(t) == esc(t), "EscapeString gives " << Dict::EscapeString(t)); CHECK(EscapeQuotes(t) == esc(t), "EscapeQuotes gives " << EscapeQuotes(t)); CHECK(Dict::EncodeXML(t) == xml(t), "EncodeXML gives " << Dict::EncodeXML(t));
          CHECK(Dict::WSymEscaped(Dict::WID(t)) == '"' + esc(t) + '"', "WSymEscaped"); CHECK(Dict::WSymEscaped(-3) == "-3", "WSymEscaped of a nonterminal"); }
        { string d = R(2) ? "|" : R(2) ? "ab" : " |COL| "; string t; vector<string> want(1); int n = R(6); for(int i = 0; i < n; i++) { if(R(2)) { want.push_back(""); t += d; } else { string x = R(4) ? string(1, 'c' + R(3)) : " "; want.back() += x; t += x; } }
          Case("tokenize", "'" + t + "' at '" + d + "'", n > 0); CHECK(Tokenize(t, d) == want, "pieces " << vstr(Tokenize(t, d)) << " expected " << vstr(want)); if(d.size() == 1) { CHECK(Tokenize(t, d[0]) == want, "pieces (character) " << vstr(Tokenize(t, d[0]))); CHECK(FirstToken(t, d[0]) == want[0], "first piece"); } }
    }
    { Case("threads", "four threads interning overlapping names"); vector<Th> th(4); boost::thread_group g; for(int i = 0; i < 4; i++) th[i].id = i; for(int i = 0; i < 4; i++) g.create_thread(boost::ref(th[i])); g.join_all();
      for(int i = 0; i < 4; i++) for(int k = 0; k < 400; k++) { ostringstream o; o << "thr" << (k * 7 + i) % 500; CHECK(th[i].ids[k] == Dict::WID(o.str()), "thread " << i << " got id " << th[i].ids[k] << " for " << o.str()); } }
    { Case("frozen", "lookup after Freeze"); int k = Dict::WID("known_word"); Dict::Freeze(); CHECK(Dict::WID("never_seen_word") == -1, "frozen dictionary grew"); CHECK(Dict::WID("known_word") == k, "frozen dictionary forgot a word"); }
    return done();
}
