// SRC: src/lib/eval-measure.cc src/lib/eval-measure-bleu.cc src/lib/eval-measure-nist.cc src/lib/eval-measure-interp.cc src/lib/eval-measure-adv-interp.cc src/lib/eval-measure-loader.cc src/lib/eval-measure-wer.cc src/lib/eval-measure-ribes.cc src/lib/eval-measure-zeroone.cc src/lib/eval-measure-ter.cc src/lib/math-query.cc src/lib/sparse-map.cc src/lib/dict.cc src/lib/symbol-set.cc src/lib/cfg-data.cc src/tercpp/*.cpp
// LIBS: -Wl,--unresolved-symbols=ignore-all
#include "h.hpp"
#include <travatar/eval-measure-bleu.h>
#include <travatar/eval-measure-nist.h>
#include <travatar/eval-measure-wer.h>
#include <travatar/eval-measure-loader.h>
#include <travatar/eval-measure-interp.h>
#include <travatar/dict.h>
#include <boost/scoped_ptr.hpp>
using namespace travatar; using namespace std; using namespace H;
typedef map<vector<int>, int> Cn;
static Sentence rs(int lo = 0) { Sentence s; int n = R(lo, R(3) ? 7 : 16), v = R(1, 6); for(int i = 0; i < n; i++) s.push_back(R(v)); return s; }
static Sentence near(const Sentence& a) { Sentence s; for(size_t i = 0; i < a.size(); i++) { int k = R(8); if(k == 0) continue; s.push_back(k == 1 ? R(6) : a[i]); if(k == 2) s.push_back(R(6)); } return s; }
static string ss(const Sentence& s) { return vstr(s); }
static void ext(const Sentence& s, int order, Cn& c) { for(size_t i = 0; i < s.size(); i++) for(size_t j = i + 1; j <= s.size() && (int)(j - i) <= order; j++) c[Sentence(s.begin() + i, s.begin() + j)]++; }
struct B { int order; double smooth; bool sent; double prec; bool arith, inv, brev;
    string cfg() { ostringstream o; o << "bleu:order=" << order << ",smooth=" << smooth << ",scope=" << (sent ? "sentence" : "corpus") << ",prec=" << prec << ",mean=" << (arith ? "arith" : "geom") << ",inverse=" << (inv ? "true" : "false") << ",brev=" << (brev ? "true" : "false"); return o.str(); } };
static vector<double> bstats(const Sentence& r, const Sentence& s, int order) { Cn a, b; ext(r, order, a); ext(s, order, b); vector<double> v(3 * order, 0.0); for(int i = 0; i < order; i++) { v[3*i+1] = max(0, (int)s.size() - i); v[3*i+2] = max(0, (int)r.size() - i); } for(Cn::iterator i = b.begin(); i != b.end(); ++i) if(a.count(i->first)) v[3 * (i->first.size() - 1)] += min(i->second, a[i->first]); return v; }
// nan when undefined (division by zero), checked only when defined
static double bscore(const vector<double>& v, const B& b, vector<double>* sc = 0, double* bpo = 0) { double c = b.arith ? 0 : 1; for(int i = 0; i < b.order; i++) { double s = i ? b.smooth : 0, m = v[3*i] + s, y = v[3*i+1] + s, r = v[3*i+2] + s; double d = b.prec * y + (1 - b.prec) * r; double f = d == 0 ? 0 : m / d; if(b.inv) f = 1 - f; if(sc) sc->push_back(f); if(b.arith) c += f; else c *= f; }
    double bp = b.brev && v[1] < v[2] ? exp(1 - v[2] / v[1]) : 1; if(bpo) *bpo = bp; if(c == 0) return 0; return (b.arith ? c / b.order : pow(c, 1.0 / b.order)) * bp; }
struct Ni { int order; double beta; Cn c; int tot; };
static double info(Ni& n, const Sentence& g) { Sentence p(g.begin(), g.end() - 1); return log2((p.empty() ? n.tot : n.c[p]) / (double)n.c[g]); }
static vector<double> nstats(Ni& n, const Sentence& r, const Sentence& s) { Cn a, b; ext(r, n.order, a); ext(s, n.order, b); vector<double> v(2 * n.order + 1, 0.0); for(int i = 0; i < n.order; i++) v[2*i+1] = max(0, (int)s.size() - i); v[2 * n.order] = r.size(); for(Cn::iterator i = b.begin(); i != b.end(); ++i) if(a.count(i->first)) v[2 * (i->first.size() - 1)] += min(i->second, a[i->first]) * info(n, i->first); return v; }
static double nscore(Ni& n, const vector<double>& v) { double s = 0; for(int i = 0; i < n.order; i++) s += v[2*i+1] == 0 ? 0 : v[2*i] / v[2*i+1]; double ra = v[1] / v[2 * n.order]; double bp = ra >= 1 ? 1 : ra <= 0 ? 0 : exp(-n.beta * log(ra) * log(ra)); return s * bp; }
static bool veq(const vector<double>& a, const vector<double>& b, double eps = 1e-9) { if(a.size() != b.size()) return false; for(size_t i = 0; i < a.size(); i++) if(!close(a[i], b[i], eps)) return false; return true; }
static string cfgs; static EvalMeasure* made; template <class F> bool throws(F f) { try { f(); return false; } catch(std::exception&) { return true; } }
static void mk() { delete EvalMeasureLoader::CreateMeasureFromString(cfgs); }
// expected score of an interpolated measure
static double erd(const Sentence& a, const Sentence& b) { vector<vector<int> > d(a.size() + 1, vector<int>(b.size() + 1)); for(size_t i = 0; i <= a.size(); i++) for(size_t j = 0; j <= b.size(); j++) d[i][j] = !i ? (int)j : !j ? (int)i : min(min(d[i-1][j], d[i][j-1]) + 1, d[i-1][j-1] + (a[i-1] != b[j-1])); return d[a.size()][b.size()]; }
static void algebra(EvalMeasure* m, const string& name, bool vals) {
    vector<EvalStatsPtr> st; string d = name; for(int i = 0; i < 3; i++) { Sentence r = rs(1), s = R(2) ? near(r) : rs(1); if(s.empty()) s = r; st.push_back(m->CalculateStats(r, s)); d += " " + ss(r) + "/" + ss(s); }
    Case("algebra of statistics", d);
    EvalStats &a = *st[0], &b = *st[1], &c = *st[2];
    EvalStatsPtr ab = a.Plus(b), ba = b.Plus(a); CHECK(ab->Equals(*ba), "a+b differs from b+a"); CHECK(ab->Plus(c)->Equals(*a.Plus(*b.Plus(c))), "addition is not associative");
    EvalStatsPtr cl = a.Clone(); CHECK(cl->Equals(a) && a.Equals(*cl) && close(cl->ConvertToScore(), a.ConvertToScore()), "clone differs"); CHECK(cl->GetIdString() == a.GetIdString() && cl->ConvertToString() == a.ConvertToString(), "clone prints as " << cl->ConvertToString());
    cl->PlusEquals(b); CHECK(cl->Equals(*ab), "PlusEquals differs from Plus"); EvalStatsPtr a2 = m->CalculateStats(rs(1), rs(1)); 
    CHECK(a.Times(2)->Equals(*a.Plus(a)), "2a differs from a+a"); EvalStatsPtr z = a.Times(0); CHECK(z->IsZero(), "0a is not zero"); CHECK(a.Plus(*z)->Equals(a), "a+0 differs from a"); CHECK(close(a.Times(3)->ConvertToScore(), a.ConvertToScore(), 1e-6) || name.find("smooth") != string::npos, "the score is not invariant under scaling");
    EvalStatsPtr mi = a.Times(-1); CHECK(mi->Plus(a)->IsZero(), "a-a is not zero"); CHECK(a.Plus(b)->Times(.5)->Equals(*a.Times(.5)->Plus(*b.Times(.5))), "scaling does not distribute");
    { EvalStatsPtr t = a.Clone(); t->PlusEqualsTimes(b, -2.5); CHECK(t->Equals(*a.Plus(*b.Times(-2.5))), "PlusEqualsTimes differs from Plus of Times"); EvalStatsPtr x = a.Clone(); x->PlusEquals(*x); CHECK(x->Equals(*a.Times(2)), "a+=a"); }
    string w = a.WriteStats(); EvalStatsPtr rd = m->ReadStats(w); CHECK(rd->WriteStats() == w, "statistics written as " << w << " and read back as " << rd->WriteStats()); CHECK(close(rd->ConvertToScore(), a.ConvertToScore(), 1e-4), "score after reading back"); CHECK(rd->GetIdString() == a.GetIdString() || name.find("sentence") != string::npos, "kind after reading back"); rd->PlusEquals(b); CHECK(close(rd->ConvertToScore(), ab->ConvertToScore(), 1e-4), "sum after reading back");
    if(vals) { vector<double> va = a.GetVals(), vb = b.GetVals(), e = va; for(size_t i = 0; i < e.size(); i++) e[i] += vb[i]; CHECK(veq(ab->GetVals(), e), "sum is not pointwise: " << vstr(ab->GetVals())); vector<double> p = va; p[R(p.size())] += 1e-3; }
}
int main() {
    init("random reference/system pairs (related or not) of 0-16 words over 1-6 word types, corpora of 1-4 pairs, every BLEU/NIST option");
    for(long it = 0; it < N(1500); it++) {
        { B b; b.order = R(1, 5); b.smooth = R(2) ? 0 : R(1, 4) * .5; b.sent = !R(4); b.prec = R(2) ? 1 : R(5) * .25; b.arith = !R(3); b.inv = !R(4); b.brev = R(4); string cfg = b.cfg(); boost::scoped_ptr<EvalMeasure> m(EvalMeasureLoader::CreateMeasureFromString(cfg));
          int n = R(1, 4); EvalStatsPtr sum; vector<double> want; double savg = 0; string d = cfg; bool defd = true;
          for(int i = 0; i < n; i++) { Sentence r = rs(), s = R(3) ? near(r) : rs(); d += " " + ss(r) + "/" + ss(s); Case("BLEU", d, !s.empty()); vector<double> v = bstats(r, s, b.order); if(b.sent) { if(v[1] == 0 || v[2] == 0) { defd = false; break; } savg += bscore(v, b); }
            EvalStatsPtr p; if(R(2)) p = m->CalculateStats(r, s); else { vector<Sentence> rr(1, r), sss(1, s); p = m->CalculateCachedStats(rr, sss, R(3), R(3)); }
            if(!b.sent) CHECK(veq(p->GetVals(), v), "statistics " << vstr(p->GetVals()) << " expected " << vstr(v)); 
            if(want.empty()) want = v; else for(size_t k = 0; k < v.size(); k++) want[k] += v[k]; if(!sum) sum = R(2) ? p : p->Clone(); else sum->PlusEquals(*p); }
          if(defd && b.sent) CHECK(close(sum->ConvertToScore(), savg / n, 1e-7), "average " << sum->ConvertToScore() << " expected " << savg / n);
          bool ok = defd && !b.sent && want[1] > 0 && want[2] > 0; if(ok) { vector<double> sc; double bp; double e = bscore(want, b, &sc, &bp); bool fin = true; for(size_t i = 0; i < sc.size(); i++) fin = fin && sc[i] >= 0 && sc[i] <= 1; if(fin) { EvalStatsBleu* eb = dynamic_cast<EvalStatsBleu*>(sum.get()); CHECK(eb, "not BLEU statistics"); if(eb) { BleuReport rp = eb->CalcBleuReport(); CHECK(close(rp.bleu, e, 1e-7) && close(eb->ConvertToScore(), e, 1e-7), "score " << rp.bleu << " expected " << e); CHECK(veq(rp.scores, sc), "n-gram scores " << vstr(rp.scores) << " expected " << vstr(sc)); CHECK(close(rp.brevity, bp) && rp.sys_len == want[1] && rp.ref_len == want[2] && close(rp.ratio, want[1] / want[2]) && close(eb->GetLengthRatio(), want[1] / want[2]), "lengths"); CHECK(rp.bleu >= 0 && rp.bleu <= 1, "out of range"); CHECK(eb->GetNgramOrder() == b.order, "order");
            ostringstream o; o << (b.inv ? "INV_BLEU" : "BLEU") << " = " << rp.bleu << ", "; for(size_t i = 0; i < sc.size(); i++) o << (i ? "/" : "") << rp.scores[i]; o << " (BP=" << rp.brevity << ", ratio=" << rp.ratio << ", hyp_len=" << want[1] << ", ref_len=" << want[2] << ")"; CHECK(eb->ConvertToString() == o.str(), "printed as " << eb->ConvertToString());
            double al = 0; bool zero = false; for(int i = 0; i < b.order; i++) { double s = i ? b.smooth : 0, y = want[3*i+1] + s, mt = want[3*i] + s; if(y == 0 || mt == 0) zero = true; else al += log(mt / y); } if(!zero) CHECK(close(eb->GetAvgLogPrecision(), al / b.order), "average log precision"); } } }
          if(it % 4 == 0) { Sentence r = rs(1); Case("perfect match", ss(r)); B q = b; q.sent = false; q.inv = false; q.order = min<int>(b.order, r.size()); boost::scoped_ptr<EvalMeasure> mm(EvalMeasureLoader::CreateMeasureFromString(q.cfg())); CHECK(close(mm->CalculateStats(r, r)->ConvertToScore(), 1), "a sentence scores " << mm->CalculateStats(r, r)->ConvertToScore() << " against itself"); } }
        { Ni n; n.order = R(1, 5); n.beta = R(2) ? 4.21617361683 : R(1, 4); n.tot = 0; bool sent = !R(4); ostringstream o; o.precision(17); o << "nist:order=" << n.order << ",beta=" << n.beta << ",scope=" << (sent ? "sentence" : "corpus"); boost::scoped_ptr<EvalMeasure> m(EvalMeasureLoader::CreateMeasureFromString(o.str())); int k = R(1, 4); vector<vector<Sentence> > refs; string d = o.str(); for(int i = 0; i < k; i++) { refs.push_back(vector<Sentence>(1, rs(n.order))); n.tot += refs[i][0].size(); ext(refs[i][0], n.order, n.c); d += " " + ss(refs[i][0]); } m->InitializeWithReferences(refs); if(R(2)) m->InitializeWithReferences(refs);
          EvalStatsPtr sum; vector<double> want; double avg = 0; for(int i = 0; i < k; i++) { Sentence s = R(3) ? near(refs[i][0]) : rs(); if(s.empty()) s.push_back(R(6)); d += "/" + ss(s); Case("NIST", d); vector<double> v = nstats(n, refs[i][0], s); EvalStatsPtr p = m->CalculateStats(refs[i][0], s); if(!sent) CHECK(veq(p->GetVals(), v, 1e-6), "statistics " << vstr(p->GetVals()) << " expected " << vstr(v)); avg += nscore(n, v); if(want.empty()) want = v; else for(size_t j = 0; j < v.size(); j++) want[j] += v[j]; if(!sum) sum = p; else sum->PlusEquals(*p); } double e = sent ? avg / k : nscore(n, want); CHECK(close(sum->ConvertToScore(), e, 1e-6), "score " << sum->ConvertToScore() << " expected " << e); }
        { double c1 = R(1, 9) * .25, c2 = R(1, 9) * .25; ostringstream o; o << "interp:" << c1 << "|bleu:smooth=1|" << c2 << "|wer:reverse=true"; string d = o.str(); boost::scoped_ptr<EvalMeasure> m(EvalMeasureLoader::CreateMeasureFromString(d)); ostringstream o2; o2 << "ainterp:A|bleu:smooth=1|B|wer|" << c1 << "*A-" << c2 << "*B"; boost::scoped_ptr<EvalMeasure> m2(EvalMeasureLoader::CreateMeasureFromString(o2.str())); B b = {4, 1, false, 1, false, false, true}; EvalStatsPtr sum, sum2; vector<double> w(12, 0.0); double ed = 0, len = 0; int k = R(1, 3); for(int i = 0; i < k; i++) { Sentence r = rs(1), s = R(3) ? near(r) : rs(1); if(s.empty()) s = r; d += " " + ss(r) + "/" + ss(s); Case("interpolated", d); vector<double> v = bstats(r, s, 4); for(int j = 0; j < 12; j++) w[j] += v[j]; ed += erd(r, s); len += r.size(); vector<Sentence> rr(1, r), sv(1, s); EvalStatsPtr p = R(2) ? m->CalculateStats(r, s) : m->CalculateCachedStats(rr, sv), p2 = R(2) ? m2->CalculateStats(r, s) : m2->CalculateCachedStats(rr, sv); if(!sum) { sum = p; sum2 = p2; } else { sum->PlusEquals(*p); sum2->PlusEquals(*p2); } } double e = (c1 * bscore(w, b) + c2 * (1 - ed / len)) / (c1 + c2), e2 = c1 * bscore(w, b) - c2 * (ed / len); CHECK(close(sum->ConvertToScore(), e), "score " << sum->ConvertToScore() << " expected " << e); CHECK(close(sum2->ConvertToScore(), e2), o2.str() << " score " << sum2->ConvertToScore() << " expected " << e2);
          if(it % 3 == 0) { string nm = "interp:0.5|bleu|0.25|nist:order=2"; boost::scoped_ptr<EvalMeasure> mi(EvalMeasureLoader::CreateMeasureFromString(nm)); Sentence r = rs(2); Case("interpolation with NIST", ss(r)); vector<vector<Sentence> > refs(1, vector<Sentence>(1, r)); mi->InitializeWithReferences(refs); try { mi->CalculateStats(r, r); } catch(std::exception& ex) { CHECK(false, "references not passed on: " << ex.what()); } } }
        { const char* nm[] = {"bleu", "bleu:smooth=1", "bleu:scope=sentence,smooth=1", "wer", "wer:reverse=true", "ribes", "zeroone", "ter", "ter:inverse=true", "interp:0.4|bleu:smooth=1|0.6|ribes", "ainterp:A|wer|B|ribes|A+B", "interp:1|interp:0.4|2|bleu"}; int k = R(11); boost::scoped_ptr<EvalMeasure> m(EvalMeasureLoader::CreateMeasureFromString(nm[k])); algebra(m.get(), nm[k], k < 9); }
        { vector<double> a(R(1, 4)); for(size_t i = 0; i < a.size(); i++) a[i] = R(7) - 3; EvalStatsBleu x(a), y; Case("empty and mismatched", vstr(a)); y.PlusEquals(x); CHECK(y.Equals(x), "empty += a"); EvalStatsBleu z, e; z.PlusEqualsTimes(x, 2); CHECK(z.Equals(*x.Times(2)), "empty += 2a gives " << vstr(z.GetVals())); EvalStatsBleu q(a); q.PlusEquals(e); CHECK(q.Equals(x), "a += empty"); q.PlusEqualsTimes(e, 3); CHECK(q.Equals(x), "a += 3 empty"); vector<double> l(a.size() + 1, 1.0); EvalStatsBleu lo(l); bool t = false; try { q.PlusEquals(lo); } catch(std::exception&) { t = true; } CHECK(t, "sizes differ but no error"); t = false; try { q.PlusEqualsTimes(lo, 1); } catch(std::exception&) { t = true; } CHECK(t, "sizes differ but no error (times)"); CHECK(!q.Equals(lo), "different sizes equal"); vector<double> n = a; n[R(n.size())] += R(2) ? 1e-4 : -1e-4; CHECK(!EvalStatsBleu(n).Equals(x) && !x.Equals(EvalStatsBleu(n)), "different statistics equal"); bool zz = true; for(size_t i = 0; i < a.size(); i++) zz = zz && a[i] == 0; CHECK(x.IsZero() == zz, "IsZero");
          EvalStatsAverage av(3, 4); CHECK(av.ConvertToScore() == .75 && EvalStatsAverage(1, 0).ConvertToScore() == 0, "average"); }
    }
    const char* bad[] = {"bleu:order", "bleu:foo=1", "bleu:scope=x", "bleu:mean=x", "bleu:inverse=1", "bleu:brev=1", "nist:scope=x", "nist:foo=1", "wer:reverse=1", "wer:foo=1", "ribes:foo=1", "ter:inverse=x", "ter:x=1", "unknown", "interp:0.5", "interp:0.5|bleu|1", "bleu:order=x", "bleu:a=b=c", "ainterp:AA|bleu|A"};
    for(size_t i = 0; i < sizeof bad / sizeof *bad; i++) { cfgs = bad[i]; Case("ill-formed configuration", cfgs); CHECK(throws(mk), "accepted"); }
    { cfgs = "bleu:factor=1"; Case("factors", cfgs); boost::scoped_ptr<EvalMeasure> m(EvalMeasureLoader::CreateMeasureFromString(cfgs)); for(int i = 0; i < 50; i++) { vector<Sentence> r, s; for(int k = 0; k < 2; k++) { r.push_back(rs(4)); s.push_back(near(r[k])); } CHECK(m->CalculateCachedStats(r, s)->GetVals() == m->CalculateStats(r[1], s[1])->GetVals(), "wrong factor"); CfgDataVector cv; for(int k = 0; k < 2; k++) cv.push_back(CfgData(s[k])); CHECK(m->CalculateCachedStats(r, cv)->GetVals() == m->CalculateStats(r[1], s[1])->GetVals(), "wrong factor (columns)"); } }
    return done();
}
