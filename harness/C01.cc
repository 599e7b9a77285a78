// SRC: src/lib/sparse-map.cc src/lib/dict.cc src/lib/symbol-set.cc
#include "h.hpp"
#include <travatar/sparse-map.h>
#include <travatar/dict.h>
using namespace travatar; using namespace std; using namespace H;
typedef map<int, double> M;
static vector<SparsePair> rv(bool dup) {
    vector<SparsePair> v; int n = R(7); set<int> seen;
    for(int i = 0; i < n; i++) { int k = R(9) - 2; if(!dup && seen.count(k)) continue; seen.insert(k); v.push_back(make_pair(k, (R(7) - 3) * 0.5 + (R(6) ? 0 : (R(5) - 2) * 1e-5))); }
    return v;
}
static M mod(const vector<SparsePair>& v) { M m; for(size_t i = 0; i < v.size(); i++) m[v[i].first] += v[i].second; return m; }
static double g(const M& m, int k) { M::const_iterator i = m.find(k); return i == m.end() ? 0 : i->second; }
static double g(const SparseMap& m, int k) { SparseMap::const_iterator i = m.find(k); return i == m.end() ? 0 : i->second; }
static double g(const SparseVector& m, int k) { double r = 0; for(size_t i = 0; i < m.GetImpl().size(); i++) if(m.GetImpl()[i].first == k) r += m.GetImpl()[i].second; return r; }
static bool srt(const SparseVector& m) { for(size_t i = 1; i < m.GetImpl().size(); i++) if(m.GetImpl()[i-1].first >= m.GetImpl()[i].first) return false; return true; }
static string s(const vector<SparsePair>& v) { ostringstream o; for(size_t i = 0; i < v.size(); i++) o << v[i].first << ":" << v[i].second << " "; return "{" + o.str() + "}"; }
template <class A> void eq(const A& a, const M& want, const char* op) { for(int k = -4; k < 9; k++) CHECK(close(g(a, k), g(want, k)), op << " gives " << g(a, k) << " for key " << k << ", expected " << g(want, k)); }
static M comb(const M& a, const M& b, double f) { M r = a; for(M::const_iterator i = b.begin(); i != b.end(); ++i) r[i->first] += f * i->second; return r; }
static SparseMap sm(const M& m) { SparseMap r; for(M::const_iterator i = m.begin(); i != m.end(); ++i) r[i->first] = i->second; return r; }
int main() {
    init("pairs of random entry lists over 9 keys with values in {-1.5..1.5 step .5}, compared against std::map arithmetic");
    for(long it = 0; it < N(6000); it++) {
        vector<SparsePair> va = rv(true), vb = rv(true); M a = mod(va), b = mod(vb); double f = (R(9) - 4) * 0.25;
        ostringstream d; d << s(va) << " , " << s(vb) << " , " << f;
        Case("vector", d.str(), va.size() && vb.size());
        SparseVector x(va), y(vb);
        CHECK(srt(x), "constructed vector not sorted by key"); eq(x, a, "vector constructor");
        { SparseVector t(x); t += y; CHECK(srt(t), "+= result not sorted"); eq(t, comb(a, b, 1), "vector +="); }
        { SparseVector t(x); t -= y; CHECK(srt(t), "-= result not sorted"); eq(t, comb(a, b, -1), "vector -="); }
        { SparseVector t = x + y; CHECK(srt(t), "+ result not sorted"); eq(t, comb(a, b, 1), "vector +"); }
        { SparseVector t = x - y; CHECK(srt(t), "- result not sorted"); eq(t, comb(a, b, -1), "vector -"); }
        { SparseVector t = x * f; M m = a; for(M::iterator i = m.begin(); i != m.end(); ++i) i->second *= f; eq(t, m, "vector * scalar"); CHECK(srt(t), "* result not sorted"); }
        { int k = R(9) - 2; double v = (R(5) - 2) * .5; SparseVector t(x); t.Add(k, v); M m = a; m[k] += v; eq(t, m, "vector Add"); CHECK(srt(t), "Add result not sorted"); }
        double dot = 0; for(M::iterator i = a.begin(); i != a.end(); ++i) dot += i->second * g(b, i->first);
        CHECK(close(x * y, dot), "vector dot " << x * y << " expected " << dot);
        { SparseMap t = x.ToMap(); eq(t, a, "ToMap"); CHECK(t.size() == x.GetImpl().size(), "ToMap size"); }
        { bool e = x.GetImpl().size() == y.GetImpl().size(); if(e) for(size_t i = 0; i < x.GetImpl().size(); i++) e = e && x.GetImpl()[i].first == y.GetImpl()[i].first && fabs(x.GetImpl()[i].second - y.GetImpl()[i].second) <= 1e-6; CHECK((x == y) == e && (x != y) == !e, "vector equality"); CHECK(x == x && !(x != x), "vector equality reflexive"); }
        Case("map", d.str(), va.size() && vb.size());
        SparseMap p = sm(a), q = sm(b);
        { SparseMap t = p; t += q; eq(t, comb(a, b, 1), "map +="); }
        { SparseMap t = p; t -= q; eq(t, comb(a, b, -1), "map -="); }
        eq(p + q, comb(a, b, 1), "map +"); eq(p - q, comb(a, b, -1), "map -");
        CHECK(close(p * q, dot), "map dot " << p * q << " expected " << dot); CHECK(close(q * p, dot), "map dot swapped");
        CHECK(close(p * y, dot), "map*vector dot " << p * y << " expected " << dot);
        { SparseMap t = p * f; M m = a; for(M::iterator i = m.begin(); i != m.end(); ++i) i->second *= f; eq(t, m, "map * scalar"); }
        { SparseMap t = p; t += y; eq(t, comb(a, b, 1), "map += vector"); }
        { SparseMap t = p; t -= y; eq(t, comb(a, b, -1), "map -= vector"); }
        eq(p + y, comb(a, b, 1), "map + vector"); eq(p - y, comb(a, b, -1), "map - vector");
        { double n = 0; for(M::iterator i = a.begin(); i != a.end(); ++i) n += fabs(i->second); SparseMap t = p; double den = 1 + R(4); NormalizeL1(t, den); M m = a; if(n) for(M::iterator i = m.begin(); i != m.end(); ++i) i->second *= den / n; eq(t, m, "NormalizeL1"); }
        { bool e = p.size() == q.size(); for(M::iterator i = a.begin(); e && i != a.end(); ++i) e = b.count(i->first) && fabs(b[i->first] - i->second) <= 1e-6; CHECK((p == q) == e && (p != q) == !e, "map equality"); CHECK(p == sm(a), "map equality reflexive"); }
    }
    return done();
}
