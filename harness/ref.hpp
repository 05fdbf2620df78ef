// Boring reference models: exponent vectors, sparse polynomials over Q kept in
// a sorted map, textbook Buchberger, Janet division by its definition.
// Nothing here uses GInv.
#ifndef REF_HPP
#define REF_HPP
#include <gmpxx.h>
#include <map>
#include <set>
#include <string>
#include <vector>
#include <algorithm>
#include <cstdio>

namespace ref {

enum { TOP=0x10, POT=0x20, LEX=1, DEGLEX=2, ALEX=4 };

struct Mon {
  std::vector<int> e;
  int pos;
  Mon(): pos(-1) {}
  Mon(std::vector<int> e_, int p=-1): e(std::move(e_)), pos(p) {}
  int n() const { return (int)e.size(); }
  int deg() const { int d=0; for(int x: e) d += x; return d; }
  bool operator==(const Mon& o) const { return pos == o.pos && e == o.e; }
  bool operator!=(const Mon& o) const { return !(*this == o); }
  bool operator<(const Mon& o) const { return pos != o.pos ? pos < o.pos : e < o.e; } // for containers only
  std::string str() const {
    std::string s="[";
    if (pos >= 0) s += std::to_string(pos) + ":";
    for(size_t i=0; i < e.size(); i++) s += (i ? " " : "") + std::to_string(e[i]);
    return s + "]";
  }
};

inline Mon mul(const Mon& a, const Mon& b) {
  Mon r(a);
  for(int i=0; i < a.n(); i++) r.e[i] += b.e[i];
  if (a.pos < 0) r.pos = b.pos;
  return r;
}
inline bool divides(const Mon& d, const Mon& m) { // d | m
  if (d.pos != -1 && d.pos != m.pos) return false;
  for(int i=0; i < d.n(); i++) if (d.e[i] > m.e[i]) return false;
  return true;
}
inline Mon quo(const Mon& m, const Mon& d) {
  Mon r(m);
  for(int i=0; i < d.n(); i++) r.e[i] -= d.e[i];
  if (d.pos == m.pos) r.pos = -1;
  return r;
}
inline Mon lcm(const Mon& a, const Mon& b) {
  Mon r(a);
  for(int i=0; i < a.n(); i++) r.e[i] = std::max(a.e[i], b.e[i]);
  return r;
}

// -1, 0, 1
inline int cmpMon(int ord, const Mon& a, const Mon& b) {
  int o=ord & 0xf;
  if (o == LEX) {
    for(int i=0; i < a.n(); i++) if (a.e[i] != b.e[i]) return a.e[i] > b.e[i] ? 1 : -1;
    return 0;
  }
  int da=a.deg(), db=b.deg();
  if (o == DEGLEX) { // total degree, ties: the last variable that differs, smaller exponent is greater
    if (da != db) return da > db ? 1 : -1;
    for(int i=a.n()-1; i >= 0; i--) if (a.e[i] != b.e[i]) return a.e[i] < b.e[i] ? 1 : -1;
    return 0;
  }
  // anti-graded: smaller total degree is greater, ties: lex
  if (da != db) return da < db ? 1 : -1;
  for(int i=0; i < a.n(); i++) if (a.e[i] != b.e[i]) return a.e[i] > b.e[i] ? 1 : -1;
  return 0;
}
inline int cmp(int ord, const Mon& a, const Mon& b) {
  if (ord & POT) {
    if (a.pos != b.pos) return a.pos > b.pos ? 1 : -1;
    return cmpMon(ord, a, b);
  }
  int r=cmpMon(ord, a, b);
  if (r == 0 && a.pos != b.pos) r = a.pos > b.pos ? 1 : -1;
  return r;
}

struct Less { int ord; bool operator()(const Mon& a, const Mon& b) const { return cmp(ord, a, b) > 0; } }; // greatest first

typedef mpq_class Q;
struct Poly {
  int ord;
  std::map<Mon, Q, Less> t;
  explicit Poly(int o=TOP|LEX): ord(o), t(Less{o}) {}
  bool zero() const { return t.empty(); }
  const Mon& lm() const { return t.begin()->first; }
  const Q& lc() const { return t.begin()->second; }
  void addTerm(const Mon& m, const Q& c) {
    if (c == 0) return;
    auto i=t.find(m);
    if (i == t.end()) t.emplace(m, c);
    else { i->second += c; if (i->second == 0) t.erase(i); }
  }
  std::string str() const {
    if (t.empty()) return "0";
    std::string s;
    for(auto& x: t) { if (!s.empty()) s += " + "; s += x.second.get_str() + "*" + x.first.str(); }
    return s;
  }
  bool operator==(const Poly& o) const {
    if (t.size() != o.t.size()) return false;
    auto j=o.t.begin();
    for(auto i=t.begin(); i != t.end(); ++i, ++j) if (i->first != j->first || i->second != j->second) return false;
    return true;
  }
};
inline Poly addmul(const Poly& a, const Q& c, const Mon& m, const Poly& b) { // a + c*m*b
  Poly r(a);
  for(auto& x: b.t) r.addTerm(mul(x.first, m), x.second*c);
  return r;
}
inline Poly one(const Poly& a, const Q& c) { Poly r(a.ord); for(auto& x: a.t) r.addTerm(x.first, x.second*c); return r; }
inline Poly add(const Poly& a, const Poly& b) { Poly r(a); for(auto& x: b.t) r.addTerm(x.first, x.second); return r; }
inline Poly sub(const Poly& a, const Poly& b) { Poly r(a); for(auto& x: b.t) r.addTerm(x.first, -x.second); return r; }
inline Poly mul(const Poly& a, const Poly& b) {
  Poly r(a.ord);
  for(auto& x: a.t) for(auto& y: b.t) r.addTerm(mul(x.first, y.first), x.second*y.second);
  return r;
}
inline Poly monic(const Poly& a) { return a.zero() ? a : one(a, 1/Q(a.lc())); }
// primitive integer multiple with the sign of the leading coefficient kept
inline Poly primitive(const Poly& a) {
  if (a.zero()) return a;
  mpz_class l=1, g=0;
  for(auto& x: a.t) { mpz_class d=x.second.get_den(); mpz_class t; mpz_lcm(t.get_mpz_t(), l.get_mpz_t(), d.get_mpz_t()); l = t; }
  for(auto& x: a.t) { mpz_class v=Q(x.second*l).get_num(); mpz_class t; mpz_gcd(t.get_mpz_t(), g.get_mpz_t(), v.get_mpz_t()); g = t; }
  return one(a, Q(l)/Q(g));
}
inline bool proportional(const Poly& a, const Poly& b) { return monic(a) == monic(b); }

// full normal form over a list
inline Poly nf(Poly p, const std::vector<Poly>& G) {
  Poly r(p.ord);
  while(!p.zero()) {
    const Poly* d=nullptr;
    for(auto& g: G) if (divides(g.lm(), p.lm()) && g.lm().pos == p.lm().pos) { d = &g; break; }
    if (d) p = addmul(p, -p.lc()/d->lc(), quo(p.lm(), d->lm()), *d);
    else { r.t.emplace(p.lm(), p.lc()); p.t.erase(p.t.begin()); }
  }
  return r;
}
inline Poly spoly(const Poly& a, const Poly& b) {
  Mon l=lcm(a.lm(), b.lm());
  Poly x(a.ord);
  x = addmul(x, 1/Q(a.lc()), quo(l, a.lm()), a);
  return addmul(x, -1/Q(b.lc()), quo(l, b.lm()), b);
}
// reduced Groebner basis (monic), sorted by ascending leading monomial
inline std::vector<Poly> groebner(const std::vector<Poly>& F) {
  std::vector<Poly> G;
  std::vector<std::pair<int,int>> P;
  auto push=[&](const Poly& p) {
    for(size_t i=0; i < G.size(); i++)
      if (G[i].lm().pos == p.lm().pos) P.push_back(std::make_pair((int)i, (int)G.size()));
    G.push_back(monic(p));
  };
  for(auto& f: F) { Poly r=nf(f, G); if (!r.zero()) push(r); }
  while(!P.empty()) {
    // smallest lcm first
    size_t b=0;
    for(size_t k=1; k < P.size(); k++)
      if (cmp(F[0].ord, lcm(G[P[k].first].lm(), G[P[k].second].lm()), lcm(G[P[b].first].lm(), G[P[b].second].lm())) < 0) b = k;
    auto pr=P[b];
    P.erase(P.begin() + b);
    const Mon &x=G[pr.first].lm(), &y=G[pr.second].lm();
    if (x.pos < 0) { // coprime leading monomials (ideals only)
      bool cop=true;
      for(int i=0; i < x.n(); i++) if (x.e[i] && y.e[i]) { cop = false; break; }
      if (cop) continue;
    }
    Poly r=nf(spoly(G[pr.first], G[pr.second]), G);
    if (!r.zero()) push(r);
  }
  // reduce
  std::vector<Poly> M;
  for(size_t i=0; i < G.size(); i++) {
    bool red=false;
    for(size_t j=0; j < G.size() && !red; j++)
      if (i != j && G[j].lm().pos == G[i].lm().pos && divides(G[j].lm(), G[i].lm()) && (G[j].lm() != G[i].lm() || j < i)) red = true;
    if (!red) M.push_back(G[i]);
  }
  std::vector<Poly> R;
  for(size_t i=0; i < M.size(); i++) {
    std::vector<Poly> O;
    for(size_t j=0; j < M.size(); j++) if (j != i) O.push_back(M[j]);
    R.push_back(monic(nf(M[i], O)));
  }
  std::sort(R.begin(), R.end(), [](const Poly& a, const Poly& b) { return cmp(a.ord, a.lm(), b.lm()) < 0; });
  return R;
}

// Janet division by definition: x_i is non-multiplicative for u in U when some
// v in U of the same component agrees with u before i and exceeds it at i.
inline std::vector<bool> janetNM(const std::vector<Mon>& U, const Mon& u) {
  std::vector<bool> nm(u.n(), false);
  for(auto& v: U) {
    if (v.pos != u.pos) continue;
    for(int i=0; i < u.n(); i++) {
      if (v.e[i] > u.e[i]) { nm[i] = true; break; }
      if (v.e[i] < u.e[i]) break;
    }
  }
  return nm;
}
inline bool involutiveDivides(const std::vector<bool>& nm, const Mon& u, const Mon& m) {
  if (u.pos != m.pos) return false;
  for(int i=0; i < u.n(); i++)
    if (m.e[i] < u.e[i] || (m.e[i] > u.e[i] && nm[i])) return false;
  return true;
}

inline void allMons(int n, int deg, std::vector<std::vector<int>>& out, std::vector<int>& cur) {
  if ((int)cur.size() == n-1) { cur.push_back(deg); out.push_back(cur); cur.pop_back(); return; }
  for(int i=deg; i >= 0; i--) { cur.push_back(i); allMons(n, deg-i, out, cur); cur.pop_back(); }
}
// all exponent vectors of total degree in [d0,d1], by degree then lex descending
inline std::vector<std::vector<int>> monomials(int n, int d0, int d1) {
  std::vector<std::vector<int>> out;
  std::vector<int> cur;
  for(int d=d0; d <= d1; d++) allMons(n, d, out, cur);
  return out;
}

} // namespace ref
#endif
