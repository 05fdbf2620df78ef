// Oracle for a finished JanetPolyInt against the generators that were pushed.
#ifndef GBCHECK_HPP
#define GBCHECK_HPP
#include "glue.hpp"

namespace gbcheck {
using namespace GInv;
using mc::Ctx;

struct Basis {
  std::vector<ref::Poly> G;       // as stored, in list order
  std::vector<ref::Mon> lm;
  std::vector<const WrapPolyInt*> w;
};

inline Basis read(const JanetPolyInt& b) {
  Basis r;
  for(GCListWrapPolyInt::ConstIterator k(b.begin()); k; ++k) {
    r.G.push_back(glue::rdPoly(k.data()->poly()));
    r.lm.push_back(glue::rdMonom(k.data()->poly().lm()));
    r.w.push_back(k.data());
  }
  return r;
}

// ideal/module equality: same reduced Groebner basis
inline void checkGroebner(Ctx& c, const JanetPolyInt& B, const std::vector<ref::Poly>& F, const std::vector<ref::Poly>& R, int n, int ord) {
  bool unit=R.size() == 1 && R[0].lm().deg() == 0 && R[0].lm().pos == -1;

  c.check(B.isOne() == unit, "isOne() is %d but the ideal is %s", (int)B.isOne(), unit ? "the whole ring" : "proper");
  if (unit) {
    c.check(B.size() == 1, "size() of the unit ideal is %d", B.size());
    return;
  }
  Basis b=read(B);
  c.check((int)b.G.size() == B.size(), "size()=%d but %zu polynomials are listed", B.size(), b.G.size());
  for(size_t i=0; i < b.G.size(); i++) {
    std::string d=glue::polyDefect(b.w[i]->poly());
    c.check(d.empty(), "basis element %zu: %s", i, d.c_str());
    c.check(!b.G[i].zero(), "basis element %zu is zero", i);
    c.check(ref::nf(b.G[i], R).zero(), "basis element %s is not in the ideal", b.G[i].str().c_str());
  }
  // leading monomials generate the leading ideal
  for(auto& r: R) {
    bool hit=false;
    for(auto& m: b.lm) if (m.pos == r.lm().pos && ref::divides(m, r.lm())) { hit = true; break; }
    c.check(hit, "no basis element has a leading monomial dividing %s, the leading monomial of an ideal element: not a Groebner basis",
            r.lm().str().c_str());
  }
}

// involutivity: every non-multiplicative prolongation of a leading monomial has
// a Janet divisor, hence every monomial of the leading ideal has exactly one
inline void checkInvolutive(Ctx& c, const JanetPolyInt& B, int n) {
  if (B.isOne()) return;
  Basis b=read(B);
  std::vector<std::vector<bool>> nm;
  for(auto& m: b.lm) nm.push_back(ref::janetNM(b.lm, m));
  for(size_t i=0; i < b.lm.size(); i++) {
    for(size_t j=0; j < i; j++) c.check(b.lm[i] != b.lm[j], "two basis elements share the leading monomial %s", b.lm[i].str().c_str());
    c.check(glue::rdMonom(b.w[i]->lm()) == b.lm[i], "the recorded leading monomial %s is stale, the polynomial has %s",
            glue::rdMonom(b.w[i]->lm()).str().c_str(), b.lm[i].str().c_str());
    for(int v=0; v < n; v++) {
      c.check(b.w[i]->NM(v) == nm[i][v], "x%d is %smultiplicative for %s by Janet's definition, the basis says otherwise", v,
              nm[i][v] ? "non-" : "", b.lm[i].str().c_str());
      if (!nm[i][v]) continue;
      ref::Mon p=b.lm[i]; p.e[v]++;
      bool hit=false;
      for(size_t k=0; k < b.lm.size() && !hit; k++) hit = ref::involutiveDivides(nm[k], b.lm[k], p);
      c.check(hit, "the prolongation %s = x%d*%s has no Janet divisor: the basis is not involutive", p.str().c_str(), v, b.lm[i].str().c_str());
    }
  }
}
// find(): the unique Janet divisor, for all monomials up to a degree
inline void checkFind(Ctx& c, const JanetPolyInt& B, const std::vector<ref::Poly>& R, int n, int maxdeg, const std::vector<int>& comps) {
  if (B.isOne()) {
    Allocator al[1];
    Monom m=glue::mkMonom(al, ref::Mon(std::vector<int>(n, 1)));
    c.check(B.find(m) != nullptr, "nothing is found in the whole ring");
    return;
  }
  Basis b=read(B);
  std::vector<std::vector<bool>> nm;
  for(auto& m: b.lm) nm.push_back(ref::janetNM(b.lm, m));
  Allocator al[1];
  for(int pos: comps)
    for(auto& e: ref::monomials(n, 0, maxdeg)) {
      ref::Mon m(e, pos);
      int hit=-1;
      for(size_t k=0; k < b.lm.size(); k++) if (ref::involutiveDivides(nm[k], b.lm[k], m)) { hit = (int)k; break; }
      bool red=false;
      for(auto& r: R) if (r.lm().pos == pos && ref::divides(r.lm(), m)) { red = true; break; }
      c.check(red == (hit >= 0), "%s is %sin the leading ideal but %s Janet divisor", m.str().c_str(), red ? "" : "not ", hit >= 0 ? "has a" : "has no");
      Monom gm=glue::mkMonom(al, m);
      const WrapPolyInt* f=B.find(gm);
      c.check(f == (hit < 0 ? nullptr : b.w[hit]), "find(%s) gives %s, the Janet divisor is %s", m.str().c_str(),
              f ? glue::rdMonom(f->lm()).str().c_str() : "none", hit < 0 ? "none" : b.lm[hit].str().c_str());
    }
}
// reducedness of what build() leaves: sorted, primitive, tails irreducible
inline void checkShape(Ctx& c, const JanetPolyInt& B, int n, int ord, bool tails) {
  if (B.isOne()) return;
  Basis b=read(B);
  std::vector<std::vector<bool>> nm;
  for(auto& m: b.lm) nm.push_back(ref::janetNM(b.lm, m));
  for(size_t i=0; i < b.G.size(); i++) {
    if (i) c.check(ref::cmp(ord, b.lm[i-1], b.lm[i]) < 0, "the basis is not listed in ascending order of leading monomials");
    c.check(ref::primitive(b.G[i]) == b.G[i], "basis element %s is not primitive", b.G[i].str().c_str());
    if (!tails) continue;
    auto t=b.G[i].t.begin();
    for(++t; t != b.G[i].t.end(); ++t)
      for(size_t k=0; k < b.lm.size(); k++)
        c.check(!ref::involutiveDivides(nm[k], b.lm[k], t->first), "the tail of basis element %s still contains the reducible monomial %s",
                b.G[i].str().c_str(), t->first.str().c_str());
  }
}
}
#endif
