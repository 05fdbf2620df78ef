// Conversions between the reference values and GInv's, by public calls only.
#ifndef GLUE_HPP
#define GLUE_HPP
#include "mc.hpp"
#include "ref.hpp"
#include "ginv/poly_int.h"
#include "ginv/gb.h"
#include "ginv/mcompletion.h"

namespace glue {
using namespace GInv;

inline Monom mkMonom(Allocator* al, const ref::Mon& m) {
  Monom r(al, m.n(), m.pos);
  for(int v=0; v < m.n(); v++)
    if (m.e[v]) {
      Monom x(al, v, m.n(), -1);
      Monom p(al, x, m.e[v]);
      r.mult(p);
    }
  return r;
}
inline ref::Mon rdMonom(const Monom& m) {
  ref::Mon r;
  r.pos = m.pos();
  for(int v=0; v < m.size(); v++) r.e.push_back(m[v]);
  return r;
}
inline mpz_class rdInteger(const Integer& a) { return mpz_class(a.get_str(16), 16); }
inline std::string hex(const mpz_class& z) {
  mpz_class a=abs(z);
  return std::string(z < 0 ? "-0x" : "0x") + a.get_str(16);
}
// integral polynomial, term by term
inline void setPoly(PolyInt& r, Allocator* al, const ref::Poly& p) {
  for(auto& x: p.t) {
    Monom m=mkMonom(al, x.first);
    PolyInt t(al, r.order(), m);
    t.mult(hex(x.second.get_num()).c_str());
    r.add(t);
  }
}
struct PolyBox { // a polynomial with an allocator of its own
  Allocator al[1];
  PolyInt p;
  PolyBox(const ref::Poly& q, int n): p(al, q.ord, n) { setPoly(p, al, q); }
};
inline ref::Poly rdPoly(const PolyInt& p) {
  ref::Poly r(p.order());
  for(PolyInt::ConstIterator i(p.begin()); i; ++i) r.addTerm(rdMonom(i.monom()), ref::Q(rdInteger(i.coeff())));
  return r;
}
// structural invariants of the term list: strictly descending, no zero coefficients
inline std::string polyDefect(const PolyInt& p) {
  int k=0;
  ref::Mon prev;
  for(PolyInt::ConstIterator i(p.begin()); i; ++i, ++k) {
    ref::Mon m=rdMonom(i.monom());
    if (i.monom().degree() != m.deg()) return "stored degree of a term differs from its exponents";
    if (i.coeff().isZero()) return "a term with coefficient 0";
    if (k && ref::cmp(p.order(), prev, m) <= 0) return "terms are not strictly descending";
    prev = m;
  }
  if (k != p.length()) return "length() differs from the number of terms";
  return "";
}
struct Quiet { // the algorithms print on std::cerr
  Quiet() { std::cerr.rdbuf(nullptr); std::cout.rdbuf(nullptr); }
};
static Quiet quiet_;
}
#endif
