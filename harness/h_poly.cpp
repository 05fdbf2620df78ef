// C08 (arithmetic), C09 (reduction, primitive parts), C10 (term orders), C11 (monomials).
#include "glue.hpp"
#include <memory>
using namespace GInv;
using mc::Ctx;
typedef ref::Poly RP;
using ref::Mon;
using ref::Q;
#ifndef PROP
#define PROP 8
#endif

typedef std::vector<RP> Alpha;
static const std::vector<int> ALLORD={0x11, 0x12, 0x14, 0x21, 0x22, 0x24}, WELL={0x11, 0x12, 0x21, 0x22};
static const std::vector<int> FEWORD={0x11, 0x22};
static RP reord(const RP& p, int ord) { RP r(ord); for(auto& x: p.t) r.addTerm(x.first, x.second); return r; }
static std::vector<Mon> mons(int n, int d, std::vector<int> comps={-1}) {
  std::vector<Mon> r; for(int c: comps) for(auto& e: ref::monomials(n, 0, d)) r.push_back(Mon(e, c)); return r;
}
static Alpha polys(const std::vector<Mon>& ms, const std::vector<mpz_class>& cs, int maxt, int mint=0) {
  Alpha out;
  std::function<void(size_t, RP, int)> rec=[&](size_t i, RP p, int k) {
    if (i == ms.size()) { if (k >= mint) out.push_back(p); return; }
    rec(i+1, p, k);
    if (k < maxt) for(auto& x: cs) { RP q(p); q.addTerm(ms[i], Q(x)); rec(i+1, q, k+1); }
  };
  rec(0, RP(0x11), 0);
  return out;
}
static Alpha every(const Alpha& a, int k) { Alpha r; for(size_t i=0; i < a.size(); i += k) r.push_back(a[i]); return r; }
static std::shared_ptr<Alpha> sh(const Alpha& a) { return std::make_shared<Alpha>(a); }

static void same(Ctx& c, const PolyInt& p, const RP& want, const char* what) {
  std::string d=glue::polyDefect(p);
  c.check(d.empty(), "%s: %s", what, d.c_str());
  RP got=glue::rdPoly(p);
  c.check(got == want, "%s gives %s instead of %s", what, got.str().c_str(), want.str().c_str());
  c.check(p.length() == (int)want.t.size() && p.isZero() == want.zero() && (bool)p == !want.zero(), "%s: length() or isZero() is wrong", what);
  if (!want.zero()) {
    c.check(p.degree() == want.lm().deg() && glue::rdMonom(p.lm()) == want.lm() && Q(glue::rdInteger(p.lc())) == want.lc(), "%s: degree(), lm() or lc() is wrong", what);
    int mp=-1; for(auto& x: want.t) mp = std::max(mp, x.first.pos);
    c.check(p.maxPos() == mp, "%s: maxPos() is %d", what, p.maxPos());
  }
}
static RP power(const RP& a, int k) { RP r(a.ord); if (a.t.empty() && k) return r; Mon one(std::vector<int>(a.t.empty() ? 1 : a.t.begin()->first.n(), 0)); r.addTerm(one, 1); while(k--) r = ref::mul(r, a); return r; }
static RP constant(const RP& shape, int n, const mpz_class& k) { RP r(shape.ord); r.addTerm(Mon(std::vector<int>(n, 0)), Q(k)); return r; }
static bool ringOnly(const RP& p) { for(auto& x: p.t) if (x.first.pos >= 0) return false; return true; }

// ---------------------------------------------------------------- C08
static void binary(Ctx& c, const RP& p, const RP& q, int n) {
  c.note("p = %s, q = %s", p.str().c_str(), q.str().c_str());
  Allocator al[2];
  {
    PolyInt P(al, p.ord, n), W(al+1, q.ord, n);
    glue::setPoly(P, al, p); glue::setPoly(W, al+1, q);
    same(c, P, p, "building p"); same(c, W, q, "building q");
    { PolyInt r(al, P); r.add(W); c.step(); same(c, r, ref::add(p, q), "p+q"); r.sub(W); c.step(); same(c, r, p, "p+q-q"); }
    { PolyInt r(al, P); r.sub(W); c.step(); same(c, r, ref::sub(p, q), "p-q"); r.add(W); c.step(); same(c, r, p, "p-q+q"); }
    { PolyInt r=PolyInt(al, P) + W; same(c, r, ref::add(p, q), "operator+"); PolyInt s=PolyInt(al, P) - W; same(c, s, ref::sub(p, q), "operator-"); c.step(2); }
    if (ringOnly(p) || ringOnly(q)) {
      RP m=ref::mul(p, q);
      { PolyInt r(al, P); r.mult(W); c.step(); same(c, r, m, "p*q"); }
      { PolyInt r(al+1, W); r.mult(P); c.step(); same(c, r, m, "q*p"); }
      { PolyInt r=PolyInt(al, P) * W; c.step(); same(c, r, m, "operator*"); }
    }
    if (!p.zero() && !q.zero()) {
      int w=ref::cmp(p.ord, p.lm(), q.lm());
      c.check(P.cmp(W) == w, "p.cmp(q) is %d, the leading monomials compare %d", P.cmp(W), w);
    }
    { PolyInt r(al, P); r = W; c.step(); same(c, r, q, "r = q"); same(c, W, q, "q after r = q"); r.minus(); same(c, W, q, "q after the copy changed"); }
    { PolyInt a(al, P), b(al+1, W); a.swap(b); c.step(); same(c, a, q, "swap"); same(c, b, p, "swap");
      a = std::move(b); c.step(); same(c, a, p, "move assignment"); PolyInt d(std::move(a)); same(c, d, p, "move construction"); }
    { GCPolyInt a(P), b(W); a.swap(b); a.reallocate(); b.reallocate(); c.step(3); same(c, a, q, "compaction"); same(c, b, p, "compaction");
      GCPolyInt d(a); a.add(P); a.reallocate(); c.step(2); same(c, a, ref::add(q, p), "sum after compaction"); same(c, d, q, "copy of the compacted one"); }
    same(c, P, p, "operand p"); same(c, W, q, "operand q");
    mc::outcome(glue::rdPoly(P).str());
  }
  c.check(al[0].size() == 0 && al[1].size() == 0, "%zu + %zu bytes stay in use after everything is destroyed", al[0].size(), al[1].size());
}
static void unary(Ctx& c, const RP& p, int n, const std::vector<mpz_class>& ks, int maxpow) {
  c.note("p = %s", p.str().c_str());
  Allocator al[1];
  {
    PolyInt P(al, p.ord, n);
    glue::setPoly(P, al, p);
    { PolyInt r(al, P); r.minus(); c.step(); same(c, r, ref::one(p, -1), "-p"); PolyInt s=-PolyInt(al, P); same(c, s, ref::one(p, -1), "operator-"); }
    for(auto& k: ks) {
      std::string h=glue::hex(k), t;
      t = "p*" + h; { PolyInt r(al, P); r.mult(h.c_str()); c.step(); same(c, r, ref::one(p, Q(k)), t.c_str()); }
      t = "p+" + h; { PolyInt r(al, P); r.add(h.c_str()); c.step(); same(c, r, ref::add(p, constant(p, n, k)), t.c_str()); }
      t = "p-" + h; { PolyInt r(al, P); r.sub(h.c_str()); c.step(); same(c, r, ref::sub(p, constant(p, n, k)), t.c_str()); }
      t = "constant " + h; { PolyInt r(al, p.ord, n, h.c_str()); same(c, r, constant(p, n, k), t.c_str()); }
    }
    if (ringOnly(p)) for(int k=0; k <= maxpow; k++) {
      RP w=k == 0 ? constant(p, n, 1) : power(p, k);
      PolyInt r(al, P); r.pow(k); c.step(); same(c, r, w, ("p^" + std::to_string(k)).c_str());
    }
    for(int v=0; v < n; v++) {
      PolyInt r(al, v, P); c.step();
      std::vector<int> e(n, 0); e[v] = 1;
      same(c, r, ref::addmul(RP(p.ord), 1, Mon(e), p), "prolongation");
      GCPolyInt g(v, P); same(c, g, ref::addmul(RP(p.ord), 1, Mon(e), p), "prolongation");
    }
    same(c, P, p, "operand");
  }
  c.check(al->size() == 0, "%zu bytes stay in use after everything is destroyed", al->size());
}
// values move between variables of different orders and numbers of variables
static void assigned(Ctx& c, const RP& p, int np, const RP& q, int nq, const RP& s, int how) { // p receives q, s has q's shape
  static const char* HOW[]={"copy assignment", "move assignment", "swap", "compacting assignment", "copy construction", "move construction", "GC swap"};
  c.note("%s: p = %s (order %x, %d variables), q = %s (order %x, %d variables), then +- %s", HOW[how], p.str().c_str(), p.ord, np, q.str().c_str(), q.ord, nq, s.str().c_str());
  Allocator al[3];
  {
    PolyInt P(al, p.ord, np), W(al+1, q.ord, nq), S(al+2, s.ord, nq);
    glue::setPoly(P, al, p); glue::setPoly(W, al+1, q); glue::setPoly(S, al+2, s);
    auto use=[&](PolyInt& r) {
      c.step(3);
      same(c, r, q, HOW[how]);
      c.check(r.order() == q.ord && r.size() == nq, "%s: order %x and %d variables instead of %x and %d", HOW[how], r.order(), r.size(), q.ord, nq);
      r.add(S); same(c, r, ref::add(q, s), "the sum afterwards");
      r.sub(S); same(c, r, q, "the difference afterwards");
      r.mult(S); same(c, r, ref::mul(q, s), "the product afterwards");
      r.add("0x5"); same(c, r, ref::add(ref::mul(q, s), constant(q, nq, 5)), "adding 5 afterwards");
    };
    switch(how) {
      case 0: P = W; use(P); same(c, W, q, "the source of the assignment"); break;
      case 1: P = std::move(W); use(P); break;
      case 2: P.swap(W); use(P); same(c, W, p, "swap, the other side"); c.check(W.order() == p.ord && W.size() == np, "swap, the other side: order %x and %d variables", W.order(), W.size()); break;
      case 3: { GCPolyInt g(P), h(W); g = h; use(g); same(c, h, q, "the source of the assignment"); g.reallocate(); h.reallocate(); same(c, h, q, "the source after compaction"); break; }
      case 4: { PolyInt r(al, W); use(r); same(c, W, q, "the source of the copy"); break; }
      case 5: { PolyInt r(std::move(W)); use(r); break; }
      case 6: { GCPolyInt g(P), h(W); g.swap(h); use(g); same(c, h, p, "swap, the other side"); c.check(h.order() == p.ord && h.size() == np, "swap, the other side: order %x and %d variables", h.order(), h.size()); break; }
    }
  }
  for(int i=0; i < 3; i++) c.check(al[i].size() == 0, "%zu bytes stay in use after everything is destroyed", al[i].size());
}
// register machine
struct Machine: mc::System {
  int ord, n;
  Allocator al[2];
  std::unique_ptr<PolyInt> r[2];
  RP m[2];
  bool big=false;
  Machine(int o, int n_, const RP& a, const RP& b): ord(o), n(n_) {
    m[0] = reord(a, o); m[1] = reord(b, o);
    for(int i=0; i < 2; i++) { r[i].reset(new PolyInt(al+i, ord, n)); glue::setPoly(*r[i], al+i, m[i]); }
  }
  int nops() override { return 14; }
  void apply(Ctx& c, int op) override {
    static const char* NAME[]={"p+=q","q+=p","p-=q","q-=p","p*=q","p=-p","q=-q","p.add(1)","q.sub(3)","p.mult(-2)","p=q","swap","p^=2","p.pp()"};
    c.note("%s", NAME[op]); c.step();
    switch(op) {
      case 0: r[0]->add(*r[1]); m[0] = ref::add(m[0], m[1]); break;
      case 1: r[1]->add(*r[0]); m[1] = ref::add(m[1], m[0]); break;
      case 2: r[0]->sub(*r[1]); m[0] = ref::sub(m[0], m[1]); break;
      case 3: r[1]->sub(*r[0]); m[1] = ref::sub(m[1], m[0]); break;
      case 4: r[0]->mult(*r[1]); m[0] = ref::mul(m[0], m[1]); break;
      case 5: r[0]->minus(); m[0] = ref::one(m[0], -1); break;
      case 6: r[1]->minus(); m[1] = ref::one(m[1], -1); break;
      case 7: r[0]->add("0x1"); m[0] = ref::add(m[0], constant(m[0], n, 1)); break;
      case 8: r[1]->sub("0x3"); m[1] = ref::sub(m[1], constant(m[1], n, 3)); break;
      case 9: r[0]->mult("-0x2"); m[0] = ref::one(m[0], -2); break;
      case 10: *r[0] = *r[1]; m[0] = m[1]; break;
      case 11: r[0]->swap(*r[1]); std::swap(m[0], m[1]); break;
      case 12: r[0]->pow(2); m[0] = ref::mul(m[0], m[0]); break;
      case 13: if (m[0].t.size() != 1) { r[0]->pp(); m[0] = ref::primitive(m[0]); } break;
    }
    if (mc::rebuilding) return;
    same(c, *r[0], m[0], NAME[op]); same(c, *r[1], m[1], NAME[op]);
  }
  std::string canon() override {
    for(auto& p: m) { if (p.t.size() > 7) return ""; for(auto& x: p.t) if (x.first.deg() > 4 || abs(x.second) > 64) return ""; }
    return m[0].str() + "|" + m[1].str();
  }
};

// ---------------------------------------------------------------- C09
struct Divs { // a container of divisors, the first one is taken
  std::vector<std::unique_ptr<WrapPolyInt>> w;
  WrapPolyInt* find(const Monom& m) const {
    for(auto& x: w) if (x->lm().pos() == m.pos() && m.divisiable(x->lm())) return x.get();
    return nullptr;
  }
};
// d = a*f - b*m*g with integers a != 0, b
static void combination(Ctx& c, const RP& d, const RP& f, const Q& ratio, const Mon& m, const RP& g, const char* what) {
  RP w=ref::addmul(f, -ratio, m, g);
  c.check(d.zero() == w.zero(), "%s leaves %s, expected a multiple of %s", what, d.str().c_str(), w.str().c_str());
  if (w.zero()) return;
  c.check(ref::proportional(d, w), "%s leaves %s, not a multiple of %s", what, d.str().c_str(), w.str().c_str());
  Q a=d.lc()/w.lc(); Q b=a*ratio;
  c.check(a.get_den() == 1 && b.get_den() == 1, "%s leaves %s, which is %s times %s: not an integer combination", what, d.str().c_str(), a.get_str().c_str(), w.str().c_str());
}
static void reductions(Ctx& c, const RP& f, const RP& g, int n) {
  if (f.zero() || g.zero()) return;
  c.note("f = %s, g = %s", f.str().c_str(), g.str().c_str());
  Allocator al[2];
  {
    PolyInt F(al, f.ord, n), G(al+1, g.ord, n);
    glue::setPoly(F, al, f); glue::setPoly(G, al+1, g);
    if (ref::divides(g.lm(), f.lm()) && (g.lm().pos >= 0 || ringOnly(g))) {
      PolyInt r(al, F); r.reduction(G); c.step();
      std::string d=glue::polyDefect(r); c.check(d.empty(), "reduction: %s", d.c_str());
      Mon m=ref::quo(f.lm(), g.lm());
      combination(c, glue::rdPoly(r), f, f.lc()/g.lc(), m, g, "the reduction step");
      mc::count("head reductions");
    }
    {
      PolyInt r(al, F); r.redMaybe(G); c.step();
      std::string d=glue::polyDefect(r); c.check(d.empty(), "redMaybe: %s", d.c_str());
      RP got=glue::rdPoly(r);
      auto k=f.t.find(g.lm());
      if (k == f.t.end()) c.check(got == f, "redMaybe changed the polynomial into %s although %s does not occur in it", got.str().c_str(), g.lm().str().c_str());
      else { combination(c, got, f, k->second/g.lc(), Mon(std::vector<int>(n, 0)), g, "redMaybe"); mc::count("tail reductions"); }
    }
    same(c, G, g, "the divisor");
    same(c, F, f, "the original");
  }
  c.check(al[0].size() == 0 && al[1].size() == 0, "%zu + %zu bytes stay in use", al[0].size(), al[1].size());
}
static void primitives(Ctx& c, const RP& f, int n, const std::vector<mpz_class>& ks) {
  for(auto& k: ks) {
    RP p=ref::one(f, Q(k));
    c.note("p = %s", p.str().c_str());
    Allocator al[1];
    {
      PolyInt P(al, p.ord, n); glue::setPoly(P, al, p);
      mpz_class g=0; for(auto& x: p.t) { mpz_class t; mpz_gcd(t.get_mpz_t(), g.get_mpz_t(), x.second.get_num_mpz_t()); g = t; }
      c.check(P.isPp() == (p.zero() || g == 1), "isPp() is %d, the common divisor is %s", (int)P.isPp(), g.get_str().c_str());
      P.pp(); c.step();
      RP got=glue::rdPoly(P), w=ref::primitive(p);
      c.check(got == w || got == ref::one(w, -1), "the primitive part of %s is %s", p.str().c_str(), got.str().c_str());
      std::string d=glue::polyDefect(P); c.check(d.empty(), "pp: %s", d.c_str());
      c.check(P.isPp(), "isPp() denies it of the primitive part");
      P.pp(); c.check(glue::rdPoly(P) == got, "the primitive part of the primitive part differs");
    }
    c.check(al->size() == 0, "%zu bytes stay in use", al->size());
  }
}
static void normalForms(Ctx& c, const RP& f, const std::vector<RP>& G, int n) {
  if (f.zero()) return;
  for(auto& g: G) if (g.zero()) return;
  c.note("f = %s", f.str().c_str()); for(auto& g: G) c.note("divisor %s", g.str().c_str());
  Allocator al[1];
  {
    Divs D; for(auto& g: G) { glue::PolyBox b(g, n); D.w.emplace_back(new WrapPolyInt(b.p)); }
    auto first=[&](const Mon& m) -> const RP* { for(auto& g: G) if (g.lm().pos == m.pos && ref::divides(g.lm(), m)) return &g; return nullptr; };
    PolyInt F(al, f.ord, n); glue::setPoly(F, al, f);
    // isNf looks at the tail
    bool tail=true; { auto k=f.t.begin(); for(++k; k != f.t.end(); ++k) tail = tail && !first(k->first); }
    c.check(F.isNf(D) == tail, "isNf() is %d", (int)F.isNf(D));
    RP w=f; int steps=0;
    while(!w.zero()) { const RP* g=first(w.lm()); if (!g) break; w = ref::addmul(w, -w.lc()/g->lc(), ref::quo(w.lm(), g->lm()), *g); steps++; }
    int r=F.nf(D); c.step(1+r);
    std::string d=glue::polyDefect(F); c.check(d.empty(), "nf: %s", d.c_str());
    RP got=glue::rdPoly(F);
    c.check(got.zero() == w.zero() && (w.zero() || ref::proportional(got, w)), "head reduction leaves %s, not a multiple of %s", got.str().c_str(), w.str().c_str());
    c.check((r == 0) == (steps == 0), "head reduction reports %d steps, %d are needed", r, steps);
    if (w.zero()) { c.check(F.nfTail(D) == 0, "tail reduction of zero"); return; }
    RP h(w.ord), rest=w; int ts=0;
    h.addTerm(rest.lm(), rest.lc()); rest.t.erase(rest.t.begin());
    while(!rest.zero()) {
      const RP* g=first(rest.lm());
      if (g) { rest = ref::addmul(rest, -rest.lc()/g->lc(), ref::quo(rest.lm(), g->lm()), *g); ts++; }
      else { h.addTerm(rest.lm(), rest.lc()); rest.t.erase(rest.t.begin()); }
    }
    int rt=F.nfTail(D); c.step(1+rt);
    d = glue::polyDefect(F); c.check(d.empty(), "nfTail: %s", d.c_str());
    got = glue::rdPoly(F);
    c.check(!got.zero() && ref::proportional(got, h), "tail reduction leaves %s, not a multiple of %s", got.str().c_str(), h.str().c_str());
    c.check((rt == 0) == (ts == 0), "tail reduction reports %d steps, %d are needed", rt, ts);
    c.check(F.isNf(D), "isNf() denies it after tail reduction");
    for(auto& x: D.w) same(c, x->poly(), G[&x - &D.w[0]], "a divisor");
  }
  c.check(al->size() == 0, "%zu bytes stay in use", al->size());
}

// ---------------------------------------------------------------- C10
static int sgn(int x) { return (x > 0) - (x < 0); }
static void orders(Ctx& c, const Mon& a, const Mon& b, const Mon& s, int n) {
  Allocator al[1];
  Monom A=glue::mkMonom(al, a), B=glue::mkMonom(al, b), S=glue::mkMonom(al, s);
  struct { const char* name; int id; int (Monom::*f)(const Monom&) const; int (Monom::*g)(const Monom&, const Monom&) const; } O[]={
    {"lex", ref::LEX, &Monom::lex, &Monom::lex}, {"deglex", ref::DEGLEX, &Monom::deglex, &Monom::deglex}, {"alex", ref::ALEX, &Monom::alex, &Monom::alex}};
  std::string as=a.str(), bs=b.str();
  for(auto& o: O) {
    int r=(A.*o.f)(B); c.step(4);
    c.check(r == ref::cmpMon(o.id, a, b), "%s(%s, %s) is %d", o.name, as.c_str(), bs.c_str(), r);
    c.check((B.*o.f)(A) == -r, "%s is not antisymmetric on %s, %s", o.name, as.c_str(), bs.c_str());
    c.check((r == 0) == (a.e == b.e), "%s does not separate %s, %s", o.name, as.c_str(), bs.c_str());
    // transitivity with s as the third
    int p=(B.*o.f)(S), q=(A.*o.f)(S);
    c.check(!(r > 0 && p > 0) || q > 0, "%s is not transitive on %s, %s, %s", o.name, as.c_str(), bs.c_str(), s.str().c_str());
    if (a.pos < 0 || s.pos < 0) if (b.pos < 0 || s.pos < 0) {
      Monom AS(al, A, S), BS(al, B, S);
      c.check((AS.*o.f)(BS) == r, "%s of %s and %s changes when both are multiplied by %s", o.name, as.c_str(), bs.c_str(), s.str().c_str());
      c.check((A.*o.g)(B, S) == (A.*o.f)(BS), "%s(%s, %s*%s) differs from comparing with the product", o.name, as.c_str(), bs.c_str(), s.str().c_str());
      if (o.id != ref::ALEX) c.check((AS.*o.f)(A) >= 0, "%s puts the multiple %s*%s below", o.name, as.c_str(), s.str().c_str());
    }
  }
  for(int ord: ALLORD) {
    PolyInt P(al, ord, n);
    int r=P.Poly::cmp(A, B); c.step(3);
    c.check(r == ref::cmp(ord, a, b), "order %x of %s and %s is %d", ord, as.c_str(), bs.c_str(), r);
    c.check(P.Poly::cmp(B, A) == -r, "order %x is not antisymmetric on %s, %s", ord, as.c_str(), bs.c_str());
    c.check((r == 0) == (a == b), "order %x does not separate %s, %s", ord, as.c_str(), bs.c_str());
    int p=P.Poly::cmp(B, S), q=P.Poly::cmp(A, S);
    c.check(!(r > 0 && p > 0) || q > 0, "order %x is not transitive on %s, %s, %s", ord, as.c_str(), bs.c_str(), s.str().c_str());
    if (s.pos < 0) {
      Monom AS(al, A, S), BS(al, B, S);
      c.check(P.Poly::cmp(AS, BS) == r, "order %x of %s and %s changes when both are multiplied by %s", ord, as.c_str(), bs.c_str(), s.str().c_str());
    }
    // the comparison with a product, as the reduction step of polynomials makes it:
    // (big + k*a) reduced by (lead + b) with big = lead*s compares a with b*s
  }
  mc::outcome(std::to_string(ref::cmp(0x11, a, b)*9 + ref::cmp(0x12, a, b)*3 + ref::cmp(0x14, a, b)));
}
// comparison with a product inside a reduction step, all component combinations
static void productOrder(Ctx& c, int ord, int n, const Mon& lead, const Mon& s, const Mon& a, const Mon& b) {
  // lead, b: one component (or none); s*lead is the head of f; a any smaller monomial
  RP f(ord), g(ord);
  Mon head=ref::mul(lead, s);
  if (ref::cmp(ord, head, a) <= 0 || ref::cmp(ord, lead, b) <= 0) return;
  f.addTerm(head, 2); f.addTerm(a, 3); g.addTerm(lead, 5); g.addTerm(b, 7);
  if (f.lm().pos >= 0 && g.lm().pos < 0 && !ringOnly(g)) return;
  if (g.lm().pos != f.lm().pos && g.lm().pos >= 0) return;
  reductions(c, f, g, n);
}

// ---------------------------------------------------------------- C11
static void same(Ctx& c, const Monom& m, const Mon& want, const char* what) {
  Mon got=glue::rdMonom(m);
  c.check(got == want, "%s is %s instead of %s", what, got.str().c_str(), want.str().c_str());
  c.check(m.degree() == want.deg(), "%s: degree() is %d for %s", what, m.degree(), want.str().c_str());
  c.check((bool)m == (want.deg() > 0) && m.isZero() == (want.deg() == 0), "%s: the test for degree 0 is wrong", what);
  c.check(m.size() == want.n(), "%s: size() is %d", what, m.size());
}
static void monomials(Ctx& c, const Mon& a, const Mon& b, int n) {
  c.note("a = %s, b = %s", a.str().c_str(), b.str().c_str());
  Allocator al[3];
  {
    Monom A=glue::mkMonom(al, a), B=glue::mkMonom(al+1, b);
    same(c, A, a, "a"); same(c, B, b, "b");
    { Monom u(al, n, a.pos); same(c, u, Mon(std::vector<int>(n, 0), a.pos), "the unit"); }
    { Monom k(al+2, A); same(c, k, a, "a copy"); c.check(k == A && !(k != A), "a copy is not equal"); }
    for(int v=0; v < n; v++) {
      Mon w=a; w.e[v]++;
      { Monom p(al+2, v, A); c.step(); same(c, p, w, "the prolongation"); }
      { Monom p(al+2, B); p.mult(v, A); c.step(); same(c, p, w, "mult by a variable"); }
      Mon x(std::vector<int>(n, 0), a.pos); x.e[v] = 1;
      Monom X(al+2, v, n, a.pos); same(c, X, x, "a variable");
    }
    for(int k=0; k <= 5; k++) { Mon w=a; for(int& x: w.e) x *= k; Monom p(al+2, A, k); c.step(); same(c, p, w, "a power"); }
    c.check((A == B) == (a == b) && (A != B) == (a != b), "equality of %s and %s", a.str().c_str(), b.str().c_str());
    bool div=ref::divides(b, a);
    c.check(A.divisiable(B) == div, "%s divisible by %s: %d", a.str().c_str(), b.str().c_str(), (int)A.divisiable(B));
    if (div) {
      Monom q(al+2, A); q.div(B); c.step();
      same(c, q, ref::quo(a, b), "the quotient");
      if (q.pos() < 0 || b.pos < 0) { q.mult(B); same(c, q, a, "quotient times divisor"); }
    }
    int g=0, l=0;
    for(int i=0; i < n; i++) { g += std::min(a.e[i], b.e[i]); l += std::max(a.e[i], b.e[i]); }
    c.check(A.gcd(B) == g && A.lcm(B) == l, "gcd and lcm degrees of %s and %s are %d and %d", a.str().c_str(), b.str().c_str(), A.gcd(B), A.lcm(B));
    if (a.pos < 0 || b.pos < 0) {
      Mon w=ref::mul(a, b);
      { Monom p(al+2, A, B); c.step(); same(c, p, w, "the product"); c.check(p.divisiable(A) && p.divisiable(B), "a product is not divisible by its factor"); }
      { Monom p(al+2, A); p.mult(B); c.step(); same(c, p, w, "the product"); }
      { Monom p=Monom(al+2, A) * B; c.step(); same(c, p, w, "the product"); }
    }
    { Monom p(al, A), q(al+2, B); p.swap(q); c.step(); same(c, p, b, "swap"); same(c, q, a, "swap"); p = q; same(c, p, a, "assignment"); same(c, q, a, "assignment");
      Monom r(std::move(p)); same(c, r, a, "move"); Monom t(al+2, B); t = std::move(r); same(c, t, a, "move assignment"); }
    { Monom p(al, B); p = A; c.step(); same(c, p, a, "assignment"); p.setPos(2); Mon w=a; w.pos = 2; same(c, p, w, "setPos"); same(c, A, a, "the source of an assignment"); }
    { MonomGC x(A); x.reallocate(); same(c, x, a, "compaction"); MonomGC y(B); x.swap(y); same(c, x, b, "swap"); same(c, y, a, "swap"); y = x; same(c, y, b, "assignment"); }
    std::stringstream ss; ss << A; c.check(ss.str() == a.str(), "printed as %s", ss.str().c_str());
    same(c, A, a, "operand"); same(c, B, b, "operand");
  }
  for(int i=0; i < 3; i++) c.check(al[i].size() == 0, "%zu bytes stay in use", al[i].size());
}
// the next permutation drawn by a scripted generator, applied to a monomial
struct Fixed: RandPermutation {
  Fixed(int n): RandPermutation(n) {}
};
static void permutations(Ctx& c, int n, const std::vector<Mon>& ms) {
  const Mon& m=c.pick(ms);
  RandPermutation_mt19937 p(n);
  int k=c.choose(6);
  Allocator al[1];
  Monom A=glue::mkMonom(al, m), B(al, n, -1);
  for(int i=0; i < k; i++) p.next();
  B.permutation(A, p); c.step();
  Mon w=m; w.pos = -1;
  for(int v=0; v < n; v++) w.e[v] = m.e[p[v]];
  Mon g=glue::rdMonom(B); g.pos = -1;
  c.check(g == w && B.degree() == m.deg(), "permuted monomial %s instead of %s", g.str().c_str(), w.str().c_str());
}

template <typename F> static void pairsOf(const char* name, const Alpha& A, const Alpha& B, const std::vector<int>& ords, int n, F f) {
  auto a=sh(A), b=sh(B);
  mc::explore(name, [=](Ctx& c) {
    int ord=c.pick(ords);
    RP p=reord(c.pick(*a), ord), q=reord(c.pick(*b), ord);
    c.note("order %x", ord);
    f(c, p, q, n);
  });
}

void parts() {
  const bool T=mc::thorough(); (void)T;
  mpz_class B32("4294967296"), B64("18446744073709551616"), B128=B64*B64;
#if PROP == 8
  std::vector<mpz_class> ks={0, 1, -1, 2, -3, B64-1, -B64, B128+7};
  std::vector<mpz_class> C2={1, -1}, CB={1, -1, 2, B64-1, -(B64-1), B64};
  Alpha n1=polys(mons(1, 3), {1, -1, 2, -3}, 4), n2=polys(mons(2, 2), C2, 3), n2b=polys(mons(2, 1), CB, 3), n3=polys(mons(3, 1), C2, 4), n3q=polys(mons(3, 2), {1, -2}, 2);
  Alpha m2=polys(mons(2, 1, {-1, 0, 1}), C2, 2), mc=polys(mons(2, 1, {0, 2}), {1, -1, 3}, 2), r2=polys(mons(2, 1), C2, 3);
  Alpha n4=polys(mons(4, 1), {1, -1, 5}, 2);
  pairsOf("pairs-n1", every(n1, T ? 1 : 3), n1, ALLORD, 1, binary);
  pairsOf("pairs-n2", every(n2, T ? 1 : 4), n2, ALLORD, 2, binary);
  pairsOf("pairs-n2-big", every(n2b, T ? 1 : 2), n2b, ALLORD, 2, binary);
  pairsOf("pairs-n3", every(n3, T ? 1 : 2), n3, ALLORD, 3, binary);
  pairsOf("pairs-n3-quadratic", every(n3q, T ? 1 : 2), n3q, ALLORD, 3, binary);
  pairsOf("pairs-n4", n4, n4, ALLORD, 4, binary);
  pairsOf("pairs-mixed-components", m2, m2, ALLORD, 2, binary);
  pairsOf("pairs-module-times-ring", mc, r2, ALLORD, 2, binary);
  auto un=[&](const char* name, const Alpha& A, int n, int mp) { auto a=sh(A); mc::explore(name, [=](Ctx& c) { int ord=c.pick(ALLORD); unary(c, reord(c.pick(*a), ord), n, ks, mp); }); };
  un("unary-n1", n1, 1, T ? 6 : 5); un("unary-n2", n2, 2, 4); un("unary-n2-big", n2b, 2, 3); un("unary-n3", n3, 3, 4); un("unary-mixed-components", m2, 2, 3);
  un("unary-n3-quadratic", n3q, 3, 3); un("unary-n4", n4, 4, 3);
  {
    typedef std::vector<std::pair<int, Alpha>> Shapes;
    auto sp=std::make_shared<Shapes>(), sq=std::make_shared<Shapes>();
    sp->push_back({1, every(n1, T ? 11 : 50)}); sp->push_back({2, every(n2, T ? 11 : 45)}); sp->push_back({3, every(n3, T ? 7 : 25)});
    sq->push_back({1, every(n1, T ? 9 : 18)}); sq->push_back({2, every(n2, T ? 3 : 9)}); sq->push_back({3, every(n3, T ? 2 : 9)});
    auto ss=std::make_shared<std::vector<Alpha>>();
    if (mc::lite > 1) for(auto* z: {sp.get(), sq.get()}) for(auto& x: *z) x.second = every(x.second, mc::lite > 8 ? 6 : 3);
    ss->push_back(every(n1, 40)); ss->push_back(every(n2, 20)); ss->push_back(every(n3, 20));
    mc::explore("assignments", [=](Ctx& c) {
      const std::vector<int>& O=mc::lite > 8 ? FEWORD : ALLORD;
      int how=c.choose(7), op=c.pick(O), oq=c.pick(O), i=c.choose(3), j=c.choose(3);
      if (how >= 4 && how < 6 && (i || op != O[0])) return; // p plays no part
      RP p=how >= 4 && how < 6 ? RP(op) : reord(c.pick((*sp)[i].second), op), q=reord(c.pick((*sq)[j].second), oq);
      const Alpha& S=(*ss)[j];
      for(size_t k=0; k < S.size(); k++) if (how < 4 || k % 2) assigned(c, p, (*sp)[i].first, q, (*sq)[j].first, reord(S[k], oq), how);
    });
  }
  auto P=[](int n, std::vector<std::pair<int, std::vector<int>>> t) { RP p(0x11); for(auto& x: t) p.addTerm(Mon(x.second), x.first); (void)n; return p; };
  for(int ord: {0x11, 0x12, 0x14}) {
    mc::Limits l; l.max_depth = T ? 8 : 6;
    std::string nm="machine-" + std::to_string(ord);
    RP a=P(2, {{1,{1,0}},{-1,{0,1}}}), b=P(2, {{1,{1,0}},{2,{0,0}}});
    mc::bfs(nm.c_str(), [=]() { return new Machine(ord, 2, a, b); }, l);
    nm += "-mono";
    RP d=P(2, {{2,{0,1}}}), z(0x11);
    mc::bfs(nm.c_str(), [=]() { return new Machine(ord, 2, d, z); }, l);
  }
#elif PROP == 9
  std::vector<mpz_class> C2={1, -1}, C6={1, -2, 6}, CB={1, -6, B64-1, B64*6};
  Alpha n1=polys(mons(1, 3), {1, -2, 4}, 3, 1), n2=polys(mons(2, 2), C6, 2, 1), n2t=polys(mons(2, 2), {2, -3}, 3, 3), n2b=polys(mons(2, 1), CB, 3, 1), n3=polys(mons(3, 2), {1, -4}, 2, 1);
  Alpha mo=polys(mons(2, 1, {0, 1}), {1, -2}, 3, 1), rg=polys(mons(2, 1), {1, -2}, 2, 1), mx=polys(mons(2, 2, {0}), {1, 3}, 2, 1);
  pairsOf("steps-n1", n1, n1, ALLORD, 1, reductions);
  pairsOf("steps-n2", n2, n2, ALLORD, 2, reductions);
  pairsOf("steps-n2-three-terms", n2t, every(n2t, T ? 1 : 2), ALLORD, 2, reductions);
  pairsOf("steps-n2-big", every(n2b, T ? 1 : 2), n2b, ALLORD, 2, reductions);
  pairsOf("steps-n3", n3, every(n3, T ? 1 : 2), ALLORD, 3, reductions);
  pairsOf("steps-modules", mo, every(mo, T ? 1 : 2), ALLORD, 2, reductions);
  pairsOf("steps-module-by-ring", mo, rg, ALLORD, 2, reductions);
  pairsOf("steps-module-by-ring-2", mx, rg, ALLORD, 2, reductions);
  {
    auto ms=std::make_shared<std::vector<Mon>>(mons(2, 2)); auto s1=std::make_shared<std::vector<Mon>>(mons(2, 1));
    mc::explore("product-comparison", [=](Ctx& c) {
      int ord=c.pick(ALLORD); int pl=c.choose(3)-1, ps=c.choose(3)-1, pa=c.choose(3)-1;
      if (pl >= 0 && ps >= 0) return;
      Mon lead=c.pick(*ms), s=c.pick(*s1), a=c.pick(*ms), b=c.pick(*ms);
      lead.pos = pl; b.pos = pl; s.pos = ps; a.pos = pa;
      productOrder(c, ord, 2, lead, s, a, b);
    });
  }
  std::vector<mpz_class> ks={1, -1, 2, -6, B64, B128-1};
  for(auto& x: {std::make_pair("primitive-n1", std::make_pair(1, n1)), std::make_pair("primitive-n2", std::make_pair(2, n2)), std::make_pair("primitive-n2-big", std::make_pair(2, n2b)),
                std::make_pair("primitive-modules", std::make_pair(2, mo))}) {
    auto a=sh(x.second.second); int n=x.second.first;
    a->push_back(RP(0x11));
    mc::explore(x.first, [=](Ctx& c) { primitives(c, reord(c.pick(*a), c.pick(ALLORD)), n, ks); });
  }
  auto nfs=[&](const char* name, const Alpha& A, const Alpha& B, int n, int k) {
    auto a=sh(A), b=sh(B);
    mc::explore(name, [=](Ctx& c) { int ord=c.pick(WELL); RP f=reord(c.pick(*a), ord); std::vector<RP> G; for(int i=0; i < k; i++) G.push_back(reord(c.pick(*b), ord)); normalForms(c, f, G, n); });
  };
  Alpha d2=polys(mons(2, 1), {1, -2}, 2, 1), f2=polys(mons(2, 2), {1, -3}, 3, 2), f22=polys({Mon({3,0}), Mon({2,2}), Mon({1,1}), Mon({0,3}), Mon({1,0}), Mon({0,0})}, {1, 3}, 4, 1);
  Alpha d22=polys(mons(2, 2), {1, -2}, 2, 1);
  nfs("nf-n1", polys(mons(1, 5), {1, 2}, 6, 1), polys(mons(1, 2), {1, -2}, 3, 1), 1, 1);
  nfs("nf-n2-one", every(f22, T ? 1 : 2), d22, 2, 1);
  nfs("nf-n2-two", every(f2, T ? 4 : 24), every(d22, T ? 1 : 2), 2, 2);
  nfs("nf-n3-two", every(polys(mons(3, 2), {1, -3}, 3, 2), T ? 40 : 160), every(polys(mons(3, 1), {1, -2}, 2, 1), 1), 3, 2);
  nfs("nf-modules", every(mo, T ? 4 : 16), every(polys(mons(2, 1, {0, 1}), {1, -2}, 2, 1), T ? 2 : 4), 2, 2);
#elif PROP == 10
  auto ord=[&](const char* name, int n, int d, std::vector<int> pa, int ds, std::vector<int> ps) {
    auto A=std::make_shared<std::vector<Mon>>(mons(n, d, pa)); auto S=std::make_shared<std::vector<Mon>>(mons(n, ds, ps));
    mc::explore(name, [=](Ctx& c) { const Mon &a=c.pick(*A), &b=c.pick(*A), &s=c.pick(*S); c.note("%s %s %s", a.str().c_str(), b.str().c_str(), s.str().c_str()); orders(c, a, b, s, n); });
  };
  ord("orders-n1", 1, 6, {-1, 0, 1, 2}, 3, {-1, 0, 1});
  ord("orders-n2", 2, T ? 5 : 4, {-1, 0, 1}, 3, {-1, 0, 1});
  ord("orders-n3", 3, T ? 4 : 3, {-1, 1}, T ? 3 : 2, {-1, 0});
  ord("orders-n4", 4, T ? 3 : 2, {-1, 0}, T ? 3 : 2, {-1});
  ord("orders-n5", 5, 2, {-1}, 2, {-1, 0});
  {
    auto ms=std::make_shared<std::vector<Mon>>(mons(2, 2)); auto s1=std::make_shared<std::vector<Mon>>(mons(2, T ? 2 : 1));
    mc::explore("product-comparison", [=](Ctx& c) {
      int ord=c.pick(ALLORD); int pl=c.choose(3)-1, ps=c.choose(3)-1, pa=c.choose(3)-1;
      if (pl >= 0 && ps >= 0) return;
      Mon lead=c.pick(*ms), s=c.pick(*s1), a=c.pick(*ms), b=c.pick(*ms);
      lead.pos = pl; b.pos = pl; s.pos = ps; a.pos = pa;
      productOrder(c, ord, 2, lead, s, a, b);
    });
  }
#else
  auto mon=[&](const char* name, int n, int d, std::vector<int> pa) {
    auto A=std::make_shared<std::vector<Mon>>(mons(n, d, pa));
    mc::explore(name, [=](Ctx& c) { const Mon &a=c.pick(*A), &b=c.pick(*A); monomials(c, a, b, n); });
  };
  mon("monomials-n1", 1, 7, {-1, 0, 1, 3});
  mon("monomials-n2", 2, T ? 8 : 5, {-1, 0, 1});
  mon("monomials-n3", 3, T ? 5 : 4, {-1, 0, 1});
  mon("monomials-n4", 4, T ? 4 : 3, {-1, 0});
  mon("monomials-n6", 6, 2, {-1, 2});
  mon("monomials-n17", 17, 1, {-1, 0, 1});
  for(int n: {1, 2, 3, 4}) {
    auto A=std::make_shared<std::vector<Mon>>(mons(n, 3));
    mc::explore(("permutations-n" + std::to_string(n)).c_str(), [=](Ctx& c) { permutations(c, n, *A); });
  }
#endif
}
