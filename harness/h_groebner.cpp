// C01-C05: completion of polynomial sets.  PROP selects what is judged.
#include "gbcheck.hpp"
#include <memory>
using namespace GInv;
using mc::Ctx;
typedef ref::Poly RP;
using ref::Mon;
#ifndef PROP
#define PROP 1
#endif

static const char* ordName(int o) {
  switch(o) { case 0x11: return "TOP|lex"; case 0x12: return "TOP|deglex"; case 0x14: return "TOP|alex";
              case 0x21: return "POT|lex"; case 0x22: return "POT|deglex"; default: return "POT|alex"; }
}
static const char* algName(int a) { return a == 0 ? "build" : a == 1 ? "algorithmTQ" : a == 2 ? "algorithmTQ1" : "algorithmTQ2"; }
static void build(JanetPolyInt& B, int alg) {
  switch(alg) { case 0: B.build(); break; case 1: B.algorithmTQ(); break; case 2: B.algorithmTQ1(); break; default: B.algorithmTQ2(); }
}
static RP reord(const RP& p, int ord) { RP r(ord); for(auto& x: p.t) r.addTerm(x.first, x.second); return r; }

// ---------------------------------------------------------------- alphabets
typedef std::vector<RP> Alpha;
static std::vector<Mon> ringMons(int n, int d) { std::vector<Mon> r; for(auto& e: ref::monomials(n, 0, d)) r.push_back(Mon(e)); return r; }
static std::vector<Mon> modMons(int n, int d, std::vector<int> comps) {
  std::vector<Mon> r; for(int c: comps) for(auto& e: ref::monomials(n, 0, d)) r.push_back(Mon(e, c)); return r;
}
static std::vector<Mon> boxMons(int n, int k) { // exponents < k
  std::vector<Mon> r; std::vector<int> e(n, 0);
  for(;;) { r.push_back(Mon(e)); int i=0; while(i < n && ++e[i] == k) e[i++] = 0; if (i == n) break; }
  return r;
}
// all polynomials with at most maxt terms on ms with coefficients cs, positive first coefficient
static Alpha polys(const std::vector<Mon>& ms, const std::vector<mpz_class>& cs, int maxt, int mint=1) {
  Alpha out;
  std::function<void(size_t, RP, int)> rec=[&](size_t i, RP p, int k) {
    if (i == ms.size()) { if (k >= mint && p.lc() > 0) out.push_back(p); return; }
    rec(i+1, p, k);
    if (k < maxt) for(auto& x: cs) { RP q(p); q.addTerm(ms[i], ref::Q(x)); rec(i+1, q, k+1); }
  };
  rec(0, RP(0x11), 0);
  return out;
}
static RP parse(int n, const std::vector<std::pair<int, std::vector<int>>>& t) {
  RP p(0x11);
  for(auto& x: t) p.addTerm(Mon(x.second), x.first);
  (void)n;
  return p;
}
static RP permute(const RP& p, const std::vector<int>& pi, int ord) {
  RP r(ord);
  for(auto& x: p.t) { Mon m(x.first); for(int i=0; i < m.n(); i++) m.e[pi[i]] = x.first.e[i]; r.addTerm(m, x.second); }
  return r;
}
struct Named { const char* name; int n; Alpha F; };
static std::vector<Named> named() {
  std::vector<Named> r;
  r.push_back(Named{"cyclic3", 3, {
    parse(3, {{1,{1,0,0}},{1,{0,1,0}},{1,{0,0,1}}}),
    parse(3, {{1,{1,1,0}},{1,{0,1,1}},{1,{1,0,1}}}),
    parse(3, {{1,{1,1,1}},{-1,{0,0,0}}})}});
  r.push_back(Named{"katsura2", 3, {
    parse(3, {{1,{1,0,0}},{2,{0,1,0}},{2,{0,0,1}},{-1,{0,0,0}}}),
    parse(3, {{1,{2,0,0}},{2,{0,2,0}},{2,{0,0,2}},{-1,{1,0,0}}}),
    parse(3, {{2,{1,1,0}},{2,{0,1,1}},{-1,{0,1,0}}})}});
  r.push_back(Named{"noon3", 3, {
    parse(3, {{10,{1,2,0}},{10,{1,0,2}},{-11,{1,0,0}},{10,{0,0,0}}}),
    parse(3, {{10,{2,1,0}},{10,{0,1,2}},{-11,{0,1,0}},{10,{0,0,0}}}),
    parse(3, {{10,{2,0,1}},{10,{0,2,1}},{-11,{0,0,1}},{10,{0,0,0}}})}});
  r.push_back(Named{"twisted-cubic", 4, {
    parse(4, {{1,{1,0,1,0}},{-1,{0,2,0,0}}}),
    parse(4, {{1,{0,1,0,1}},{-1,{0,0,2,0}}}),
    parse(4, {{1,{1,0,0,1}},{-1,{0,1,1,0}}})}});
  r.push_back(Named{"trinks-like", 3, {
    parse(3, {{45,{0,1,0}},{35,{0,0,1}},{-165,{1,0,0}},{-36,{0,0,0}}}),
    parse(3, {{35,{0,1,0}},{25,{1,0,1}},{40,{0,0,1}},{-27,{1,0,0}}}),
    parse(3, {{15,{1,0,0}},{25,{0,1,1}},{30,{0,0,1}},{-18,{0,0,0}}})}});
  r.push_back(Named{"circle-curve", 3, {
    parse(3, {{1,{2,0,0}},{1,{0,2,0}},{1,{0,0,2}},{-1,{0,0,0}}}),
    parse(3, {{1,{2,0,0}},{1,{0,0,2}},{-1,{0,1,0}}}),
    parse(3, {{1,{1,0,0}},{-1,{0,0,1}}})}});
  r.push_back(Named{"powers", 3, {
    parse(3, {{1,{4,0,0}},{-1,{0,1,0}}}),
    parse(3, {{1,{0,3,0}},{1,{1,0,1}}}),
    parse(3, {{1,{0,0,2}},{-3,{0,0,0}}})}});
  r.push_back(Named{"stairs", 2, {
    parse(2, {{1,{9,0}}}), parse(2, {{1,{7,2}},{-1,{0,8}}}), parse(2, {{2,{3,5}},{5,{6,1}}}), parse(2, {{1,{0,11}}})}});
  return r;
}

// ---------------------------------------------------------------- the judges
static std::vector<int> comps(const Alpha& F) {
  std::set<int> s; for(auto& f: F) for(auto& x: f.t) s.insert(x.first.pos); return std::vector<int>(s.begin(), s.end());
}
struct Built {
  JanetPolyInt B;
  void push(const RP& f, int n) { glue::PolyBox p(f, n); B.push(p.p); }
};
static void noteBasis(Ctx& c, JanetPolyInt& B) {
  if (!mc::replaying) return;
  if (B.isOne()) { c.note("  whole ring"); return; }
  auto b=gbcheck::read(B);
  for(size_t i=0; i < b.G.size(); i++) {
    std::string f; for(int v=0; v < b.lm[i].n(); v++) f += b.w[i]->NM(v) ? '*' : '_';
    c.note("  basis %s  nm %s", b.G[i].str().c_str(), f.c_str());
  }
}

static Alpha probes(const Alpha& F, int n, int ord, const std::vector<int>& cs) {
  Alpha T;
  int d=0;
  for(auto& f: F) for(auto& x: f.t) d = std::max(d, x.first.deg());
  RP sum(ord); int k=0;
  for(int pos: cs)
    for(auto& e: ref::monomials(n, 0, std::min(d+1, 4))) {
      RP p(ord); p.addTerm(Mon(e, pos), 1); T.push_back(p);
      sum.addTerm(Mon(e, pos), ref::Q((k*7 + 3) % 11 - 5)); k++;
    }
  T.push_back(sum);
  // members, and members plus a monomial
  for(size_t i=0; i < F.size(); i++) {
    if (F[i].zero()) continue;
    for(int v=0; v < n; v++) {
      std::vector<int> e(n, 0); e[v] = 1;
      RP p=ref::addmul(RP(ord), 3, Mon(e), F[i]);
      p = ref::addmul(p, -5, Mon(std::vector<int>(n, 0)), F[(i+1) % F.size()]);
      T.push_back(p);
      std::vector<int> e2(n, 1);
      RP q(p); q.addTerm(Mon(e2, cs[0]), 6);
      T.push_back(q);
      T.push_back(ref::one(q, ref::Q(mpz_class("123456789012345678901234567890"))));
    }
  }
  return T;
}

static void judgeNF(Ctx& c, JanetPolyInt& B, const Alpha& F, const Alpha& R, int n, int ord) {
  std::vector<int> cs=comps(F);
  auto before=gbcheck::read(B);
  bool unit=B.isOne();
  RP unitp(ord);
  if (unit) unitp = RP(ord);
  for(auto& t: probes(F, n, ord, cs)) {
    if (t.zero()) continue;
    RP want=ref::nf(t, R);
    glue::PolyBox p(t, n);
    B.nf(p.p); c.step();
    std::string d=glue::polyDefect(p.p);
    c.check(d.empty(), "normal form of %s: %s", t.str().c_str(), d.c_str());
    RP got=glue::rdPoly(p.p);
    c.check(got.zero() == want.zero(), "normal form of %s is %s, but the polynomial is %sin the ideal", t.str().c_str(), got.str().c_str(), want.zero() ? "" : "not ");
    if (!want.zero()) {
      c.check(ref::proportional(got, want), "normal form of %s is %s, not a multiple of %s", t.str().c_str(), got.str().c_str(), want.str().c_str());
      c.check(ref::primitive(got) == got, "normal form %s has a common factor", got.str().c_str());
      c.check(p.p.isNf(B), "isNf() denies it of the normal form %s", got.str().c_str());
      B.nf(p.p); c.step();
      c.check(glue::rdPoly(p.p) == got, "the normal form of the normal form %s is %s", got.str().c_str(), glue::rdPoly(p.p).str().c_str());
    }
    mc::count(want.zero() ? "members reduced" : "non-members reduced");
  }
  if (!unit) {
    auto after=gbcheck::read(B);
    c.check(after.w == before.w && after.lm == before.lm, "computing normal forms changed the basis");
    for(size_t i=0; i < after.G.size(); i++) c.check(after.G[i] == before.G[i], "computing normal forms changed a basis element");
  }
}

// value of a printed rational polynomial at s
static mpq_class evalHP(const HilbertPoly& hp, long s) {
  mpq_class r=0, x=1;
  for(int k=0; k <= hp.dim(); k++) { mpq_class co(hp[k]); co.canonicalize(); r += co*x; x *= s; }
  return r;
}
static void judgeHP(Ctx& c, JanetPolyInt& B, int n, const std::vector<int>& cs) {
  if (B.isOne() || B.size() == 0) return;
  auto b=gbcheck::read(B);
  int D=0; for(auto& m: b.lm) D = std::max(D, m.deg());
  auto irreducible=[&](int pos, int s) {
    mpz_class k=0;
    for(auto& e: ref::monomials(n, 0, s)) {
      Mon m(e, pos); bool red=false;
      for(auto& l: b.lm) if (l.pos == pos && ref::divides(l, m)) { red = true; break; }
      if (!red) ++k;
    }
    return k;
  };
  {
    HilbertPoly hp; B.buildHP(hp); c.step();
    for(int s=D; s <= D+2; s++) {
      mpz_class want=0;
      if (B.maxPos() < 0) want = irreducible(-1, s);
      else for(int pos=0; pos <= B.maxPos(); pos++) want += irreducible(pos, s);
      c.check(evalHP(hp, s) == want, "the Hilbert polynomial is %s at s=%d, the number of irreducible monomials of degree at most s is %s",
              evalHP(hp, s).get_str().c_str(), s, want.get_str().c_str());
    }
    mc::outcome(std::string("hp") + evalHP(hp, D).get_str() + "," + evalHP(hp, D+1).get_str());
  }
  for(int pos: cs) {
    if (pos > B.maxPos()) continue;
    const Janet& J=B.janet(pos);
    bool any=false;
    for(auto& m: b.lm) any = any || m.pos == pos;
    c.check((J.size() > 0) == any, "the tree of component %d has %d elements, the basis has %s", pos, J.size(), any ? "some" : "none");
    if (!any) continue;
    HilbertPoly hp; J.buildHP(hp); c.step();
    for(int s=D; s <= D+2; s++)
      c.check(evalHP(hp, s) == irreducible(pos, s), "component %d: the Hilbert polynomial is %s at s=%d, the number of irreducible monomials of degree at most s is %s",
              pos, evalHP(hp, s).get_str().c_str(), s, irreducible(pos, s).get_str().c_str());
  }
}

static void judge(Ctx& c, JanetPolyInt& B, const Alpha& F, const Alpha& R, int n, int ord, int alg) {
#if PROP == 1
  gbcheck::checkGroebner(c, B, F, R, n, ord);
#elif PROP == 2
  gbcheck::checkInvolutive(c, B, n);
  gbcheck::checkShape(c, B, n, ord, alg == 0);
  int d=0;
  if (!B.isOne()) for(auto& m: gbcheck::read(B).lm) d = std::max(d, m.deg());
  std::vector<int> cs=comps(F);
  gbcheck::checkFind(c, B, R, n, std::min(d+1, n > 3 ? 4 : n > 2 ? 5 : 12), cs);
#elif PROP == 4
  judgeNF(c, B, F, R, n, ord);
#elif PROP == 5
  judgeHP(c, B, n, comps(F));
#endif
  if (!B.isOne()) { auto b=gbcheck::read(B); uint64_t h=mc::fnv("b"); for(auto& m: b.lm) { std::string s=m.str(); h = mc::fnv(s.data(), s.size(), h); } mc::outcome(h); }
}

// one set of generators, every algorithm
static void runCase(Ctx& c, const Alpha& G, int n, int ord, int algs) {
  Alpha F; for(auto& g: G) F.push_back(reord(g, ord));
  for(auto& f: F) c.note("push %s", f.str().c_str());
  Alpha R=ref::groebner(F);
  for(auto& r: R) c.note("reference basis: %s", r.str().c_str());
  bool unit=R.size() == 1 && R[0].lm().deg() == 0 && R[0].lm().pos == -1;
  mc::count(unit ? "ideals that are the whole ring" : R.size() > F.size() ? "ideals whose basis grows" : "other ideals");
  // the last round completes after every generator instead of once at the end
  for(int alg=0; alg < algs+1; alg++) {
    if (alg == algs && F.size() < 2) break;
    const char* how=alg == algs ? "build after every push" : algName(alg);
    c.note("order %s, %s", ordName(ord), how);
    Built b;
    for(size_t i=0; i < F.size(); i++) {
      b.push(F[i], n); c.step();
      if (alg == algs && i+1 < F.size()) { build(b.B, 0); c.step(); }
    }
    build(b.B, alg == algs ? 0 : alg); c.step();
    noteBasis(c, b.B);
    try { judge(c, b.B, F, R, n, ord, alg == algs ? 0 : alg); }
    catch(mc::Violation& v) { std::string w="order "; w += ordName(ord); w += ", "; w += how; w += ": " + v.what; throw mc::Violation{w}; }
  }
}

#if PROP == 3
// histories: every interleaving of pushes (any order, with repetitions, negatives,
// zero, multiples) and completions over the generators; the ideal must not depend on it
static void history(Ctx& c, const Alpha& G, int n, int ord, int alg, int extra) {
  Alpha F; for(auto& g: G) F.push_back(reord(g, ord));
  Alpha R=ref::groebner(F);
  std::vector<bool> used(F.size(), false);
  Built b;
  size_t left=F.size();
  Alpha pushed;
  c.note("order %s, %s", ordName(ord), algName(alg));
  bool built=false, one=false;
  while(left || extra) {
    // choices: push an unused one, build (if something was pushed since), or an extra push
    int nun=0; for(bool u: used) nun += !u;
    int k=c.choose(nun + (built ? 0 : 1) + (extra ? 5 : 0) + (left ? 0 : 1));
    if (k < nun) {
      size_t i=0; for(;; i++) if (!used[i] && k-- == 0) break;
      used[i] = true; left--;
      c.note("push %s", F[i].str().c_str());
      b.push(F[i], n); c.step(); pushed.push_back(F[i]); built = false;
      continue;
    }
    k -= nun;
    if (!built) {
      if (k == 0) {
        c.note("complete"); build(b.B, alg); c.step(); built = true;
        noteBasis(c, b.B);
        if (!pushed.empty()) {
          Alpha Rp=ref::groebner(pushed);
          gbcheck::checkGroebner(c, b.B, pushed, Rp, n, ord);
          gbcheck::checkInvolutive(c, b.B, n);
          if (b.B.isOne()) one = true;
        }
        continue;
      }
      k--;
    }
    if (extra && k < 5) {
      extra--;
      RP p(ord);
      switch(k) {
        case 0: break;                                                         // the zero polynomial
        case 1: p = F[0]; break;                                               // a generator again
        case 2: p = ref::one(F.back(), -1); break;                             // a negated generator
        case 3: { std::vector<int> e(n, 0); e[n-1] = 1; p = ref::addmul(p, 2, Mon(e), F[0]); p = ref::add(p, F.back()); break; } // follows
        case 4: { std::vector<int> e(n, 0); e[0] = 2; p = ref::addmul(p, 1, Mon(e), F.back()); break; }
      }
      c.note("push %s", p.str().c_str());
      b.push(p, n); c.step();
      if (!p.zero()) { pushed.push_back(p); built = false; }
      continue;
    }
    break;
  }
  c.note("final completion");
  build(b.B, alg); c.step();
  noteBasis(c, b.B);
  gbcheck::checkGroebner(c, b.B, F, R, n, ord);
  gbcheck::checkInvolutive(c, b.B, n);
  gbcheck::checkFind(c, b.B, R, n, 4, comps(F));
  c.check(!one || b.B.isOne(), "the whole ring was reached and lost again");
  // normal forms agree up to a factor with the reference, hence with each other
  for(auto& t: probes(F, n, ord, comps(F))) {
    if (t.zero()) continue;
    RP want=ref::nf(t, R);
    glue::PolyBox p(t, n); b.B.nf(p.p); c.step();
    RP got=glue::rdPoly(p.p);
    c.check(got.zero() == want.zero() && (want.zero() || ref::proportional(got, want)), "normal form of %s is %s, in the ideal of the generators it is a multiple of %s",
            t.str().c_str(), got.str().c_str(), want.str().c_str());
  }
}
#endif

static Alpha every(const Alpha& a, int k, int off=0) { Alpha r; for(size_t i=off; i < a.size(); i += k) r.push_back(a[i]); return r; }
// In the reduced runs: the least stride through the alphabet that keeps the
// number of multisets below a bound.
static Alpha thin(const Alpha& a, int k) {
  if (mc::lite <= 1) return a;
  double cap=(PROP == 3 ? 1600. : PROP == 4 ? 10000. : 60000.)/mc::lite;
  for(int st=1;; st++) {
    Alpha r=every(a, st);
    double n=1; for(int i=0; i < k; i++) n = n*(r.size()+i)/(i+1);
    if (n <= cap || r.size() <= 3) return r;
  }
}
// all multisets of size k from an alphabet
static void family(const char* name, const Alpha& A, int n, int k, std::vector<int> ords, int algs=4, int extra=1) {
  static std::vector<std::shared_ptr<Alpha>> keep;
  keep.push_back(std::make_shared<Alpha>(thin(A, k)));
  auto P=keep.back();
  mc::explore(name, [=](Ctx& c) {
    int ord=ords[c.choose((int)ords.size())];
    Alpha F; int lo=0;
    for(int i=0; i < k; i++) { int x=lo + c.choose((int)P->size()-lo); F.push_back((*P)[x]); lo = x; }
#if PROP == 3
    int alg=c.choose(algs);
    history(c, F, n, ord, alg, extra);
#else
    (void)extra;
    runCase(c, F, n, ord, algs);
#endif
  });
}

void parts() {
  const std::vector<int> RING={0x11, 0x12}, MOD={0x11, 0x12, 0x21, 0x22};
  const bool T=mc::thorough();
  const std::vector<mpz_class> PM={1, -1};
  Alpha dense22=polys(ringMons(2, 2), PM, 6);
  Alpha bin32=polys(ringMons(3, 2), PM, 2);
  Alpha box=polys(boxMons(2, 4), PM, 2);
  std::vector<Mon> pw; for(int i=3; i >= 0; i--) pw.push_back(Mon({i, 0}));
  Alpha uni=polys(pw, {1, -1, 2, -2}, 4);
  std::vector<Mon> uni1m; for(int i=4; i >= 0; i--) uni1m.push_back(Mon({i}));
  Alpha uni1=polys(uni1m, {1, -1, 3}, 3);
  mpz_class B64("18446744073709551616"), B32("4294967296");
  std::vector<Mon> few={Mon({2,0}), Mon({1,1}), Mon({0,1}), Mon({1,0}), Mon({0,0})};
  Alpha big=polys(few, {mpz_class(1), mpz_class(-6), mpz_class(B64-1), mpz_class(-B64), mpz_class(B32*3)}, 2);
  Alpha mon33=polys(ringMons(3, 3), {1}, 1);
  Alpha mon42=polys(ringMons(4, 2), {1}, 1);
  Alpha mod1=polys(modMons(2, 1, {0, 1}), PM, 3);
  Alpha mod2=polys(modMons(2, 2, {0, 1}), PM, 2);
  Alpha mod3=polys(modMons(2, 1, {0, 1, 2}), {1, -2}, 2);
  std::vector<Mon> sqf; for(auto& m: ringMons(4, 2)) { bool s=true; for(int x: m.e) s = s && x < 2; if (s) sqf.push_back(m); }
  Alpha bin4=polys(sqf, {1, -1}, 2, 2);
  Alpha tri32=polys(ringMons(3, 2), PM, 3, 3);
#if PROP == 3
  family("histories-pairs-n2", every(dense22, T ? 9 : 18), 2, 2, RING, 4, 1);
  family("histories-triples-n2", every(box, 17), 2, 3, RING, 2, T ? 1 : 0);
  family("histories-modules", every(mod1, T ? 5 : 9), 2, 2, MOD, 4, 1);
  family("histories-triples-n3", every(bin32, 11), 3, 3, RING, 1, 0);
  // components which appear one after the other: the number of trees grows during the history
  Alpha grow;
  for(int pos: {0, 1, 2})
    for(auto& f: every(polys(modMons(2, 1, {pos}), PM, 2), 3)) grow.push_back(f);
  for(auto& f: every(polys(modMons(2, 1, {0, 2}), {1, -2}, 2, 2), 5)) grow.push_back(f);
  family("histories-growing-components", grow, 2, 2, MOD, T ? 4 : 2, T ? 1 : 0);
  family("histories-growing-triples", every(grow, T ? 1 : 2), 2, 3, T ? MOD : std::vector<int>{0x12, 0x21}, 1, 0);
  if (T) {
    family("histories-quads-n3", every(bin32, 13), 3, 4, RING, 1, 0);
    family("histories-pairs-n2-all", dense22, 2, 2, RING, 1, 0);
    family("histories-modules-triples", every(mod2, 13), 2, 3, MOD, 1, 0);
  }
#else
  family("dense-n2d2", every(dense22, T || PROP != 4 ? 1 : 2), 2, 2, RING);
  family("box-n2-pairs", box, 2, 2, RING);
  family("univariate-n2", uni, 2, 2, {0x12});
  family("univariate-n1", uni1, 1, 2, RING);
  family("bigcoef-n2", big, 2, 2, RING);
  family("monomials-n3", mon33, 3, 4, {0x12});
  family("monomials-n4", mon42, 4, 4, {0x11});
  family("modules-n2d1", every(mod1, T ? 1 : PROP == 4 ? 3 : 2), 2, 3, MOD);
  family("modules-n2d2", mod2, 2, 2, MOD);
  family("modules-3comp", mod3, 2, 2, MOD);
  family("binomials-n3", every(bin32, T || PROP == 1 ? 1 : 2), 3, 3, RING);
  family("binomials-n4", every(bin4, T ? 1 : PROP == 1 ? 2 : 4), 4, 3, RING);
  family("trinomials-n3", every(tri32, T ? 2 : 8), 3, 2, RING);
  {
    static std::vector<Named> N=named();
    mc::explore("named-systems", [=](Ctx& c) {
      const Named& s=N[c.choose((int)N.size())];
      int ord=strcmp(s.name, "noon3") ? RING[c.choose(2)] : 0x12; // the reference is slow on noon3 under lex
      std::vector<int> pi(s.n), left; for(int i=0; i < s.n; i++) left.push_back(i);
      for(int i=0; i < s.n; i++) { int k=mc::lite > 8 ? (int)left.size()-1 : c.choose((int)left.size()); pi[i] = left[k]; left.erase(left.begin()+k); }
      c.note("%s", s.name);
      Alpha F; for(auto& f: s.F) F.push_back(permute(f, pi, ord));
      runCase(c, F, s.n, ord, 4);
    });
  }
  if (T) {
    family("box-n2-triples", box, 2, 3, RING, 2);
    family("dense-n2d2-triples", every(dense22, 6), 2, 3, RING);
    family("monomials-n3-five", mon33, 3, 5, {0x12});
    family("modules-n2d2-triples", every(mod2, 2), 2, 3, MOD, 2);
    family("binomials-n3-quads", every(bin32, 4), 3, 4, RING);
  }
#endif
}
