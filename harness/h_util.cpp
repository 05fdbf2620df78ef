// C12 integers, C15 red-black trees, C16 lists, C17 stacks, C18 permutations,
// C19 Hilbert polynomials, C21 timers.
#include "mc.hpp"
#include <memory>
#include <climits>
#include <cmath>
#include <sys/times.h>
#include <gmpxx.h>
#include "util/integer.h"
#include "util/list.h"
#include "util/stack.h"
#include "util/rbtree.h"
#include "util/hilbertpoly.h"
#include "util/randpermutation.h"
#include "util/timer.h"
using namespace GInv;
using mc::Ctx;
#ifndef PROP
#define PROP 12
#endif
struct Quiet { Quiet() { std::cerr.rdbuf(nullptr); } };
static Quiet quiet_;
static std::string hex(const mpz_class& z) { mpz_class a=abs(z); return std::string(z < 0 ? "-0x" : "0x") + a.get_str(16); }

#if PROP == 12
// ---------------------------------------------------------------- C12
static const char* STR(const mpz_class& z) { static std::string s[4]; static int k; return (s[k = (k+1) % 4] = z.get_str()).c_str(); }
static void is(Ctx& c, const Integer& a, const mpz_class& v, const char* what, bool full=true) {
  { std::string s=a.get_str(16); c.check(s == v.get_str(16), "%s: %s instead of %s (base 16)", what, s.c_str(), v.get_str(16).c_str()); }
  if (full) { std::string s=a.get_str(10); c.check(s == v.get_str(10), "%s: %s instead of %s (base 10)", what, s.c_str(), v.get_str(10).c_str()); }
  c.check(a.isZero() == (v == 0) && a.isOne() == (v == 1) && a.isAbsOne() == (abs(v) == 1) && a.sgn() == sgn(v), "%s: isZero, isOne, isAbsOne or sgn of %s is wrong", what, STR(v));
  c.check(std::abs(a.norm()) == (int)mpz_size(v.get_mpz_t()), "%s: norm() of %s is %d", what, STR(v), a.norm());
}
struct Box { Integer i; Box(Allocator* al, const mpz_class& v): i(al, hex(v).c_str()) {} };
static void pairsBody(Ctx& c, const mpz_class& a, const mpz_class& b, const std::vector<mpz_class>& dst) {
  c.note("a = %s, b = %s", STR(a), STR(b));
  Allocator al[3];
  {
    Box A(al, a), B(al+1, b);
    is(c, A.i, a, "a"); is(c, B.i, b, "b"); c.step(2);
    mpz_class g; mpz_gcd(g.get_mpz_t(), a.get_mpz_t(), b.get_mpz_t());
    bool dv=b != 0 ? mpz_divisible_p(a.get_mpz_t(), b.get_mpz_t()) : a == 0;
    c.check(A.i.divisible(B.i) == dv, "a.divisible(b) is %d", !dv);
    mpz_class q; if (b != 0 && dv) q = a/b;
    { Integer x(al, A.i); x.add(B.i); c.step(); is(c, x, a+b, "a+b"); x.sub(B.i); is(c, x, a, "a+b-b"); }
    { Integer x(al+2, A.i); x.sub(B.i); c.step(); is(c, x, a-b, "a-b"); x.add(B.i); is(c, x, a, "a-b+b"); }
    { Integer x(al, A.i); x.mult(B.i); c.step(); is(c, x, a*b, "a*b"); if (b != 0) { c.check(x.divisible(B.i), "a*b is not divisible by b"); x.div(B.i); is(c, x, a, "a*b/b"); } }
    if (b != 0 && dv) { Integer x(al+2, A.i); x.div(B.i); c.step(); is(c, x, q, "a/b"); }
    if (a != 0 && b != 0) { Integer x(al, A.i); x.gcd(B.i); c.step(); is(c, x, g, "gcd(a,b)"); }
    { Integer x(al, A.i); x = B.i; is(c, x, b, "x = b"); x.set_neg(); is(c, x, -b, "-b"); x.swap(A.i); is(c, x, a, "swap"); is(c, A.i, -b, "swap"); x.swap(A.i); c.step(4); }
    { Integer x(al, A.i), y(std::move(x)); is(c, y, a, "move construction"); x = B.i; is(c, x, b, "assigning to the moved one"); Box z(al+2, b); z.i = std::move(y); is(c, z.i, a, "move assignment"); c.step(3); }
    for(auto& d: dst) { // three operand forms, the target holds something else before
      { Box x(al+2, d); x.i.add(A.i, B.i); is(c, x.i, a+b, "x = a+b", false); x.i.sub(A.i, B.i); is(c, x.i, a-b, "x = a-b", false); x.i.mult(A.i, B.i); is(c, x.i, a*b, "x = a*b", false); x.i.add(B.i); is(c, x.i, a*b+b, "x += b", false); c.step(4); }
      if (b != 0 && dv) { Box x(al+2, d); x.i.div(A.i, B.i); is(c, x.i, q, "x = a/b", false); x.i.mult(B.i); is(c, x.i, a, "x *= b", false); c.step(2); }
      if (a != 0 && b != 0) { Box x(al+2, d); x.i.gcd(A.i, B.i); is(c, x.i, g, "x = gcd(a,b)", false); x.i.mult(A.i); is(c, x.i, g*a, "x *= a", false); c.step(2); }
    }
    is(c, A.i, a, "operand a"); is(c, B.i, b, "operand b");
  }
  for(auto& x: al) c.check(x.size() == 0, "%zu bytes stay in use", x.size());
}
static void text(Ctx& c, const mpz_class& v, int base) {
  Allocator al[2];
  {
    Integer a(al, hex(v).c_str());
    std::string got=a.get_str(base), want=v.get_str(base);
    c.step(2);
    c.check(got == want, "a number of %zu digits in base %d is printed with %zu digits, first difference at %zu", want.size(), base, got.size(),
      (size_t)(std::mismatch(want.begin(), want.begin()+std::min(want.size(), got.size()), got.begin()).first - want.begin()));
    std::string again=a.get_str(base); c.check(again == want, "printing twice differs");
    if (base == 10) { Integer b(al+1, got.c_str()); is(c, b, v, "parsing what was printed", false); }
    if (base == 16) { std::string s=got[0] == '-' ? "-0x" + got.substr(1) : "0x" + got; Integer b(al+1, s.c_str()); is(c, b, v, "parsing what was printed", false); }
    Integer s(al, "0x0"); std::string z=s.get_str(base); c.check(z == "0", "zero is printed as %s", z.c_str());
  }
}
struct Regs: mc::System {
  Allocator al[3];
  std::unique_ptr<Integer> r[3];
  mpz_class m[3];
  int k0=1;
  const std::vector<mpz_class>& V;
  Regs(const std::vector<mpz_class>& start, const std::vector<mpz_class>& v): V(v) { for(int i=0; i < 3; i++) { m[i] = start[i]; r[i].reset(new Integer(al+i, hex(m[i]).c_str())); } }
  int nops() override { return 9*8 + 3*(int)V.size() + 3*4 + 5; }
  void apply(Ctx& c, int op) override {
    static const char* N2[]={"add", "sub", "mult", "div", "gcd", "=", "swap", "move"};
    c.step();
    if (op < 72) {
      int k=op/9, i=op%9/3, j=op%3;
      c.note("r%d.%s(r%d)", i, N2[k], j);
      bool ok=true;
      switch(k) {
        case 0: r[i]->add(*r[j]); m[i] = m[i] + m[j]; break;
        case 1: r[i]->sub(*r[j]); m[i] = m[i] - m[j]; break;
        case 2: r[i]->mult(*r[j]); m[i] = m[i]*m[j]; break;
        case 3: if (m[j] != 0 && mpz_divisible_p(m[i].get_mpz_t(), m[j].get_mpz_t())) { r[i]->div(*r[j]); m[i] = m[i]/m[j]; } else ok = false; break;
        case 4: if (m[i] != 0 && m[j] != 0) { r[i]->gcd(*r[j]); mpz_class g; mpz_gcd(g.get_mpz_t(), m[i].get_mpz_t(), m[j].get_mpz_t()); m[i] = g; } else ok = false; break;
        case 5: if (i != j) { *r[i] = *r[j]; m[i] = m[j]; } else ok = false; break;
        case 6: if (i < j) { r[i]->swap(*r[j]); std::swap(m[i], m[j]); } else ok = false; break;
        case 7: if (i != j) { *r[i] = std::move(*r[j]); m[i] = m[j]; *r[j] = *r[i]; } else ok = false; break;
      }
      if (!ok) { noop = true; return; }
    }
    else if ((op -= 72) < 3*(int)V.size()) {
      int i=op % 3; const mpz_class& v=V[op/3];
      c.note("r%d = %s", i, STR(v));
      if (v.fits_slong_p() && op/3 % 2) r[i]->set_si(v.get_si());
      else if (v.fits_ulong_p()) r[i]->set_ui(v.get_ui());
      else { Integer t(al+i, hex(v).c_str()); *r[i] = t; }
      m[i] = v;
    }
    else if ((op -= 3*(int)V.size()) < 12) {
      int i=op % 3; c.note("r%d: %d", i, op/3);
      switch(op/3) {
        case 0: r[i]->set_neg(); m[i] = -m[i]; break;
        case 1: { Integer t(al+(i+1)%3, *r[i]); r[i].reset(new Integer(std::move(t))); break; }
        case 2: { r[i].reset(new Integer(al+i, *r[(i+1)%3])); m[i] = m[(i+1)%3]; break; }
        case 3: { r[i].reset(new Integer(al+i)); m[i] = 0; break; }
      }
    }
    else {
      static const char* N3[]={"add", "sub", "mult", "div", "gcd"};
      op -= 12; c.note("r2.%s(r0, r1)", N3[op]);
      switch(op) {
        case 0: r[2]->add(*r[0], *r[1]); m[2] = m[0] + m[1]; break;
        case 1: r[2]->sub(*r[0], *r[1]); m[2] = m[0] - m[1]; break;
        case 2: r[2]->mult(*r[0], *r[1]); m[2] = m[0]*m[1]; break;
        case 3: if (m[1] != 0 && mpz_divisible_p(m[0].get_mpz_t(), m[1].get_mpz_t())) { r[2]->div(*r[0], *r[1]); m[2] = m[0]/m[1]; } else { noop = true; return; } break;
        case 4: if (m[0] != 0 && m[1] != 0) { r[2]->gcd(*r[0], *r[1]); mpz_gcd(m[2].get_mpz_t(), m[0].get_mpz_t(), m[1].get_mpz_t()); } else { noop = true; return; } break;
      }
    }
    if (mc::rebuilding) return;
    for(int i=0; i < 3; i++) { char w[8]; snprintf(w, sizeof w, "r%d", i); is(c, *r[i], m[i], w, false); }
  }
  bool noop=false;
  std::string canon() override {
    if (noop) return "";
    std::string s;
    for(int i=0; i < 3; i++) { if (mpz_sizeinbase(m[i].get_mpz_t(), 2) > 270) return ""; s += m[i].get_str(36) + ","; }
    for(int i=0; i < 3; i++) s += std::to_string(al[i].size()) + ";";
    return s;
  }
};
void parts() {
  const bool T=mc::thorough();
  mpz_class B=1; B <<= 64;
  std::vector<mpz_class> base={0, 1, 2, 3, 6, 10, 30, mpz_class(1) << 31, (mpz_class(1) << 32)-1, mpz_class(1) << 32, (mpz_class(1) << 63)-1, mpz_class(1) << 63, B-1, B, B+1, 3*B, B*B-1, B*B, B*B+1, B*B-B, (B-1)*(B-1), B*B*B-1, B*B*B, B*B*B*B-1, mpz_class("100000000000000000000"), mpz_class("30000000000000000000000000000000000000000"), B*6, B*B*6};
  if (T) for(int k=1; k <= 5; k++) { mpz_class p; mpz_ui_pow_ui(p.get_mpz_t(), 3, 40*k); base.push_back(p); base.push_back(p*6); base.push_back((B << (7*k)) - 1); base.push_back((B*B >> k) + 1); mpz_ui_pow_ui(p.get_mpz_t(), 2, 64*k+63); base.push_back(p); base.push_back(p-1); }
  auto V=std::make_shared<std::vector<mpz_class>>();
  for(auto& x: base) { V->push_back(x); if (x != 0) V->push_back(-x); }
  auto D=std::make_shared<std::vector<mpz_class>>(std::vector<mpz_class>{0, -7, B*B*B*B*B+1});
  mc::explore("pairs", [=](Ctx& c) { const mpz_class& a=c.pick(*V); const mpz_class& b=c.pick(*V); pairsBody(c, a, b, *D); });
  // operands on both sides of every carry and borrow: a = 2^i + s, b = 2^j + t
  mc::explore("powers", [=](Ctx& c) {
    int M=T ? 20 : 13;
    int i=c.choose(M), j=c.choose(M), s=c.choose(3)-1, t=c.choose(3)-1; bool na=c.flag(), nb=c.flag();
    static const int E[]={0, 1, 31, 63, 64, 65, 127, 128, 129, 191, 192, 193, 256, 319, 320, 321, 383, 384, 511, 512};
    mpz_class a=(mpz_class(1) << E[i]) + s, b=(mpz_class(1) << E[j]) + t; if (na) a = -a; if (nb) b = -b;
    pairsBody(c, a, b, {});
  });
  mc::explore("bases", [=](Ctx& c) { const mpz_class& v=c.pick(*V); for(int b=2; b <= 62; b++) text(c, v, b); });
  // printed lengths around the static buffer (65536) and around the buffer after it grew, in every order of two
  mc::explore("long-text", [=](Ctx& c) {
    static const int L[]={1000, 65530, 65531, 65532, 65533, 65534, 65535, 65536, 65537, 65540, 69000, 98000, 98303, 98304, 98305, 98310, 102399, 102400, 200000, 400000};
    int base=c.flag() ? 16 : 10; int n1=c.choose(mc::lite > 1 ? 18 : 20), n2=mc::lite > 1 ? n1/2 : c.choose(20);
    for(int n: {n1, n2}) for(int kind=0; kind < 4; kind++) {
      mpz_class p; mpz_ui_pow_ui(p.get_mpz_t(), base, L[n]-1);
      mpz_class v=kind % 2 ? mpz_class(p*base-1) : p; if (kind >= 2) v = -v;
      c.note("a number of %d digits in base %d", L[n], base);
      text(c, v, base);
    }
  });
  static const std::vector<mpz_class> SETS={0, -1, mpz_class(LONG_MIN), (B-1)};
  for(int k=0; k < 4; k++) {
    std::vector<std::vector<mpz_class>> S={{1, -1, 0}, {B-1, 1, -B}, {B*B-1, B*B*B, 6}, {-B*B*6, B*3, B*B*B*B}};
    mc::Limits l; l.max_depth = T ? 5 : 4; l.max_states = T ? 6000000 : 600000;
    auto st=S[k];
    mc::bfs(("registers-" + std::to_string(k)).c_str(), [st]() { return new Regs(st, SETS); }, l);
  }
}
#endif

#if PROP == 15
// ---------------------------------------------------------------- C15
static int cmpInt(const int a, const int b) { return a < b ? -1 : a > b; }
typedef RBTree<int, cmpInt> Tree;
static void shape(const Tree::ConstIterator& i, std::string& s) {
  if (!i) { s += '.'; return; }
  char b[16]; snprintf(b, sizeof b, "%d%c", i.key(), i.color() == Tree::Red ? 'r' : 'b'); s += b;
  shape(i.left(), s); shape(i.right(), s);
}
static int height(const Tree::ConstIterator& i) { return i ? 1 + std::max(height(i.left()), height(i.right())) : 0; }
static int lowkey, highkey;
static void judge(Ctx& c, const Tree& t, const std::set<int>& m, const char* what) {
  c.check(t.length() == (int)m.size() && (bool)t == !m.empty(), "%s: length %d for %zu keys", what, t.length(), m.size());
  { std::vector<int> f, b, want(m.begin(), m.end());
    for(Tree::ConstIterator i=t.minimum(); i; ++i) { f.push_back(i.key()); if (f.size() > m.size()) break; }
    for(Tree::ConstIterator i=t.maximum(); i; --i) { b.push_back(i.key()); if (b.size() > m.size()) break; }
    c.check(f == want, "%s: the ascending iteration is wrong", what);
    std::reverse(want.begin(), want.end());
    c.check(b == want, "%s: the descending iteration is wrong", what); }
  if (!m.empty()) c.check(t.minimumKey() == *m.begin() && t.maximumKey() == *m.rbegin(), "%s: minimum or maximum", what);
  for(int k=lowkey; k <= highkey; k++) {
    Tree::ConstIterator i=t.find(k);
    c.check((bool)i == (m.count(k) > 0) && (!i || i.key() == k), "%s: find(%d)", what, k);
    if (i) { auto j=m.find(k); Tree::ConstIterator a=i; ++a; auto nx=std::next(j); c.check((bool)a == (nx != m.end()) && (!a || a.key() == *nx), "%s: successor of %d", what, k);
      Tree::ConstIterator b=i; --b; c.check((bool)b == (j != m.begin()) && (!b || b.key() == *std::prev(j)), "%s: predecessor of %d", what, k); }
    auto u=m.upper_bound(k); Tree::ConstIterator n=t.findNext(k);
    c.check((bool)n == (u != m.end()) && (!n || n.key() == *u), "%s: findNext(%d)", what, k);
    auto l=m.lower_bound(k); Tree::ConstIterator p=t.findPrev(k);
    c.check((bool)p == (l != m.begin()) && (!p || p.key() == *std::prev(l)), "%s: findPrev(%d)", what, k);
  }
  int h=height(t.root());
  c.check(h <= 2*std::log2((double)m.size()+2)+1e-9, "%s: height %d with %zu keys", what, h, m.size());
}
struct Trees: mc::System {
  Allocator al[2];
  std::unique_ptr<Tree> t;
  std::set<int> m;
  int K;
  Trees(int k): K(k) { t.reset(new Tree(al)); }
  int nops() override { return 3*K + 7; }
  void apply(Ctx& c, int op) override {
    c.step();
    noop = false;
    if (op < K) { if (m.count(op)) { noop = true; return; } c.note("insert %d", op); t->insert(op); m.insert(op); }
    else if (op < 2*K) { op -= K; if (!m.count(op)) { noop = true; return; } c.note("remove %d", op); t->remove(op); m.erase(op); }
    else if (op < 3*K) { op -= 2*K; if (!m.count(op)) { noop = true; return; } c.note("remove the iterator at %d", op); t->remove(t->find(op)); m.erase(op); }
    else { // operations that end in the same set
      op -= 3*K;
      static const char* N[]={"copy", "assign to an empty tree", "assign to a full tree", "swap", "assign the empty tree", "clear", "move"};
      c.note("%s", N[op]);
      Allocator* other=al+1;
      std::set<int> big; for(int i=0; i < K; i++) big.insert(i);
      switch(op) {
        case 0: { Tree u(*t, other); judge(c, u, m, "the copy"); if (!m.empty()) { u.remove(*m.begin()); judge(c, *t, m, "the original after the copy changed"); }
                  Tree w(*t, al); std::set<int> n=m; while(!n.empty()) { w.remove(*n.rbegin()); n.erase(*n.rbegin()); judge(c, w, n, "removing from the copy"); } judge(c, *t, m, "the original"); } break;
        case 1: { Tree u(other); u = *t; judge(c, u, m, "the assigned tree"); u.clear(); judge(c, u, {}, "after clear"); u = *t; judge(c, u, m, "assigned again"); judge(c, *t, m, "the source"); } break;
        case 2: { Tree u(other); for(int i: big) u.insert(i); u = *t; judge(c, u, m, "the assigned tree"); std::set<int> n=m; for(int i: big) if (!n.count(i)) { u.insert(i); n.insert(i); judge(c, u, n, "inserting into the assigned tree"); } judge(c, *t, m, "the source"); } break;
        case 3: { Tree u(other); for(int i: big) u.insert(i); u.swap(*t); judge(c, u, m, "swap"); judge(c, *t, big, "swap"); u.swap(*t); judge(c, *t, m, "swap back"); } break;
        case 4: { Tree u(other), e(other); for(int i: m) u.insert(i); u = e; judge(c, u, {}, "the empty tree assigned"); u.insert(1); judge(c, u, {1}, "inserting after that"); } break;
        case 5: { Tree u(*t, al); u.clear(); judge(c, u, {}, "clear"); for(int i: m) u.insert(i); judge(c, u, m, "filling again"); u.clear(); } break;
        case 6: { Tree u(*t, al); Tree v(std::move(u)); judge(c, v, m, "move construction"); judge(c, u, {}, "the moved tree"); if (!m.empty()) { v.remove(*m.begin()); std::set<int> n=m; n.erase(n.begin()); judge(c, v, n, "removing after a move"); } } break;
      }
      c.check(other->size() == 0, "%s: %zu bytes of the other trees stay in use", N[op], other->size());
      judge(c, *t, m, "the tree afterwards");
      noop = true; return;
    }
    if (mc::rebuilding) return;
    judge(c, *t, m, "the tree");
    c.check(al->size() == perNode(m.size()), "%zu bytes in use for %zu keys", al->size(), m.size());
  }
  static size_t perNode(size_t n) { static size_t one=0; if (!one) { Allocator a; Tree x(&a); x.insert(1); one = a.size(); } return n*one; }
  bool noop=false;
  std::string canon() override { if (noop) return ""; std::string s; shape(t->root(), s); return s; }
};
void parts() {
  const bool T=mc::thorough();
  int K=T ? 15 : 12;
  lowkey = -1; highkey = K;
  mc::bfs("shapes", [=]() { return new Trees(K); });
  // all orders of insertion, then all orders of removal, of few keys; extreme keys
  mc::explore("orders", [=](Ctx& c) {
    static const std::vector<std::vector<int>> SETS={{INT_MIN, -1, 0, 1, INT_MAX}, {5, 7, 9, 11, 13, 15}};
    std::vector<int> ks=c.pick(SETS), p=ks; if (ks.size() == 6 && !T) { ks.pop_back(); p = ks; }
    Allocator al[1];
    { Tree t(al); std::set<int> m;
      int lk=lowkey, hk=highkey; lowkey = 4; highkey = 16;
      while(!p.empty()) { int i=c.choose((int)p.size()); c.note("insert %d", p[i]); t.insert(p[i]); m.insert(p[i]); p.erase(p.begin()+i); judge(c, t, m, "the tree"); c.step(); }
      p = ks;
      while(!p.empty()) { int i=c.choose((int)p.size()); c.note("remove %d", p[i]); t.remove(p[i]); m.erase(p[i]); p.erase(p.begin()+i); judge(c, t, m, "the tree"); c.step(); }
      lowkey = lk; highkey = hk; }
    c.check(al->size() == 0, "%zu bytes stay in use", al->size());
  });
  // large trees: every way to take three-step strides through n keys
  mc::explore("large", [=](Ctx& c) {
    int n=c.pick(std::vector<int>{15, 16, 31, 64, 127, 200}), mode=c.choose(5), rem=c.choose(4);
    int lk=lowkey, hk=highkey; lowkey = -1; highkey = n;
    c.note("%d keys, insertion %d, removal %d", n, mode, rem);
    Allocator al[1];
    { Tree t(al); std::set<int> m;
      std::vector<int> o; for(int i=0; i < n; i++) o.push_back(mode == 0 ? i : mode == 1 ? n-1-i : mode == 2 ? (i % 2 ? n-1-i/2 : i/2) : mode == 3 ? (int)((i*2654435761u) % n) : (i*7) % n);
      for(int k: o) if (!m.count(k)) { t.insert(k); m.insert(k); c.step(); }
      judge(c, t, m, "the full tree");
      std::vector<int> r(m.begin(), m.end()); if (rem == 1) std::reverse(r.begin(), r.end()); if (rem == 2) r = o; if (rem == 3) { std::rotate(r.begin(), r.begin()+r.size()/2, r.end()); }
      int cnt=0;
      for(int k: r) if (m.count(k)) { t.remove(k); m.erase(k); c.step(); if (++cnt % 3 == 0 || n < 40) judge(c, t, m, "a removal"); }
    }
    lowkey = lk; highkey = hk;
    c.check(al->size() == 0, "%zu bytes stay in use", al->size());
  });
}
#endif

#if PROP == 16
// ---------------------------------------------------------------- C16
typedef List<int> L;
typedef std::vector<int> Seq;
static L::Iterator at(L& l, int k) { L::Iterator i(l.begin()); while(k--) ++i; return i; }
static void judge(Ctx& c, const L& l, const Seq& m, const char* what) {
  c.check(l.length() == m.size() && (bool)l == !m.empty(), "%s: length %zu for %zu elements", what, l.length(), m.size());
  size_t k=0;
  L::ConstIterator i(l.begin());
  for(; i && k < m.size(); ++i, ++k) c.check(i.data() == m[k], "%s: element %zu is %d instead of %d", what, k, i.data(), m[k]);
  c.check(!i && k == m.size(), "%s: the iteration has another number of elements", what);
  if (!m.empty()) c.check(l.head() == m[0], "%s: head()", what);
}
static void pointsAt(Ctx& c, L& l, L::Iterator i, const Seq& m, size_t k, const char* what) {
  c.check((bool)i == (k < m.size()), "%s: the iterator is %s the end", what, (bool)i ? "not at" : "at");
  if (i) c.check(i.data() == m[k], "%s: the iterator is at %d instead of %d", what, i.data(), m[k]);
  L::ConstIterator ci(i); c.check((bool)ci == (bool)i && (!i || ci.data() == i.data()), "%s: the constant iterator differs", what);
  // comparisons with every position
  for(size_t j=0; j <= m.size(); j++) {
    L::Iterator o=at(l, (int)j);
    c.check((o == i) == (j == k) && (o != i) == (j != k), "%s: comparing the iterator with position %zu", what, j);
    L::ConstIterator a(o), b(i);
    c.check((a == b) == (j == k) && (a != b) == (j != k), "%s: comparing the constant iterator with position %zu", what, j);
  }
  size_t n=k; for(; i; ++i) { c.check(n < m.size() && i.data() == m[n], "%s: going on from the iterator", what); n++; }
  c.check(n == m.size(), "%s: going on from the iterator ends early", what);
}
struct Lists: mc::System {
  Allocator al[2];
  std::unique_ptr<L> l[2];
  Seq m[2];
  int K, V;
  Lists(int k, int v): K(k), V(v) { for(int i=0; i < 2; i++) l[i].reset(new L(al+i)); }
  // push v, pop, insert(pos, v), del(pos), set(pos, v), clear, assign, swap, splice pos->pos (through get/insert), clear from pos, copy
  int per() { return V + 1 + (K+1)*V + K + K*V + 1 + (K+1); }
  int nops() override { return 2*per() + 5 + K*(K+1); }
  void apply(Ctx& c, int op) override {
    c.step(); noop = false;
    if (op < 2*per()) {
      int s=op / per(); op %= per(); L& x=*l[s]; Seq& y=m[s];
      if (op < V) { if ((int)y.size() >= K) { noop = true; return; } c.note("l%d.push(%d)", s, op); x.push(op); y.insert(y.begin(), op); }
      else if ((op -= V) < 1) { if (y.empty()) { noop = true; return; } c.note("l%d.pop()", s); int r=x.pop(); c.check(r == y[0], "pop() gives %d instead of %d", r, y[0]); y.erase(y.begin()); }
      else if ((op -= 1) < (K+1)*V) { int p=op/V, v=op%V; if (p > (int)y.size() || (int)y.size() >= K) { noop = true; return; } c.note("l%d.insert at %d: %d", s, p, v);
        L::Iterator i=at(x, p); i.insert(v); y.insert(y.begin()+p, v); if (!mc::rebuilding) pointsAt(c, x, i, y, p, "insert"); }
      else if ((op -= (K+1)*V) < K) { if (op >= (int)y.size()) { noop = true; return; } c.note("l%d.del at %d", s, op); L::Iterator i=at(x, op); i.del(); y.erase(y.begin()+op); if (!mc::rebuilding) pointsAt(c, x, i, y, op, "del"); }
      else if ((op -= K) < K*V) { int p=op/V, v=op%V; if (p >= (int)y.size()) { noop = true; return; } c.note("l%d[%d] = %d", s, p, v); L::Iterator i=at(x, p); i.data() = v; y[p] = v; if (!mc::rebuilding) pointsAt(c, x, i, y, p, "data"); }
      else if ((op -= K*V) < 1) { c.note("l%d.clear()", s); x.clear(); y.clear(); }
      else { op -= 1; if (op > (int)y.size()) { noop = true; return; } c.note("l%d: clear from %d", s, op);
        L::Iterator i=at(x, op); while(i) i.del(); y.resize(op); if (!mc::rebuilding) pointsAt(c, x, i, y, op, "clear from"); }
    }
    else if ((op -= 2*per()) < 5) {
      static const char* N[]={"l0 = l1", "l0 = copy of l1", "swap", "move construction", "l0 = move(l1)"};
      c.note("%s", N[op]);
      switch(op) {
        case 0: *l[0] = *l[1]; m[0] = m[1]; break;
        case 1: l[0].reset(new L(al, *l[1])); m[0] = m[1]; who[0] = 0; break;
        case 2: l[0]->swap(*l[1]); std::swap(m[0], m[1]); std::swap(who[0], who[1]); break;
        case 3: { std::unique_ptr<L> t(new L(std::move(*l[1]))); judge(c, *l[1], {}, "the moved list"); l[1]->push(0); l[1]->clear(); l[1] = std::move(t); break; }
        case 4: { *l[0] = std::move(*l[1]); m[0] = m[1]; m[1].clear(); who[0] = who[1]; break; }
      }
    }
    else { // move one node between lists of one allocator, as the multiplication of polynomials does
      op -= 5; int p=op/(K+1), q=op%(K+1);
      if (p >= (int)m[1].size() || (int)m[0].size() >= K || q > (int)m[0].size() || who[0] != who[1]) { noop = true; return; }
      c.note("move element %d of l1 to position %d of l0", p, q);
      L::Iterator i=at(*l[1], p), j=at(*l[0], q);
      int v=m[1][p];
      j.insert(i.get());
      m[1].erase(m[1].begin()+p); m[0].insert(m[0].begin()+q, v);
      if (!mc::rebuilding) { pointsAt(c, *l[1], i, m[1], p, "get"); pointsAt(c, *l[0], j, m[0], q, "insert of a node"); }
    }
    if (mc::rebuilding) return;
    judge(c, *l[0], m[0], "l0"); judge(c, *l[1], m[1], "l1");
    size_t one=oneNode(), want[2]={0, 0}; for(int s=0; s < 2; s++) want[who[s]] += one*m[s].size();
    c.check(al[0].size() == want[0] && al[1].size() == want[1], "%zu + %zu bytes in use instead of %zu + %zu", al[0].size(), al[1].size(), want[0], want[1]);
  }
  int who[2]={0, 1};
  static size_t oneNode() { static size_t one=0; if (!one) { Allocator a; L x(&a); x.push(1); one = a.size(); } return one; }
  bool noop=false;
  std::string canon() override { if (noop) return ""; std::string s; for(int i=0; i < 2; i++) { for(int v: m[i]) s += (char)('0'+v); s += who[i] ? '|' : '!'; } return s; }
};
void parts() {
  const bool T=mc::thorough();
  mc::bfs("two-lists", [=]() { return new Lists(T ? 6 : 5, 2); });
  mc::bfs("two-lists-3-values", [=]() { return new Lists(T ? 4 : 3, T ? 4 : 3); });
  mc::explore("destruction", [=](Ctx& c) { // all memory is returned whatever the lists hold
    int n=c.choose(200), how=c.choose(6);
    Allocator al[2];
    { L a(al); Seq m; for(int i=0; i < n; i++) { a.push(i); m.insert(m.begin(), i); }
      L b(al+1); b.push(7);
      switch(how) { case 0: break; case 1: { L x(std::move(a)); judge(c, x, m, "moved"); break; } case 2: b = a; judge(c, b, m, "assigned"); break; case 3: a.swap(b); judge(c, b, m, "swapped"); break;
        case 4: { L x(al+1, a); judge(c, x, m, "copied"); break; } case 5: a.begin().clear(); judge(c, a, {}, "cleared"); break; }
      c.step(n+1); }
    c.check(al[0].size() == 0 && al[1].size() == 0, "%zu + %zu bytes stay in use", al[0].size(), al[1].size());
  });
}
#endif

#if PROP == 17
// ---------------------------------------------------------------- C17
typedef Stack<int> S;
typedef std::vector<int> Seq;
static void judge(Ctx& c, const S& s, const Seq& m, const char* what) {
  c.check(s.deep() == m.size() && (bool)s == !m.empty(), "%s: depth %zu for %zu elements", what, s.deep(), m.size());
  c.check(s.size() >= s.deep(), "%s: capacity %zu for depth %zu", what, s.size(), s.deep());
  for(size_t i=0; i < m.size(); i++) c.check(s[i] == m[i], "%s: element %zu is %d instead of %d", what, i, s[i], m[i]);
  if (!m.empty()) c.check(s.top() == m.back(), "%s: the top is %d instead of %d", what, s.top(), m.back());
}
struct Stacks: mc::System {
  Allocator al[2];
  std::unique_ptr<S> s[2];
  Seq m[2];
  int K, V;
  Stacks(int c0, int c1, int k, int v): K(k), V(v) { s[0].reset(new S(c0, al)); s[1].reset(new S(c1, al+1)); }
  int nops() override { return 2*(V+2) + 4; }
  void apply(Ctx& c, int op) override {
    c.step(); noop = false;
    if (op < 2*(V+2)) {
      int i=op/(V+2); op %= V+2; S& x=*s[i]; Seq& y=m[i];
      if (op < V) { if ((int)y.size() >= K) { noop = true; return; } c.note("s%d.push(%d)", i, op); x.push(op); y.push_back(op); }
      else if (op == V) { if (y.empty()) { noop = true; return; } c.note("s%d.pop()", i); x.pop(); y.pop_back(); }
      else { c.note("s%d.reset()", i); x.reset(); y.clear(); }
    }
    else switch(op - 2*(V+2)) {
      case 0: c.note("s0 = s1"); *s[0] = *s[1]; m[0] = m[1]; break;
      case 1: c.note("s1 = s0"); *s[1] = *s[0]; m[1] = m[0]; break;
      case 2: c.note("swap"); s[0]->swap(*s[1]); std::swap(m[0], m[1]); break;
      case 3: { c.note("copy"); S t(*s[0], al+1); judge(c, t, m[0], "the copy"); t.push(9); Seq n=m[0]; n.push_back(9); judge(c, t, n, "pushing to the copy"); judge(c, *s[0], m[0], "the original"); noop = true; break; }
    }
    if (mc::rebuilding) return;
    judge(c, *s[0], m[0], "s0"); judge(c, *s[1], m[1], "s1");
  }
  bool noop=false;
  std::string canon() override { if (noop) return ""; std::string r; for(int i=0; i < 2; i++) { r += std::to_string(s[i]->size()) + ":"; for(int v: m[i]) r += (char)('0'+v); r += '|'; } return r; }
};
void parts() {
  const bool T=mc::thorough();
  for(int a=1; a <= 3; a++) for(int b=1; b <= 2; b++) mc::bfs(("stacks-" + std::to_string(a) + "-" + std::to_string(b)).c_str(), [=]() { return new Stacks(a, b, T ? 7 : 5, 2); });
  mc::bfs("three-values", [=]() { return new Stacks(1, 4, T ? 5 : 4, 3); });
  mc::explore("growth", [=](Ctx& c) { // every capacity, grown far past it
    int cap=1+c.choose(T ? 200 : 60), n=c.pick(std::vector<int>{1, 2, 5, 17, 100, 700}), how=c.choose(4);
    c.note("capacity %d, %d pushes", cap, n);
    Allocator al[2];
    { S a(cap, al), b(2, al+1); Seq m;
      for(int i=0; i < n; i++) { a.push(i*i); m.push_back(i*i); if (n < 20 || i % 13 == 0) judge(c, a, m, "push"); }
      judge(c, a, m, "all pushes");
      switch(how) { case 1: b = a; judge(c, b, m, "assigned"); a.reset(); judge(c, b, m, "assigned, the source reset"); break; case 2: a.swap(b); judge(c, b, m, "swapped"); judge(c, a, {}, "swapped"); for(int i=0; i < 9; i++) a.push(i); break;
        case 3: { S x(a, al+1); judge(c, x, m, "copied"); break; } default: while(!m.empty()) { c.check(a.top() == m.back(), "top"); a.pop(); m.pop_back(); } judge(c, a, m, "all popped"); }
      c.step(n+1); }
    c.check(al[0].size() == 0 && al[1].size() == 0, "%zu + %zu bytes stay in use", al[0].size(), al[1].size());
  });
}
#endif

#if PROP == 18
// ---------------------------------------------------------------- C18
struct Script { // a generator whose numbers are chosen: draw k of L stands for the k-th of L equal parts of its range
  typedef uint32_t result_type;
  static constexpr result_type min() { return 0; }
  static constexpr result_type max() { return 0xffffffffu; }
  unsigned L; std::vector<unsigned> v; size_t k=0; bool out=false;
  Script(unsigned l): L(l) {}
  result_type operator()() { if (k == v.size()) { out = true; return 0; } return (uint32_t)(((uint64_t)v[k++]*2+1 << 31)/L); }
};
static std::string text(const RandPermutation& p) { std::ostringstream s; s << p; return s.str(); }
static std::vector<int> rd(Ctx& c, const RandPermutation& p, int n) {
  c.check(p.size() == n, "size %d instead of %d", p.size(), n);
  std::vector<int> r, seen(n, 0); std::string t="(";
  for(int i=0; i < n; i++) { r.push_back(p[i]); t += (i ? " " : "") + std::to_string(p[i]); c.check(p[i] >= 0 && p[i] < n, "entry %d is %d", i, p[i]); c.check(!seen[p[i]]++, "%d occurs twice", p[i]); }
  c.check(text(p) == t + ")", "printed as %s", text(p).c_str());
  return r;
}
static void all(Ctx& c, int n, unsigned L, const std::vector<unsigned>& first) {
  // every sequence of n-1 draws after the given first step
  std::map<std::vector<int>, long> hits; long total=0;
  std::vector<unsigned> d(n-1, 0);
  std::vector<int> r(n);
  do {
    RandPermutation p(n);
    if (!first.empty()) { Script g(L); g.v = first; p.next(g); }
    if (!total) rd(c, p, n);
    Script h(L); h.v = d;
    p.next(h); c.step();
    for(int i=0; i < n; i++) r[i] = p[i];
    long& z=hits[r]; if (!z++) rd(c, p, n);
    total++;
    size_t i=0; while(i < d.size() && ++d[i] == L) d[i++] = 0;
    if (i == d.size()) break;
  } while(true);
  long f=1; for(int i=2; i <= n; i++) f *= i;
  c.check((long)hits.size() == f, "%zu of the %ld permutations are reached", hits.size(), f);
  for(auto& x: hits) c.check(x.second*f == total, "a permutation is reached by %ld of the %ld equally likely combinations of draws instead of %ld", x.second, total, total/f);
}
void parts() {
  const bool T=mc::thorough();
  mc::explore("every-draw", [=](Ctx& c) {
    int n=1+c.choose(4); std::vector<unsigned> first;
    if (c.flag()) for(int i=n-1; i > 0; i--) first.push_back((unsigned)c.choose(12));
    c.note("size %d", n);
    if (n == 1) { RandPermutation p(1); rd(c, p, 1); Script g(12); p.next(g); rd(c, p, 1); return; }
    all(c, n, 12, first);
  });
  mc::explore("size-5", [=](Ctx& c) { std::vector<unsigned> first; int s=c.choose(T ? 30 : 4); if (s) for(int i=4; i > 0; i--) first.push_back((unsigned)(s*17+i*i*13) % 60); all(c, 5, 60, first); });
  mc::explore("histories", [=](Ctx& c) {
    int n=2+c.choose(T ? 3 : 2); RandPermutation p(n); std::vector<int> ref=rd(c, p, n);
    for(int i=0; i < n; i++) c.check(ref[i] == i, "entry %d of a new permutation is %d", i, ref[i]);
    Script g(12); for(int s=0; s < 2; s++) for(int i=n-1; i > 0; i--) g.v.push_back((unsigned)c.choose(n == 4 ? 6 : 12)*(n == 4 ? 2 : 1));
    for(int s=0; s < 2; s++) { p.next(g); c.step(); rd(c, p, n); }
    mc::outcome(text(p));
  });
  mc::explore("mt19937", [=](Ctx& c) { int n=1+c.choose(40); RandPermutation_mt19937 p(n); rd(c, p, n); for(int i=0; i < 50; i++) { p.next(); c.step(); rd(c, p, n); } });
}
#endif

#if PROP == 19
// ---------------------------------------------------------------- C19
typedef std::vector<mpq_class> Q;
static Q binom(long a, unsigned b, int dim) { Q r(dim+1, 0); r[0] = 1; for(unsigned i=0; i < b; i++) { Q n(dim+1, 0); for(int k=0; k <= dim; k++) { n[k] += r[k]*mpz_class(mpz_class(a)-i); if (k < dim) n[k+1] += r[k]; } for(auto& x: n) x /= (int)(i+1); r = n; } return r; }
static mpq_class at(const Q& p, const mpz_class& s) { mpq_class r=0; for(int k=(int)p.size()-1; k >= 0; k--) r = r*s + p[k]; return r; }
static void judge(Ctx& c, const HilbertPoly& h, const Q& m, const char* what) {
  c.check(h.dim() == (int)m.size()-1, "%s: dim() is %d", what, h.dim());
  std::string t;
  for(int k=(int)m.size()-1; k >= 0; k--) {
    std::string got=h[k], want=m[k].get_str();
    c.check(got == want, "%s: coefficient %d is %s instead of %s", what, k, got.substr(0, 60).c_str(), want.substr(0, 60).c_str());
    c.check(h.isZero(k) == (m[k] == 0), "%s: isZero(%d)", what, k);
    if (m[k] != 0) { if (t.empty()) t = want; else t += want[0] == '-' ? " - " + want.substr(1) : " + " + want; if (k) t += "s^" + std::to_string(k); }
  }
  std::ostringstream s; s << h;
  c.check(s.str() == t, "%s: printed as %s", what, s.str().substr(0, 200).c_str());
}
struct Polys: mc::System {
  int D; HilbertPoly p, q; Q a, b;
  Polys(int d): D(d), p(d), q(d), a(d+1, 0), b(d+1, 0) {}
  static int nb(int D) { return 5*(D+1); }
  int nops() override { return nb(D) + 4 + 6; }
  void apply(Ctx& c, int op) override {
    c.step();
    if (op < nb(D)) { static const long A[]={0, 1, -1, 3, -4}; long x=A[op%5]; unsigned y=op/5; c.note("q = C(s%+ld, %u)", x, y); q.binomial(x, y); b = binom(x, y, D); }
    else switch(op -= nb(D)) {
      case 0: c.note("p += q"); p.add(q); for(int i=0; i <= D; i++) a[i] += b[i]; break;
      case 1: c.note("p -= q"); p.sub(q); for(int i=0; i <= D; i++) a[i] -= b[i]; break;
      case 2: c.note("q += p"); q.add(p); for(int i=0; i <= D; i++) b[i] += a[i]; break;
      case 3: c.note("q -= p"); q.sub(p); for(int i=0; i <= D; i++) b[i] -= a[i]; break;
      default: { static const int M[]={0, 1, -1, 2, -6, INT_MIN}; int x=M[op-4]; c.note("p *= %d", x); p.mult(x); for(auto& y: a) y *= x; }
    }
    if (mc::rebuilding) return;
    judge(c, p, a, "p"); judge(c, q, b, "q");
  }
  std::string canon() override { std::string s; for(auto* v: {&a, &b}) for(auto& x: *v) { if (x.get_str().size() > 14) return ""; s += x.get_str() + ","; } return s; }
};
void parts() {
  const bool T=mc::thorough();
  mc::explore("binomials", [=](Ctx& c) {
    int D=c.choose(T ? 14 : 10); unsigned b=c.choose(D+1); static const std::vector<long> FAR={1000, -1000, 1000000007, 4294967295l, -4294967296l, 9007199254740993l};
    int i=c.choose(31 + (int)FAR.size()); long a=i < 31 ? i-15 : FAR[i-31];
    bool reuse=c.flag();
    c.note("C(s%+ld, %u) of dimension %d", a, b, D);
    HilbertPoly h(D); if (reuse) { h.binomial(-7, D); h.mult(5); }
    h.binomial(a, b); c.step();
    Q m=binom(a, b, D);
    judge(c, h, m, "binomial");
    for(int s=-20; s <= 20; s++) { // the oracle's polynomial itself against the definition of the coefficient
      mpz_class n=mpz_class(a)+s, r=1; for(unsigned k=0; k < b; k++) r *= n-k; mpz_class f; mpz_fac_ui(f.get_mpz_t(), b);
      mpq_class w(r, f); w.canonicalize(); c.check(at(m, s) == w, "oracle");
      c.check(b > 0 || w == 1, "oracle");
    }
    HilbertPoly g; g.setDim(D); g.binomial(a, b); judge(c, g, m, "binomial after setDim");
  });
  for(int D=0; D <= 3; D++) { mc::Limits l; l.max_depth = T ? 6 : 5; l.max_states = T ? 3000000 : 400000; mc::bfs(("sequences-" + std::to_string(D)).c_str(), [=]() { return new Polys(D); }, l); }
  mc::explore("long", [=](Ctx& c) { // coefficients longer than the static buffer
    const bool L=mc::lite > 1;
    int D=1+c.choose(2), sign=c.choose(2), n1=c.choose(L ? 5 : 6), n2=L ? n1/2 : c.choose(6);
    static const int N[]={10, 7020, 7022, 7024, 7100, 15000};
    Q m=binom(3, D, D); HilbertPoly h(D); h.binomial(3, D);
    int done=0;
    for(int n: {N[n1], N[n2]}) { for(; done < n; done++) { h.mult(INT_MAX); for(auto& x: m) x *= INT_MAX; } if (sign) { h.mult(-1); for(auto& x: m) x *= -1; } c.step(n); c.note("%d factors", n); judge(c, h, m, "long"); }
  });
}
#endif

#if PROP == 21
// ---------------------------------------------------------------- C21
static unsigned long long fakeReal, fakeUser, fakeSys; static long calls;
extern "C" clock_t times(struct tms* b) { calls++; if (b) { b->tms_utime = (clock_t)fakeUser; b->tms_stime = (clock_t)fakeSys; b->tms_cutime = 777777; b->tms_cstime = 999999; } return (clock_t)fakeReal; }
void parts() {
  const bool T=mc::thorough();
  int K=T ? 6 : 5;
  mc::explore("histories", [=](Ctx& c) {
    static const std::vector<std::array<long, 3>> ADV={{0, 0, 0}, {1, 0, 0}, {3, 1, 2}, {100, 250, 12345}};
    static const std::vector<std::array<long, 3>> START={{0, 0, 0}, {123456789, 5, 77}, {4300000000l, 2200000000l, 3}};
    auto st=c.pick(START); fakeReal = st[0]; fakeUser = st[1]; fakeSys = st[2];
    const double hz=(double)sysconf(_SC_CLK_TCK);
    Timer t[2]; // two timers, one history, they must not influence each other
    long acc[2][3]={{0}}, open[2][3]={{0}}; bool run[2]={false, false};
    int len=1+c.choose(K);
    for(int k=0; k < len; k++) {
      auto a=c.pick(ADV); fakeReal += a[0]; fakeUser += a[1]; fakeSys += a[2];
      long now[3]={(long)fakeReal, (long)fakeUser, (long)fakeSys};
      int w=k && K-k > 1 ? c.choose(2) : 0;
      int op=c.choose(run[w] ? 3 : 2);
      static const char* N[]={"start", "cont", "stop"};
      c.note("advance %ld %ld %ld, %s timer %d", a[0], a[1], a[2], N[op], w); c.step();
      if (op == 0) { t[w].start(); for(int i=0; i < 3; i++) { acc[w][i] = 0; open[w][i] = now[i]; } run[w] = true; }
      else if (op == 1) { t[w].cont(); for(int i=0; i < 3; i++) open[w][i] = now[i]; run[w] = true; }
      else { t[w].stop(); for(int i=0; i < 3; i++) acc[w][i] += now[i]-open[w][i]; run[w] = false; }
      for(int z=0; z < 2; z++) {
        double got[3]={t[z].realTime(), t[z].userTime(), t[z].sysTime()};
        static const char* C[]={"real", "user", "system"};
        for(int i=0; i < 3; i++) c.check(std::fabs(got[i] - acc[z][i]/hz) < 1e-5, "timer %d: the %s time is %.6f instead of %.6f", z, C[i], got[i], acc[z][i]/hz);
        std::ostringstream s; s << t[z]; double p[3]; std::string o=s.str();
        int n=sscanf(o.c_str(), " real time: %lf sec user time: %lf sec system time: %lf sec", p, p+1, p+2);
        c.check(n == 3, "timer %d is printed as %s", z, o.c_str());
        for(int i=0; i < 3; i++) c.check(std::fabs(p[i] - acc[z][i]/hz) < 0.00502, "timer %d: the %s time is printed as %.2f instead of %.2f", z, C[i], p[i], acc[z][i]/hz);
      }
    }
    c.check(calls > 0, "the timer does not read the clock that was replaced");
  });
}
#endif
