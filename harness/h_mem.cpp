// C13 allocator, C14 compaction and deep copies.
#include "glue.hpp"
#include <memory>
#include <csignal>
#include <sys/wait.h>
#include <malloc.h>
#include "util/list.h"
#include "util/rbtree.h"
#include "util/stack.h"
using namespace GInv;
using mc::Ctx;
#ifndef PROP
#define PROP 13
#endif

#if PROP == 13
struct Block { void* p; size_t n; unsigned char tag; int seq; };
static bool intact(const Block& b) { for(size_t i=0; i < b.n; i++) if (((unsigned char*)b.p)[i] != b.tag) return false; return true; }
struct Sys: mc::System { // K allocators, all of them, and all their live blocks
  std::vector<size_t> sizes;
  int K, maxBlocks;
  std::unique_ptr<Allocator> al[3];
  std::vector<Block> live[3];
  std::vector<size_t> hist[3]; // sizes requested so far from the allocator (the arena never gives a place back)
  int relcount[3]={0, 0, 0};
  size_t base, top; unsigned char tag=0; int seq=0; bool noop=false;
  Sys(const std::vector<size_t>& s, int k, int mb): sizes(s), K(k), maxBlocks(mb) { base = Allocator::currMemory(); for(int i=0; i < K; i++) al[i].reset(new Allocator); top = Allocator::maxMemory(); }
  ~Sys() { for(int a=0; a < K; a++) { for(auto& b: live[a]) al[a]->deallocate(b.p, b.n); al[a].reset(); } }
  // allocate size s in a; release the j-th block of a; swap a,b; replace a by a fresh one (empty only)
  int nops() override { return K*((int)sizes.size() + maxBlocks + 1) + K*(K-1)/2; }
  void apply(Ctx& c, int op) override {
    noop = false; c.step();
    int per=(int)sizes.size() + maxBlocks + 1;
    size_t before=Allocator::currMemory(), maxBefore=Allocator::maxMemory();
    c.check(maxBefore >= before, "the maximum %zu is below the current memory %zu", maxBefore, before);
    if (op < K*per) {
      int a=op/per; op %= per;
      if (op < (int)sizes.size()) {
        if ((int)live[a].size() >= maxBlocks) { noop = true; return; }
        size_t n=sizes[op]; c.note("a%d.allocate(%zu)", a, n);
        Block b={al[a]->allocate(n), n, ++tag, seq++};
        c.check(b.p && (uintptr_t)b.p % 16 == 0, "the block of %zu bytes is at %p: not aligned", n, b.p);
        for(int k=0; k < K; k++) for(auto& x: live[k]) c.check((char*)b.p + b.n <= (char*)x.p || (char*)x.p + x.n <= (char*)b.p, "the block of %zu bytes overlaps a live block of %zu bytes of a%d", n, x.n, k);
        memset(b.p, b.tag, n);
        live[a].push_back(b); hist[a].push_back(n);
      }
      else if ((op -= (int)sizes.size()) < maxBlocks) {
        if (op >= (int)live[a].size()) { noop = true; return; }
        Block b=live[a][op]; c.note("a%d: release of %zu bytes", a, b.n);
        c.check(intact(b), "the contents of a block of %zu bytes changed before it was released", b.n);
        al[a]->deallocate(b.p, b.n); live[a].erase(live[a].begin()+op); relcount[a]++;
      }
      else { if (!live[a].empty() || hist[a].empty()) { noop = true; return; } c.note("a%d is destroyed, a new one made", a); al[a].reset(); al[a].reset(new Allocator); hist[a].clear(); relcount[a] = 0;
        c.check(al[a]->alloc() == 0 && al[a]->size() == 0, "a new allocator owns %zu and uses %zu bytes", al[a]->alloc(), al[a]->size()); }
    }
    else { op -= K*per; int a=op == 2, b=1+(op > 0); c.note("swap(a%d, a%d)", a, b);
      size_t x1=al[a]->alloc(), x2=al[a]->size(), y1=al[b]->alloc(), y2=al[b]->size();
      al[a]->swap(*al[b]); std::swap(live[a], live[b]); std::swap(hist[a], hist[b]); std::swap(relcount[a], relcount[b]);
      c.check(al[a]->alloc() == y1 && al[a]->size() == y2 && al[b]->alloc() == x1 && al[b]->size() == x2, "swap does not exchange the accounts"); }
    size_t sum=0;
    for(int k=0; k < K; k++) {
      c.check(al[k]->size() <= al[k]->alloc(), "a%d uses %zu of %zu bytes", k, al[k]->size(), al[k]->alloc());
      c.check((al[k]->size() == 0) == live[k].empty(), "a%d uses %zu bytes with %zu live blocks", k, al[k]->size(), live[k].size());
      size_t need=0; for(auto& b: live[k]) need += b.n;
      c.check(al[k]->size() >= need, "a%d uses %zu bytes for live blocks of %zu bytes", k, al[k]->size(), need);
      sum += al[k]->alloc();
    }
    size_t cur=Allocator::currMemory();
    c.check(cur - base == sum, "the current memory is %zu, the allocators own %zu", cur - base, sum);
    c.check(Allocator::maxMemory() == std::max(maxBefore, cur), "the maximal memory is %zu, current %zu, maximal before %zu", Allocator::maxMemory(), cur, maxBefore);
    if (mc::rebuilding) return;
    for(int k=0; k < K; k++) for(auto& b: live[k]) c.check(intact(b), "the contents of a live block of %zu bytes of a%d changed", b.n, k);
  }
  std::string canon() override {
    if (noop) return "";
    std::string s;
    for(int k=0; k < K; k++) { for(auto& b: live[k]) s += std::to_string(b.n) + ","; s += ";"; std::string h; // the place in the last page depends on what was requested so far
      for(size_t n: hist[k]) h += std::to_string(n) + ","; s += h + "|"; }
    return s;
  }
};
// a child process which allocates what the choices say; the limit is set before
static std::vector<size_t> trace(const std::vector<std::pair<int, size_t>>& ops, size_t limit, int& status) { // maxMemory after each completed operation
  int fd[2]; if (pipe(fd)) mc::fail("pipe");
  pid_t p=fork();
  if (p == 0) {
    close(fd[0]);
    if (limit) Allocator::setLimitMemory(limit);
    Allocator* a[2]={new Allocator, new Allocator}; std::vector<std::pair<void*, size_t>> b[2];
    for(auto& o: ops) {
      if (o.second) b[o.first].push_back({a[o.first]->allocate(o.second), o.second});
      else { for(auto& x: b[o.first]) a[o.first]->deallocate(x.first, x.second); b[o.first].clear(); delete a[o.first]; a[o.first] = new Allocator; }
      size_t m=Allocator::maxMemory(); if (write(fd[1], &m, sizeof m) != sizeof m) _exit(3);
    }
    _exit(77);
  }
  close(fd[1]);
  std::vector<size_t> r; size_t m;
  while(read(fd[0], &m, sizeof m) == (ssize_t)sizeof m) r.push_back(m);
  close(fd[0]);
  waitpid(p, &status, 0);
  return r;
}

// Objects which live in two allocators: whatever is made, moved, assigned and
// swapped, an allocator is in use exactly while an object has a block in it.
template <typename T> struct Kind;
template <> struct Kind<Integer> { static const bool assign=true, moveAssign=true;
  static Integer* make(Allocator* a, int v) { return new Integer(a, v == 0 ? "0x0" : v == 1 ? "-0x5" : "0x123456789abcdef0123456789abcdef0123456789abcdef"); }
  static Integer* copy(Allocator* a, const Integer& x) { return new Integer(a, x); } static Integer* take(Integer& x) { return new Integer(std::move(x)); }
  static void mutate(Integer& x) { x.mult(x); } static void set(Integer& x, const Integer& y) { x = y; } static void move(Integer& x, Integer& y) { x = std::move(y); }
  static std::string value(const Integer& x) { return x.get_str(16); } };
template <> struct Kind<Monom> { static const bool assign=true, moveAssign=true;
  static Monom* make(Allocator* a, int v) { return new Monom(a, v, 3, v-1); }
  static Monom* copy(Allocator* a, const Monom& x) { return new Monom(a, x); } static Monom* take(Monom& x) { return new Monom(std::move(x)); }
  static void mutate(Monom& x) { x.mult(0, x); } static void set(Monom& x, const Monom& y) { x = y; } static void move(Monom& x, Monom& y) { x = std::move(y); }
  static std::string value(const Monom& x) { std::ostringstream s; s << x << x.degree(); return s.str(); } };
template <> struct Kind<List<int>> { static const bool assign=true, moveAssign=true; typedef List<int> L;
  static L* make(Allocator* a, int v) { L* l=new L(a); for(int i=0; i < v; i++) l->push(v*10+i); return l; }
  static L* copy(Allocator* a, const L& x) { return new L(a, x); } static L* take(L& x) { return new L(std::move(x)); }
  static void mutate(L& x) { if (x.length() > 2) x.pop(); else x.push(7); } static void set(L& x, const L& y) { x = y; } static void move(L& x, L& y) { x = std::move(y); }
  static std::string value(const L& x) { std::string s=std::to_string(x.length()); for(L::ConstIterator i(x.begin()); i; ++i) s += "," + std::to_string(i.data()); return s; } };
template <> struct Kind<Stack<int>> { static const bool assign=true, moveAssign=false; typedef Stack<int> S;
  static S* make(Allocator* a, int v) { S* s=new S(v+1, a); for(int i=0; i < v+1; i++) s->push(v*10+i); return s; }
  static S* copy(Allocator* a, const S& x) { return new S(x, a); } static S* take(S& x) { S* r=make(al0(), 0); r->swap(x); return r; }
  static Allocator*& al0() { static Allocator* a=nullptr; return a; }
  static void mutate(S& x) { x.push(5); } static void set(S& x, const S& y) { x = y; } static void move(S&, S&) {}
  static std::string value(const S& x) { std::string s=std::to_string(x.deep()); for(size_t i=0; i < x.deep(); i++) s += "," + std::to_string(x[i]); return s; } };
static int cmpInts(const int a, const int b) { return a < b ? -1 : a > b; }
template <> struct Kind<RBTree<int, cmpInts>> { static const bool assign=true, moveAssign=false; typedef RBTree<int, cmpInts> R;
  static R* make(Allocator* a, int v) { R* r=new R(a); for(int i=0; i < 2*v; i++) r->insert(v*10+i); return r; }
  static R* copy(Allocator* a, const R& x) { return new R(x, a); } static R* take(R& x) { return new R(std::move(x)); }
  static void mutate(R& x) { if (x && x.length() > 3) x.remove(x.root()); else x.insert(100 + x.length()); } static void set(R& x, const R& y) { x = y; } static void move(R&, R&) {}
  static std::string value(const R& x) { std::string s=std::to_string(x.length()); for(R::ConstIterator i(x.minimum()); i; ++i) s += "," + std::to_string(i.key()); return s; } };
template <> struct Kind<PolyInt> { static const bool assign=true, moveAssign=true;
  static PolyInt* make(Allocator* a, int v) { PolyInt* p=new PolyInt(a, 0x12, 2); for(int i=0; i < v; i++) { Monom m(a, i, 2, -1); PolyInt q(a, 0x12, m); q.mult("0x10000000000000001"); p->add(q); } return p; }
  static PolyInt* copy(Allocator* a, const PolyInt& x) { return new PolyInt(a, x); } static PolyInt* take(PolyInt& x) { return new PolyInt(std::move(x)); }
  static void mutate(PolyInt& x) { x.add("0x3"); x.mult("0x100000000"); } static void set(PolyInt& x, const PolyInt& y) { x = y; } static void move(PolyInt& x, PolyInt& y) { x = std::move(y); }
  static std::string value(const PolyInt& x) { std::ostringstream s; s << x; return s.str(); } };
template <typename T> static void owners(Ctx& c, const char* what, int len) {
  typedef Kind<T> K;
  size_t base=Allocator::currMemory();
  {
    Allocator al[2], spare; (void)spare;
    std::unique_ptr<T> x[2]; std::string v[2]; int in[2]={-1, -1};
    auto made=[&](int s, T* n) { x[s].reset(n); v[s] = K::value(*n); };
    for(int k=0; k < len; k++) {
      int op=c.choose(13); c.step();
      if (op < 6) { int s=op >= 3, val=op % 3, a=s; c.note("%s x%d = value %d in a%d", what, s, val, a); x[s].reset(); made(s, K::make(&al[a], val)); in[s] = a; continue; }
      op -= 6; int s=op % 2, t=1-s;
      if (op == 6) { if (!x[0] || !x[1]) continue; c.note("swap"); x[0]->swap(*x[1]); std::swap(v[0], v[1]); std::swap(in[0], in[1]); }
      else if (op < 2) { if (!x[t]) continue; c.note("x%d = copy of x%d in a%d", s, t, s); T* n=K::copy(&al[s], *x[t]); made(s, n); in[s] = s; c.check(v[s] == v[t], "the copy of %s is %s", v[t].c_str(), v[s].c_str()); }
      else if (op < 4) { if (!x[t] || !x[s]) continue;
        if (K::moveAssign && c.flag()) { c.note("x%d = move(x%d)", s, t); K::move(*x[s], *x[t]); in[s] = in[t]; x[t].reset(); }
        else { c.note("x%d = x%d", s, t); K::set(*x[s], *x[t]); }
        v[s] = v[t];
      }
      else { if (!x[s]) continue;
        if (c.flag()) { c.note("change x%d", s); K::mutate(*x[s]); v[s] = K::value(*x[s]); }
        else if (K::moveAssign) { c.note("x%d is made anew from itself", s); T* n=K::take(*x[s]); x[s].reset(n); } }
      for(int i=0; i < 2; i++) if (x[i]) c.check(K::value(*x[i]) == v[i], "%s x%d is %s instead of %s", what, i, K::value(*x[i]).c_str(), v[i].c_str());
      bool any=x[0] || x[1];
      c.check(any || (al[0].size() == 0 && al[1].size() == 0), "%zu and %zu bytes are in use without an object", al[0].size(), al[1].size());
      for(int a=0; a < 2; a++) c.check(al[a].size() <= al[a].alloc(), "a%d uses %zu of %zu bytes", a, al[a].size(), al[a].alloc());
      c.check(Allocator::currMemory() - base == al[0].alloc() + al[1].alloc(), "%zu bytes are owned altogether, the allocators own %zu", Allocator::currMemory() - base, al[0].alloc() + al[1].alloc());
      for(int a=0; a < 2; a++) if ((!x[0] || in[0] != a) && (!x[1] || in[1] != a)) c.check(al[a].size() == 0, "a%d uses %zu bytes, but no object lives in it", a, al[a].size());
    }
    x[0].reset(); x[1].reset();
    for(int a=0; a < 2; a++) c.check(al[a].size() == 0, "%zu bytes of a%d stay in use after every object is gone", al[a].size(), a);
  }
  c.check(Allocator::currMemory() == base, "%zu bytes are still owned after the allocators are gone", Allocator::currMemory() - base);
}
void parts() {
  const bool T=mc::thorough();
  const int OL=mc::lite > 1 ? 4 : T ? 7 : 6;
  mc::explore("integers in two allocators", [=](Ctx& c) { owners<Integer>(c, "integer", OL); });
  mc::explore("monomials in two allocators", [=](Ctx& c) { owners<Monom>(c, "monomial", OL); });
  mc::explore("lists in two allocators", [=](Ctx& c) { owners<List<int>>(c, "list", OL); });
  mc::explore("stacks in two allocators", [=](Ctx& c) { owners<Stack<int>>(c, "stack", OL); });
  mc::explore("sets in two allocators", [=](Ctx& c) { owners<RBTree<int, cmpInts>>(c, "set", OL); });
  mc::explore("polynomials in two allocators", [=](Ctx& c) { owners<PolyInt>(c, "polynomial", OL); });
  const size_t P=getpagesize();
  // sizes around the rounding to 16 and around the page (page + 32) and its multiples
  std::vector<size_t> small={1, 15, 16, 17}, edge={16, P-1, P, P+15, P+16, P+31, P+32}, big={1, P/2, P+31, 2*P+47, 2*P+64, 5*P};
  auto run=[&](const char* name, std::vector<size_t> s, int k, int mb, int depth) { mc::Limits l; l.max_depth = depth; l.max_states = T ? 3000000 : 300000; mc::bfs(name, [=]() { return new Sys(s, k, mb); }, l); };
  run("one-small", small, 1, 4, T ? 9 : 7);
  run("one-edge", edge, 1, 3, T ? 8 : 6);
  run("one-big", big, 1, 3, T ? 8 : 6);
  run("two-edge", {16, P, P+31}, 2, 2, T ? 8 : 6);
  run("two-mixed", {8, P/2+16, P+16}, 2, 3, T ? 8 : 6);
  run("three", {24, P+15}, 3, 2, T ? 7 : 6);
  mc::explore("every-size", [=](Ctx& c) { // one allocator, all sizes up to three pages, a fill before it
    size_t n=1+c.choose((int)(3*P+200)); int fill=c.choose(T ? 6 : 3);
    static const size_t F[]={0, 1, 4064, 2000, 4096, 16};
    Allocator a;
    std::vector<Block> b; unsigned char t=0;
    auto put=[&](size_t k) { Block x={a.allocate(k), k, ++t, 0}; c.step(); c.check((uintptr_t)x.p % 16 == 0, "a block of %zu bytes is not aligned", k); for(auto& y: b) c.check((char*)x.p + x.n <= (char*)y.p || (char*)y.p + y.n <= (char*)x.p, "blocks of %zu and %zu bytes overlap", x.n, y.n); memset(x.p, x.tag, k); b.push_back(x); c.check(a.size() <= a.alloc(), "%zu of %zu bytes in use", a.size(), a.alloc()); };
    if (F[fill]) put(F[fill]);
    put(n); put(n); put(1); put(n);
    for(auto& x: b) c.check(intact(x), "a block of %zu bytes was overwritten", x.n);
    for(auto& x: b) a.deallocate(x.p, x.n);
    c.check(a.size() == 0, "%zu bytes stay in use", a.size());
  });
  // many blocks in one allocator: page changes at every offset
  mc::explore("pages", [=](Ctx& c) {
    size_t n=1+c.choose(300); int cnt=T ? 200 : 80;
    Allocator a; std::vector<Block> b;
    for(int i=0; i < cnt; i++) { Block x={a.allocate(n), n, (unsigned char)(i+1), i}; c.step(); memset(x.p, x.tag, n); b.push_back(x); }
    for(auto& x: b) c.check(intact(x), "a block of %zu bytes was overwritten", x.n);
    std::vector<std::pair<char*, size_t>> r; for(auto& x: b) r.push_back({(char*)x.p, x.n}); std::sort(r.begin(), r.end());
    for(size_t i=1; i < r.size(); i++) c.check(r[i-1].first + r[i-1].second <= r[i].first, "blocks overlap");
    for(auto& x: b) a.deallocate(x.p, x.n);
    c.check(a.size() == 0, "%zu bytes stay in use", a.size());
  });
  mc::explore("limit", [=](Ctx& c) {
    static const std::vector<size_t> SZ={0, 100, 5000, 20000};
    int len=1+c.choose(T ? 4 : 3);
    std::vector<std::pair<int, size_t>> ops; std::string txt;
    for(int i=0; i < len; i++) { int w=c.choose(2); size_t n=c.pick(SZ); ops.push_back({w, n}); txt += " a" + std::to_string(w) + ":" + std::to_string(n); }
    int st=0; std::vector<size_t> free=trace(ops, 0, st); c.step(len);
    c.check((int)free.size() == len && WIFEXITED(st) && WEXITSTATUS(st) == 77, "without a limit:%s ends the process", txt.c_str());
    std::set<size_t> lim; for(size_t m: free) for(int d=-1; d <= 1; d++) if ((long)m+d > 0) lim.insert(m+d);
    for(size_t l: lim) {
      size_t want=0; while(want < free.size() && free[want] <= l) want++;
      int s2=0; std::vector<size_t> got=trace(ops, l, s2); c.step(len);
      c.note("limit %zu:%s", l, txt.c_str());
      bool ended=WIFEXITED(s2) && WEXITSTATUS(s2) != 77;
      c.check(got.size() == want, "with the limit %zu operation %zu was the last one that completed, expected %zu", l, got.size(), want);
      c.check(want == free.size() ? (WIFEXITED(s2) && WEXITSTATUS(s2) == 77) : ended, "with the limit %zu the process ended with status %x", l, s2);
      for(size_t i=0; i < got.size(); i++) c.check(got[i] == free[i], "the limit changes the accounting");
    }
  });
}
#endif

#if PROP == 14
// A value that owns its allocator, as the machine sees it.
struct Obj { virtual ~Obj() {}
  virtual void grow(int v)=0; virtual void shrink(int k)=0; virtual void compact()=0; virtual bool asks()=0; virtual size_t used()=0; virtual size_t owned()=0;
  virtual std::string value()=0; virtual Obj* copy()=0; virtual void assign(Obj*)=0; virtual void swap(Obj*)=0; virtual bool shares() { return false; } };
static int cmpInt(const int a, const int b) { return a < b ? -1 : a > b; }
struct OList: Obj { typedef GC<List<int>> T; T l; OList() {} OList(const T& a): l(a) {}
  void grow(int v) override { for(int i=0; i < v; i++) l.push(i*v); } void shrink(int k) override { List<int>::Iterator i(l.begin()); while(i && k) { i.del(); if (i) ++i; k--; } }
  void compact() override { l.reallocate(); } bool asks() override { return l.isGC(); } size_t used() override { return l.size(); } size_t owned() override { return l.alloc(); }
  std::string value() override { std::string s=std::to_string(l.length()) + ":"; const List<int>& x=l; for(List<int>::ConstIterator i(x.begin()); i; ++i) s += std::to_string(i.data()) + ","; return s; }
  Obj* copy() override { return new OList(l); } void assign(Obj* o) override { l = ((OList*)o)->l; } void swap(Obj* o) override { l.swap(((OList*)o)->l); } };
struct OPoly: Obj { GCPolyInt p; static const int O=0x12;
  static PolyInt zero(Allocator* al) { return PolyInt(al, O, 2); }
  static Allocator*& scratch() { static Allocator* a=new Allocator; return a; }
  OPoly(): p(PolyInt(scratch(), O, 2)) {} OPoly(const GCPolyInt& a): p(a) {}
  void grow(int v) override { ref::Poly q(O); for(int i=0; i < v; i++) { mpz_class k=1; k <<= (i*37 % 400); q.addTerm(ref::Mon({i % 7, i/7}), ref::Q(k*(i % 2 ? -1 : 1) + v)); } Allocator al; { PolyInt t(&al, O, 2); glue::setPoly(t, &al, q); p.add(t); } }
  void shrink(int k) override { Allocator al; { PolyInt t(&al, O, 2); int n=0; for(PolyInt::ConstIterator i(p.begin()); i && n < k; ++i, ++n) { ref::Poly q(O); q.addTerm(glue::rdMonom(i.monom()), ref::Q(glue::rdInteger(i.coeff()))); glue::setPoly(t, &al, q); } p.sub(t); } }
  void compact() override { p.reallocate(); } bool asks() override { return false; } size_t used() override { return 0; } size_t owned() override { return 0; }
  std::string value() override { return std::to_string(p.length()) + ":" + glue::rdPoly(p).str() + glue::polyDefect(p); }
  Obj* copy() override { return new OPoly(p); } void assign(Obj* o) override { p = ((OPoly*)o)->p; } void swap(Obj* o) override { p.swap(((OPoly*)o)->p); } };
struct OPolyGC: Obj { // the same through GC<>, which shows its accounts
  struct P: PolyInt { P(Allocator* al): PolyInt(al, 0x21, 2) {} P(Allocator* al, const PolyInt& a): PolyInt(al, a) {} void operator=(const P& a) { PolyInt::operator=(a); } };
  typedef GC<P> T; T p; OPolyGC() {} OPolyGC(const T& a): p(a) {}
  void grow(int v) override { ref::Poly q(0x21); for(int i=0; i < v; i++) { mpz_class k=1; k <<= (i*53 % 300); q.addTerm(ref::Mon({i % 5, i/5}, i % 3), ref::Q(k*(i % 2 ? -1 : 1) + v)); } Allocator al; { PolyInt t(&al, 0x21, 2); glue::setPoly(t, &al, q); p.add(t); } }
  void shrink(int k) override { Allocator al; { PolyInt t(&al, 0x21, 2); int n=0; for(PolyInt::ConstIterator i(p.begin()); i && n < k; ++i, ++n) { ref::Poly q(0x21); q.addTerm(glue::rdMonom(i.monom()), ref::Q(glue::rdInteger(i.coeff()))); glue::setPoly(t, &al, q); } p.sub(t); } }
  void compact() override { p.reallocate(); } bool asks() override { return p.isGC(); } size_t used() override { return p.T::size(); } size_t owned() override { return p.alloc(); }
  std::string value() override { PolyInt& q=p; return std::to_string(q.length()) + ":" + glue::rdPoly(q).str() + glue::polyDefect(q); }
  Obj* copy() override { return new OPolyGC(p); } void assign(Obj* o) override { p = ((OPolyGC*)o)->p; } void swap(Obj* o) override { p.swap(((OPolyGC*)o)->p); } };
struct OTree: Obj { // Janet tree; its elements belong to the machine
  typedef GC<Janet> T; T t; OTree() {} OTree(const T& a): t(a) {}
  static std::vector<std::unique_ptr<Wrap>>& pool() { static std::vector<std::unique_ptr<Wrap>> p; return p; }
  void grow(int v) override { // monomials of ascending degree which have no divisor in the tree
    int put=0; Allocator al; { for(int d=1; put < v && d < 60; d++) for(int i=0; i <= d && put < v; i++) { Monom m=glue::mkMonom(&al, ref::Mon({i, (d*d+i) % (d+2), d-i})); if (!t.find(m)) { pool().emplace_back(new Wrap(m)); t.insert(pool().back().get()); put++; } } } }
  void shrink(int k) override { T e; if (k > 30) t.swap(e); }
  void compact() override { t.reallocate(); } bool asks() override { return t.isGC(); } size_t used() override { return t.size(); } size_t owned() override { return t.alloc(); }
  bool shares() override { return true; }
  void walk(Janet::ConstIterator i, std::string& s) { while(i) { s += "("; s += std::to_string(i.degree()); if (i.wrap()) { s += ":"; for(int v=0; v < i.wrap()->lm().size(); v++) { s += std::to_string(i.wrap()->lm()[v]); s += i.wrap()->NM(v) ? "*" : ","; } } if (i.nextVar()) walk(i.nextVar(), s); s += ")"; i.deg(); } }
  std::string value() override { std::string s=std::to_string(((Janet&)t).size()) + ":"; walk(((Janet&)t).begin(), s);
    Allocator al; { for(int a=0; a < 4; a++) for(int b=0; b < 4; b++) for(int c=0; c < 3; c++) { Monom m=glue::mkMonom(&al, ref::Mon({a, b, c})); const Wrap* w=t.find(m); s += w ? std::to_string((long)(size_t)w % 9973) + "," : "-"; } } return s; }
  Obj* copy() override { return new OTree(t); } void assign(Obj*) override {} void swap(Obj* o) override { t.swap(((OTree*)o)->t); } };
struct Mach {
  std::function<Obj*()> make; bool arena;
  static void judge(Ctx& c, Obj* o, const std::string& want, const char* what) { std::string g=o->value(); c.check(g == want, "%s: the value is %s instead of %s", what, g.substr(0, 150).c_str(), want.substr(0, 150).c_str()); }
};
static void history(Ctx& c, std::function<Obj*()> make, const std::vector<int>& grow, const std::vector<int>& shrink, int len) {
  size_t base=Allocator::currMemory(); OPoly::scratch(); OTree::pool().clear(); base = Allocator::currMemory();
  {
    std::unique_ptr<Obj> a(make()), b(make());
    for(int k=0; k < len; k++) {
      int op=c.choose((int)(grow.size() + shrink.size()) + 4); c.step();
      std::string vb=b->value();
      if (op < (int)grow.size()) { c.note("grow by %d", grow[op]); a->grow(grow[op]); }
      else if ((op -= (int)grow.size()) < (int)shrink.size()) { c.note("shrink by %d", shrink[op]); a->shrink(shrink[op]); }
      else {
        op -= (int)shrink.size();
        std::string va=a->value();
        switch(op) {
          case 0: { bool asks=a->asks(); size_t u=a->used(), w=a->owned(); c.note("compact (asks: %d, uses %zu of %zu)", (int)asks, u, w); a->compact();
            c.check(a->used() <= u, "compaction raises the used memory from %zu to %zu", u, a->used());
            if (!asks) c.check(a->used() == u && a->owned() == w, "an object that does not ask for compaction was compacted: %zu of %zu bytes before, %zu of %zu after", u, w, a->used(), a->owned());
            else { c.check(a->owned() <= w, "compaction raises the memory owned from %zu to %zu", w, a->owned()); mc::count("compactions that happened"); }
            Mach::judge(c, a.get(), va, "after compaction"); break; }
          case 1: { c.note("copy"); std::unique_ptr<Obj> d(a->copy()); Mach::judge(c, d.get(), va, "the copy"); if (!d->shares()) { d->grow(3); Mach::judge(c, a.get(), va, "the original after the copy grew"); } d->compact(); std::unique_ptr<Obj> e(a->copy()); std::swap(a, e); e.reset(); Mach::judge(c, a.get(), va, "the copy after the original is gone"); break; }
          case 2: { c.note("swap"); a->swap(b.get()); Mach::judge(c, a.get(), vb, "swapped"); Mach::judge(c, b.get(), va, "swapped"); vb = va; break; }
          case 3: { c.note("b = a, both compacted"); std::string keep=b->value(); b->assign(a.get()); vb = b->value(); c.check(vb == va || vb == keep, "the assigned value is %s", vb.substr(0, 150).c_str()); b->compact(); a->compact(); Mach::judge(c, a.get(), va, "the source of the assignment"); break; }
        }
      }
      Mach::judge(c, b.get(), vb, "the other object");
      size_t want=0; if (a->owned() && !a->shares()) { want = a->owned() + b->owned(); c.check(Allocator::currMemory() - base == want, "%zu bytes are owned altogether, the two objects own %zu", Allocator::currMemory() - base, want); }
    }
    mc::outcome(a->value());
  }
  OTree::pool().clear();
  c.check(Allocator::currMemory() == base, "%zu bytes are still owned after everything is destroyed", Allocator::currMemory() - base);
}
void parts() {
  const bool T=mc::thorough();
  auto part=[&](const char* name, std::function<Obj*()> mk, std::vector<int> g, std::vector<int> s, int len) { mc::explore(name, [=](Ctx& c) { history(c, mk, g, s, 1 + c.choose(mc::lite > 1 ? len-2 : len)); }); };
  part("lists", []() { return new OList; }, {1, 60, 129, 300}, {1, 45, 100, 1000}, T ? 7 : 6);
  part("polynomials", []() { return new OPoly; }, {1, 9, 40}, {1, 8, 1000}, T ? 6 : 5);
  part("polynomials-gc", []() { return new OPolyGC; }, {1, 9, 40}, {1, 8, 1000}, T ? 6 : 5);
  part("trees", []() { return new OTree; }, {1, 25, 70}, {1000}, T ? 6 : 5);
}
#endif
