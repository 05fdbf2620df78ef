// C06 (Janet tree), C07 (monomial completion), C20 (GB forest).
#include "glue.hpp"
#include <memory>
using namespace GInv;
using mc::Ctx;
using ref::Mon;
#ifndef PROP
#define PROP 6
#endif

static std::string dump(Janet::ConstIterator j, const std::map<const Wrap*, int>& id) {
  std::string s;
  for(; j; j.deg()) {
    s += "(" + std::to_string(j.degree());
    if (j.wrap()) { auto k=id.find(j.wrap()); s += "#" + (k == id.end() ? std::string("?") : std::to_string(k->second)); }
    if (j.nextVar()) s += dump(j.nextVar(), id);
    s += ")";
  }
  return s;
}
static void collect(Janet::ConstIterator j, std::vector<const Wrap*>& out) {
  for(; j; j.deg()) {
    if (j.wrap()) out.push_back(j.wrap());
    if (j.nextVar()) collect(j.nextVar(), out);
  }
}
static std::string flags(const Wrap& w) {
  std::string s;
  for(int v=0; v < w.lm().size(); v++) { s += w.NM(v) ? '*' : '_'; if (w.NMd(v)) s += 'd'; if (w.build(v)) s += 'b'; }
  return s;
}

// ------------------------------------------------------------------ C06
struct TreeSystem: mc::System {
  int n, pos, D;
  std::vector<Mon> all, probes;
  std::vector<std::unique_ptr<Wrap>> w;
  std::vector<Mon> U;
  std::map<const Wrap*, int> id;     // -> index in all
  GCJanet* J;
  Allocator mal[1];
  TreeSystem(int n_, int D_, int pos_, bool one): n(n_), pos(pos_), D(D_), J(new GCJanet) {
    for(auto& e: ref::monomials(n, one ? 0 : 1, D)) all.push_back(Mon(e, pos));
    for(auto& e: ref::monomials(n, 0, D+1)) probes.push_back(Mon(e, pos));
  }
  ~TreeSystem() { delete J; }
  std::vector<int> enabled() {
    std::vector<std::vector<bool>> nm;
    for(auto& u: U) nm.push_back(ref::janetNM(U, u));
    std::vector<int> r;
    for(size_t i=0; i < all.size(); i++) {
      bool hit=false;
      for(size_t k=0; k < U.size() && !hit; k++) hit = ref::involutiveDivides(nm[k], U[k], all[i]);
      if (!hit) r.push_back((int)i);
    }
    return r;
  }
  std::vector<int> en; bool have=false;
  int nops() override { if (!have) { en = enabled(); have = true; } return (int)en.size() + 3; }
  void judge(Ctx& c, const Janet& T, const char* which) {
    c.check(T.size() == (int)U.size(), "%s: size() is %d after %zu insertions", which, T.size(), U.size());
    std::vector<const Wrap*> seen;
    collect(T.begin(), seen);
    std::vector<const Wrap*> a(seen), b;
    for(auto& x: w) b.push_back(x.get());
    std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end());
    c.check(a == b, "%s: traversal meets %zu elements, %zu were inserted", which, a.size(), b.size());
    std::vector<std::vector<bool>> nm;
    for(size_t k=0; k < U.size(); k++) {
      nm.push_back(ref::janetNM(U, U[k]));
      for(int v=0; v < n; v++) c.check(w[k]->NM(v) == nm[k][v], "%s: x%d of %s is %smultiplicative by Janet's definition", which, v, U[k].str().c_str(), nm[k][v] ? "non-" : "");
      c.check(glue::rdMonom(w[k]->lm()) == U[k], "%s: an inserted monomial changed", which);
    }
    for(auto& m: probes) {
      const Wrap* want=nullptr;
      for(size_t k=0; k < U.size(); k++) if (ref::involutiveDivides(nm[k], U[k], m)) { want = w[k].get(); break; }
      Monom gm=glue::mkMonom(mal, m);
      const Wrap* got=T.find(gm);
      c.check(got == want, "%s: find(%s) gives %s, the Janet divisor is %s", which, m.str().c_str(), got ? glue::rdMonom(got->lm()).str().c_str() : "none",
              want ? glue::rdMonom(want->lm()).str().c_str() : "none");
    }
  }
  void apply(Ctx& c, int op) override {
    nops(); have = false;
    if (op < (int)en.size()) {
      Mon m=all[en[op]];
      c.note("insert %s", m.str().c_str());
      Monom gm=glue::mkMonom(mal, m);
      w.emplace_back(new Wrap(gm));
      id[w.back().get()] = en[op];
      Allocator al[1];
      Janet before(al, *J);                 // a copy taken before must not see the insertion
      std::string d0=mc::rebuilding ? "" : dump(before.begin(), id);
      U.push_back(m);
      J->insert(w.back().get()); c.step();
      if (mc::rebuilding) return;
      c.check(dump(before.begin(), id) == d0 && before.size() == (int)U.size()-1, "inserting changed a copy of the tree taken before");
    }
    else if (op == (int)en.size()) {
      c.note("replace the tree by a copy");
      GCJanet* K=new GCJanet(*J); c.step();
      if (!mc::rebuilding) c.check(dump(K->begin(), id) == dump(J->begin(), id), "a copy of the tree has another structure");
      delete J; J = K;
    }
    else if (op == (int)en.size()+1) {
      c.note("compact");
      J->reallocate(); c.step();
    }
    else {
      c.note("swap with an empty tree");
      GCJanet* K=new GCJanet;
      K->swap(*J); c.step();
      if (!mc::rebuilding) c.check(((Janet*)J)->size() == 0 && !J->begin(), "the tree swapped with an empty one is not empty");
      delete J; J = K;
    }
    if (mc::rebuilding) return;
    judge(c, *J, "tree");
    Allocator al[1];
    Janet copy(al, *J);
    judge(c, copy, "copy");
    Janet other(al);
    other.swap(copy);
    judge(c, other, "swapped copy");
    c.check(copy.size() == 0 && !copy.begin(), "the tree swapped with an empty one is not empty");
    uint64_t h=mc::fnv(dump(J->begin(), id)); mc::outcome(h);
  }
  std::string canon() override {
    std::string s=dump(J->begin(), id) + "|";
    std::map<int, std::string> f;
    for(auto& x: w) f[id[x.get()]] = flags(*x);
    for(auto& x: f) s += std::to_string(x.first) + x.second + " ";
    return s;
  }
};

// ------------------------------------------------------------------ C07
typedef int (*Cmp)(const Wrap&, const Wrap&);
static const struct { const char* name; Cmp cmp; bool janet; } ORD[]={
  {"lex", MCompletion::lex, true}, {"deglex", MCompletion::deglex, false}, {"alex", MCompletion::alex, false},
  {"lexGB", MCompletion::lexGB, false}, {"deglexGB", MCompletion::deglexGB, false}, {"alexGB", MCompletion::alexGB, false}, {"GB", MCompletion::GB, false}};

static void judgeSet(Ctx& c, const std::vector<const Wrap*>& W, const std::vector<std::vector<bool>>& nm, const std::vector<Mon>& F, int n, int D,
                     std::function<const Wrap*(const Monom&)> find, bool unique) {
  std::vector<Mon> U; for(auto w: W) U.push_back(glue::rdMonom(w->lm()));
  for(auto& f: F) c.check(std::find(U.begin(), U.end(), f) != U.end(), "the given monomial %s is not in the completed set", f.str().c_str());
  for(size_t i=0; i < U.size(); i++) {
    for(size_t j=0; j < i; j++) c.check(U[i] != U[j], "%s is in the completed set twice", U[i].str().c_str());
    bool in=false;
    for(auto& f: F) in = in || ref::divides(f, U[i]);
    c.check(in, "%s of the completed set is no multiple of a given monomial", U[i].str().c_str());
    Mon a=glue::rdMonom(W[i]->ansector());
    c.check(std::find(F.begin(), F.end(), a) != F.end() && ref::divides(a, U[i]), "the ancestor %s of %s is not one of the given monomials dividing it", a.str().c_str(), U[i].str().c_str());
    for(int v=0; v < n; v++) {
      c.check(W[i]->NM(v) == nm[i][v], "x%d of %s is %smultiplicative by definition", v, U[i].str().c_str(), nm[i][v] ? "non-" : "");
      if (!nm[i][v]) continue;
      Mon p=U[i]; p.e[v]++;
      bool hit=false;
      for(size_t k=0; k < U.size() && !hit; k++) hit = ref::involutiveDivides(nm[k], U[k], p);
      c.check(hit, "the non-multiplicative prolongation %s has no divisor in the completed set", p.str().c_str());
    }
  }
  Allocator al[1];
  for(auto& e: ref::monomials(n, 0, D)) {
    Mon m(e, -1);
    bool in=false;
    for(auto& f: F) in = in || ref::divides(f, m);
    int cnt=0; bool ok=false;
    Monom gm=glue::mkMonom(al, m);
    const Wrap* g=find(gm);
    for(size_t k=0; k < U.size(); k++) if (ref::involutiveDivides(nm[k], U[k], m)) { cnt++; ok = ok || g == W[k]; }
    c.check(in == (cnt > 0), "%s is %sin the ideal and has %d divisors in the completed set", m.str().c_str(), in ? "" : "not ", cnt);
    c.check(!unique || cnt < 2, "%s has %d divisors in the completed set", m.str().c_str(), cnt);
    c.check(in ? ok : g == nullptr, "find(%s) gives %s", m.str().c_str(), g ? glue::rdMonom(g->lm()).str().c_str() : "nothing");
  }
}
static void completionCase(Ctx& c, const std::vector<Mon>& F, const std::vector<bool>& buildAfter, int n) {
  int D=0; for(auto& f: F) D = std::max(D, f.deg());
  D = std::min(D+2, 7);
  {
    c.note("MJanet");
    Allocator al[1];
    MJanet J(al);
    std::vector<Mon> given;
    for(size_t i=0; i < F.size(); i++) {
      Allocator mal[1];
      Monom m=glue::mkMonom(mal, F[i]);
      // the tree takes only monomials without a Janet divisor
      std::vector<const Wrap*> W; collect(J.tree().begin(), W);
      std::vector<Mon> U; for(auto w: W) U.push_back(glue::rdMonom(w->lm()));
      bool hit=false;
      for(auto& u: U) hit = hit || ref::involutiveDivides(ref::janetNM(U, u), u, F[i]);
      if (!hit) { c.note("push %s", F[i].str().c_str()); J.push(m); c.step(); given.push_back(F[i]); }
      if (buildAfter[i]) {
        c.note("build"); J.build(); c.step();
        std::vector<const Wrap*> W; collect(J.tree().begin(), W);
        std::vector<Mon> U; for(auto w: W) U.push_back(glue::rdMonom(w->lm()));
        std::vector<std::vector<bool>> nm; for(auto& u: U) nm.push_back(ref::janetNM(U, u));
        c.check(J.tree().size() == (int)U.size(), "the completed tree reports %d elements and has %zu", J.tree().size(), U.size());
        judgeSet(c, W, nm, given, n, D, [&](const Monom& m) { return J.tree().find(m); }, true);
        mc::count("MJanet sets judged");
        mc::outcome("J" + std::to_string(U.size()));
      }
    }
  }
  for(auto& o: ORD) {
    c.note("MCompletion %s", o.name);
    try {
      Allocator al[1];
      {
        MCompletion M(al, o.cmp);
        std::vector<Mon> given;
        for(size_t i=0; i < F.size(); i++) {
          Allocator mal[1];
          Monom m=glue::mkMonom(mal, F[i]);
          bool dup=std::find(given.begin(), given.end(), F[i]) != given.end();
          if (dup || !M.find(m)) { c.note("push %s", F[i].str().c_str()); M.push(m); c.step(); if (!dup) given.push_back(F[i]); }
          // only the Janet division is continuous: for the others everything is pushed before completing
          if (o.janet ? buildAfter[i] : i+1 == F.size()) {
            c.note("build"); M.build(); c.step();
            std::vector<const Wrap*> W; std::vector<Mon> U;
            for(ListWrap::ConstIterator j(M.T().begin()); j; ++j) { W.push_back(j.data()); U.push_back(glue::rdMonom(j.data()->lm())); }
            c.check(M.length() == (int)U.size(), "length() is %d, %zu elements are listed", M.length(), U.size());
            std::vector<std::vector<bool>> nm(U.size(), std::vector<bool>(n, false));
            for(size_t a=0; a < U.size(); a++) {
              if (a) c.check(o.cmp(*W[a-1], *W[a]) < 0, "the list is not ascending");
              for(size_t b=a+1; b < U.size(); b++)
                for(int v=0; v < n; v++) if (U[b].e[v] > U[a].e[v]) { nm[a][v] = true; break; }
            }
            judgeSet(c, W, nm, given, n, D, [&](const Monom& m) { return (const Wrap*)M.find(m); }, o.janet);
            mc::count("MCompletion sets judged");
            mc::outcome(o.name + std::to_string(U.size()));
          }
        }
      }
      c.check(al->size() == 0, "the completion leaves %zu bytes of its memory in use", al->size());
    }
    catch(mc::Violation& v) { throw mc::Violation{std::string("MCompletion ") + o.name + ": " + v.what}; }
  }
}
static void completion(const char* name, int n, int d0, int D, int k, int every=1, bool incremental=true) {
  auto A=std::make_shared<std::vector<Mon>>();
  int q=0;
  for(auto& e: ref::monomials(n, d0, D)) if (q++ % every == 0) A->push_back(Mon(e));
  mc::explore(name, [=](Ctx& c) {
    std::vector<Mon> F; std::vector<bool> b;
    for(int i=0; i < k; i++) { F.push_back(c.pick(*A)); b.push_back(i == k-1 || (incremental && c.flag())); }
    completionCase(c, F, b, n);
  });
}

// ------------------------------------------------------------------ C20
struct ForestSystem: mc::System {
  int n;
  std::vector<Mon> pool;
  int maxel;
  struct El { Wrap* w; Mon lm; int anc, key; std::vector<bool> nmd; };
  std::vector<El> els;
  Allocator al[1], mal[1];
  GB* g;
  ForestSystem(int n_, std::vector<Mon> p, int mx): n(n_), pool(std::move(p)), maxel(mx), g(new GB(al)) {}
  ~ForestSystem() { delete g; for(auto& e: els) delete e.w; }
  bool qualifies(const El& e, const Mon& m) const {
    if (!ref::divides(e.lm, m)) return false;
    for(int v=0; v < n; v++) if (m.e[v] > e.lm.e[v] && (e.w->NM(v) || e.nmd[v])) return false;
    return true;
  }
  bool found(const Mon& m) const { for(auto& e: els) if (qualifies(e, m)) return true; return false; }
  std::vector<std::pair<int,int>> ops() { // (-1, pool index) or (element, variable)
    std::vector<std::pair<int,int>> r;
    if ((int)els.size() >= maxel) return r;
    for(size_t i=0; i < pool.size(); i++) if (!found(pool[i])) r.push_back(std::make_pair(-1, (int)i));
    for(size_t k=0; k < els.size(); k++)
      for(int v=0; v < n; v++)
        if ((els[k].w->NM(v) || els[k].nmd[v]) && !els[k].w->build(v)) r.push_back(std::make_pair((int)k, v));
    return r;
  }
  int nops() override { return (int)ops().size(); }
  void insert(Ctx& c, Wrap* w) {
    El e{w, glue::rdMonom(w->lm()), w->ansector().degree(), 0, std::vector<bool>(n, false)};
    for(auto& u: els)
      if (u.anc < e.anc)
        for(int v=0; v < n; v++) if (u.lm.e[v] > e.lm.e[v]) { e.nmd[v] = true; break; }
    c.note("insert %s with an ancestor of degree %d", e.lm.str().c_str(), e.anc);
    els.push_back(e);
    g->insert(w); c.step();
  }
  void apply(Ctx& c, int op) override {
    auto o=ops()[op];
    if (o.first < 0) {
      Monom m=glue::mkMonom(mal, pool[o.second]);
      insert(c, new Wrap(m));
    }
    else {
      Wrap* w=new Wrap(o.second, els[o.first].w);
      Mon m=glue::rdMonom(w->lm());
      if (found(m)) { c.note("the prolongation %s is found", m.str().c_str()); delete w; }
      else insert(c, w);
    }
    if (mc::rebuilding) return;
    c.check(g->size() == (int)els.size(), "size() is %d after %zu insertions", g->size(), els.size());
    std::map<int, std::vector<Mon>> byAnc;
    for(auto& e: els) byAnc[e.anc].push_back(e.lm);
    std::set<Mon> probes;
    for(auto& e: ref::monomials(n, 0, 3)) probes.insert(Mon(e));
    std::vector<std::vector<int>> small=ref::monomials(n, 0, 2);
    for(auto& e: els) {
      for(int v=0; v < n; v++) {
        c.check(e.w->NMd(v) == e.nmd[v], "x%d of %s is %snon-multiplicative because of an element of smaller ancestor degree", v, e.lm.str().c_str(), e.nmd[v] ? "" : "not ");
      }
      std::vector<bool> nm=ref::janetNM(byAnc[e.anc], e.lm);
      for(int v=0; v < n; v++) c.check(e.w->NM(v) == nm[v], "x%d of %s: wrong Janet flag within its tree", v, e.lm.str().c_str());
      for(auto& s: small) {
        Mon m=e.lm; for(int v=0; v < n; v++) m.e[v] += s[v];
        probes.insert(m);
        m = e.lm; bool ok=true; for(int v=0; v < n; v++) ok = ok && (m.e[v] -= s[v]) >= 0;
        if (ok) probes.insert(m);
      }
    }
    int total=0;
    for(auto& b: byAnc) {
      const Janet* t=(*g)[b.first];
      c.check(t->size() == (int)b.second.size(), "the tree of degree %d has %d elements of %zu", b.first, t->size(), b.second.size());
      total += t->size();
    }
    c.check(total == (int)els.size(), "the trees have %d elements together", total);
    for(auto& m: probes) {
      Monom gm=glue::mkMonom(mal, m);
      const Wrap* f=g->find(gm);
      const El* best=nullptr; bool ok=false;
      for(auto& e: els) if (qualifies(e, m)) { if (!best || e.anc < best->anc) best = &e; ok = ok || e.w == f; }
      c.check((best != nullptr) == (f != nullptr), "find(%s) gives %s, but %s", m.str().c_str(), f ? glue::rdMonom(f->lm()).str().c_str() : "nothing",
              best ? (best->lm.str() + " qualifies").c_str() : "no element qualifies");
      c.check(!f || ok, "find(%s) gives %s, which does not qualify", m.str().c_str(), f ? glue::rdMonom(f->lm()).str().c_str() : "");
    }
  }
  std::string canon() override {
    std::vector<std::string> v;
    int mx=20;
    for(auto& e: els) { if (e.anc >= mx) mx = e.anc*13/10; v.push_back(e.lm.str() + std::to_string(e.anc) + flags(*e.w)); }
    std::sort(v.begin(), v.end());
    std::string s=std::to_string(mx) + ":";
    for(auto& x: v) s += x;
    std::map<const Wrap*, int> id; // structure of the trees
    std::set<int> a; for(auto& e: els) a.insert(e.anc);
    for(size_t i=0; i < els.size(); i++) id[els[i].w] = int(std::find(v.begin(), v.end(), els[i].lm.str() + std::to_string(els[i].anc) + flags(*els[i].w)) - v.begin());
    for(int d: a) s += "T" + dump((*g)[d]->begin(), id);
    return s;
  }
};
static void forest(const char* name, int n, std::vector<std::vector<int>> p, int maxel) {
  std::vector<Mon> pool; for(auto& e: p) pool.push_back(Mon(e));
  mc::bfs(name, [=]() { return new ForestSystem(n, pool, maxel); });
}

void parts() {
  const bool T=mc::thorough(); (void)T;
#if PROP == 6
  auto tree=[](const char* name, int n, int D, int pos, bool one) { mc::bfs(name, [=]() { return new TreeSystem(n, D, pos, one); }); };
  tree("tree-n1-d6", 1, 6, -1, true);
  tree("tree-n2-d4", 2, 4, -1, true);
  tree("tree-n2-d3-component", 2, 3, 1, true);
  tree("tree-n3-d2", 3, 2, -1, true);
  tree("tree-n4-d2", 4, 2, 0, true);
  if (T) tree("tree-n3-d3", 3, 3, -1, true);
#elif PROP == 7
  completion("completion-n1", 1, 0, 5, 3);
  completion("completion-n2-k3", 2, 0, 4, 3);
  completion("completion-n3-k2", 3, 0, 3, 2);
  completion("completion-n3-k3", 3, 1, 3, 3, T ? 1 : 2);
  completion("completion-n4-k3", 4, 1, 2, 3);
  completion("completion-n2-k2-d7", 2, 1, 7, 2);
  if (T) {
    completion("completion-n2-k4", 2, 1, 4, 4);
    completion("completion-n3-k4", 3, 1, 3, 4, 1, false);
    completion("completion-n4-k4", 4, 1, 2, 4);
    completion("completion-n5-k3", 5, 1, 2, 3);
  }
#else
  forest("forest-n2-small", 2, {{1,0},{0,1},{2,0},{1,1},{0,2},{3,0},{2,1},{1,2},{0,3}}, T ? 6 : 5);
  forest("forest-n2-growth", 2, {{0,2},{3,1},{18,1},{20,0},{0,20},{10,11},{25,1},{0,26},{27,0},{30,5},{0,47}}, T ? 6 : 5);
  forest("forest-n3", 3, {{1,1,0},{0,1,1},{1,0,1},{2,0,0},{0,0,2},{0,3,0},{1,0,2}}, T ? 6 : 4);
#endif
}
