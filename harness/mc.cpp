#include "mc.hpp"
#include <csignal>
#include <ctime>
#include <fcntl.h>
#include <unordered_set>
#include <valgrind/valgrind.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>

namespace mc {

bool replaying=false;
bool rebuilding=false;
std::string tier="quick";

int lite=1;
static int depthcap=0;              // bfs: no deeper than this

// Memory: bytes allocated from the heap (under AddressSanitizer) and errors
// reported (under Memcheck), to notice leaks and uses of undefined values.
extern "C" __attribute__((weak)) size_t __sanitizer_get_current_allocated_bytes();
static size_t heapbytes() { return __sanitizer_get_current_allocated_bytes ? __sanitizer_get_current_allocated_bytes() : 0; }
static bool leakcheck() { return __sanitizer_get_current_allocated_bytes != nullptr; }
static unsigned long vgerrors() { return RUNNING_ON_VALGRIND ? VALGRIND_COUNT_ERRORS : 0; }
// run twice more: what is allocated once and kept (buffers) is no leak
static void leaks(const std::function<void()>& again) {
  bool rp=replaying; replaying = false;
  size_t d=0;
  for(int k=0; k < 8; k++) {
    size_t b=heapbytes();
    try { again(); } catch(...) { replaying = rp; return; }
    d = heapbytes() - b;
    if ((ssize_t)d <= 0) { replaying = rp; return; }
  }
  replaying = rp;
  fail("every repetition of this case leaves %zd more bytes allocated", (ssize_t)d);
}

static const int MAXCH=4096, NW_MAX=64, NCOUNT=32, SIGBITS=1 << 22;

struct Slot {
  volatile uint64_t beat;
  volatile int busy, n;
  volatile int ch[MAXCH];
};
struct Shared {
  Slot slot[NW_MAX];
  volatile uint64_t next, execs, nodes, trans, maxlen;
  struct { char name[48]; volatile uint64_t v; } cnt[NCOUNT];
  volatile int cntlock;
  volatile uint8_t sig[SIGBITS/8];
  volatile int stop, nviol, nsample;
  char viol[16][2048]; int violn[16]; int violch[16][MAXCH];
  int samplen[8]; int samplech[8][MAXCH];
};
static Shared* sh=nullptr;
static int worker=-1, nworkers=8, case_s=60, maxviol=3;
static double budget_s=1e9, t0=0;
static std::string rpart, outfile;
static std::vector<std::string> only;   // part names; a trailing * matches any rest
static bool selected(const char* part) {
  if (only.empty()) return true;
  for(auto& o: only)
    if (o.size() && o.back() == '*' ? !strncmp(part, o.c_str(), o.size()-1) : o == part) return true;
  return false;
}
static std::vector<int> rch;
static bool rfound=false, truncated=false;
static int rviol=0;

struct PartStat { std::string name, kind; uint64_t execs, nodes, trans, states, maxlen; bool complete; double s; };
static std::vector<PartStat> stats;
struct Viol { std::string part, what; std::vector<int> ch; };
static std::vector<Viol> viols;
static std::vector<std::pair<std::string, std::vector<int>>> samples;

static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec*1e-9; }

uint64_t fnv(const void* p, size_t n, uint64_t h) {
  const unsigned char* c=(const unsigned char*)p;
  for(size_t i=0; i < n; i++) { h ^= c[i]; h *= 1099511628211ull; }
  return h;
}
static uint64_t mix(uint64_t h) {
  h ^= h >> 30; h *= 0xbf58476d1ce4e5b9ull; h ^= h >> 27; h *= 0x94d049bb133111ebull; return h ^ (h >> 31);
}
void outcome(uint64_t h) {
  if (!sh) return;
  uint64_t b=mix(h) % SIGBITS;
  uint8_t m=uint8_t(1u << (b & 7));
  if (!(sh->sig[b >> 3] & m)) __sync_fetch_and_or(&sh->sig[b >> 3], m);
}
void count(const char* name, uint64_t n) {
  if (!sh) return;
  for(int i=0; i < NCOUNT; i++) {
    if (!sh->cnt[i].name[0]) {
      while(__sync_lock_test_and_set(&sh->cntlock, 1)) ;
      if (!sh->cnt[i].name[0]) strncpy(sh->cnt[i].name, name, 47);
      __sync_lock_release(&sh->cntlock);
    }
    if (!strcmp(sh->cnt[i].name, name)) { __sync_fetch_and_add(&sh->cnt[i].v, n); return; }
  }
}

int Ctx::choose(int n) {
  if (n <= 0) { printf("HARNESS-ERROR choose(%d)\n", n); fflush(stdout); _exit(97); }
  int c=0;
  size_t i=ch.size();
  if (i < prefix.size()) {
    c = prefix[i];
    if (c < 0 || c >= n) {
      // the case does not exist: the execution diverged from its prefix
      printf("HARNESS-ERROR diverging prefix: choice %d of %d at %zu\n", c, n, i); fflush(stdout);
      _exit(98);
    }
  }
  ch.push_back(c); lim.push_back(n);
  if (worker >= 0 && i < (size_t)MAXCH) { sh->slot[worker].ch[i] = c; sh->slot[worker].n = int(i+1); }
  return c;
}
void Ctx::note(const char* fmt, ...) {
  if (!replaying) return;
  va_list ap; va_start(ap, fmt);
  printf("  "); vprintf(fmt, ap); printf("\n"); fflush(stdout);
  va_end(ap);
}
void Ctx::check(bool ok, const char* fmt, ...) {
  if (ok) return;
  char buf[2000]; va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
  throw Violation{buf};
}
void fail(const char* fmt, ...) {
  char buf[2000]; va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
  throw Violation{buf};
}

static void report(const std::string& what, const std::vector<int>& ch) {
  int k=__sync_fetch_and_add(&sh->nviol, 1);
  if (k < 16) {
    strncpy(sh->viol[k], what.c_str(), 2047);
    int n=std::min<int>((int)ch.size(), MAXCH);
    for(int i=0; i < n; i++) sh->violch[k][i] = ch[i];
    sh->violn[k] = n;
  }
  if (k+1 >= maxviol) sh->stop = 1;
}
static void sample(const std::vector<int>& ch) {
  int k=__sync_fetch_and_add(&sh->nsample, 1);
  if (k < 2) {
    int n=std::min<int>((int)ch.size(), MAXCH);
    for(int i=0; i < n; i++) sh->samplech[k][i] = ch[i];
    sh->samplen[k] = n;
  }
}
static void begin_case(const std::vector<int>& pre) {
  Slot& s=sh->slot[worker];
  s.n = 0;
  for(size_t i=0; i < pre.size() && i < (size_t)MAXCH; i++) s.ch[i] = pre[i];
  s.n = (int)std::min<size_t>(pre.size(), MAXCH);
  s.beat = s.beat + 1;
  s.busy = 1;
}
static void end_case() { sh->slot[worker].busy = 0; }

static bool runcase(const Body& body, Ctx& c) {
  begin_case(c.prefix);
  sh->slot[worker].n = 0;
  bool ok=true;
  if (leakcheck()) { c.ch.reserve(1024); c.lim.reserve(1024); }
  size_t heap=heapbytes();
  unsigned long ve=vgerrors();
  try {
    body(c);
    if (vgerrors() != ve) fail("memcheck reports an error");
    if (heapbytes() != heap) leaks([&]() { Ctx d; d.prefix = c.ch; int w=worker; worker = -1; try { body(d); } catch(...) { worker = w; throw; } worker = w; });
  }
  catch(Violation& v) { report(v.what, c.ch); ok = false; }
  catch(std::exception& e) { report(std::string("exception escaped: ") + e.what(), c.ch); ok = false; }
  end_case();
  __sync_fetch_and_add(&sh->trans, c.steps);
  return ok;
}

// Runs f() in nw forked workers; attributes deaths and hangs to cases.
static void farm(int nw, const std::function<void(int)>& f, const char* what) {
  fflush(stdout); fflush(stderr);
  std::vector<pid_t> pid(nw, 0);
  std::vector<uint64_t> beat(nw, 0);
  std::vector<double> since(nw, now());
  for(int w=0; w < nw; w++) {
    sh->slot[w].busy = 0; sh->slot[w].n = 0;
    pid[w] = fork();
    if (pid[w] < 0) { perror("fork"); exit(99); }
    if (pid[w] == 0) {
      worker = w;
#ifndef __SANITIZE_ADDRESS__
      struct rlimit rl; rl.rlim_cur = rl.rlim_max = (rlim_t)(2500ull << 20); // runaway allocation dies here, not the machine
      setrlimit(RLIMIT_DATA, &rl);
#endif
      f(w);
      fflush(stdout);
      _exit(77);
    }
  }
  int left=nw;
  while(left) {
    bool any=false;
    for(int w=0; w < nw; w++) {
      if (!pid[w]) continue;
      int st;
      pid_t r=waitpid(pid[w], &st, WNOHANG);
      if (r == pid[w]) {
        pid[w] = 0; left--; any = true;
        if (WIFEXITED(st) && WEXITSTATUS(st) == 77) continue;
        if (WIFEXITED(st) && (WEXITSTATUS(st) == 97 || WEXITSTATUS(st) == 98 || WEXITSTATUS(st) == 99)) {
          printf("HARNESS-ERROR worker status %d\n", WEXITSTATUS(st)); exit(99);
        }
        Slot& s=sh->slot[w];
        std::vector<int> ch(s.ch, s.ch + s.n);
        char buf[200];
        if (WIFSIGNALED(st)) snprintf(buf, sizeof buf, "the process died by signal %d (%s)", WTERMSIG(st), strsignal(WTERMSIG(st)));
        else snprintf(buf, sizeof buf, "the process ended itself with status %d", WEXITSTATUS(st));
        if (s.busy) report(buf, ch);
        else { printf("HARNESS-ERROR a worker died outside a case: %s (%s)\n", buf, what); exit(99); }
        truncated = true;
        continue;
      }
      Slot& s=sh->slot[w];
      if (s.beat != beat[w] || !s.busy) { beat[w] = s.beat; since[w] = now(); }
      else if (now() - since[w] > case_s) {
        std::vector<int> ch(s.ch, s.ch + s.n);
        kill(pid[w], SIGKILL); waitpid(pid[w], &st, 0);
        pid[w] = 0; left--; any = true;
        char buf[100]; snprintf(buf, sizeof buf, "no result within %d s: the call does not end", case_s);
        report(buf, ch);
        truncated = true;
      }
    }
    if (now() - t0 > budget_s) sh->stop = 2;
    if (!any) usleep(2000);
  }
}

static void reset_shared() {
  sh->next = sh->execs = sh->nodes = sh->trans = sh->maxlen = 0;
  sh->stop = 0; sh->nviol = 0; sh->nsample = 0;
}
static void harvest(const char* part) {
  for(int k=0; k < std::min<int>((int)sh->nviol, 16); k++)
    viols.push_back(Viol{part, sh->viol[k], std::vector<int>(sh->violch[k], sh->violch[k]+sh->violn[k])});
  for(int k=0; k < std::min<int>((int)sh->nsample, 2); k++)
    samples.push_back(std::make_pair(std::string(part), std::vector<int>(sh->samplech[k], sh->samplech[k]+sh->samplen[k])));
  if (sh->stop) truncated = true;
}
static void amax(volatile uint64_t* p, uint64_t v) {
  uint64_t o=*p;
  while(v > o && !__sync_bool_compare_and_swap(p, o, v)) o = *p;
}

void explore(const char* part, const Body& body) {
  if (replaying) {
    if (rpart != part) return;
    rfound = true;
    Ctx c; c.prefix = rch;
    unsigned long ve=vgerrors();
    try { body(c); if (vgerrors() != ve) fail("memcheck reports an error");
      if (leakcheck()) leaks([&]() { Ctx d; d.prefix = rch; body(d); });
      printf("case passed\n"); }
    catch(Violation& v) { printf("VIOLATED: %s\n", v.what.c_str()); rviol = 1; }
    catch(std::exception& e) { printf("VIOLATED: exception escaped: %s\n", e.what()); rviol = 1; }
    return;
  }
  if (!selected(part)) return;
  if (now() - t0 > budget_s) { stats.push_back(PartStat{part, "explore", 0,0,0,0,0,false,0}); truncated = true; return; }
  double ts=now();
  reset_shared();
  bool savetr=truncated; truncated = false;

  // split into tasks by prefix: expand breadth-first, the branching of a prefix
  // is learnt by running it (in a child, as the code under test may crash)
  struct Task { int n; };
  const size_t MAXTASK=1 << 16, MAXPRE=24, WANT=size_t(nworkers)*64;
  struct TaskTab { volatile uint64_t n; int len[MAXTASK]; int ch[MAXTASK][MAXPRE]; };
  static TaskTab* tab=nullptr;
  if (!tab) tab = (TaskTab*)mmap(nullptr, sizeof(TaskTab), PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0);
  tab->n = 0;
  farm(1, [&](int) {
    std::vector<std::vector<int>> q(1), done;
    size_t head=0;
    while(head < q.size() && q.size() - head + done.size() < WANT) {
      std::vector<int> p=q[head++];
      if (p.size() + 1 >= MAXPRE) { done.push_back(p); continue; }
      Ctx c; c.prefix = p;
      uint64_t ex=sh->trans;
      runcase(body, c);
      sh->trans = ex;
      if (c.ch.size() <= p.size()) { done.push_back(p); continue; }
      int n=c.lim[p.size()];
      for(int i=0; i < n; i++) { auto x=p; x.push_back(i); q.push_back(x); }
      sh->nviol = 0; sh->stop = 0;   // found again below
    }
    q.erase(q.begin(), q.begin() + head);
    if (q.size() + done.size() > MAXTASK) { printf("HARNESS-ERROR too many tasks\n"); fflush(stdout); _exit(97); }
    for(auto& p: q) done.push_back(p);
    for(auto& p: done) {
      uint64_t k=tab->n;
      tab->len[k] = (int)p.size();
      for(size_t i=0; i < p.size(); i++) tab->ch[k][i] = p[i];
      tab->n = k+1;
    }
  }, part);
  if (tab->n) {
    farm(nworkers, [&](int) {
      for(;;) {
        uint64_t t=__sync_fetch_and_add(&sh->next, 1);
        if (t >= tab->n || sh->stop) break;
        std::vector<int> base(tab->ch[t], tab->ch[t]+tab->len[t]);
        std::vector<int> pre=base;
        bool first=true;
        uint64_t ex=0, nodes=0, ml=0;
        for(;;) {
          Ctx c; c.prefix = pre;
          runcase(body, c);
          if (c.ch.size() < base.size()) { printf("HARNESS-ERROR nondeterministic body (%s)\n", part); fflush(stdout); _exit(97); }
          ex++;
          nodes += first ? c.ch.size() - base.size() + 1 : c.ch.size() - (pre.size() - 1);
          if (c.ch.size() > ml) ml = c.ch.size();
          if (first && (t == tab->n/3 || t == (2*tab->n)/3)) sample(c.ch);
          first = false;
          // next vector
          std::vector<int> nx=c.ch;
          size_t k=nx.size();
          while(k > base.size() && nx[k-1] + 1 >= c.lim[k-1]) k--;
          if (k <= base.size()) break;
          nx.resize(k); nx[k-1]++;
          pre.swap(nx);
          if (sh->stop) break;
        }
        __sync_fetch_and_add(&sh->execs, ex);
        __sync_fetch_and_add(&sh->nodes, nodes);
        amax(&sh->maxlen, ml);
      }
    }, part);
  }
  harvest(part);
  stats.push_back(PartStat{part, "explore", sh->execs, sh->nodes, sh->trans, sh->nodes, sh->maxlen, !truncated, now()-ts});
  printf("part %-28s executions=%llu nodes=%llu steps=%llu depth<=%llu%s  %.1fs\n", part, (unsigned long long)sh->execs,
         (unsigned long long)sh->nodes, (unsigned long long)sh->trans, (unsigned long long)sh->maxlen, truncated ? " (cut short)" : "", now()-ts);
  fflush(stdout);
  truncated = truncated || savetr;
}

struct Cand { uint64_t h1, h2; uint32_t parent; int op; int expand; };

void bfs(const char* part, const Factory& fac, Limits lim) {
  if (replaying) {
    if (rpart != part) return;
    rfound = true;
    Ctx c;
    auto go=[&]() {
      System* s=fac();
      for(int op: rch) {
        if (op < 0 || op >= s->nops()) { printf("HARNESS-ERROR diverging history\n"); exit(98); }
        s->apply(c, op);
        s->canon();
      }
      delete s;
    };
    unsigned long ve=vgerrors();
    try {
      go();
      if (vgerrors() != ve) fail("memcheck reports an error");
      if (leakcheck()) leaks(go);
      printf("case passed\n");
    }
    catch(Violation& v) { printf("VIOLATED: %s\n", v.what.c_str()); rviol = 1; }
    return;
  }
  if (!selected(part)) return;
  if (depthcap && lim.max_depth > depthcap) lim.max_depth = depthcap;
  if (now() - t0 > budget_s) { stats.push_back(PartStat{part, "bfs", 0,0,0,0,0,false,0}); truncated = true; return; }
  double ts=now();
  reset_shared();
  bool savetr=truncated; truncated = false;

  std::vector<std::pair<int,int>> par(1, std::make_pair(-1, -1)); // state -> (parent, op)
  struct H { size_t operator()(const std::pair<uint64_t,uint64_t>& p) const { return p.first; } };
  std::unordered_set<std::pair<uint64_t,uint64_t>, H> seen;
  std::vector<uint32_t> frontier(1, 0);
  auto hist=[&](int s) {
    std::vector<int> h;
    while(par[s].first >= 0) { h.push_back(par[s].second); s = par[s].first; }
    std::reverse(h.begin(), h.end());
    return h;
  };
  const size_t CAP=48u << 20;
  static Cand* cand=nullptr;
  static volatile uint64_t* ncand=nullptr;
  if (!cand) {
    cand = (Cand*)mmap(nullptr, sizeof(Cand)*CAP, PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0);
    ncand = (volatile uint64_t*)mmap(nullptr, 4096, PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0);
  }
  int depth=0;
  bool capped=false, statecap=false, first=true;
  while(!frontier.empty() && !sh->stop) {
    if (depth >= lim.max_depth) { capped = true; break; }
    // levels larger than the candidate table are processed in slices
    std::vector<uint32_t> next;
    size_t SL=1u << 20;
    for(size_t off=0; off < frontier.size() && !sh->stop; off += SL) {
      size_t n=std::min(SL, frontier.size()-off);
      *ncand = 0; sh->next = 0;
      size_t chunk=std::max<size_t>(1, std::min<size_t>(64, n/(size_t(nworkers)*8)+1));
      farm(n < 4 ? 1 : nworkers, [&](int) {
        std::vector<Cand> buf;
        auto flush=[&]() {
          if (buf.empty()) return;
          uint64_t at=__sync_fetch_and_add(ncand, buf.size());
          if (at + buf.size() > CAP) { sh->stop = 2; return; }
          memcpy(cand + at, buf.data(), buf.size()*sizeof(Cand));
          buf.clear();
        };
        for(;;) {
          uint64_t b=__sync_fetch_and_add(&sh->next, chunk);
          if (b >= n || sh->stop) break;
          for(uint64_t f=b; f < std::min<uint64_t>(n, b+chunk); f++) {
            uint32_t id=frontier[off+f];
            std::vector<int> h=hist((int)id);
            int nops;
            Ctx c;
            auto build=[&]() {
              System* s=fac();
              rebuilding = true;
              try { for(int op: h) s->apply(c, op); } catch(...) { rebuilding = false; throw; }
              rebuilding = false;
              return s;
            };
            begin_case(h);
            System* s0=nullptr;
            try { s0 = build(); nops = s0->nops(); }
            catch(Violation& v) { report("while rebuilding a state: " + v.what, h); end_case(); continue; }
            end_case();
            if (first) { // the initial state itself
              std::string k=s0->canon();
              buf.push_back(Cand{fnv(k), fnv(k.data(), k.size(), 0x9ae16a3b2f90404full), id, -1, 1});
            }
            uint64_t ex=0;
            for(int op=0; op < nops; op++) {
              std::vector<int> hh=h; hh.push_back(op);
              begin_case(hh);
              System* s=s0;
              s0 = nullptr;
              if (leakcheck() && s) { delete s; s = nullptr; }
              size_t heap=heapbytes();
              unsigned long ve=vgerrors();
              try {
                if (!s) s = build();
                c.steps = 0;
                s->apply(c, op);
                ex++;
                uint64_t k1, k2; bool ke;
                { std::string k=s->canon(); k1 = fnv(k); k2 = fnv(k.data(), k.size(), 0x9ae16a3b2f90404full); ke = k.empty(); }
                delete s;
                if (vgerrors() != ve) fail("memcheck reports an error");
                if (leakcheck() && heapbytes() != heap) leaks([&]() { System* s=build(); s->apply(c, op); s->canon(); delete s; });
                buf.push_back(Cand{k1, k2, id, op, ke ? 0 : 1});
              }
              catch(Violation& v) { report(v.what, hh); }
              catch(std::exception& e) { report(std::string("exception escaped: ") + e.what(), hh); }
              end_case();
              if (sh->stop) break;
            }
            if (s0) delete s0;
            __sync_fetch_and_add(&sh->trans, ex);
            if (buf.size() > 4096) flush();
          }
        }
        flush();
      }, part);
      uint64_t m=std::min<uint64_t>((uint64_t)*ncand, CAP);
      for(uint64_t i=0; i < m; i++) {
        const Cand& x=cand[i];
        if (!seen.insert(std::make_pair(x.h1, x.h2)).second) continue;
        if (x.op < 0) continue;          // initial state: already number 0
        par.push_back(std::make_pair((int)x.parent, x.op));
        if (x.expand) {
          if (par.size() > lim.max_states) capped = statecap = true;
          else next.push_back(uint32_t(par.size()-1));
        }
      }
    }
    first = false;
    frontier.swap(next);
    if (!frontier.empty()) depth++;
  }
  if (par.size() > 2) {
    for(size_t k: {par.size()/2, par.size()-1}) samples.push_back(std::make_pair(std::string(part), hist((int)k)));
  }
  harvest(part);
  // a search to a stated depth is complete within its bound; one cut by a
  // deadline or by the number of states is not
  bool closed=!truncated && !capped, complete=!truncated && !statecap;
  stats.push_back(PartStat{part, "bfs", sh->trans, 0, sh->trans, par.size(), (uint64_t)depth, complete, now()-ts});
  printf("part %-28s states=%zu transitions=%llu depth=%d%s  %.1fs\n", part, par.size(), (unsigned long long)sh->trans, depth,
         closed ? " (closed)" : complete ? " (depth bound)" : " (cut short)", now()-ts);
  fflush(stdout);
  truncated = truncated || savetr || (capped && lim.max_depth == 1000000);
}

static std::string esc(const std::string& s) {
  std::string r="\"";
  for(unsigned char c: s) {
    if (c == '"' || c == '\\') { r += '\\'; r += (char)c; }
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
    else r += (char)c;
  }
  return r + "\"";
}
static std::string arr(const std::vector<int>& v) {
  std::string r="[";
  for(size_t i=0; i < v.size(); i++) { if (i) r += ","; r += std::to_string(v[i]); }
  return r + "]";
}

} // namespace mc

int main(int argc, char** argv) {
  using namespace mc;
  t0 = now();
  for(int i=1; i < argc; i++) {
    std::string a=argv[i];
    auto val=[&]() { if (i+1 >= argc) exit(99); return std::string(argv[++i]); };
    if (a == "--tier") tier = val();
    else if (a == "--workers") nworkers = std::max(1, std::min(NW_MAX, atoi(val().c_str())));
    else if (a == "--lite") lite = std::max(1, atoi(val().c_str()));
    else if (a == "--depth") depthcap = atoi(val().c_str());
    else if (a == "--case-s") case_s = atoi(val().c_str());
    else if (a == "--budget") budget_s = atof(val().c_str());
    else if (a == "--max-viol") maxviol = atoi(val().c_str());
    else if (a == "--out") outfile = val();
    else if (a == "--part") only.push_back(val());
    else if (a == "--replay") {
      replaying = true; rpart = val();
      std::stringstream ss(val()); std::string t;
      while(std::getline(ss, t, ',')) if (!t.empty()) rch.push_back(atoi(t.c_str()));
    }
    else { fprintf(stderr, "unknown argument %s\n", a.c_str()); return 99; }
  }
  if (replaying) {
    parts();
    if (!rfound) { printf("HARNESS-ERROR no part %s\n", rpart.c_str()); return 99; }
    fflush(stdout);
    _exit(rviol ? 1 : 0);
  }
  sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0);
  parts();
  uint64_t distinct=0;
  for(int i=0; i < SIGBITS/8; i++) distinct += __builtin_popcount(sh->sig[i]);
  std::string o="{\n \"parts\": [";
  for(size_t i=0; i < stats.size(); i++) {
    auto& s=stats[i];
    char b[600];
    snprintf(b, sizeof b, "%s\n  {\"name\": %s, \"kind\": \"%s\", \"executions\": %llu, \"states\": %llu, \"transitions\": %llu, \"depth\": %llu, \"complete\": %s, \"wall_s\": %.2f}",
      i ? "," : "", esc(s.name).c_str(), s.kind.c_str(), (unsigned long long)s.execs, (unsigned long long)s.states, (unsigned long long)s.trans,
      (unsigned long long)s.maxlen, s.complete ? "true" : "false", s.s);
    o += b;
  }
  o += "],\n \"counters\": {";
  bool f=true;
  for(int i=0; i < NCOUNT && sh->cnt[i].name[0]; i++) {
    o += std::string(f ? "" : ", ") + esc(sh->cnt[i].name) + ": " + std::to_string(sh->cnt[i].v); f = false;
  }
  o += "},\n \"distinct_outcomes\": " + std::to_string(distinct) + ",\n \"violations\": [";
  for(size_t i=0; i < viols.size(); i++)
    o += std::string(i ? "," : "") + "\n  {\"part\": " + esc(viols[i].part) + ", \"what\": " + esc(viols[i].what) + ", \"choices\": " + arr(viols[i].ch) + "}";
  o += "],\n \"samples\": [";
  for(size_t i=0; i < samples.size(); i++)
    o += std::string(i ? "," : "") + "\n  {\"part\": " + esc(samples[i].first) + ", \"choices\": " + arr(samples[i].second) + "}";
  o += "],\n \"wall_s\": " + std::to_string(now()-t0) + "\n}\n";
  if (outfile.empty()) { if (!viols.empty() || 1) fputs(o.c_str(), stdout); }
  else {
    FILE* fp=fopen(outfile.c_str(), "w");
    if (!fp) return 99;
    fputs(o.c_str(), fp); fclose(fp);
  }
  fflush(stdout);
  _exit(viols.empty() ? 0 : 1);
}
