// Small stateless / explicit-state explorer for the checks in /verif.
//
//  Ctx       one execution; every decision is taken by choose(n), so an
//            execution is exactly its choice vector.
//  explore   depth-first enumeration of *all* choice vectors of a body, split
//            by prefix over forked workers.
//  bfs       breadth-first explicit-state search over a System: a state is a
//            history of operations replayed on fresh real objects, and is
//            deduplicated by a canonical form of the real object's state.
//
// A worker publishes the choice vector of the case it runs in shared memory,
// so a crash, an exit() or a hang of the code under test is attributed to the
// case which caused it, and the case can be replayed alone.
#ifndef MC_HPP
#define MC_HPP
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <cstdarg>
#include <string>
#include <vector>
#include <functional>
#include <iostream>
#include <sstream>
#include <algorithm>
#include <map>
#include <set>
#include <unistd.h>

namespace mc {

struct Violation { std::string what; };

extern bool        replaying;
extern bool        rebuilding;      // bfs: a prefix that was already judged is being replayed
extern std::string tier;            // quick | thorough
inline bool thorough() { return tier == "thorough"; }
extern int lite;                    // > 1: pick() offers every lite-th element of alphabets with more than 8 elements

uint64_t fnv(const void* p, size_t n, uint64_t h=1469598103934665603ull);
inline uint64_t fnv(const std::string& s) { return fnv(s.data(), s.size()); }

void outcome(uint64_t h);                   // register an observed outcome (distinct ones are counted)
inline void outcome(const std::string& s) { outcome(fnv(s)); }
void count(const char* name, uint64_t n=1); // named coverage counter

class Ctx {
public:
  std::vector<int> prefix, ch, lim;
  uint64_t steps;
  Ctx(): steps(0) {}
  int  choose(int n);
  bool flag() { return choose(2) == 1; }
  template <typename T> const T& pick(const std::vector<T>& v) {
    int n=(int)v.size(), k=n > 8 ? lite : 1;
    return v[choose((n+k-1)/k)*k];
  }
  void step(uint64_t n=1) { steps += n; }   // operations executed on the implementation
  void note(const char* fmt, ...) __attribute__((format(printf, 2, 3)));
  void check(bool ok, const char* fmt, ...) __attribute__((format(printf, 3, 4)));
};
[[noreturn]] void fail(const char* fmt, ...) __attribute__((format(printf, 1, 2)));

typedef std::function<void(Ctx&)> Body;

struct System {
  virtual ~System() {}
  virtual int nops()=0;                     // operations enabled in this state
  virtual void apply(Ctx& c, int op)=0;     // applies one and checks the result
  virtual std::string canon()=0;            // canonical state; "" : do not expand
};
typedef std::function<System*()> Factory;

struct Limits {
  uint64_t max_states;   // bfs
  int      max_depth;    // bfs
  Limits(): max_states(20000000), max_depth(1000000) {}
};

// To be called from parts(): in a run they explore, in a replay they only
// register the body.
void explore(const char* part, const Body& body);
void bfs(const char* part, const Factory& f, Limits lim=Limits());

// The harness defines this: registers every part.
}
void parts();
#endif
