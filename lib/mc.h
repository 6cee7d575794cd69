// Bounded exhaustive exploration of the real IFEM code.
//
// A harness is a set of "roots" (statically enumerated sub-spaces) and a
// run function which, for one root, asks the explorer for every remaining
// nondeterministic choice through Ctx::choose(). The explorer executes the run
// function once for every complete sequence of choices (stateless depth-first
// search with prefix replay). Each root runs in a child process forked from a
// pristine parent, such that library-static state never leaks between roots and
// every root is reproducible on its own.
#pragma once
#include <cmath>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <unordered_set>
#include <vector>

namespace mc {

struct Stop {}; // thrown to abandon the current execution

struct Hash
{
  uint64_t h = 1469598103934665603ull;
  Hash& raw(uint64_t v) { h ^= v + 0x9e3779b97f4a7c15ull + (h<<6) + (h>>2); h *= 1099511628211ull; h ^= h>>29; return *this; }
  Hash& add(int v) { return raw((uint64_t)(int64_t)v); }
  Hash& add(size_t v) { return raw(v); }
  Hash& add(bool v) { return raw(v?7:3); }
  Hash& add(double v) { if (v == 0.0) v = 0.0; if (v != v) return raw(0x7ff8); float f = (float)v; uint32_t u; memcpy(&u,&f,4); return raw(u); }
  Hash& add(const std::string& s) { for (char c : s) raw((unsigned char)c); return raw(s.size()); }
  template<class T> Hash& add(const std::vector<T>& v) { for (const T& x : v) add(T(x)); return raw(v.size()+17); }
};

struct Violation { std::string sig, msg; size_t root; std::vector<int> path; };

class Ctx
{
public:
  // -- choices --------------------------------------------------------------
  int choose(int n)
  {
    if (n < 1) { fprintf(stderr,"mc: choose(%d)\n",n); _exit(97); }
    int c = 0;
    if (pos < prefix.size())
    {
      c = prefix[pos];
      if (c >= n) { fprintf(stderr,"mc: divergence in replay (%d of %d)\n",c,n); _exit(96); }
    }
    path.push_back(c); width.push_back(n); ++pos;
    if (shPath && path.size() < 250) { shPath[path.size()] = c; shPath[0] = (int)path.size(); }
    return c;
  }
  bool flip() { return choose(2) == 1; }
  template<class T> const T& pick(const std::vector<T>& v) { return v[choose((int)v.size())]; }
  int range(int lo, int hi) { return lo + choose(hi-lo+1); }

  // -- verdicts -------------------------------------------------------------
  // Records a violation and abandons this execution.
  [[noreturn]] void fail(const std::string& sig, const std::string& msg)
  { this->record(sig,msg); throw Stop(); }
  // Records a violation, and continues with this execution.
  void record(const std::string& sig, const std::string& msg)
  {
    ++nViol;
    if (logging) printf("FAIL [%s] %s\n",sig.c_str(),msg.c_str());
    if (bySig[sig]++ < 1 && viol.size() < 40) viol.push_back({sig,msg,root,path});
  }
  void check(bool ok, const std::string& sig, const std::string& msg) { if (!ok) this->fail(sig,msg); }
  template<class A, class B> void eq(const A& got, const B& want, const std::string& sig, const std::string& what)
  { if (!(got == want)) { std::ostringstream s; s <<what<<": got "<<got<<", expected "<<want; this->fail(sig,s.str()); } }
  static bool close(double a, double b, double tol = 1e-9, double scale = 1.0)
  {
    if (std::isnan(a) || std::isnan(b)) return false;
    if (a == b) return true;
    return std::fabs(a-b) <= tol*std::max(scale,std::max(std::fabs(a),std::fabs(b)));
  }
  void near(double got, double want, const std::string& sig, const std::string& what, double tol = 1e-9, double scale = 1.0)
  { if (!close(got,want,tol,scale)) { char b[96]; snprintf(b,96,": got %.15g, expected %.15g",got,want); this->fail(sig,what+b); } }

  // -- coverage -------------------------------------------------------------
  void state(uint64_t h) { states.insert(h); }
  void state(const Hash& h) { states.insert(h.h); }
  void step(uint64_t n = 1) { transitions += n; }
  void outcome(const std::string& s) { ++outcomes[s]; }
  void sample(const std::string& s) { if (samples.size() < 2) samples.push_back(s); }

  void logf(const char* fmt, ...) __attribute__((format(printf,2,3)))
  {
    if (!logging) return;
    va_list ap; va_start(ap,fmt); vprintf(fmt,ap); va_end(ap); printf("\n");
  }

  bool thorough = false;
  bool logging = false;
  size_t root = 0;
  uint64_t transitions = 0, nViol = 0;
  std::unordered_set<uint64_t> states;
  std::map<std::string,uint64_t> outcomes, bySig;
  std::vector<std::string> samples;
  std::vector<Violation> viol;
  std::vector<int> prefix, path, width;
  size_t pos = 0;
  volatile int* shPath = nullptr;
};

struct Harness
{
  std::function<size_t(bool thorough)> roots;
  std::function<void(Ctx&, size_t root)> run;
  std::string rule;          // how cases are made and what is non-trivial
  std::string notes;
  int execTimeout = 30;      // seconds for one execution
};

inline std::string js(const std::string& s)
{
  std::string r = "\"";
  for (unsigned char c : s)
    if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if (c == '\n') r += "\\n";
    else if (c < 32 || c > 126) { char b[8]; snprintf(b,8,"\\u%04x",c); r += b; }
    else r += c;
  return r + "\"";
}

struct Slot { volatile pid_t pid; volatile long root; volatile long start; volatile unsigned long execs; volatile int path[256]; };

// Executes all choice sequences of one root. Returns number of executions.
inline uint64_t exploreRoot(const Harness& H, Ctx& c, size_t root, Slot* slot, long onlyFirst = -1)
{
  uint64_t n = 0;
  c.root = root;
  c.prefix.clear();
  for (;;)
  {
    c.path.clear(); c.width.clear(); c.pos = 0;
    if (slot) { slot->start = time(nullptr); slot->path[0] = 0; c.shPath = slot->path; }
    try { H.run(c,root); }
    catch (Stop&) {}
    catch (std::exception& e) { c.record("exception",std::string("unexpected C++ exception: ")+e.what()); }
    ++n;
    if (slot) slot->execs = n;
    // backtrack
    int i = (int)c.path.size()-1;
    while (i >= 0 && c.path[i]+1 >= c.width[i]) --i;
    if (i < 0) break;
    c.prefix.assign(c.path.begin(),c.path.begin()+i+1);
    c.prefix[i]++;
    if (onlyFirst > 0 && (long)n >= onlyFirst) break;
  }
  return n;
}

inline int main(int argc, char** argv, const Harness& H)
{
  std::string out, replay; long replayRoot = -1; bool thorough = false; int jobs = 8; double budget = 500;
  for (int i = 1; i < argc; i++)
  {
    std::string a = argv[i];
    if (a == "--out") out = argv[++i];
    else if (a == "--tier") thorough = std::string(argv[++i]) == "thorough";
    else if (a == "--jobs") jobs = atoi(argv[++i]);
    else if (a == "--budget") budget = atof(argv[++i]);
    else if (a == "--replay") replay = argv[++i];
    else if (a == "--replay-root") replayRoot = atol(argv[++i]);
  }
  setvbuf(stdout,nullptr,_IOLBF,0);

  if (!replay.empty())
  {
    Ctx c; c.thorough = thorough; c.logging = true;
    char* p = nullptr;
    c.root = strtoul(replay.c_str(),&p,10);
    while (p && *p) { ++p; if (!*p) break; c.prefix.push_back((int)strtol(p,&p,10)); }
    printf("replay root=%zu choices=%s\n",c.root,replay.c_str());
    try { H.run(c,c.root); } catch (Stop&) {} catch (std::exception& e) { c.record("exception",e.what()); }
    for (auto& v : c.viol) printf("REPLAYED-SIG %s\n",v.sig.c_str());
    fflush(stdout);
    _exit(c.viol.empty() ? 0 : 1);
  }
  if (replayRoot >= 0)
  {
    Ctx c; c.thorough = thorough;
    exploreRoot(H,c,replayRoot,nullptr);
    for (auto& v : c.viol) printf("REPLAYED-SIG %s\nFAIL [%s] %s\n",v.sig.c_str(),v.sig.c_str(),v.msg.c_str());
    fflush(stdout);
    _exit(c.viol.empty() ? 0 : 1);
  }

  size_t nRoots = H.roots(thorough);
  Slot* slots = (Slot*)mmap(nullptr,sizeof(Slot)*jobs,PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0);
  memset((void*)slots,0,sizeof(Slot)*jobs);
  for (int j = 0; j < jobs; j++) slots[j].pid = 0;

  std::string base = out + ".part";
  size_t next = 0, done = 0; bool capped = false;
  uint64_t execs = 0, trans = 0; std::unordered_set<uint64_t> states;
  std::map<std::string,uint64_t> outcomes, bySig; std::vector<std::string> samples; std::vector<Violation> viol;
  std::map<std::string,int> crashSig;
  timespec t0; clock_gettime(CLOCK_MONOTONIC,&t0);
  auto elapsed = [&t0]() { timespec t; clock_gettime(CLOCK_MONOTONIC,&t); return (t.tv_sec-t0.tv_sec)+1e-9*(t.tv_nsec-t0.tv_nsec); };

  int running = 0; size_t crashes = 0;
  while (done < nRoots || running > 0)
  {
    if (elapsed() > budget || crashes > 200) { if (next < nRoots) capped = true; next = nRoots; }
    while (running < jobs && next < nRoots)
    {
      int s = 0; while (slots[s].pid) ++s;
      slots[s].root = next; slots[s].start = time(nullptr); slots[s].execs = 0; slots[s].path[0] = 0;
      fflush(stdout); fflush(stderr);
      pid_t pid = fork();
      if (pid == 0)
      {
        int nul = open("/dev/null",O_WRONLY); dup2(nul,1);
        if (!getenv("MC_STDERR")) dup2(nul,2);
        setvbuf(stdout,nullptr,_IOFBF,65536);
        size_t root = slots[s].root;
        Ctx c; c.thorough = thorough;
        uint64_t n = exploreRoot(H,c,root,&slots[s]);
        FILE* f = fopen((base+std::to_string(s)).c_str(),"wb");
        auto wu = [f](uint64_t v) { fwrite(&v,8,1,f); };
        auto ws = [f,&wu](const std::string& t) { wu(t.size()); fwrite(t.data(),1,t.size(),f); };
        wu(n); wu(c.transitions);
        wu(c.states.size()); for (uint64_t h : c.states) wu(h);
        wu(c.outcomes.size()); for (auto& o : c.outcomes) { ws(o.first); wu(o.second); }
        wu(c.bySig.size()); for (auto& o : c.bySig) { ws(o.first); wu(o.second); }
        wu(c.samples.size()); for (auto& o : c.samples) ws(o);
        wu(c.viol.size()); for (auto& v : c.viol) { ws(v.sig); ws(v.msg); wu(v.root); wu(v.path.size()); for (int i : v.path) wu(i); }
        wu(0xfeedface); fclose(f);
        _exit(0);
      }
      slots[s].pid = pid; ++running; ++next;
    }
    if (!running) break;
    int st; pid_t p = waitpid(-1,&st,WNOHANG);
    if (p <= 0)
    {
      long now = time(nullptr);
      for (int s = 0; s < jobs; s++)
        if (slots[s].pid && now-slots[s].start > H.execTimeout) kill(slots[s].pid,SIGKILL);
      usleep(2000);
      continue;
    }
    int s = 0; while (s < jobs && slots[s].pid != p) ++s;
    if (s == jobs) continue;
    slots[s].pid = 0; --running; ++done;
    bool ok = WIFEXITED(st) && WEXITSTATUS(st) == 0;
    if (ok)
    {
      FILE* f = fopen((base+std::to_string(s)).c_str(),"rb"); ok = f;
      if (f) {
        auto ru = [f]() { uint64_t v = 0; if (fread(&v,8,1,f) != 1) v = 0; return v; };
        auto rs = [f,&ru]() { std::string t(ru(),0); if (!t.empty() && fread(&t[0],1,t.size(),f) != t.size()) t.clear(); return t; };
        execs += ru(); trans += ru();
        for (uint64_t n = ru(); n; --n) states.insert(ru());
        for (uint64_t n = ru(); n; --n) { std::string k = rs(); outcomes[k] += ru(); }
        for (uint64_t n = ru(); n; --n) { std::string k = rs(); bySig[k] += ru(); }
        for (uint64_t n = ru(); n; --n) { std::string k = rs(); if (samples.size() < 6) samples.push_back(k); }
        for (uint64_t n = ru(); n; --n) { Violation v; v.sig = rs(); v.msg = rs(); v.root = ru(); for (uint64_t m = ru(); m; --m) v.path.push_back((int)ru());
          bool have = false; for (auto& w : viol) if (w.sig == v.sig) { have = true; if (w.root > v.root) w = v; }
          if (!have) viol.push_back(v); }
        ok = ru() == 0xfeedface;
        fclose(f);
        unlink((base+std::to_string(s)).c_str());
      }
    }
    if (!ok)
    {
      ++crashes;
      Violation v; v.root = slots[s].root;
      for (int i = 1; i <= slots[s].path[0]; i++) v.path.push_back(int(slots[s].path[i]));
      bool hang = WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL;
      char b[128];
      if (hang) { v.sig = "hang"; snprintf(b,128,"no result within %d s",H.execTimeout); }
      else if (WIFSIGNALED(st)) { v.sig = "crash"; snprintf(b,128,"terminated by signal %d",WTERMSIG(st)); }
      else { v.sig = "crash"; snprintf(b,128,"terminated with exit status %d",WEXITSTATUS(st)); }
      v.msg = b;
      execs += slots[s].execs; ++bySig[v.sig];
      if (crashSig[v.sig]++ < 3) viol.push_back(v);
      unlink((base+std::to_string(s)).c_str());
    }
  }

  FILE* f = out.empty() ? stdout : fopen(out.c_str(),"w");
  fprintf(f,"{\"roots\":%zu,\"roots_done\":%zu,\"capped\":%s,\"executions\":%llu,\"states\":%zu,\"transitions\":%llu,\"wall\":%.2f,\n",
          nRoots,done,capped?"true":"false",(unsigned long long)execs,states.size(),(unsigned long long)trans,elapsed());
  fprintf(f,"\"rule\":%s,\"notes\":%s,\n\"outcomes\":{",js(H.rule).c_str(),js(H.notes).c_str());
  const char* sep = "";
  for (auto& o : outcomes) { fprintf(f,"%s%s:%llu",sep,js(o.first).c_str(),(unsigned long long)o.second); sep = ","; }
  fprintf(f,"},\n\"samples\":["); sep = "";
  for (auto& o : samples) { fprintf(f,"%s%s",sep,js(o).c_str()); sep = ","; }
  fprintf(f,"],\n\"violation_counts\":{"); sep = "";
  for (auto& o : bySig) { fprintf(f,"%s%s:%llu",sep,js(o.first).c_str(),(unsigned long long)o.second); sep = ","; }
  fprintf(f,"},\n\"violations\":["); sep = "";
  for (auto& v : viol)
  {
    fprintf(f,"%s\n{\"sig\":%s,\"msg\":%s,\"root\":%zu,\"replay\":\"%zu",sep,js(v.sig).c_str(),js(v.msg).c_str(),v.root,v.root);
    for (int i : v.path) fprintf(f,",%d",i);
    fprintf(f,"\"}"); sep = ",";
  }
  fprintf(f,"]}\n");
  if (f != stdout) fclose(f);
  return 0;
}

} // namespace mc
