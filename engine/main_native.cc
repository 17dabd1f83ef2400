// Native (machine double) runner: replays a counterexample or sweeps samples.
#include <cmath>
#include <cstdint>
#include <csignal>
#include <cstdlib>
#include <sys/time.h>
#include <cstring>
#include <new>
#include <fstream>
#include <iostream>
#include <set>
#include <ctime>
#include <unistd.h>
#include <sstream>

#include "concrete.hh"
#include "contract.hh"
#include "oob.hh"
#include <csetjmp>
#include <regex>
namespace engine { extern jmp_buf oobJump; extern bool oobArmed; extern std::string oobWhat; }

// fresh memory holds NaNs
void* operator new(std::size_t n) {
  void* p = std::malloc(n ? n : 1);
  if (!p) throw std::bad_alloc();
  std::memset(p, 0xff, n);
  return p;
}
void* operator new[](std::size_t n) { return operator new(n); }
void operator delete(void* p) noexcept { std::free(p); }
void operator delete[](void* p) noexcept { std::free(p); }
void operator delete(void* p, std::size_t) noexcept { std::free(p); }
void operator delete[](void* p, std::size_t) noexcept { std::free(p); }
// a contract that does not end: 20 s of processor time for one execution
static void tooLong(int) {
  signal(SIGPROF, SIG_DFL);  // a second one ends the process, which counts as well
  itimerval t = {{0, 0}, {10, 0}};
  setitimer(ITIMER_PROF, &t, 0);
  if (!engine::oobArmed) return;
  engine::oobArmed = false;
  engine::oobWhat = "still running after 20 s of processor time";
  siglongjmp(engine::oobJump, 2);
}
static void watch(int s) {
  signal(SIGPROF, s ? tooLong : SIG_IGN);
  sigset_t m;
  sigemptyset(&m);
  sigaddset(&m, SIGPROF);
  sigprocmask(SIG_UNBLOCK, &m, 0);
  itimerval t = {{0, 0}, {s, 0}};
  setitimer(ITIMER_PROF, &t, 0);
}
namespace contract {
std::vector<Entry>& registry() {
  static std::vector<Entry> r;
  return r;
}
static bool th = false;
bool thorough() { return th; }
}  // namespace contract

namespace engine {
static std::map<std::string, double> vals;      // replayed values
static std::map<std::string, double> drawn;     // values used by this run
static std::map<std::string, int> chs;          // replayed choices
static std::map<std::string, int> usedCh;
static bool replay = false;
static uint64_t rng = 88172645463325252ull;
static double rnd() {
  rng ^= rng << 13;
  rng ^= rng >> 7;
  rng ^= rng << 17;
  return (rng >> 11) * (1.0 / 9007199254740992.0);
}
struct Step { std::string name; int v, n; };
static std::vector<Step> trail;
static size_t pos;
static bool randomChoices = false;
int choice(const std::string& name, int n) {
  if (replay) {
    int v = chs.count(name) ? chs[name] : 0;
    usedCh[name] = v;
    return v;
  }
  if (pos == trail.size()) trail.push_back({name, randomChoices ? std::min(n - 1, (int)(rnd() * n)) : 0, n});
  int v = trail[pos++].v;
  usedCh[name] = v;
  return v;
}
static bool concrete = false;
void setConcrete(bool b) { concrete = b; }
// histories: a variable has the value its name gives, whatever the contract and
// the choices, except for the one variable that is changed
static bool history = false;
static uint64_t historySeed = 0;
static std::string changed;
static double hashed(const std::string& name) {
  uint64_t h = 1469598103934665603ull ^ historySeed * 0x9E3779B97F4A7C15ull ^ (name == changed ? 0x5851F42D4C957F2Dull : 0);
  for (unsigned char c : name) h = (h ^ c) * 1099511628211ull;
  h ^= h >> 31;
  h *= 0xbf58476d1ce4e5b9ull;
  h ^= h >> 29;
  h *= 0x94d049bb133111ebull;
  h ^= h >> 32;
  return (h >> 11) * (1.0 / 9007199254740992.0);
}
static double draw(const std::string& name, double lo, double hi) {
  if (drawn.count(name)) return drawn[name];
  double v;
  if (vals.count(name)) v = vals[name];
  else if (concrete) v = lo + (hi - lo) * concreteOf(history && name == changed ? name + "'" : name) / 128;
  else {
    v = lo + (hi - lo) * (history ? hashed(name) : rnd());
    double q = std::round(v * 64) / 64;
    if (q > lo && q < hi) v = q;
  }
  drawn[name] = v;
  return v;
}
double var(const std::string& name) { return draw(name, -2, 2); }
double var(const std::string& name, double lo, double hi) {
  const double v = draw(name, lo, hi);
  if (!(v >= lo && v <= hi)) throw PathCut("assume");
  return v;
}
double posvar(const std::string& name) {
  const double v = draw(name, 0.25, 3);
  if (!(v > 0)) throw PathCut("assume");
  return v;
}
void assume_lt(double a, double b) { if (!(a < b)) throw PathCut("assume"); }
void assume_positive(double a) { if (!(a > 0)) throw PathCut("assume"); }
void assume_le(double a, double b) { if (!(a <= b)) throw PathCut("assume"); }
struct Fail { std::string name, detail; };
static std::vector<Fail> fails;
static long checks = 0;
static std::set<std::string> names;
static std::vector<std::regex> known;
static long knownHits = 0;
static bool isKnown(const std::string& n) {
  for (auto& r : known)
    if (std::regex_match(n, r)) return true;
  return false;
}
static void rec(const std::string& n, bool ok, const std::string& d) {
  ++checks;
  names.insert(n);
  if (ok) return;
  if (isKnown(n)) { ++knownHits; return; }
  fails.push_back({n, d});
}
static std::string s2(double a, double b) {
  std::ostringstream o;
  o.precision(17);
  o << "got " << a << " expected " << b;
  return o.str();
}
void ensure_eq(const std::string& name, double a, double b, double eps) {
  double sc = std::max(1., std::max(std::fabs(a), std::fabs(b)));
  double tol = std::max(eps * 100, 2e-7) * sc;
  bool ok = std::fabs(a - b) <= tol;
  rec(name, ok, ok ? "" : s2(a, b));
}
void ensure_le(const std::string& name, double a, double b) { rec(name, a <= b + 1e-9 * std::max(1., std::fabs(b)), s2(a, b)); }
void ensure_lt(const std::string& name, double a, double b) { rec(name, a < b + 1e-12 * std::max(1., std::fabs(b)), s2(a, b)); }
void ensure_true(const std::string& name, bool c, const std::string& d) { rec(name, c, d); }
void fail_here(const std::string& name, const std::string& why) { rec(name, false, why); }
static bool rowEq(const std::vector<double>& got, const std::vector<double>& want) {
  double ng = 0, nw = 0;
  for (size_t i = 0; i < got.size(); ++i) { ng += got[i] * got[i]; nw += want[i] * want[i]; }
  ng = std::sqrt(ng); nw = std::sqrt(nw);
  bool ok = true;
  if (!(nw > 1e-9)) ok = ng < 1e-6;
  else if (!(ng > 1e-12)) ok = false;
  else
    for (size_t i = 0; i < got.size(); ++i)
      if (!(std::fabs(got[i] / ng - want[i] / nw) < 2e-6)) ok = false;
  return ok;
}
bool row_matches(const std::vector<double>& got, const std::vector<double>& want, double) {
  return got.size() == want.size() && rowEq(got, want);
}
void ensure_row(const std::string& name, const std::vector<double>& got, const std::vector<double>& want, double eps) {
  if (got.size() != want.size()) return rec(name, false, "row sizes differ");
  bool ok = rowEq(got, want);
  std::ostringstream o;
  o.precision(12);
  if (!ok) {
    o << "got";
    for (double g : got) o << " " << g;
    o << " expected (up to scale)";
    for (double g : want) o << " " << g;
  }
  rec(name, ok, o.str());
}
bool symbolic() { return false; }
double fingerprint(const double& v) { return v; }
}  // namespace engine
using namespace engine;


static std::string caseText(const std::string& contract) {
  std::ostringstream f;
  f.precision(17);
  f << "k " << contract << "\n";
  for (auto& c : usedCh) f << "c " << c.first << " " << c.second << "\n";
  for (auto& v : drawn) f << "v " << v.first << " " << v.second << "\n";
  return f.str();
}
static void write(const std::string& path, const std::string& text) { std::ofstream(path.c_str()) << text; }
static long runs = 0, cut = 0;
// one execution of a contract; false when its assumptions reject the values
static bool execute(contract::Entry& e) {
  pos = 0;
  drawn.clear();
  concrete = false;
  usedCh.clear();
  fails.clear();
  bool accepted = true;
  try {
    oobArmed = true;
    watch(20);
    const int how = setjmp(oobJump);
    if (how == 0) e.body();
    else rec(e.name + (how == 2 ? "/ends" : "/no-out-of-bounds-access"), false, how == 2 ? oobWhat : "container precondition violated: " + oobWhat);
    oobArmed = false;
    if (how != 2) watch(0);
    ++runs;
  } catch (OutOfBounds& x) {
    rec(e.name + "/no-out-of-bounds-access", false, std::string("index or shape out of range: ") + x.what());
  } catch (PathCut&) {
    ++cut;
    accepted = false;
  } catch (std::exception& x) {
    rec(e.name + "/no-unexpected-exception", false, x.what());
  }
  return accepted;
}
static bool nextTrail() {
  while (!trail.empty()) {
    if (trail.back().v + 1 < trail.back().n) { trail.back().v++; return true; }
    trail.pop_back();
  }
  return false;
}
static double now() {
  timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + t.tv_nsec * 1e-9;
}
// Calls one after another in one process, most inputs kept from one to the
// next: what a call answers must not depend on the calls before it. A failure
// counts when the same input alone does not fail.
struct Histories {
  std::string dumpTo, self, tier, log, before;
  long sequences = 0, alone = 0;
  bool fails_(const std::string& text) {
    write(dumpTo + ".h", text);
    int rc = std::system(("timeout 60 " + self + " --replay " + dumpTo + ".h --tier " + tier + " > /dev/null 2>&1").c_str());
    return rc != 0;
  }
  // true when the run just made shows a dependency on the runs before it
  bool bad(contract::Entry& e) {
    std::string here = caseText(e.name), prev = before;
    before = here;
    if (fails.empty()) return false;
    std::string d;
    for (size_t i = 0; i < fails.size() && i < 10; ++i) d += "FAIL " + fails[i].name + " : " + fails[i].detail + "\n";
    if (fails_(here)) {
      ++alone;
      // rounding may separate the machine run from the exact one; values that are no numbers cannot
      if (d.find("nan") == std::string::npos && d.find("inf") == std::string::npos) return false;
      log = d;
      write(dumpTo, here);
      return true;
    }
    log = d + "  after other calls in the same process; the same call alone does not fail\n";
    write(dumpTo, fails_(prev + here) ? prev + here : history_ + here);
    return true;
  }
  static Histories* current;
  static contract::Entry* running;
  static void crashed(int sig) {
    signal(sig, SIG_DFL);
    write(current->dumpTo, current->before + caseText(running->name));
    static const char m[] = "FAIL the process crashed\n";
    if (::write(1, m, sizeof m - 1) < 0) _exit(10);
    _exit(9);
  }
  bool run(contract::Entry& e) {
    running = &e;
    return execute(e);
  }
  std::string history_;  // every input so far is too long: the base of this contract
  bool sweep(const std::string& prop, const std::string& only, double budget, uint64_t seed) {
    history = true;
    historySeed = seed;
    current = this;
    signal(SIGSEGV, crashed);
    signal(SIGABRT, crashed);
    signal(SIGFPE, crashed);
    double end = now() + budget;
    std::vector<contract::Entry*> es;
    for (auto& e : contract::registry())
      if (e.name.compare(0, prop.size() + 1, prop + "/") == 0 && (only.empty() || e.name == only) && (!e.thoroughOnly || contract::th))
        es.push_back(&e);
    // 1: the same values through the choices of every contract
    for (size_t k = 0; k < es.size(); ++k) {
      double stop = now() + (end - now()) * 0.3 / (es.size() - k);
      trail.clear();
      changed.clear();
      do {
        run(*es[k]);
        if (bad(*es[k])) return true;
        ++sequences;
        if (alone > 20) return false;
      } while (now() < stop && nextTrail());
    }
    // 2: one value changed after another, choices at random
    for (size_t k = 0; k < es.size(); ++k) {
      double stop = now() + (end - now()) / (es.size() - k);
      std::set<std::string> done;
      for (int round = 0; round < 200 && now() < stop; ++round) {
        // a random combination, reached by drawing each choice as it comes
        randomChoices = true;
        trail.clear();
        changed.clear();
        bool ok = run(*es[k]);
        randomChoices = false;
        std::string key;
        for (auto& t : trail) key += "," + std::to_string(t.v);
        if (bad(*es[k])) return true;
        if (!ok || !done.insert(key).second) continue;
        history_ = caseText(es[k]->name);
        std::vector<std::string> vs;
        for (auto& v : drawn) vs.push_back(v.first);
        for (size_t i = vs.size(); i > 1; --i) std::swap(vs[i - 1], vs[(size_t)(rnd() * i)]);
        for (auto& v : vs) {
          changed = v;
          run(*es[k]);
          if (bad(*es[k])) return true;
          ++sequences;
          if (alone > 20) return false;
          if (now() > stop) break;
        }
      }
    }
    return false;
  }
};

Histories* Histories::current = 0;
contract::Entry* Histories::running = 0;

int main(int argc, char** argv) {
  std::string prop, rep, only, dumpTo, tier = "quick";
  int samples = 5;
  double budget = 0;
  uint64_t seed = 1;
  for (int i = 1; i + 1 < argc; i += 2) {
    std::string a = argv[i];
    if (a == "--prop") prop = argv[i + 1];
    if (a == "--replay") rep = argv[i + 1];
    if (a == "--samples") samples = atoi(argv[i + 1]);
    if (a == "--history") budget = atof(argv[i + 1]);
    if (a == "--dump") dumpTo = argv[i + 1];
    if (a == "--tier") contract::th = (tier = argv[i + 1]) == "thorough";
    if (a == "--only") only = argv[i + 1];
    if (a == "--known") {
      std::ifstream f(argv[i + 1]);
      std::string l;
      while (std::getline(f, l)) if (!l.empty()) known.push_back(std::regex(l));
    }
    if (a == "--seed") { seed = (uint64_t)atoi(argv[i + 1]); rng ^= seed * 0x9E3779B97F4A7C15ull; rnd(); rnd(); }
  }
  std::ofstream null("/dev/null");
  std::streambuf* sv = std::cout.rdbuf(null.rdbuf());
  std::ostringstream log;
  bool bad = false;
  int ran = 0;
  if (budget > 0) {
    char self[4096];
    ssize_t n = readlink("/proc/self/exe", self, sizeof self - 1);
    Histories h;
    h.dumpTo = dumpTo;
    h.self = std::string(self, n > 0 ? n : 0);
    h.tier = tier;
    bad = h.sweep(prop, only, budget, seed);
    std::cout.rdbuf(sv);
    std::cout << h.log << "histories: calls " << h.sequences << " checks " << checks << " obligations " << names.size()
              << " differing alone " << h.alone << " rejected " << cut << "\n";
    return bad ? 1 : 0;
  }
  if (!rep.empty()) {  // one case, or several in order: the last one decides
    replay = true;
    std::ifstream f(rep.c_str());
    std::string k, n, contractName;
    auto run = [&]() {
      for (auto& e : contract::registry())
        if (e.name == contractName) {
          ++ran;
          execute(e);
          bad = !fails.empty();
          log.str("");
          for (size_t i = 0; i < fails.size() && i < 10; ++i) log << "FAIL " << fails[i].name << " : " << fails[i].detail << "\n";
          if (bad)
            for (auto& c : usedCh) log << "  choice " << c.first << " = " << c.second << "\n";
          break;
        }
      chs.clear();
      vals.clear();
    };
    std::string line;
    while (std::getline(f, line)) {  // names may hold blanks, the value is the last word
      if (line.size() < 3 || line[1] != ' ') continue;
      size_t z = line.rfind(' ');
      n = z > 1 ? line.substr(2, z - 2) : "";
      if (line[0] == 'k') {
        if (!contractName.empty()) run();
        contractName = line.substr(2);
      } else if (line[0] == 'c') chs[n] = atoi(line.c_str() + z + 1);
      else if (line[0] == 'v') vals[n] = atof(line.c_str() + z + 1);
    }
    if (!contractName.empty()) run();
  } else
    for (auto& e : contract::registry()) {
      if (!prop.empty() && e.name.compare(0, prop.size() + 1, prop + "/") != 0) continue;
      if (!only.empty() && e.name != only) continue;
      if (e.thoroughOnly && !contract::th) continue;
      ++ran;
      trail.clear();
      bool cbad = false;
      do {
        for (int s = 0; s < samples && !cbad; ++s) {
          if (!dumpTo.empty()) write(dumpTo + ".running", e.name + "\n");  // in case of a crash
          if (!execute(e)) {
            --s;
            static long guard;
            if (++guard > 200000) break;
            if (cut > 50 * (runs + 20)) break;
          }
          if (!fails.empty()) {
            cbad = bad = true;
            for (size_t i = 0; i < fails.size() && i < 10; ++i)
              log << "FAIL " << fails[i].name << " : " << fails[i].detail << "\n";
            if (!dumpTo.empty()) write(dumpTo, caseText(e.name));
            for (auto& c : usedCh) log << "  choice " << c.first << " = " << c.second << "\n";
          }
        }
      } while (!cbad && nextTrail());
      if (bad) break;
    }
  std::cout.rdbuf(sv);
  std::cout << log.str() << "contracts " << ran << " runs " << runs << " checks " << checks
            << " obligations " << names.size() << " rejected " << cut << "\n";
  if (!ran) return 3;
  return bad ? 1 : 0;
}
