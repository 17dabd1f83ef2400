#include <cstring>
#include <fstream>
#include <iostream>
#include <csetjmp>

#include "engine.hh"
namespace contract {
struct Entry {
  std::string name, functions;
  std::function<void()> body;
  std::string bound;
  bool thoroughOnly;
};
std::vector<Entry>& registry() {
  static std::vector<Entry> r;
  return r;
}
static bool th = false;
bool thorough() { return th; }
}  // namespace contract

int main(int argc, char** argv) {
  std::string prop, out = "/dev/stdout", only, stop;
  double budget = 500;
  int shard = 0, shards = 1;
  bool list = false;
  for (int i = 1; i + 1 < argc; i += 2) {
    std::string a = argv[i];
    if (a == "--prop") prop = argv[i + 1];
    if (a == "--out") out = argv[i + 1];
    if (a == "--stop") stop = argv[i + 1];
    if (a == "--only") only = argv[i + 1];
    if (a == "--tier") contract::th = !strcmp(argv[i + 1], "thorough");
    if (a == "--shard") shard = atoi(argv[i + 1]);
    if (a == "--shards") shards = atoi(argv[i + 1]);
    if (a == "--list") list = atoi(argv[i + 1]);
    if (a == "--seed") engine::seed(atoi(argv[i + 1]));
    if (a == "--budget") budget = atof(argv[i + 1]);
  }
  std::ofstream null("/dev/null");
  std::streambuf* sv = std::cout.rdbuf(null.rdbuf());
  int n = 0;
  for (auto& e : contract::registry()) {
    if (e.name.compare(0, prop.size() + 1, prop + "/") != 0) continue;
    if (!only.empty() && e.name != only) continue;
    if (e.thoroughOnly && !contract::th) continue;
    engine::Options o;
    o.bound = e.bound;
    o.max_s = budget;
    o.stop = stop;
    o.path_s = contract::th ? 900 : 100;
    ++n;
    if (list) {
      std::cerr << e.name << "\n";
      continue;
    }
    o.functions = e.functions;
    o.shard = shard;
    o.shards = shards;
    engine::explore(e.name, e.body, o);
  }
  std::cout.rdbuf(sv);
  if (list) return 0;
  std::ofstream f(out.c_str());
  engine::report(f);
  return n == 0 ? 3 : 0;
}
