// The stress tool (src/binary/btree_stress.cpp), run with a btree that behaves
// or misbehaves: its verdict against what really happened.
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/wait.h>

#include <sstream>

#include "faulty_btree.hpp"
#include "vh.hpp"
using namespace vh;

int stress_main(int argc, char** argv);
namespace vhf {
Run& run() {
  static Run* r = static_cast<Run*>(mmap(nullptr, sizeof(Run), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  return *r;
}
}  // namespace vhf

namespace {
struct Result {
  bool exited;
  int code, sig;
  std::string out, err;
  std::vector<std::pair<uint64_t, uint64_t>> iterations;  // keys, seed
  bool diagnosed = false;
};

Result run_tool(std::vector<std::string> args, vhf::Kind kind = vhf::none, uint64_t tree = 0, uint64_t at = 0) {
  const bool narrow = vhf::run().narrow;
  vhf::run() = vhf::Run{};
  vhf::run().narrow = narrow;
  vhf::run().kind = kind;
  vhf::run().tree = tree;
  vhf::run().at = at;
  std::string cmd;
  args.insert(args.begin(), "btree_stress");
  for (auto& a : args) cmd += a + " ";
  note("%s(fault %d tree %llu at %llu)", cmd.c_str(), kind, (unsigned long long)tree, (unsigned long long)at);
  FILE* fo = tmpfile();
  FILE* fe = tmpfile();
  if (!fo || !fe) broken("tmpfile");
  fflush(nullptr);
  const pid_t pid = fork();
  if (pid < 0) broken("fork");
  if (pid == 0) {
    signal(SIGABRT, SIG_DFL);
    signal(SIGPROF, SIG_DFL);
    alarm(120);
    dup2(fileno(fo), 1);
    dup2(fileno(fe), 2);
    on_exit([](int status, void*) { fflush(nullptr); _exit(status); }, nullptr);
    std::vector<char*> argv;
    for (auto& a : args) argv.push_back(a.data());
    argv.push_back(nullptr);
    exit(stress_main(static_cast<int>(args.size()), argv.data()));
  }
  int st = 0;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
  Result r;
  auto slurp = [](FILE* f) {
    std::string s;
    rewind(f);
    char b[4096];
    size_t n;
    while ((n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n);
    fclose(f);
    return s;
  };
  r.out = slurp(fo);
  r.err = slurp(fe);
  r.exited = WIFEXITED(st);
  r.code = r.exited ? WEXITSTATUS(st) : -1;
  r.sig = r.exited ? 0 : WTERMSIG(st);
  std::istringstream is(r.out + "\n" + r.err);
  std::string line;
  while (std::getline(is, line)) {
    unsigned long long i, k, s;
    if (sscanf(line.c_str(), "Iteration %llu using %llu keys, seed %llu", &i, &k, &s) == 3) r.iterations.push_back({k, s});
    else if (!line.empty()) r.diagnosed = true;
  }
  VH_CHECK(r.exited, "the tool died with signal %d: %s", r.sig, r.err.substr(0, 300).c_str());
  VH_CHECK(r.code != 43, "the tool's run was stopped by a sanitizer: %s", r.err.substr(0, 500).c_str());
  count("runs");
  return r;
}

struct Opt {
  uint64_t seed, iters, lo, hi, batches, batch;
  std::vector<std::string> args(Rng& r) const {
    auto S = [](uint64_t n) { return std::to_string(n); };
    std::vector<std::vector<std::string>> o = {{r.chance(1, 2) ? "-d" : "--seed", S(seed)},
                                               {r.chance(1, 2) ? "-i" : "--iterations", S(iters)},
                                               {"--min-keys", S(lo)},
                                               {"--max-keys", S(hi)},
                                               {r.chance(1, 2) ? "-b" : "--batches", S(batches)},
                                               {r.chance(1, 2) ? "-s" : "--batch-size", S(batch)}};
    std::vector<std::string> v;
    while (!o.empty()) {
      const size_t i = r.below(o.size());
      for (auto& x : o[i]) v.push_back(x);
      o.erase(o.begin() + static_cast<long>(i));
    }
    return v;
  }
};
Opt options(Rng& r) {
  Opt o;
  o.seed = r.chance(1, 8) ? 0 : r.chance(1, 8) ? 4294967295ULL - r.below(3) : r.below(1000000);
  o.iters = r.below(4);
  if (o.iters == 0 && r.chance(3, 4)) o.iters = 1;
  o.lo = r.chance(1, 6) ? r.below(3) : 1 + r.below(250);
  o.hi = o.lo + (r.chance(1, 4) ? 0 : r.below(150));
  o.batches = r.below(5);
  o.batch = r.chance(1, 3) ? r.below(12) : r.chance(1, 4) ? r.below(600) : 1 + r.below(60);
  return o;
}

SCENARIO("verdicts", NQ, NQ * 20, [](Case& c) {
  Rng& r = c.rng;
  const Opt o = options(r);
  const auto args = o.args(r);
  const bool narrow = r.chance(1, 3);  // few different keys
  vhf::run().narrow = narrow;
  // a correct tree: no complaint, and the run the options describe
  Result a = run_tool(args);
  const vhf::Run clean = vhf::run();
  VH_CHECK(a.code == 0, "a correct tree: exit %d, output: %s", a.code, (a.out + a.err).substr(0, 300).c_str());
  VH_CHECK(!a.diagnosed, "a correct tree: the tool complains: %s", (a.out + a.err).substr(0, 300).c_str());
  VH_CHECK(a.iterations.size() == o.iters && clean.trees == o.iters, "%zu iterations reported, %llu trees built, %llu asked for", a.iterations.size(),
           (unsigned long long)clean.trees, (unsigned long long)o.iters);
  for (size_t i = 0; i < o.iters; ++i) {
    auto& t = clean.t[i];
    const auto [keys, seed] = a.iterations[i];
    VH_CHECK(keys >= o.lo && keys <= o.hi, "iteration %zu uses %llu keys, %llu..%llu asked for", i, (unsigned long long)keys, (unsigned long long)o.lo,
             (unsigned long long)o.hi);
    if (t.finds + t.begins) VH_CHECK(t.first_size == keys, "the tree had %llu elements when it was first validated, %llu were announced", (unsigned long long)t.first_size, (unsigned long long)keys);
    VH_CHECK(t.last_size == 0, "the tree was left with %llu elements", (unsigned long long)t.last_size);
    uint64_t n = keys, lows = 0, least = keys;
    for (uint64_t b = 0; b < o.batches; ++b) {
      const uint64_t e = std::min(n, o.batch);
      n -= e;
      least = std::min(least, n);
      if (e && !t.repeated) {
        VH_CHECK(lows < t.lows && (lows >= 8 || t.low[lows] == n), "batch %llu of %llu left %llu elements, the options describe %llu", (unsigned long long)b,
                 (unsigned long long)t.lows, (unsigned long long)t.low[std::min<uint64_t>(lows, 7)], (unsigned long long)n);
        ++lows;
      }
      n += o.batch;
    }
    const uint64_t erases = keys + o.batches * o.batch;
    if (!t.repeated) VH_CHECK(t.lows == lows, "%llu batches of erasures, %llu asked for", (unsigned long long)t.lows, (unsigned long long)lows);
    if (!t.repeated) VH_CHECK(t.erases == erases && t.inserts == erases, "the tree saw %llu insertions and %llu erasures, the options describe %llu of each", (unsigned long long)t.inserts,
             (unsigned long long)t.erases, (unsigned long long)erases);
    VH_CHECK(t.inserts == t.erases, "the tree saw %llu new elements and %llu erasures", (unsigned long long)t.inserts, (unsigned long long)t.erases);
    count("repeated_keys", t.repeated);
    // throughout: in either half of every batch as well as at its end
    const uint64_t rounds = 1 + o.batches + (o.batch >= 10 ? 2 * o.batches : 0);
    VH_CHECK(t.begins >= 1 + rounds, "the tree was walked %llu times", (unsigned long long)t.begins);
    if (!t.repeated) VH_CHECK(t.finds >= rounds * least, "%llu lookups, although the tree never had fewer than %llu elements when it was to be compared (%llu times)", (unsigned long long)t.finds, (unsigned long long)least, (unsigned long long)rounds);
    count("iterations_checked");
    state(comb(comb(keys, o.batch), o.batches));
  }
  // reproducible from the seed it prints
  if (o.iters > 1 && r.chance(1, 3)) {
    const size_t i = 1 + r.below(o.iters - 1);
    Opt p = o;
    p.seed = a.iterations[i].second;
    p.iters = 1;
    Result b = run_tool(p.args(r));
    VH_CHECK(b.code == 0 && b.iterations.size() == 1 && b.iterations[0] == a.iterations[i] && vhf::run().t[0].hash == clean.t[i].hash,
             "running the tool with the seed %llu it printed for iteration %zu does something else", (unsigned long long)p.seed, i);
    count("reproduced");
  }
  vhf::run().narrow = narrow;
  // a tree that misbehaves once: exactly then a complaint
  if (o.iters == 0) return;
  for (int k = 0; k < 6; ++k) {
    const auto kind = static_cast<vhf::Kind>(1 + r.below(vhf::kinds - 1));
    const uint64_t tree = r.below(o.iters);
    const auto& t = clean.t[tree];
    const uint64_t total = kind <= vhf::wrong_value ? t.inserts
                           : kind == vhf::ignore_erase ? t.erases
                           : kind == vhf::overwrite_existing ? t.repeated
                           : kind == vhf::insert_alters ? t.inserts
                           // damage to another element shows unless the tool erases that as well before it looks again
                           : kind == vhf::erase_neighbour || kind == vhf::erase_alters ? (o.batch < 20 ? t.erases_looked_at : 0)
                           : kind <= vhf::find_other ? t.finds
                                                     : t.begins;
    if (total == 0) continue;
    const uint64_t at = r.chance(1, 4) ? total - 1 : r.chance(1, 4) ? 0 : r.below(total);
    if ((kind == vhf::find_end || kind == vhf::find_other) && t.serves(at)) continue;
    Result b = run_tool(args, kind, tree, at);
    const bool fired = vhf::run().fired;
    if (fired) {
      VH_CHECK(b.code != 0, "the tree misbehaved (kind %d, call %llu of %llu) and the tool reports success", kind, (unsigned long long)at, (unsigned long long)total);
      VH_CHECK(b.diagnosed, "the tool fails without saying why");
      VH_CHECK(vhf::run().trees == tree + 1, "the tool went on to another tree after the divergence");
      count("divergences_reported");
      state(comb(1000 + kind, at));
    } else {
      VH_CHECK(b.code == 0, "exit %d on a correct tree", b.code);
    }
  }
});

SCENARIO("options", 40, 200, [](Case& c) {
  Rng& r = c.rng;
  auto bad = [&](std::vector<std::string> a, const char* what) {
    Result x = run_tool(a);
    VH_CHECK(x.code != 0 && x.diagnosed, "%s: exit %d", what, x.code);
    VH_CHECK(vhf::run().trees == 0, "%s: the tool ran", what);
    count("rejected_options");
  };
  switch (r.below(5)) {
    case 0: {
      Result x = run_tool({r.chance(1, 2) ? "--help" : "-h"});
      VH_CHECK(x.code == 0 && vhf::run().trees == 0, "--help: exit %d, %llu trees", x.code, (unsigned long long)vhf::run().trees);
      break;
    }
    case 1: bad({"--no-such-option", "3"}, "an unknown option"); break;
    case 2: bad({"-i", "many"}, "a value that is no number"); break;
    case 3: bad({"-i", "1", "--min-keys", std::to_string(100 + r.below(100)), "--max-keys", std::to_string(r.below(100)), "-b", "1", "-s", "10"}, "an empty range of sizes"); break;
    default: {
      // without a seed: a new one each time, which is printed and reproduces the run
      Opt o = options(r);
      o.iters = 1;
      Result x = run_tool({"-i", "1", "--min-keys", std::to_string(o.lo), "--max-keys", std::to_string(o.hi), "-b", std::to_string(o.batches), "-s", std::to_string(o.batch)});
      VH_CHECK(x.code == 0 && x.iterations.size() == 1, "exit %d", x.code);
      const uint64_t h = vhf::run().t[0].hash;
      o.seed = x.iterations[0].second;
      Result y = run_tool(o.args(r));
      VH_CHECK(y.code == 0 && y.iterations == x.iterations && vhf::run().t[0].hash == h, "the printed seed does not reproduce the run");
      count("default_seeds");
    }
  }
});
}  // namespace
