#include "vh/vh.h"

#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fnmatch.h>
#include <fstream>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <unordered_set>

#include "nlohmann/json.hpp"
#include "spdlog/spdlog.h"

namespace vh {
namespace {
struct Unit {
  std::string name;
  std::function<void()> fn;
};
std::vector<Unit> g_units;
bool g_thorough = false;
int g_seed = 1;
std::map<std::string, std::string> g_known;  // key -> description
std::map<std::string, long> g_counters;
std::vector<std::string> g_samples;
std::unordered_set<uint64_t> g_distinct;
std::set<std::string> g_known_hit;
long g_evals = 0;
char* g_where = nullptr;  // shared page of the running unit
constexpr size_t kWhere = 1 << 16;
std::chrono::steady_clock::time_point g_t0;
double g_soft = 0;
std::string g_id;

double since(std::chrono::steady_clock::time_point t) {
  return std::chrono::duration<double>(std::chrono::steady_clock::now() - t)
      .count();
}
}  // namespace

void unit(const std::string& name, std::function<void()> fn) {
  g_units.push_back({name, std::move(fn)});
}
bool thorough() { return g_thorough; }
int seed() { return g_seed; }
void fail(const std::string& msg, const std::string& key) {
  throw Violation(msg, key);
}
void failKeyed(const std::string& msg, const std::string& key) {
  if (!key.empty() && g_known.count(key)) {
    g_known_hit.insert(key);
    return;
  }
  throw Violation(msg, key);
}
void eval(uint64_t h, bool nontrivial) {
  ++g_evals;
  if (nontrivial && g_distinct.size() < (1u << 22)) g_distinct.insert(h);
}
void add(const char* c, long n) { g_counters[c] += n; }
void sample(const std::string& s) {
  if (g_samples.size() < 3) g_samples.push_back(s.substr(0, 600));
}
uint64_t hash(const void* p, size_t n, uint64_t h) {
  auto* c = static_cast<const unsigned char*>(p);
  for (size_t i = 0; i < n; ++i) h = (h ^ c[i]) * 1099511628211ULL;
  return h;
}
void where(const std::string& s) {
  if (g_where == nullptr) return;
  size_t n = std::min(s.size(), kWhere - 1);
  std::memcpy(g_where, s.data(), n);
  g_where[n] = 0;
}
bool timeUp() { return g_soft > 0 && since(g_t0) > g_soft; }

namespace {
using nlohmann::json;

struct Child {
  pid_t pid = 0;
  int fd = -1;
  size_t unit = 0;
  std::string out;
  char* where = nullptr;
  std::chrono::steady_clock::time_point t0;
};

void childMain(const Unit& u, int fd) {
  json r;
  g_t0 = std::chrono::steady_clock::now();
  try {
    u.fn();
    r["ok"] = true;
  } catch (const Violation& v) {
    r["ok"] = false;
    r["msg"] = v.what();
    r["key"] = v.key;
  } catch (const std::exception& e) {
    r["ok"] = false;
    r["msg"] = std::string("unexpected exception: ") + e.what();
    r["key"] = "";
  } catch (...) {
    r["ok"] = false;
    r["msg"] = "unexpected exception";
    r["key"] = "";
  }
  if (g_samples.empty() && g_where != nullptr && g_where[0] != 0) sample(g_where);
  r["evals"] = g_evals;
  r["distinct"] = g_distinct.size();
  r["counters"] = g_counters;
  r["samples"] = g_samples;
  r["known"] = g_known_hit;
  std::string s = r.dump(-1, ' ', false, json::error_handler_t::replace);
  size_t p = 0;
  while (p < s.size()) {
    ssize_t k = write(fd, s.data() + p, s.size() - p);
    if (k <= 0) break;
    p += static_cast<size_t>(k);
  }
  close(fd);
  _exit(0);
}

std::string slurp(const std::string& p) {
  std::ifstream f(p);
  std::stringstream ss;
  ss << f.rdbuf();
  return ss.str();
}
}  // namespace

int realMain(int argc, char** argv) {
  std::map<std::string, std::string> o;
  for (int i = 1; i + 1 < argc; i += 2) o[argv[i] + 2] = argv[i + 1];
  g_id = o["id"];
  g_thorough = o["tier"] == "thorough";
  if (!o["seed"].empty()) g_seed = std::atoi(o["seed"].c_str());
  spdlog::set_level(spdlog::level::off);
  {
    std::istringstream f(slurp(o["known"]));
    std::string line;
    while (std::getline(f, line)) {
      // finding: property=<id> key=<key> :: <description>
      if (line.rfind("finding: property=" + g_id + " key=", 0) != 0) continue;
      auto k = line.find("key=") + 4;
      auto e = line.find(" :: ");
      if (e == std::string::npos) continue;
      g_known[line.substr(k, e - k)] = line.substr(e + 4);
    }
  }
  auto t0 = std::chrono::steady_clock::now();
  vh_units();
  std::string only = o["unit"];
  if (!o["replay"].empty()) {
    json r = json::parse(slurp(o["replay"]), nullptr, false);
    if (r.is_discarded()) {
      std::printf("cannot read replay file\n");
      return 2;
    }
    only = r["unit"];
    if (r.value("tier", "quick") == "thorough") {
      g_thorough = true;
      g_units.clear();
      vh_units();
    }
  }
  if (g_thorough) g_soft = 1800;
  std::vector<size_t> todo;
  for (size_t i = 0; i < g_units.size(); ++i)
    if (only.empty() || fnmatch(only.c_str(), g_units[i].name.c_str(), 0) == 0 ||
        only == g_units[i].name)
      todo.push_back(i);
  if (todo.empty()) {
    std::printf("no unit selected\n");
    return 2;
  }
  const char* jenv = std::getenv("VERIF_JOBS");
  size_t jobs = jenv ? std::strtoul(jenv, nullptr, 10) : 8;
  std::vector<Child> run;
  size_t next = 0, done = 0;
  json viol = json::array();
  std::map<std::string, long> counters;
  std::vector<std::string> samples;
  std::set<std::string> known;
  long evals = 0, distinct = 0;
  double slow = 0;
  std::vector<std::pair<double, std::string>> times;
  bool stop = false;
  while (!run.empty() || (next < todo.size() && !stop)) {
    while (!stop && run.size() < jobs && next < todo.size()) {
      Child c;
      int p[2];
      if (pipe(p) != 0) return 2;
      c.unit = todo[next++];
      c.where = static_cast<char*>(mmap(nullptr, kWhere, PROT_READ | PROT_WRITE,
                                        MAP_SHARED | MAP_ANONYMOUS, -1, 0));
      c.t0 = std::chrono::steady_clock::now();
      std::fflush(stdout);
      c.pid = fork();
      if (c.pid == 0) {
        close(p[0]);
        g_where = c.where;
        rlimit rl{};
        rl.rlim_cur = g_thorough ? 7200 : 200;
        rl.rlim_max = rl.rlim_cur + 10;
        setrlimit(RLIMIT_CPU, &rl);
        rl.rlim_cur = rl.rlim_max = 0;
        setrlimit(RLIMIT_CORE, &rl);
#if !__has_feature(address_sanitizer)
        rl.rlim_cur = rl.rlim_max = 6UL << 30;
        setrlimit(RLIMIT_AS, &rl);
#endif
        childMain(g_units[c.unit], p[1]);
      }
      close(p[1]);
      c.fd = p[0];
      run.push_back(c);
    }
    std::vector<pollfd> pf;
    for (auto& c : run) pf.push_back({c.fd, POLLIN, 0});
    poll(pf.data(), pf.size(), 1000);
    for (size_t i = 0; i < run.size();) {
      auto& c = run[i];
      if ((pf[i].revents & (POLLIN | POLLHUP | POLLERR)) == 0) {
        ++i;
        continue;
      }
      char buf[65536];
      ssize_t k = read(c.fd, buf, sizeof buf);
      if (k > 0) {
        c.out.append(buf, static_cast<size_t>(k));
        ++i;
        continue;
      }
      int st = 0;
      waitpid(c.pid, &st, 0);
      close(c.fd);
      double dt = since(c.t0);
      times.emplace_back(dt, g_units[c.unit].name);
      slow = std::max(slow, dt);
      json r = json::parse(c.out, nullptr, false);
      std::string at(c.where);
      auto record = [&](const std::string& msg, const std::string& key) {
        viol.push_back({{"property", g_id},
                        {"unit", g_units[c.unit].name},
                        {"tier", g_thorough ? "thorough" : "quick"},
                        {"message", msg},
                        {"key", key},
                        {"at", at}});
        stop = std::getenv("VERIF_ALL") == nullptr;
      };
      if (r.is_discarded()) {
        std::string how = WIFSIGNALED(st)
                              ? (WTERMSIG(st) == SIGXCPU
                                     ? "did not terminate within its CPU limit"
                                     : fmt::format("crashed with signal {}",
                                                   WTERMSIG(st)))
                              : fmt::format("exited with status {}",
                                            WEXITSTATUS(st));
        const std::string key = "unit:" + g_units[c.unit].name;
        if (g_known.count(key)) {
          known.insert(key);
          ++done;
        } else {
          record("the code under test " + how, key);
        }
      } else {
        evals += r["evals"].get<long>();
        distinct += r["distinct"].get<long>();
        for (auto& [k2, v] : r["counters"].items())
          counters[k2] += v.get<long>();
        for (auto& s : r["samples"])
          if (samples.size() < 12)
            samples.push_back(g_units[c.unit].name + ": " +
                              s.get<std::string>());
        for (auto& s : r["known"]) known.insert(s.get<std::string>());
        if (!r["ok"].get<bool>()) {
          std::string key = r["key"];
          // a unit of its own for one finding
          if (key.empty()) key = "unit:" + g_units[c.unit].name;
          if (!key.empty() && g_known.count(key)) {
            known.insert(key);
          } else {
            record(r["msg"], key);
          }
        }
        ++done;
      }
      munmap(c.where, kWhere);
      run.erase(run.begin() + static_cast<long>(i));
      pf.erase(pf.begin() + static_cast<long>(i));
    }
  }
  const double wall = since(t0);
  int rc = 0;
  for (auto& k : known)
    std::printf("KNOWN-FINDING: property=%s %s [%s]\n", g_id.c_str(),
                g_known[k].c_str(), k.c_str());
  if (!viol.empty()) {
    rc = 1;
    mkdir(o["replay-dir"].c_str(), 0755);
    int n = 0;
    for (auto& v : viol) {
      std::string path =
          fmt::format("{}/{}-{}.json", o["replay-dir"], g_id, n++);
      std::ofstream(path) << v.dump(1, ' ', false,
                                    json::error_handler_t::replace)
                          << "\n";
      std::printf("unit %s: %.2000s\n  at: %.2000s\n",
                  v["unit"].get<std::string>().c_str(),
                  v["message"].get<std::string>().c_str(),
                  v["at"].get<std::string>().c_str());
      std::printf("VIOLATION property=%s replay=%s\n", g_id.c_str(),
                  path.c_str());
    }
  }
  if (std::getenv("VERIF_TIMES")) {
    std::sort(times.rbegin(), times.rend());
    for (size_t i = 0; i < times.size() && i < 15; ++i)
      std::printf("  %.1fs %s\n", times[i].first, times[i].second.c_str());
  }
  if (only.empty() && !o["evidence"].empty()) {
    json cov;
    cov["evaluations"] = evals;
    cov["distinct_nontrivial"] = distinct;
    cov["rule"] = o["rule"];
    cov["samples"] = samples;
    cov["units"] = todo.size();
    cov["units_completed"] = done;
    for (auto& [k, v] : counters) cov[k] = v;
    cov["exhaustive"] =
        counters.count("capped") == 0 && viol.empty() && done == todo.size();
    json ev;
    ev["property"] = g_id;
    ev["tier"] = g_thorough ? "thorough" : "quick";
    ev["seed"] = g_seed;
    ev["level"] = o["level"];
    ev["coverage"] = cov;
    std::vector<std::string> as;
    std::istringstream ss(o["assume"]);
    std::string l;
    while (std::getline(ss, l))
      if (!l.empty()) as.push_back(l);
    ev["assumptions"] = as;
    ev["wall_s"] = wall + std::atof(o["build-s"].c_str());
    ev["violations"] = viol.size();
    auto dir = o["evidence"].substr(0, o["evidence"].rfind('/'));
    mkdir(dir.c_str(), 0755);
    std::ofstream(o["evidence"])
        << ev.dump(1, ' ', false, json::error_handler_t::replace) << "\n";
  }
  std::printf("%s: %zu/%zu units, %ld evaluations, %ld distinct, %.1fs%s\n",
              g_id.c_str(), done, todo.size(), evals, distinct, wall,
              viol.empty() ? "" : " VIOLATED");
  return rc;
}
}  // namespace vh

int main(int argc, char** argv) { return vh::realMain(argc, argv); }

#if __has_feature(address_sanitizer)
extern "C" const char* __asan_default_options() {
  return "detect_leaks=0:abort_on_error=1:disable_coredump=1:allocator_may_return_null=0:"
         "max_allocation_size_mb=2000:detect_stack_use_after_return=0:hard_rss_limit_mb=4000";
}
#endif
