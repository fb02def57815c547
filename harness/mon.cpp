#include "mon.hpp"

#include <csignal>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <cxxabi.h>

namespace mon {

State &st() {
  static State s;
  return s;
}
std::vector<Section> &sections() {
  static std::vector<Section> v;
  return v;
}

std::function<int(const std::vector<std::string> &)> &childHook() {
  static std::function<int(const std::vector<std::string> &)> h;
  return h;
}

namespace {
std::string exceptionType(const std::exception &e) {
#ifdef RC_DONT_USE_RTTI
  (void)e;
  return "exception";
#else
  return typeid(e).name();
#endif
}
std::string slurp(const std::string &p) {
  std::string r;
  if (FILE *f = std::fopen(p.c_str(), "rb")) {
    char b[65536];
    size_t n;
    while ((n = std::fread(b, 1, sizeof b, f)) > 0)
      r.append(b, n);
    std::fclose(f);
  }
  return r;
}
} // namespace

int runShell(const std::string &cmd, std::string &out, std::string &err) {
  char exe[4096];
  ssize_t n = ::readlink("/proc/self/exe", exe, sizeof exe - 1);
  if (n <= 0)
    std::abort();
  exe[n] = 0;
  ::setenv("EXE", exe, 1);
  char tmpl[] = "monchildXXXXXX";
  const int fd = ::mkstemp(tmpl);
  if (fd < 0)
    std::abort();
  ::close(fd);
  const std::string base = tmpl, o = base + ".out", e = base + ".err";
  const std::string full = "( ulimit -t 100; " + cmd + " ) >" + o + " 2>" + e;
  const int st = std::system(full.c_str());
  out = slurp(o);
  err = slurp(e);
  ::unlink(base.c_str());
  ::unlink(o.c_str());
  ::unlink(e.c_str());
  count("child_processes");
  return WIFEXITED(st) ? WEXITSTATUS(st) : 128;
}

void violation(const std::string &key, const std::string &msg) {
  auto &s = st();
  if (s.violations.size() >= 50)
    return;
  s.violations.push_back(Violation{
      key, msg.size() > 2000 ? msg.substr(0, 2000) + "..." : msg, s.section,
      s.caseIdx});
  if (s.trace)
    std::fprintf(stderr, "VIOL [%s] %s\n", key.c_str(), msg.c_str());
}

} // namespace mon

namespace {

using namespace mon;

std::string jstr(const std::string &s) {
  std::string o = "\"";
  char b[8];
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      o += '\\';
      o += static_cast<char>(c);
    } else if (c < 0x20 || c >= 0x7f) {
      std::snprintf(b, sizeof b, "\\u%04x", c);
      o += b;
    } else {
      o += static_cast<char>(c);
    }
  }
  return o + "\"";
}

struct Progress {
  char section[64];
  uint64_t caseIdx;
  uint32_t hang;
};
Progress *g_prog = nullptr;

void onProf(int) {
  if (g_prog)
    g_prog->hang = 1;
  static const char m[] = "MON-HANG: case exceeded its CPU budget\n";
  if (::write(2, m, sizeof m - 1)) {
  }
  ::_exit(77);
}

void arm(int cpuSecs) {
  itimerval tv{};
  tv.it_value.tv_sec = cpuSecs;
  setitimer(ITIMER_PROF, &tv, nullptr);
}

} // namespace

int main(int argc, char **argv) {
  std::string out, dist, progress, only;
  uint64_t from = 0, to = ~0ULL;
  int cpu = 60;
  auto &s = st();
  if (argc > 1 && std::string(argv[1]) == "--child")
    return childHook()(std::vector<std::string>(argv + 2, argv + argc));
  for (int i = 1; i < argc; i++) {
    const std::string a = argv[i];
    auto val = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--list") {
      for (auto &x : sections())
        std::printf("%s %llu %llu\n", x.name.c_str(),
                    (unsigned long long)x.quick,
                    (unsigned long long)x.thorough);
      return 0;
    } else if (a == "--seed") {
      s.seed = std::strtoull(val().c_str(), nullptr, 10);
    } else if (a == "--thorough") {
      s.thorough = true;
    } else if (a == "--out") {
      out = val();
    } else if (a == "--dist") {
      dist = val();
    } else if (a == "--progress") {
      progress = val();
    } else if (a == "--section") {
      only = val();
    } else if (a == "--from") {
      from = std::strtoull(val().c_str(), nullptr, 10);
    } else if (a == "--to") {
      to = std::strtoull(val().c_str(), nullptr, 10);
    } else if (a == "--cpu") {
      cpu = std::atoi(val().c_str());
    } else if (a == "--trace") {
      s.trace = true;
    }
  }

  if (!progress.empty()) {
    int fd = ::open(progress.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
    if (fd >= 0 && ::ftruncate(fd, sizeof(Progress)) == 0) {
      void *p = ::mmap(nullptr, sizeof(Progress), PROT_READ | PROT_WRITE,
                       MAP_SHARED, fd, 0);
      if (p != MAP_FAILED)
        g_prog = static_cast<Progress *>(p);
    }
  }
  std::signal(SIGPROF, &onProf);

  for (auto &sec : sections()) {
    if (!only.empty() && sec.name != only)
      continue;
    s.section = sec.name;
    const uint64_t n = s.thorough ? sec.thorough : sec.quick;
    for (uint64_t c = from; c < (to == ~0ULL ? n : to); c++) {
      s.caseIdx = c;
      if (g_prog) {
        std::snprintf(g_prog->section, sizeof g_prog->section, "%s",
                      sec.name.c_str());
        g_prog->caseIdx = c;
      }
      arm(cpu);
      Rng rng(comb(comb(s.seed, hashStr(s.prop + sec.name)), c));
      try {
        sec.fn(rng);
      } catch (const std::exception &e) {
        violation("unexpected-exception:" + sec.name,
                  std::string("exception escaped the code under test: ") +
                      exceptionType(e) + ": " + e.what());
      } catch (...) {
        violation("unexpected-exception:" + sec.name,
                  "a non-std exception escaped the code under test");
      }
      s.cases++;
      if (s.violations.size() >= 20)
        break;
    }
  }
  arm(0);

  std::string j = "{\"cases\":" + std::to_string(s.cases) + ",\"counters\":{";
  bool first = true;
  for (auto &c : s.counters) {
    j += (first ? "" : ",") + jstr(c.first) + ":" + std::to_string(c.second);
    first = false;
  }
  j += "},\"distinct\":" + std::to_string(s.distinct.size()) + ",\"samples\":[";
  first = true;
  for (auto &x : s.samples) {
    j += (first ? "" : ",") + jstr(x);
    first = false;
  }
  j += "],\"violations\":[";
  first = true;
  for (auto &v : s.violations) {
    j += (first ? "" : ",") + ("{\"key\":" + jstr(v.key) + ",\"msg\":" +
                               jstr(v.msg) + ",\"section\":" +
                               jstr(v.section) + ",\"case\":" +
                               std::to_string(v.caseIdx) + "}");
    first = false;
  }
  j += "]}\n";
  if (!out.empty()) {
    FILE *f = std::fopen(out.c_str(), "w");
    if (!f)
      return 3;
    std::fwrite(j.data(), 1, j.size(), f);
    std::fclose(f);
  } else {
    std::fwrite(j.data(), 1, j.size(), stdout);
  }
  if (!dist.empty()) {
    FILE *f = std::fopen(dist.c_str(), "wb");
    if (f) {
      for (auto h : s.distinct)
        std::fwrite(&h, sizeof h, 1, f);
      std::fclose(f);
    }
  }
  return s.violations.empty() ? 0 : 1;
}
