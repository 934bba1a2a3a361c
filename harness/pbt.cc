#include "pbt.h"

#include <fcntl.h>
#include <signal.h>
#include <set>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

#include <algorithm>
#include <chrono>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <unordered_set>

namespace pbt {

static uint64_t splitmix(uint64_t& x) {
  uint64_t z = (x += 0x9e3779b97f4a7c15ULL);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
  return z ^ (z >> 31);
}
static inline uint64_t rotl(uint64_t x, int k) {
  return (x << k) | (x >> (64 - k));
}

Gen::Gen(uint64_t seed) {
  for (int i = 0; i < 4; ++i) s_[i] = splitmix(seed);
}
uint64_t Gen::next64() {  // xoshiro256**
  const uint64_t result = rotl(s_[1] * 5, 7) * 9;
  const uint64_t t = s_[1] << 17;
  s_[2] ^= s_[0];
  s_[3] ^= s_[1];
  s_[1] ^= s_[2];
  s_[0] ^= s_[3];
  s_[2] ^= t;
  s_[3] = rotl(s_[3], 45);
  return result;
}
uint64_t Gen::push(uint64_t v) {
  if (mir_buf_ != nullptr && out_.size() < mir_cap_) {
    mir_buf_[out_.size()] = v;
    *mir_n_ = out_.size() + 1;
  }
  out_.push_back(v);
  return v;
}
uint64_t Gen::below(uint64_t n) {
  if (n <= 1) return 0;
  uint64_t v;
  if (replay_) {
    v = pos_ < src_.size() ? src_[pos_] : 0;
    ++pos_;
    if (v >= n) v = n - 1;
  } else {
    v = (uint64_t)(((unsigned __int128)next64() * n) >> 64);
  }
  return push(v);
}
uint64_t Gen::below64() {
  uint64_t v;
  if (replay_) {
    v = pos_ < src_.size() ? src_[pos_] : 0;
    ++pos_;
  } else {
    v = next64();
  }
  return push(v);
}
int64_t Gen::sized(int64_t lo, int64_t hi) {
  uint64_t span = (uint64_t)(hi - lo);
  switch (below(4)) {
    case 0:
      return lo + (int64_t)below(std::min<uint64_t>(span, 3) + 1);
    case 1:
      return lo + (int64_t)below(std::min<uint64_t>(span, 10) + 1);
    case 2:
      return lo + (int64_t)below(span / 4 + 1);
    default:
      return lo + (int64_t)below(span + 1);
  }
}
int Gen::weighted(const std::vector<int>& w) {
  int tot = 0;
  for (int x : w) tot += x;
  int r = (int)below(tot);
  for (size_t i = 0; i < w.size(); ++i) {
    if (r < w[i]) return (int)i;
    r -= w[i];
  }
  return (int)w.size() - 1;
}

// ---------------------------------------------------------------------------
namespace {

const size_t kCap = 1 << 18;
struct Shared {
  volatile uint64_t case_no;
  volatile uint64_t started;
  volatile uint64_t in_case;
  volatile uint64_t n;
  volatile uint64_t evals, nontrivial, discards, known;
  volatile uint64_t failed;
  uint64_t buf[kCap];
  char desc[8192];
  char fail_key[64];
  char fail_msg[4096];
};
Shared* g_cur = nullptr;  // of the case running in this process
volatile int* g_stop = nullptr;

double now() {
  return std::chrono::duration<double>(
             std::chrono::steady_clock::now().time_since_epoch())
      .count();
}
uint64_t hash_str(const std::string& s) {
  uint64_t h = 1469598103934665603ULL;
  for (unsigned char c : s) h = (h ^ c) * 1099511628211ULL;
  return h;
}
uint64_t hash_vec(const std::vector<uint64_t>& v) {
  uint64_t h = 1469598103934665603ULL;
  for (uint64_t x : v) {
    uint64_t y = x + 0x9e3779b97f4a7c15ULL + h;
    h ^= splitmix(y);
  }
  return h;
}
std::string jstr(const std::string& s) {
  std::string o = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      o += '\\';
      o += c;
    } else if (c == '\n') {
      o += "\\n";
    } else if (c == '\t') {
      o += "\\t";
    } else if (c < 32 || c >= 127) {
      char b[8];
      snprintf(b, sizeof b, "\\u%04x", c);
      o += b;
    } else {
      o += c;
    }
  }
  return o + "\"";
}
void quiet(const std::string& err) {
  int fd = open("/dev/null", O_WRONLY);
  dup2(fd, 1);
  if (err.empty()) {
    dup2(fd, 2);
  } else {
    int e = open(err.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
    dup2(e, 2);
    close(e);
  }
  close(fd);
}
// now and then the files of a case lie in a directory of an unusual name
void odd_place(Gen& g, Ctx& ctx) {
  if (!g.chance(1, 24)) return;
  std::string d = ctx.scratch + "/" + (g.chance(1, 2) ? std::string(240, 'L') : std::string("o%s%d%n,+@#~\xc3\xa9.d"));
  mkdir(d.c_str(), 0755);
  ctx.scratch = d;
}
void rm_rf(const std::string& d) {
  // only ever called on directories this program created
  std::string cmd = "rm -rf '" + d + "'";
  if (system(cmd.c_str()) != 0) {
  }
}
void arm(int cpu_s) {
  struct itimerval it;
  memset(&it, 0, sizeof it);
  it.it_value.tv_sec = cpu_s;
  setitimer(ITIMER_PROF, &it, nullptr);
  alarm(cpu_s > 0 ? 40 + 2 * cpu_s : 0);
}

struct Outcome {
  bool failed = false;
  std::string key, msg, desc;
  std::vector<uint64_t> choices;
};

// runs one case in this process
void run_one(const Target& t, Gen& g, Ctx& ctx, Outcome& o) {
  arm(t.cpu_limit_s);
  try {
    odd_place(g, ctx);
    t.fn(g, ctx);
  } catch (Failure& f) {
    o.failed = true;
    o.key = f.key;
    o.msg = f.what();
  } catch (Discard&) {
    arm(0);
    throw;
  } catch (std::exception& e) {
    o.failed = true;
    o.key = "exception";
    o.msg = std::string("unexpected exception: ") + e.what();
  }
  arm(0);
  o.choices = g.choices();
}

// key and message of a case that ended its process
void death(int status, const Shared* sh, std::string& key, std::string& msg) {
  if (WIFEXITED(status) && WEXITSTATUS(status) == 77 && sh->fail_key[0]) {
    key = sh->fail_key;
    msg = sh->fail_msg;
    return;
  }
  std::ostringstream oss;
  if (WIFSIGNALED(status)) {
    int s = WTERMSIG(status);
    if (s == SIGPROF)
      oss << "hang: CPU limit of one case exceeded";
    else if (s == SIGALRM)
      oss << "hang: case blocked";
    else
      oss << "crash: signal " << s << " (" << strsignal(s) << ")";
  } else {
    oss << "crash: process exit code " << WEXITSTATUS(status);
  }
  msg = oss.str();
  key = msg.substr(0, msg.find(':'));
}

// runs one case in a child
Outcome run_child(const Target& t, const std::vector<uint64_t>& choices,
                  const std::string& scratch, const std::string& errfile,
                  bool verbose = false) {
  Outcome o;
  std::string dir = scratch + "/shrink";
  rm_rf(dir);
  mkdir(dir.c_str(), 0755);
  std::string res = scratch + "/result";
  unlink(res.c_str());
  Shared* sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE,
                             MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  fflush(stdout);
  fflush(stderr);
  pid_t pid = fork();
  if (pid == 0) {
    if (!verbose) quiet(errfile);
    g_cur = sh;
    Gen g(choices);
    g.mirror(&sh->n, sh->buf, kCap);
    Ctx ctx;
    ctx.desc.mirror(sh->desc, sizeof(sh->desc));
    ctx.scratch = dir;
    Outcome r;
    try {
      run_one(t, g, ctx, r);
    } catch (Discard&) {
    }
    std::ofstream f(res.c_str());
    f << (r.failed ? 1 : 0) << "\n" << r.key << "\n" << ctx.desc.str()
      << "\n\x01\n" << r.msg;
    f.close();
    _exit(0);
  }
  int st = 0;
  waitpid(pid, &st, 0);
  o.choices.assign(sh->buf, sh->buf + std::min<uint64_t>((uint64_t)sh->n, (uint64_t)kCap));
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0) {
    std::ifstream f(res.c_str());
    int failed = 0;
    std::string line;
    f >> failed;
    std::getline(f, line);
    std::getline(f, o.key);
    bool in_msg = false;
    while (std::getline(f, line)) {
      if (line == "\x01") {
        in_msg = true;
        continue;
      }
      (in_msg ? o.msg : o.desc) += line + "\n";
    }
    o.failed = failed == 1;
  } else {
    o.failed = true;
    death(st, sh, o.key, o.msg);
    o.desc = sh->desc;
  }
  munmap(sh, sizeof(Shared));
  return o;
}

bool acceptable(const Outcome& o, const std::vector<std::string>& known) {
  return o.failed &&
         std::find(known.begin(), known.end(), o.key) == known.end();
}

Outcome shrink(const Target& t, Outcome best, const std::string& scratch,
               const std::vector<std::string>& known, double budget,
               size_t* attempts) {
  double end = now() + budget;
  std::unordered_set<uint64_t> tried;
  bool hang = best.key == "hang";
  auto attempt = [&](const std::vector<uint64_t>& c) {
    if (now() > end || (hang && *attempts > 12)) return false;
    if (!tried.insert(hash_vec(c)).second) return false;
    ++*attempts;
    Outcome o = run_child(t, c, scratch, "");
    if (!acceptable(o, known)) return false;
    // keep the normalised list only if it is not larger
    std::vector<uint64_t> n = o.choices.size() <= c.size() ? o.choices : c;
    while (!n.empty() && n.back() == 0) n.pop_back();
    if (n.size() > best.choices.size()) return false;
    if (n.size() == best.choices.size() && !(n < best.choices)) return false;
    o.choices = n;
    best = o;
    return true;
  };
  bool progress = true;
  while (progress && now() < end) {
    progress = false;
    for (size_t len = std::max<size_t>(best.choices.size() / 2, 1); len >= 1;
         len = (len > 8 ? len / 2 : len - 1)) {
      for (size_t i = best.choices.size(); i-- > 0;) {
        if (now() > end) break;
        if (i + len > best.choices.size()) continue;
        std::vector<uint64_t> c = best.choices;
        c.erase(c.begin() + i, c.begin() + i + len);
        if (attempt(c)) {
          progress = true;
        } else if (i > 0) {
          // deleting a list element usually also needs a smaller count before
          for (size_t back = 1; back <= 2 && back <= i; ++back) {
            std::vector<uint64_t> d = best.choices;
            if (i + len > d.size() || d[i - back] == 0) continue;
            d.erase(d.begin() + i, d.begin() + i + len);
            --d[i - back];
            if (attempt(d)) {
              progress = true;
              break;
            }
          }
        }
        if (len > 8 && i >= len / 2) i -= len / 2 - 1;
      }
      if (len == 1) break;
    }
    for (size_t len = std::max<size_t>(best.choices.size() / 4, 1); len >= 1;
         len /= 4) {
      for (size_t i = 0; i < best.choices.size(); i += len) {
        if (now() > end) break;
        std::vector<uint64_t> c = best.choices;
        bool any = false;
        for (size_t j = i; j < std::min(i + len, c.size()); ++j) {
          if (c[j] != 0) any = true;
          c[j] = 0;
        }
        if (any && attempt(c)) progress = true;
      }
      if (len < 4) break;
    }
    for (size_t i = 0; i < best.choices.size(); ++i) {
      if (now() > end) break;
      uint64_t lo = 0, hi = best.choices[i];
      while (lo < hi && now() < end) {
        uint64_t mid = lo + (hi - lo) / 2;
        std::vector<uint64_t> c = best.choices;
        if (i >= c.size()) break;
        c[i] = mid;
        if (attempt(c)) {
          progress = true;
          hi = mid;
        } else {
          lo = mid + 1;
        }
      }
    }
  }
  return best;
}

std::string join(const std::vector<uint64_t>& v) {
  std::ostringstream o;
  for (size_t i = 0; i < v.size(); ++i) o << (i ? " " : "") << v[i];
  return o.str();
}
std::string head(const std::string& s, size_t n) {
  return s.size() <= n ? s : s.substr(0, n) + "...";
}

struct TargetResult {
  uint64_t evals = 0, nontrivial = 0, discards = 0, distinct = 0, known = 0;
  std::map<std::string, uint64_t> labels;
  std::vector<std::string> samples;
  std::map<std::string, std::string> known_msgs;
  std::vector<std::string> unreproduced;
  double wall = 0;
  bool stopped_early = false;
};

void worker(const Target& t, uint64_t seed, int w, int W, uint64_t from, uint64_t N,
            Shared* sh, const std::string& dir, double deadline,
            const std::vector<std::string>& known) {
  quiet("");
  g_cur = sh;
  std::string scratch = dir + "/w" + std::to_string(w);
  mkdir(scratch.c_str(), 0755);
  std::map<std::string, uint64_t> labels;
  std::unordered_set<uint64_t> hashes;
  std::vector<std::string> samples;
  std::map<std::string, std::string> known_msgs;
  auto dump = [&]() {
    std::ofstream f((dir + "/stats" + std::to_string(w)).c_str());
    f << labels.size() << "\n";
    for (auto& p : labels) f << p.second << " " << p.first << "\n";
    f << hashes.size() << "\n";
    for (auto h : hashes) f << h << "\n";
    f << known_msgs.size() << "\n";
    for (auto& p : known_msgs) f << p.first << "\n" << p.second << "\n";
    for (auto& s : samples) f << s << std::string("\n\x02\n");
  };
  uint64_t th = hash_str(t.name);
  for (uint64_t i = from; i < N; i += W) {
    if (*g_stop || now() > deadline) break;
    uint64_t mix = seed * 0x9e3779b97f4a7c15ULL ^ th ^ (i << 20);
    uint64_t cs = splitmix(mix);
    Gen g(cs);
    sh->n = 0;
    sh->case_no = i;
    sh->started = 1;
    sh->in_case = 1;
    g.mirror(&sh->n, sh->buf, kCap);
    Ctx ctx;
    ctx.scratch = scratch;
    Outcome o;
    try {
      run_one(t, g, ctx, o);
    } catch (Discard&) {
      sh->discards = sh->discards + 1;
      sh->in_case = 0;
      continue;
    }
    sh->in_case = 0;
    sh->evals = sh->evals + 1;
    for (auto& p : ctx.labels) labels[p.first] += p.second;
    if (ctx.nontrivial) {
      sh->nontrivial = sh->nontrivial + 1;
      hashes.insert(hash_vec(g.choices()));
      if (samples.size() < 3 && (i / W) % 7 == 3)
        samples.push_back(head(ctx.desc.str(), 700));
    }
    if (o.failed) {
      if (!acceptable(o, known)) {
        sh->known = sh->known + 1;
        known_msgs[o.key] = head(o.msg.substr(0, o.msg.find('\n')), 400);
        continue;
      }
      sh->failed = 1;
      *g_stop = 1;
      std::ofstream f((dir + "/fail" + std::to_string(w)).c_str());
      f << o.key << "\n" << join(o.choices) << "\n" << o.msg;
      f.close();
      break;
    }
  }
  dump();
  _exit(0);
}

// the cases of one worker up to a failing one, again in one process
Outcome run_sequence(const Target& t, uint64_t seed, int w, int W, uint64_t last,
                     const std::string& scratch, double deadline,
                     const std::vector<std::string>& known) {
  Outcome o;
  Shared* sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE,
                             MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  std::string dir = scratch + "/seq";
  rm_rf(dir);
  mkdir(dir.c_str(), 0755);
  *g_stop = 0;
  fflush(stdout);
  fflush(stderr);
  pid_t pid = fork();
  if (pid == 0) worker(t, seed, w, W, w, last + 1, sh, dir, deadline, known);
  int st = 0;
  waitpid(pid, &st, 0);
  *g_stop = 0;
  if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
    o.failed = true;
    death(st, sh, o.key, o.msg);
    o.choices.assign(sh->buf, sh->buf + std::min<uint64_t>((uint64_t)sh->n, (uint64_t)kCap));
  } else if (sh->failed) {
    std::ifstream f((dir + "/fail" + std::to_string(w)).c_str());
    o.failed = true;
    std::getline(f, o.key);
    std::string line;
    std::getline(f, line);
    std::ostringstream rest;
    rest << f.rdbuf();
    o.msg = rest.str();
  }
  munmap(sh, sizeof(Shared));
  return o;
}

}  // namespace

void hard_fail(const std::string& key, const std::string& msg) {
  if (g_cur != nullptr) {
    snprintf(g_cur->fail_key, sizeof g_cur->fail_key, "%s", key.c_str());
    snprintf(g_cur->fail_msg, sizeof g_cur->fail_msg, "%s", msg.c_str());
  }
  _exit(77);
}

int Main(int argc, char** argv, const std::vector<Target>& targets) {
  std::map<std::string, std::string> opt;
  if (argc < 2) return 2;
  std::string mode = argv[1];
  std::vector<std::string> pos;
  for (int i = 2; i < argc; ++i) {
    if (strncmp(argv[i], "--", 2) == 0 && i + 1 < argc) {
      opt[argv[i] + 2] = argv[i + 1];
      ++i;
    } else {
      pos.push_back(argv[i]);
    }
  }
  char tmpl[] = "/tmp/verif-pbt-XXXXXX";
  std::string scratch = mkdtemp(tmpl);
  chmod(scratch.c_str(), 0755);

  if (mode == "replay") {
    std::ifstream f(pos.at(0).c_str());
    std::string line, tname;
    std::vector<uint64_t> c;
    uint64_t sq_seed = 0, sq_last = 0;
    int sq_w = 0, sq_W = 0;
    while (std::getline(f, line)) {
      if (line.compare(0, 10, "sequence: ") == 0) {
        std::istringstream is(line.substr(10));
        is >> sq_seed >> sq_w >> sq_W >> sq_last;
      }
      if (line.compare(0, 8, "target: ") == 0) tname = line.substr(8);
      if (line.compare(0, 9, "choices: ") == 0 || line == "choices:") {
        std::istringstream is(line.substr(std::min<size_t>(9, line.size())));
        uint64_t v;
        while (is >> v) c.push_back(v);
      }
    }
    int rc = 2;
    for (auto& t : targets) {
      if (t.name != tname) continue;
      Outcome o;
      if (sq_W > 0) {
        g_stop = (volatile int*)mmap(nullptr, 4096, PROT_READ | PROT_WRITE,
                                     MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        o = run_sequence(t, sq_seed, sq_w, sq_W, sq_last, scratch, now() + 600, std::vector<std::string>());
      } else {
        o = run_child(t, c, scratch, "", opt.count("verbose") > 0);
      }
      printf("target: %s\n%s\n", tname.c_str(), o.desc.c_str());
      if (o.failed)
        printf("FAILS [%s] %s\n", o.key.c_str(), o.msg.c_str());
      else
        printf("passes\n");
      rc = o.failed ? 1 : 0;
    }
    rm_rf(scratch);
    return rc;
  }

  uint64_t seed = opt.count("seed") ? strtoull(opt["seed"].c_str(), 0, 10) : 1;
  bool thorough = opt["tier"] == "thorough";
  int W = opt.count("workers") ? atoi(opt["workers"].c_str()) : 8;
  double scale = opt.count("scale") ? atof(opt["scale"].c_str()) : 1.0;
  double maxsec = opt.count("max-seconds") ? atof(opt["max-seconds"].c_str())
                                           : (thorough ? 600 : 150);
  std::string out = opt["out"];
  std::vector<std::string> known;
  {
    std::istringstream is(opt["known"]);
    std::string k;
    while (std::getline(is, k, ','))
      if (!k.empty()) known.push_back(k);
  }
  g_stop = (volatile int*)mmap(nullptr, 4096, PROT_READ | PROT_WRITE,
                               MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  std::ostringstream js;
  js << "{\"targets\":[";
  bool violated = false;
  bool first = true;
  std::string viol_json = "null";
  for (auto& t : targets) {
    if (opt.count("target") && opt["target"] != t.name) continue;
    TargetResult tr;
    double t0 = now();
    uint64_t N =
        (uint64_t)(scale * (thorough ? t.thorough_cases : t.quick_cases));
    double deadline = t0 + maxsec;
    std::string dir = scratch + "/" + std::to_string(&t - &targets[0]);
    mkdir(dir.c_str(), 0755);
    std::vector<uint64_t> from(W);
    for (int w = 0; w < W; ++w) from[w] = w;
    std::unordered_set<uint64_t> all;
    std::vector<std::string> lost;  // failures that could not be reproduced
    bool again = true;
    while (again) {
    again = false;
    *g_stop = 0;
    std::vector<pid_t> pids;
    std::vector<Shared*> shs;
    for (int w = 0; w < W; ++w) {
      Shared* sh =
          (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE,
                        MAP_SHARED | MAP_ANONYMOUS, -1, 0);
      shs.push_back(sh);
      fflush(stdout);
      fflush(stderr);
      pid_t pid = fork();
      unlink((dir + "/stats" + std::to_string(w)).c_str());
      if (pid == 0) worker(t, seed, w, W, from[w], N, sh, dir, deadline, known);
      pids.push_back(pid);
    }
    // collect
    Outcome fail;
    uint64_t fail_case = ~0ULL;
    double first_fail = 0;
    std::set<pid_t> cut;  // ended because another worker has failed
    for (int k = 0; k < W; ++k) {
      int st = 0;
      pid_t p;
      while ((p = waitpid(-1, &st, first_fail ? WNOHANG : 0)) == 0) {
        if (now() > first_fail + 20)
          for (pid_t q : pids)
            if (kill(q, 0) == 0 && cut.insert(q).second) kill(q, SIGKILL);
        usleep(20000);
      }
      int w = (int)(std::find(pids.begin(), pids.end(), p) - pids.begin());
      if (w >= W) {
        --k;
        continue;
      }
      Shared* sh = shs[w];
      if (!first_fail && (sh->failed || !(WIFEXITED(st) && WEXITSTATUS(st) == 0))) first_fail = now();
      if (cut.count(p) && WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) continue;
      if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
        *g_stop = 1;
        if (sh->case_no < fail_case) {
          fail_case = sh->case_no;
          fail = Outcome();
          fail.failed = true;
          death(st, sh, fail.key, fail.msg);
          fail.choices.assign(sh->buf,
                              sh->buf + std::min<uint64_t>((uint64_t)sh->n, (uint64_t)kCap));
        }
      } else if (sh->failed) {
        if (sh->case_no < fail_case) {
          fail_case = sh->case_no;
          std::ifstream f((dir + "/fail" + std::to_string(w)).c_str());
          fail = Outcome();
          fail.failed = true;
          std::getline(f, fail.key);
          std::string line;
          std::getline(f, line);
          std::istringstream is(line);
          uint64_t v;
          while (is >> v) fail.choices.push_back(v);
          std::ostringstream rest;
          rest << f.rdbuf();
          fail.msg = rest.str();
        }
      }
      std::ifstream f((dir + "/stats" + std::to_string(w)).c_str());
      size_t n = 0;
      if (f >> n) {
        std::string line;
        for (size_t i = 0; i < n; ++i) {
          uint64_t c;
          f >> c;
          f.ignore(1);
          std::getline(f, line);
          tr.labels[line] += c;
        }
        f >> n;
        for (size_t i = 0; i < n; ++i) {
          uint64_t h;
          f >> h;
          all.insert(h);
        }
        f >> n;
        std::getline(f, line);
        for (size_t i = 0; i < n; ++i) {
          std::string k2, m2;
          std::getline(f, k2);
          std::getline(f, m2);
          tr.known_msgs[k2] = m2;
        }
        std::string cur;
        while (std::getline(f, line)) {
          if (line == "\x02") {
            if (tr.samples.size() < 4) tr.samples.push_back(cur);
            cur.clear();
          } else {
            cur += line + "\n";
          }
        }
      }
    }
    uint64_t done = 0;
    for (int w = 0; w < W; ++w) {
      // where to go on
      if (shs[w]->started) from[w] = shs[w]->case_no + (cut.count(pids[w]) ? 0 : W);
    }
    for (auto sh : shs) {
      tr.evals += sh->evals;
      tr.nontrivial += sh->nontrivial;
      tr.discards += sh->discards;
      tr.known += sh->known;
      munmap(sh, sizeof(Shared));
    }
    done = tr.evals + tr.discards;
    tr.distinct = all.size();
    tr.stopped_early = done < N && !fail.failed;
    if (fail.failed) {
      // reproduce, shrink, reproduce again
      Outcome orig = fail;
      int rep = 0;
      for (int i = 0; i < 10 && rep < 3; ++i) {
        Outcome o = run_child(t, orig.choices, scratch, "");
        if (acceptable(o, known)) {
          ++rep;
          if (fail.msg.empty() || fail.desc.empty()) fail = o;
          fail.choices = orig.choices;
        }
        if (i == 2 && rep == 3) break;
        if (rep > 0 && fail.key == "hang") break;
      }
      size_t attempts = 0;
      if (rep > 0) {
        Outcome s = shrink(t, fail, scratch, known, thorough ? 90 : 25,
                           &attempts);
        int srep = 0;
        std::string errf = scratch + "/stderr";
        Outcome last;
        int reps = s.key == "hang" ? 1 : 3;
        for (int i = 0; i < reps; ++i) {
          Outcome o = run_child(t, s.choices, scratch, errf);
          if (acceptable(o, known)) {
            ++srep;
            last = o;
          }
        }
        if (srep == reps) {
          last.choices = s.choices;
          fail = last;
        } else {
          fail.choices = orig.choices;
        }
        std::string errtxt;
        {
          std::ifstream f(errf.c_str());
          std::string line;
          while (std::getline(f, line) && errtxt.size() < 1500) {
            if (line.find("ERROR: AddressSanitizer") != std::string::npos ||
                line.find("runtime error") != std::string::npos ||
                line.find("terminate called") != std::string::npos ||
                line.find("what()") != std::string::npos ||
                line.find("    #") == 0)
              errtxt += line + "\n";
          }
        }
        violated = true;
        std::string rp = out + "/replay-" + t.name + ".txt";
        std::ofstream f(rp.c_str());
        f << "target: " << t.name << "\n";
        f << "choices: " << join(fail.choices) << "\n";
        f << "key: " << fail.key << "\n";
        f << "reproduced: " << rep << " of the original, " << srep
          << "/" << reps << " of the shrunk case; shrink attempts: " << attempts << "\n";
        f << "case:\n" << fail.desc << "\nfailure:\n" << fail.msg << "\n"
          << errtxt;
        f.close();
        std::ostringstream v;
        v << "{\"target\":" << jstr(t.name) << ",\"key\":" << jstr(fail.key)
          << ",\"message\":" << jstr(head(fail.msg + errtxt, 1500))
          << ",\"case\":" << jstr(head(fail.desc, 1500))
          << ",\"replay\":" << jstr(rp) << "}";
        viol_json = v.str();
      } else {
        // not by the case alone: with the cases before it?
        int w = (int)(fail_case % W);
        Outcome o;
        for (int i = 0; i < 2 && !o.failed; ++i)
          o = run_sequence(t, seed, w, W, fail_case, scratch, now() + maxsec, known);
        tr.unreproduced.push_back(fail.key + ": " + head(fail.msg, 300));
        if (fail.key != "hang") lost.push_back(fail.msg);
        bool seq = acceptable(o, known);
        if (seq || lost.size() >= 3) {
          violated = true;
          if (seq) fail = o;
          std::ostringstream d;
          d << "cases " << w << ", " << w + W << ", ... " << fail_case << " of target " << t.name << " one after another in one process (seed " << seed << ")"
            << (seq ? "" : "; one of three failures, none of which happens every time");
          fail.desc = d.str();
          std::string rp = out + "/replay-" + t.name + ".txt";
          std::ofstream f(rp.c_str());
          f << "target: " << t.name << "\nsequence: " << seed << " " << w << " " << W << " " << fail_case
            << "\nkey: " << fail.key << "\ncase:\n" << fail.desc << "\nfailure:\n" << fail.msg << "\n";
          f.close();
          std::ostringstream v;
          v << "{\"target\":" << jstr(t.name) << ",\"key\":" << jstr(fail.key)
            << ",\"message\":" << jstr(head(fail.msg, 1500))
            << ",\"case\":" << jstr(fail.desc) << ",\"replay\":" << jstr(rp) << "}";
          viol_json = v.str();
        } else {
          again = tr.unreproduced.size() < 8 && now() < deadline;
        }
      }
    }
    }
    tr.wall = now() - t0;
    js << (first ? "" : ",") << "{\"name\":" << jstr(t.name)
       << ",\"rule\":" << jstr(t.rule) << ",\"planned\":" << N
       << ",\"evaluations\":" << tr.evals << ",\"discarded\":" << tr.discards
       << ",\"nontrivial\":" << tr.nontrivial
       << ",\"distinct_nontrivial\":" << tr.distinct
       << ",\"known_failures\":" << tr.known
       << ",\"stopped_early\":" << (tr.stopped_early ? "true" : "false")
       << ",\"wall_s\":" << tr.wall << ",\"labels\":{";
    bool f2 = true;
    for (auto& p : tr.labels) {
      js << (f2 ? "" : ",") << jstr(p.first) << ":" << p.second;
      f2 = false;
    }
    js << "},\"samples\":[";
    for (size_t i = 0; i < tr.samples.size(); ++i)
      js << (i ? "," : "") << jstr(tr.samples[i]);
    js << "],\"known\":{";
    f2 = true;
    for (auto& p : tr.known_msgs) {
      js << (f2 ? "" : ",") << jstr(p.first) << ":" << jstr(p.second);
      f2 = false;
    }
    js << "},\"unreproduced\":[";
    for (size_t i = 0; i < tr.unreproduced.size(); ++i)
      js << (i ? "," : "") << jstr(tr.unreproduced[i]);
    js << "]}";
    first = false;
    rm_rf(dir);
    if (violated) break;
  }
  js << "],\"violation\":" << viol_json << "}";
  std::ofstream of((out + "/result.json").c_str());
  of << js.str() << "\n";
  of.close();
  rm_rf(scratch);
  return violated ? 1 : 0;
}

}  // namespace pbt
