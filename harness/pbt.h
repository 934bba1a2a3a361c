// pbt.h - a small property-based testing engine.
//
// Every random decision of a case is drawn from a Gen, which records it as an
// integer choice.  A failing case is therefore a list of integers; shrinking
// works on that list (delete / zero / lower), replay reads it back.  Cases run
// in forked workers so that a crash, a sanitizer report or a hang of the code
// under test is just another failing case.
#ifndef VERIF_PBT_H_
#define VERIF_PBT_H_

#include <cstdint>
#include <cstdio>
#include <functional>
#include <map>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

namespace pbt {

struct Failure : public std::runtime_error {
  std::string key;
  Failure(const std::string& k, const std::string& m)
      : std::runtime_error(m), key(k) {}
};
// thrown by a case that turned out to be outside the property's domain
struct Discard {};

class Gen {
 public:
  explicit Gen(uint64_t seed);                  // random mode
  explicit Gen(const std::vector<uint64_t>& c)  // replay mode
      : replay_(true), src_(c) {}

  // integer in [0, n-1]; 0 is the simplest value
  uint64_t below(uint64_t n);
  // integer in [lo, hi]; lo is the simplest value
  int64_t range(int64_t lo, int64_t hi) {
    return lo + (int64_t)below((uint64_t)(hi - lo) + 1);
  }
  // true with probability num/den; false is the simplest value
  bool chance(int num, int den) {
    return (int64_t)below(den) >= (int64_t)den - num;
  }
  // small numbers are likely, up to hi (inclusive)
  int64_t sized(int64_t lo, int64_t hi);
  // index into a table of weights
  int weighted(const std::vector<int>& w);
  template <typename T>
  const T& pick(const std::vector<T>& v) {
    return v[below(v.size())];
  }
  uint64_t bits(int n) {  // n-bit integer
    return n >= 64 ? below64() : below(1ULL << n);
  }

  const std::vector<uint64_t>& choices() const { return out_; }
  void mirror(volatile uint64_t* n, uint64_t* buf, size_t cap) {
    mir_n_ = n;
    mir_buf_ = buf;
    mir_cap_ = cap;
  }

 private:
  uint64_t next64();
  uint64_t below64();
  uint64_t push(uint64_t v);
  bool replay_ = false;
  std::vector<uint64_t> src_;
  size_t pos_ = 0;
  uint64_t s_[4];
  std::vector<uint64_t> out_;
  volatile uint64_t* mir_n_ = nullptr;
  uint64_t* mir_buf_ = nullptr;
  size_t mir_cap_ = 0;
};

// output stream whose content survives a crash of the case (mirrored to shared memory)
class Desc : public std::ostream {
  struct Buf : public std::streambuf {
    std::string s;
    char* mir = nullptr;
    size_t cap = 0;
    int overflow(int ch) override {
      if (ch != EOF) put((char)ch);
      return ch;
    }
    std::streamsize xsputn(const char* p, std::streamsize n) override {
      for (std::streamsize i = 0; i < n; ++i) put(p[i]);
      return n;
    }
    void put(char ch) {
      if (mir != nullptr && s.size() + 1 < cap) {
        mir[s.size() + 1] = 0;
        mir[s.size()] = ch;
      }
      s.push_back(ch);
    }
  } b_;

 public:
  Desc() : std::ostream(nullptr) { rdbuf(&b_); }
  std::string str() const { return b_.s; }
  void mirror(char* p, size_t cap) {
    b_.mir = p;
    b_.cap = cap;
  }
};

// per-case context: classification, description, scratch directory
class Ctx {
 public:
  bool nontrivial = false;
  std::string scratch;               // directory private to the worker
  std::map<std::string, int> labels;  // classification of this case
  Desc desc;                         // human readable form of the case
  void label(const std::string& l) { labels[l] = 1; }
  void count(const std::string& l, int n) { labels[l] += n; }
  std::string path(const std::string& name) const {
    return scratch + "/" + name;
  }
};

#define PBT_FAIL(key, msg)                   \
  do {                                       \
    std::ostringstream pbt_oss__;            \
    pbt_oss__ << msg;                        \
    throw pbt::Failure(key, pbt_oss__.str()); \
  } while (0)
#define PBT_CHECK(cond, key, msg) \
  do {                            \
    if (!(cond)) PBT_FAIL(key, msg); \
  } while (0)

// fails the case by ending its process (for cases that cannot unwind)
[[noreturn]] void hard_fail(const std::string& key, const std::string& msg);

typedef std::function<void(Gen&, Ctx&)> CaseFn;

struct Target {
  std::string name;
  std::string rule;       // what a case is and when it is non-trivial
  int quick_cases;        // over all workers
  int thorough_cases;
  CaseFn fn;
  int cpu_limit_s;        // CPU seconds after which one case counts as a hang
};

// main(): see pbt.cc for the command line
int Main(int argc, char** argv, const std::vector<Target>& targets);

}  // namespace pbt
#endif
