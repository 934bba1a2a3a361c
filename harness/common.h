// common.h - generators and helpers shared by the harnesses
#ifndef VERIF_COMMON_H_
#define VERIF_COMMON_H_
#include <algorithm>
#include <cmath>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iomanip>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <utility>
#include <vector>

#include <sol/sol.h>
#include <sol/pario/data_iter.h>
#include <sol/pario/data_reader.h>
#include <sol/pario/data_writer.h>

#include <unistd.h>
#include "pbt.h"

namespace vf {

// one example, independent of the library's types
struct Ex {
  long long label = 0;
  std::vector<std::pair<uint32_t, float>> f;
  bool operator==(const Ex& o) const {
    if (label != o.label || f.size() != o.f.size()) return false;
    for (size_t i = 0; i < f.size(); ++i) {
      if (f[i].first != o.f[i].first) return false;
      if (memcmp(&f[i].second, &o.f[i].second, sizeof(float)) != 0) return false;
    }
    return true;
  }
};
typedef std::vector<Ex> Data;

inline std::string str(const Ex& e) {
  std::ostringstream o;
  o.precision(9);
  o << e.label;
  for (auto& p : e.f) o << " " << p.first << ":" << p.second;
  return o.str();
}
inline std::string str(const Data& d) {
  std::string s;
  for (auto& e : d) s += str(e) + "\n";
  return s;
}

inline Ex from_point(const sol::pario::DataPoint& p) {
  Ex e;
  e.label = p.label();
  for (size_t i = 0; i < p.size(); ++i)
    e.f.push_back(std::make_pair((uint32_t)p.index(i), (float)p.feature(i)));
  return e;
}
inline void to_point(const Ex& e, sol::pario::DataPoint& p) {
  if (p.size() > 0) p.Clear();  // a fresh example stays as it was created
  p.set_label((sol::label_t)e.label);
  for (auto& x : e.f) p.AddNewFeat(x.first, x.second);
}

inline void write_file(const std::string& path, const std::string& bytes) {
  FILE* f = fopen(path.c_str(), "wb");
  if (f == nullptr) abort();
  if (!bytes.empty() && fwrite(bytes.data(), 1, bytes.size(), f) != bytes.size()) abort();
  fclose(f);
}
// a file to be written: mostly not there yet, else with something from before
inline void before_output(pbt::Gen& g, const std::string& path, const char* junk = "1 1:1 2:x\n1,,\n") {
  if (!g.chance(1, 8)) {
    unlink(path.c_str());
    return;
  }
  std::string s;
  for (size_t n = (size_t)g.sized(1, 300); n > 0; --n) s += junk;
  write_file(path, s);
}
inline std::string read_file(const std::string& path) {
  std::ifstream in(path.c_str(), std::ios::binary);
  std::ostringstream o;
  o << in.rdbuf();
  return o.str();
}
inline bool exists(const std::string& path) {
  std::ifstream in(path.c_str());
  return bool(in);
}

// a power of two or a neighbour
inline uint32_t near_power(pbt::Gen& g, int most) {
  uint32_t x = 1u << g.below((uint64_t)most + 1);
  int d = (int)g.range(-1, 1);
  return x + d < 1 ? 1 : x + (uint32_t)d;
}
// a position among n, next to a multiple of the default batch size more often than not
inline size_t edge_position(pbt::Gen& g, size_t n) {
  size_t p = g.chance(1, 4) ? (size_t)g.range(0, (long long)n - 1) : (size_t)g.pick(std::vector<int>{255, 256, 254, 511, 512, 0}) + (g.chance(1, 4) ? 512 : 0);
  return p < n ? p : n - 1;
}
// lengthened with blanks to about the size of a buffer
inline void pad_line(pbt::Gen& g, std::string& s) {
  size_t to = ((size_t)4096 << g.below(3)) + (size_t)g.range(0, 6) - 4;
  if (s.size() < to) s.append(to - s.size(), ' ');
}
// a value with few significant digits: exactly representable, text-safe (multiples of 1/8)
inline float nice_value(pbt::Gen& g, int max8 = 32) {
  int v = (int)g.range(1, max8);
  if (g.chance(1, 2)) v = -v;
  return float(v) / 8.f;
}
// strictly increasing indices in [1, dim]
inline std::vector<uint32_t> gen_indices(pbt::Gen& g, uint32_t dim, int maxn) {
  std::set<uint32_t> s;
  int n = (int)g.sized(0, std::min<int64_t>(maxn, dim));
  for (int i = 0; i < n; ++i) s.insert((uint32_t)g.range(1, dim));
  return std::vector<uint32_t>(s.begin(), s.end());
}
// an example with nice values
inline Ex gen_nice(pbt::Gen& g, uint32_t dim, int maxn, int label, int max8 = 32) {
  Ex e;
  e.label = label;
  for (uint32_t i : gen_indices(g, dim, maxn))
    e.f.push_back(std::make_pair(i, nice_value(g, max8)));
  return e;
}

inline std::string fmt_g(double v) {
  char b[64];
  snprintf(b, sizeof(b), "%g", v);
  return b;
}

inline std::string to_svm(const Data& d) {
  std::ostringstream o;
  for (auto& e : d) {
    o << e.label;
    for (auto& p : e.f) o << " " << p.first << ":" << fmt_g(p.second);
    o << "\n";
  }
  return o.str();
}
inline uint32_t max_index(const Data& d) {
  uint32_t m = 0;
  for (auto& e : d)
    for (auto& p : e.f) m = std::max(m, p.first);
  return m;
}
inline std::string to_csv(const Data& d, uint32_t width) {
  std::ostringstream o;
  o << "class";
  for (uint32_t i = 1; i <= width; ++i) o << ",v" << i;
  o << "\n";
  for (auto& e : d) {
    o << e.label;
    size_t k = 0;
    for (uint32_t i = 1; i <= width; ++i) {
      if (k < e.f.size() && e.f[k].first == i)
        o << "," << fmt_g(e.f[k++].second);
      else
        o << ",0";
    }
    o << "\n";
  }
  return o.str();
}
// independent encoder of the binary record format
inline std::string to_bin(const Data& d) {
  std::string o;
  auto put = [&o](const void* p, size_t n) { o.append((const char*)p, n); };
  for (auto& e : d) {
    int32_t label = (int32_t)e.label;
    put(&label, 4);
    uint64_t n = e.f.size();
    put(&n, 8);
    if (n > 0) {
      std::string codes;
      uint32_t last = 0;
      for (auto& p : e.f) {
        uint64_t v = p.first - last;
        last = p.first;
        while (v >= 128) {
          codes.push_back((char)((v & 127) | 128));
          v >>= 7;
        }
        codes.push_back((char)v);
      }
      uint64_t len = codes.size();
      put(&len, 8);
      put(codes.data(), codes.size());
      for (auto& p : e.f) put(&p.second, 4);
    }
  }
  return o;
}

// write a data set in the given format with this harness's own encoders
inline void write_data(const std::string& path, const std::string& type, const Data& d,
                       uint32_t width = 0) {
  if (type == "svm")
    write_file(path, to_svm(d));
  else if (type == "csv")
    write_file(path, to_csv(d, std::max(width, max_index(d))));
  else
    write_file(path, to_bin(d));
}

// read everything with the library; returns the final status (EndOfFile when clean)
inline int read_all(const std::string& path, const std::string& type, Data* out,
                    size_t limit = 10000000) {
  std::unique_ptr<sol::pario::DataReader> r(sol::pario::DataReader::Create(type));
  if (!r) return -1;
  int ret = r->Open(path);
  if (ret != sol::Status_OK) return 1000 + ret;
  sol::pario::DataPoint p;
  while (out->size() < limit) {
    ret = r->Next(p);
    if (ret != sol::Status_OK) break;
    out->push_back(from_point(p));
  }
  r->Close();
  return ret;
}

// feeds in-memory examples to a model, in batches of a chosen size
class VecIter : public sol::pario::DataIter {
 public:
  VecIter(const Data& d, int batch) : DataIter(1, 1), d_(d), pos_(0), batch_(batch) {}
  virtual ~VecIter() {}
  virtual sol::pario::MiniBatch* Next(sol::pario::MiniBatch* = nullptr) {
    if (pos_ >= d_.size()) return nullptr;
    mb_.reset(new sol::pario::MiniBatch(batch_));
    mb_->data_num = 0;
    while (pos_ < d_.size() && mb_->data_num < batch_)
      to_point(d_[pos_++], (*mb_)[mb_->data_num++]);
    return mb_.get();
  }

 private:
  const Data& d_;
  size_t pos_;
  int batch_;
  std::unique_ptr<sol::pario::MiniBatch> mb_;
};

inline bool close(double a, double b, double rel, double abs_tol = 0) {
  if (std::isnan(a) || std::isnan(b)) return false;
  if (a == b) return true;
  double m = std::max(std::fabs(a), std::fabs(b));
  return std::fabs(a - b) <= abs_tol + rel * m;
}

}  // namespace vf
#endif
