// P03: write / read round trips
#include <unistd.h>
#include "numtext.h"
#include <sol/pario/compress.h>
using namespace vf;
namespace {
float any_float(pbt::Gen& g) {
  switch (g.weighted({4, 4, 2, 1})) {
    case 0: return nice_value(g);
    case 1: {  // any finite bit pattern
      for (int i = 0; i < 20; ++i) {
        uint32_t b = (uint32_t)g.bits(32);
        float f;
        memcpy(&f, &b, 4);
        if (std::isfinite(f)) return f;
      }
      return 1.f;
    }
    case 2: return g.pick(std::vector<float>{0.f, -0.f, 1.f, -1.f, 3.4028235e38f, -3.4028235e38f, 1.17549435e-38f, 1.4e-45f, 16777217.f, 0.1f});
    default: return std::ldexp(float(g.range(1, 1 << 24)), (int)g.range(-60, 60));
  }
}
long long any_label(pbt::Gen& g) {
  long long v;
  switch (g.weighted({3, 2, 1})) {
    case 0: v = g.chance(1, 2) ? 1 : -1; break;
    case 1: v = (long long)g.below(50); break;
    default: v = g.range(-2147483648LL, 2147483647LL);
  }
  return v;
}
void fill_sorted(pbt::Gen& g, std::vector<uint32_t>& idx, uint32_t maxi) {
  int n = g.chance(1, 20) ? (int)g.range(100, 600) : (int)g.sized(0, 14);
  std::set<uint32_t> s;
  for (int i = 0; i < n; ++i)
    s.insert(maxi < 100000 ? (uint32_t)g.range(1, maxi) : gen_big_index(g));
  idx.assign(s.begin(), s.end());
}
void describe(pbt::Ctx& c, const Data& d) {
  std::string s = str(d);
  c.desc << (s.size() > 3000 ? s.substr(0, 3000) + "..." : s);
}
Data written_and_read(pbt::Gen& g, pbt::Ctx& c, const std::string& type, const Data& d, uint32_t csv_dim, int* status) {
  std::string path = c.path("f." + type);
  before_output(g, path);
  {
    std::unique_ptr<sol::pario::DataWriter> w(sol::pario::DataWriter::Create(type));
    PBT_CHECK(w != nullptr, "create", "no writer " << type);
    PBT_CHECK(w->Open(path) == sol::Status_OK, "open", "cannot open for writing");
    if (type == "csv") {
      sol::index_t dim = csv_dim;
      PBT_CHECK(w->SetExtraInfo((const char*)&dim) == sol::Status_OK, "extra", "SetExtraInfo failed");
    }
    sol::pario::DataPoint p;
    for (auto& e : d) {
      to_point(e, p);
      PBT_CHECK(w->Write(p) == sol::Status_OK, "write", "write failed");
      PBT_CHECK(from_point(p) == e, "write-mutates", "writing changed the data point");
    }
    PBT_CHECK(w->Good(), "write", "writer not good");
    w->Close();
  }
  Data out;
  *status = read_all(path, type, &out);
  return out;
}
void bin_case(pbt::Gen& g, pbt::Ctx& c) {
  Data d;
  int n = (int)g.sized(0, 10);
  int feats = 0;
  bool empty = false;
  for (int i = 0; i < n; ++i) {
    Ex e;
    e.label = any_label(g);
    std::vector<uint32_t> idx;
    fill_sorted(g, idx, g.chance(1, 4) ? 200 : 4294967295u);
    for (uint32_t k : idx) e.f.push_back(std::make_pair(k, any_float(g)));
    feats += (int)e.f.size();
    if (e.f.empty()) empty = true;
    d.push_back(e);
  }
  if (empty) c.label("example without features");
  c.nontrivial = n >= 2 && feats >= 3;
  describe(c, d);
  int st = 0;
  Data got = written_and_read(g, c, "bin", d, 0, &st);
  PBT_CHECK(st == sol::Status_EndOfFile, "status", "final status " << st);
  PBT_CHECK(got.size() == d.size(), "count", got.size() << " records instead of " << d.size());
  for (size_t i = 0; i < d.size(); ++i)
    PBT_CHECK(got[i] == d[i], "record", "record " << i << " is " << str(got[i]));
  // the format itself is fixed: files written before must stay readable
  write_file(c.path("own.bin"), to_bin(d));
  Data own;
  st = read_all(c.path("own.bin"), "bin", &own);
  PBT_CHECK(st == sol::Status_EndOfFile && own == d, "format", "independently encoded file reads differently");
  PBT_CHECK(read_file(c.path("f.bin")) == to_bin(d), "format", "written bytes differ from the format");
}
bool six_digits(float got, float want) {
  if (want == 0) return got == 0;
  return std::fabs((double)got - (double)want) <= 6e-6 * std::fabs((double)want);
}
float text_float(pbt::Gen& g) {
  for (int i = 0; i < 10; ++i) {
    float f = any_float(g);
    double a = std::fabs((double)f);
    if (f == 0 || (a > 1e-35 && a < 3e38)) return f;
  }
  return 1.f;
}
void svm_case(pbt::Gen& g, pbt::Ctx& c) {
  Data d;
  int n = (int)g.sized(0, 10), feats = 0;
  for (int i = 0; i < n; ++i) {
    Ex e;
    e.label = any_label(g);
    std::vector<uint32_t> idx;
    fill_sorted(g, idx, g.chance(1, 3) ? 200 : 4294967295u);
    for (uint32_t k : idx) e.f.push_back(std::make_pair(k, text_float(g)));
    feats += (int)e.f.size();
    d.push_back(e);
  }
  c.nontrivial = n >= 2 && feats >= 3;
  describe(c, d);
  int st = 0;
  Data got = written_and_read(g, c, "svm", d, 0, &st);
  PBT_CHECK(st == sol::Status_EndOfFile, "status", "final status " << st);
  PBT_CHECK(got.size() == d.size(), "count", got.size() << " records instead of " << d.size());
  for (size_t i = 0; i < d.size(); ++i) {
    PBT_CHECK(got[i].label == d[i].label && got[i].f.size() == d[i].f.size(), "record", "record " << i << " is " << str(got[i]));
    for (size_t j = 0; j < d[i].f.size(); ++j)
      PBT_CHECK(got[i].f[j].first == d[i].f[j].first && six_digits(got[i].f[j].second, d[i].f[j].second), "value",
                "record " << i << " feature " << j << " is " << got[i].f[j].first << ":" << got[i].f[j].second);
  }
}
void csv_case(pbt::Gen& g, pbt::Ctx& c) {
  Data d;
  int n = (int)g.sized(0, 8), feats = 0;
  uint32_t width = (uint32_t)g.sized(1, g.chance(1, 10) ? (g.chance(1, 10) ? 6000 : 700) : 40);
  bool beyond = g.chance(1, 5);  // features outside the announced dimension
  for (int i = 0; i < n; ++i) {
    Ex e;
    e.label = any_label(g);
    std::vector<uint32_t> idx;
    fill_sorted(g, idx, width + (beyond ? 5 : 0));
    for (uint32_t k : idx) e.f.push_back(std::make_pair(k, text_float(g)));
    feats += (int)e.f.size();
    d.push_back(e);
  }
  c.nontrivial = n >= 2 && feats >= 3;
  c.desc << "width " << width << "\n";
  describe(c, d);
  int st = 0;
  Data got = written_and_read(g, c, "csv", d, width + 1, &st);
  PBT_CHECK(st == sol::Status_EndOfFile, "status", "final status " << st);
  PBT_CHECK(got.size() == d.size(), "count", got.size() << " records instead of " << d.size());
  for (size_t i = 0; i < d.size(); ++i) {
    Ex w;
    w.label = d[i].label;
    for (auto& p : d[i].f)
      if (p.second != 0 && p.first <= width) w.f.push_back(p);
    PBT_CHECK(got[i].label == w.label && got[i].f.size() == w.f.size(), "record", "record " << i << " is " << str(got[i]));
    for (size_t j = 0; j < w.f.size(); ++j)
      PBT_CHECK(got[i].f[j].first == w.f[j].first && six_digits(got[i].f[j].second, w.f[j].second), "value",
                "record " << i << " feature " << j << " is " << got[i].f[j].first << ":" << got[i].f[j].second);
  }
  // a table: every line, the header included, has the label and one column per index
  std::string text = read_file(c.path("f.csv"));
  size_t lines = 0;
  for (size_t p = 0; p < text.size(); ++lines) {
    size_t e = text.find('\n', p);
    PBT_CHECK(e != std::string::npos, "csv-table", "line " << lines << " does not end");
    size_t commas = (size_t)std::count(text.begin() + p, text.begin() + e, ',');
    PBT_CHECK(commas == width, "csv-table", "line " << lines << " has " << commas << " value columns instead of " << width);
    p = e + 1;
  }
  PBT_CHECK(lines == d.size() + 1, "csv-table", lines << " lines for " << d.size() << " records");
}
// one example far larger than any buffer between two small ones
void huge_case(pbt::Gen& g, pbt::Ctx& c) {
  std::string type = g.weighted({4, 1}) == 0 ? "bin" : "svm";
  Data d;
  for (int k = 0; k < 3; ++k) {
    Ex e;
    e.label = any_label(g);
    if (k == 1) {
      size_t n = (size_t)g.range(100000, type == "bin" ? 700000 : 150000);
      uint32_t gap = (uint32_t)g.pick(std::vector<uint32_t>{1, 200, 5000});
      uint32_t ix = 0;
      for (size_t i = 0; i < n; ++i) e.f.push_back(std::make_pair(ix += gap + (uint32_t)(i % 3), (float)(i % 1000) / 8.f));
      c.desc << type << ": " << n << " features, gap " << gap << "\n";
    } else {
      for (uint32_t ix : gen_indices(g, 50, 5)) e.f.push_back(std::make_pair(ix, nice_value(g)));
    }
    d.push_back(e);
  }
  c.nontrivial = true;
  int st = 0;
  Data got = written_and_read(g, c, type, d, 0, &st);
  PBT_CHECK(st == sol::Status_EndOfFile, "status", "final status " << st);
  PBT_CHECK(got.size() == d.size(), "count", got.size() << " records instead of " << d.size());
  for (size_t i = 0; i < d.size(); ++i) PBT_CHECK(got[i] == d[i], "record", "record " << i << " differs");
  unlink(c.path("f." + type).c_str());
}
template <typename T>
void codec(pbt::Gen& g, pbt::Ctx& c) {
  std::vector<T> v;
  int n = (int)g.sized(0, 40);
  const int bits = sizeof(T) * 8;
  for (int i = 0; i < n; ++i) {
    int b = (int)g.range(1, bits);
    uint64_t x = g.bits(b);
    if (g.chance(1, 8)) x = (b >= 64 ? ~0ULL : ((1ULL << b) - 1));
    v.push_back((T)x);
  }
  std::sort(v.begin(), v.end());
  if (g.chance(1, 2)) v.erase(std::unique(v.begin(), v.end()), v.end());
  c.nontrivial = v.size() >= 3;
  for (T x : v) c.desc << (uint64_t)x << " ";
  sol::math::Vector<T> in, out;
  in.clear();
  for (T x : v) in.push_back(x);
  sol::math::Vector<char> codes;
  codes.clear();
  if (g.chance(1, 4)) out.push_back((T)7);  // must be replaced
  sol::pario::comp_index(in, codes);
  sol::pario::decomp_index(codes, out);
  PBT_CHECK(out.size() == v.size(), "codec", out.size() << " indices instead of " << v.size());
  for (size_t i = 0; i < v.size(); ++i) {
    PBT_CHECK(out[i] == v[i], "codec", "index " << i << " is " << (uint64_t)out[i] << " instead of " << (uint64_t)v[i]);
    PBT_CHECK(in[i] == v[i], "codec", "input changed");
  }
}
void codec_case(pbt::Gen& g, pbt::Ctx& c) {
  switch (g.below(3)) {
    case 0: c.desc << "uint16: "; c.label("16 bit"); codec<uint16_t>(g, c); break;
    case 1: c.desc << "uint32: "; c.label("32 bit"); codec<uint32_t>(g, c); break;
    default: c.desc << "uint64: "; c.label("64 bit"); codec<uint64_t>(g, c);
  }
}
}  // namespace
int main(int argc, char** argv) {
  std::vector<pbt::Target> t;
  const std::string r = "0-10 generated data points written then read; non-trivial: at least 2 records with 3 features in total";
  t.push_back({"bin-roundtrip", r, 40000, 600000, bin_case, 20});
  t.push_back({"svm-roundtrip", r, 20000, 300000, svm_case, 20});
  t.push_back({"csv-roundtrip", r, 15000, 200000, csv_case, 20});
  t.push_back({"index-codec", "a non-decreasing index list; non-trivial: at least 3 indices", 60000, 900000, codec_case, 20});
  t.push_back({"huge-record", "a record of 100000-700000 features (index codes beyond 1 MiB) between two small ones; non-trivial: all", 96, 1600, huge_case, 30});
  return pbt::Main(argc, argv, t);
}
