// P09: data set statistics
#include <sol/c_api.h>
#include <sol/tools.h>
#include <sys/stat.h>
#include "proc.h"
using namespace vf;
namespace {
struct Stats {
  unsigned long long n = 0, feats = 0, dim = 0, distinct = 0;
  std::map<long long, unsigned long long> cls;
};
bool grab(const std::string& text, const std::string& key, std::string* v) {
  std::istringstream is(text);
  std::string line;
  while (std::getline(is, line)) {
    if (line.compare(0, key.size(), key) != 0) continue;
    size_t p = line.find(':');
    if (p == std::string::npos) continue;
    std::string k = line.substr(0, p);
    while (!k.empty() && k.back() == ' ') k.pop_back();
    if (k != key) continue;
    std::string r = line.substr(p + 1);
    while (!r.empty() && r[0] == ' ') r.erase(0, 1);
    *v = r;
    return true;
  }
  return false;
}
void run(pbt::Gen& g, pbt::Ctx& c, bool cli, bool large = false) {
  std::string type = g.pick(std::vector<std::string>{"svm", "bin", "csv"});
  Data d;
  int n = g.chance(1, 12) ? (int)g.range(250, 1100) : (int)g.sized(0, 30);
  uint32_t dim = type != "csv" && g.chance(1, 10) ? (uint32_t)g.range(1000, 300000) : (uint32_t)g.sized(1, 25);
  int labels = (int)g.range(1, 6);
  if (large) {
    n = g.chance(1, 2) ? (int)g.range(60000, 140000) : (int)g.range(9000, 25000);
    if (type != "csv") dim = g.chance(1, 2) ? (uint32_t)g.range(100000, 40000000) : (uint32_t)g.range(1000, 300000);
    if (g.chance(1, 2)) labels = (int)g.range(6, 70000);
  }
  bool wild = g.chance(1, 5), zeros = type != "csv" && g.chance(1, 6);
  // indices around the powers of two
  bool powers = type != "csv" && g.chance(1, 12);
  for (int i = 0; i < n; ++i) {
    Ex e;
    if (n > 40) {
      e.label = i % labels;
      if (i % 5) e.f.push_back(std::make_pair(1 + (uint32_t)((uint64_t)i * (large ? 104729 : 7) % dim), 0.5f));
    } else {
      e = gen_nice(g, dim, 8, wild ? (int)g.range(-2147483648LL, 2147483647LL) : (int)g.range(-1, labels));
      if (zeros && !e.f.empty() && g.chance(1, 3)) e.f.back().second = 0;
      if (powers && g.chance(1, 2)) {
        uint32_t x = near_power(g, 24);
        if (x > (e.f.empty() ? 0 : e.f.back().first)) e.f.push_back(std::make_pair(x, 1.f));
      }
    }
    d.push_back(e);
  }
  if (n > 40 && g.chance(2, 3)) {  // one that stands out, on the edge of a batch perhaps
    Ex& e = d[edge_position(g, d.size())];
    if (g.chance(1, 2)) e.label = labels + 3;
    if (g.chance(2, 3)) e.f.push_back(std::make_pair(dim + (uint32_t)g.range(1, 5), 0.5f));
  }
  Stats s;
  std::set<uint32_t> ix;
  for (auto& e : d) {
    ++s.n;
    ++s.cls[e.label];
    for (auto& p : e.f) {
      ++s.feats;
      ix.insert(p.first);
      s.dim = std::max<unsigned long long>(s.dim, p.first);
    }
  }
  s.distinct = ix.size();
  c.nontrivial = s.n >= 2 && s.feats >= 2;
  if (s.feats == 0) c.label("no features");
  c.label(type);
  c.desc << type << "\n" << (n <= 40 ? str(d) : std::to_string(n) + " examples\n");
  std::string in = c.path("in." + type), out = c.path("out.txt");
  write_data(in, type, d, (uint32_t)g.range(0, 3));
  before_output(g, out);
  std::string text;
  int how = cli ? 2 + (int)g.below(2) : (int)g.below(2);
  int ret;
  if (how == 0) {
    ret = sol::analyze(in, type, out);
  } else if (how == 1) {
    ret = sol_analyze_data(in.c_str(), type.c_str(), out.c_str());
  } else {
    std::vector<std::string> a = {tool("ANALYZE"), "-i", in, "-s", type};
    if (how == 3) {
      a.push_back("-o");
      a.push_back(out);
    }
    ProcResult r = run_prog(c, a);
    ret = r.status;
    text = r.out;
  }
  PBT_CHECK(ret == 0, "status", "status " << ret);
  if (how != 2) text = read_file(out);
  std::map<std::string, std::string> report;
  {
    std::istringstream is(text);
    std::string line, v;
    while (std::getline(is, line)) {
      size_t p = line.find(':');
      if (p == std::string::npos) continue;
      std::string k = line.substr(0, p);
      while (!k.empty() && k.back() == ' ') k.pop_back();
      if (report.count(k) == 0 && grab(line, k, &v)) report[k] = v;
    }
  }
  auto num = [&](const std::string& key, unsigned long long want) {
    PBT_CHECK(report.count(key) == 1, "missing", "no line '" << key << "' in:\n" << text.substr(0, 2000));
    const std::string& v = report[key];
    PBT_CHECK(v == std::to_string(want), key, key << ": reported " << v << ", actually " << want);
  };
  num("data number", s.n);
  num("feat number", s.feats);
  num("dimension", s.dim);
  num("nonzero feat", s.distinct);
  num("class num", s.cls.size());
  for (auto& k : s.cls) num("data number of class " + std::to_string(k.first), k.second);
  size_t lines = 0, pos = 0;
  while ((pos = text.find("data number of class", pos)) != std::string::npos) {
    ++lines;
    ++pos;
  }
  PBT_CHECK(lines == s.cls.size(), "classes", lines << " class lines for " << s.cls.size() << " classes");
  if (s.feats > 0) {
    std::string v;
    PBT_CHECK(grab(text, "data sparsity", &v), "missing", "no sparsity line");
    double want = 100.0 - 100.0 * (double)s.distinct / (double)(s.dim + 1);
    PBT_CHECK(std::fabs(atof(v.c_str()) - want) <= 0.0051, "sparsity", "sparsity " << v << " instead of " << want);
  }
}
// something stops the analysis; it has to say so instead of counting a part of the data
void fail_case(pbt::Gen& g, pbt::Ctx& c) {
  std::string type = g.pick(std::vector<std::string>{"svm", "bin", "csv"});
  Data d;
  int n = g.chance(1, 8) ? (int)g.range(250, 600) : (int)g.range(1, 12);
  for (int i = 0; i < n; ++i) d.push_back(gen_nice(g, 9, 4, (int)g.range(-1, 3)));
  enum { kMissing, kDirectory, kDamaged, kNoDir, kFull, kType };
  static const char* kWhat[] = {"missing source", "source is a directory", "damaged source", "report in a missing directory", "report on a full device", "unknown format"};
  int what = (int)g.weighted({2, 1, 6, 2, 2, 1});
  int how = (int)g.weighted({2, 2, 1});
  std::string in = c.path("src." + type), out = c.path("report.txt"), st = type;
  unlink(in.c_str());
  rmdir(in.c_str());
  unlink(out.c_str());
  c.desc << type << " how " << how << ": " << kWhat[what] << ", " << n << " examples\n";
  c.label(kWhat[what]);
  c.nontrivial = true;
  if (what == kDirectory) mkdir(in.c_str(), 0755);
  if (what > kDirectory) write_data(in, type, d, 1);
  if (what == kDamaged) {
    std::string t = read_file(in);
    if (type == "bin") {
      size_t head = to_bin(Data(d.begin(), d.end() - 1)).size();
      t.resize(head + 1 + (size_t)g.below(t.size() - head - 1));
    } else {
      std::vector<size_t> starts;
      for (size_t p = 0; p <= t.size(); ++p)
        if (p == 0 || t[p - 1] == '\n') starts.push_back(p);
      if (type == "csv") starts.erase(starts.begin());
      std::string line = type == "svm" ? g.pick(std::vector<std::string>{"1 abc", "1 3", "1 2:x", "+ 1:1"}) : g.pick(std::vector<std::string>{"1,abc", "abc,1"});
      t.insert(starts[(size_t)g.below(starts.size())], line + "\n");
    }
    write_file(in, t);
  }
  if (what == kNoDir) out = c.path("no/such/report.txt");
  if (what == kFull && symlink("/dev/full", out.c_str()) != 0) abort();
  if (what == kType) st = "svmx";
  int ret;
  if (how == 0)
    ret = sol::analyze(in, st, out);
  else if (how == 1)
    ret = sol_analyze_data(in.c_str(), st.c_str(), out.c_str());
  else
    ret = run_prog(c, {tool("ANALYZE"), "-i", in, "-s", st, "-o", out}).status;
  unlink(out.c_str());
  PBT_CHECK(ret < 1000, "crash", "killed by signal " << ret - 1000);
  PBT_CHECK(ret != 0, "silent-failure", "analysis reported success: " << kWhat[what]);
}
void lib_case(pbt::Gen& g, pbt::Ctx& c) { run(g, c, false); }
void cli_case(pbt::Gen& g, pbt::Ctx& c) { run(g, c, true); }
}  // namespace
int main(int argc, char** argv) {
  std::vector<pbt::Target> t;
  t.push_back({"analyze-library", "one data set analysed through the C++ or C interface; non-trivial: at least 2 examples and 2 features", 20000, 400000, lib_case, 30});
  t.push_back({"analyze-program", "one data set analysed by the program; non-trivial: at least 2 examples and 2 features", 4000, 60000, cli_case, 30});
  t.push_back({"analyze-failures", "missing, unreadable or damaged source, report that cannot be written completely, unknown format; non-trivial: all", 4000, 60000, fail_case, 30});
  t.push_back({"analyze-large", "9000 to 140000 examples, indices to 40 million, labels to 70000; non-trivial: all", 24, 300, [](pbt::Gen& g, pbt::Ctx& c) { run(g, c, g.chance(1, 3), true); }, 60});
  return pbt::Main(argc, argv, t);
}
