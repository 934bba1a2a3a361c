// P08: dataset tools
#include <sol/c_api.h>
#include <sol/tools.h>
#include <sys/stat.h>
#include <cmath>
#include "proc.h"
using namespace vf;
namespace {
const std::vector<std::string> kTypes = {"svm", "bin", "csv"};
bool g_large = false;
// values close to zero and to the thresholds
const std::vector<float> kOdd = {1e-8f, -1e-8f, 3e-10f, 2e-5f, -3e-12f, 0.2501f, 0.2499f, -0.9999f, -1.0001f, 1.5001f};
Data gen_set(pbt::Gen& g, int id) {
  Data d;
  int n;
  if (g_large) n = g.chance(1, 3) ? (int)g.range(60000, 140000) : (int)g.range(4000, 30000);
  else switch (g.weighted({8, 1, 1})) {
    case 0: n = (int)g.sized(0, 14); break;
    case 1: n = (int)g.range(250, 262); break;
    default: n = (int)g.range(500, 1100);
  }
  uint32_t dim = (uint32_t)g.sized(1, 30);
  for (int i = 0; i < n; ++i) {
    Ex e;
    if (n <= 20)
      e.label = g.chance(1, 2) ? id * 10000 + i : g.range(-2, 2);
    else
      e.label = id * 1000000 + i;
    if (n <= 20) {
      for (uint32_t ix : gen_indices(g, dim, 6)) e.f.push_back(std::make_pair(ix, g.chance(1, 10) ? 0.f : g.chance(1, 12) ? g.pick(kOdd) : nice_value(g)));
    } else if (i % 3 != 1) {
      e.f.push_back(std::make_pair(1 + (uint32_t)(i % dim), (i % 17 + 1) / 8.f));
    }
    d.push_back(e);
  }
  // the widest example, on the edge of a batch perhaps
  if (n > 40 && g.chance(2, 3)) d[edge_position(g, n)].f.push_back(std::make_pair(dim + (uint32_t)g.range(1, 5), 0.5f));
  return d;
}
void drop_zeros(Data& d) {
  for (auto& e : d)
    e.f.erase(std::remove_if(e.f.begin(), e.f.end(), [](const std::pair<uint32_t, float>& p) { return p.second == 0; }), e.f.end());
}
Data through(Data d, const std::string& src, bool bin, float th, const std::string& dst) {
  if (src == "csv") drop_zeros(d);
  if (bin)
    for (auto& e : d)
      for (auto& p : e.f) p.second = p.second > th ? 1.f : -1.f;
  if (dst == "csv") drop_zeros(d);
  return d;
}
// eighths are kept exactly by every format, other values to 5 digits
bool same_ex(const Ex& a, const Ex& b) {
  if (a.label != b.label || a.f.size() != b.f.size()) return false;
  for (size_t i = 0; i < a.f.size(); ++i) {
    float x = a.f[i].second, y = b.f[i].second;
    if (a.f[i].first != b.f[i].first) return false;
    if (x != y && (y * 8 == std::floor(y * 8) || !(std::fabs(x - y) <= 2e-5f * std::fabs(y)))) return false;
  }
  return true;
}
bool same(const Data& a, const Data& b, std::string* why) {
  std::ostringstream o;
  if (a.size() != b.size()) {
    o << a.size() << " examples instead of " << b.size();
    *why = o.str();
    return false;
  }
  for (size_t i = 0; i < a.size(); ++i)
    if (!same_ex(a[i], b[i])) {
      o << "example " << i << " is " << str(a[i]) << " instead of " << str(b[i]);
      *why = o.str();
      return false;
    }
  return true;
}
bool less_ex(const Ex& a, const Ex& b) {
  if (a.label != b.label) return a.label < b.label;
  return a.f < b.f;
}
Data sorted(Data d) {
  std::sort(d.begin(), d.end(), less_ex);
  return d;
}
Data must_read(const std::string& path, const std::string& type) {
  Data d;
  int st = read_all(path, type, &d);
  PBT_CHECK(st == sol::Status_EndOfFile, "unreadable", "output " << path.substr(path.rfind('/')) << " cannot be read: status " << st);
  return d;
}
void describe(pbt::Ctx& c, const Data& d) {
  if (d.size() <= 20)
    c.desc << str(d);
  else
    c.desc << d.size() << " examples\n";
}
size_t part_size(size_t n, size_t k, size_t i) {
  size_t per = (n + k - 1) / k;
  size_t b = std::min(n, per * i), e = std::min(n, per * (i + 1));
  return e - b;
}
// how: 0 C++ function, 1 C API, 2 command line
void op_case(pbt::Gen& g, pbt::Ctx& c, bool cli) {
  std::string src = g.pick(kTypes), dst = g.pick(kTypes);
  int how = cli ? 2 : (int)g.below(2);
  int op = (int)g.below(cli ? 4 : 3);
  Data d = gen_set(g, 1);
  std::string in = c.path("in." + src), out = c.path("out." + dst);
  write_data(in, src, d, (uint32_t)g.range(1, 4));
  before_output(g, out);
  c.nontrivial = d.size() >= 2;
  std::string why;
  // the programs read '-' from standard input and write it to standard output
  bool from = how == 2 && g.chance(1, 5), piped = from && g.chance(1, 2), to = how == 2 && op != 2 && g.chance(1, 5);
  std::string ina = from ? "-" : in, outa = to ? "-" : out;
  if (from) c.label("standard input");
  if (to) c.label("standard output");
  c.desc << (piped ? "from a pipe\n" : from ? "from standard input\n" : "") << (to ? "to standard output\n" : "");
  auto prog = [&](const std::vector<std::string>& a) {
    ProcResult r = run_prog(c, a, from ? in : std::string(), piped);
    if (to) write_file(out, r.out);
    return r.status;
  };
  auto ok = [&](int ret) { PBT_CHECK(ret == 0, "status", "status " << ret); };
  if (op == 0) {
    bool bin = g.chance(1, 3);
    float th = g.chance(1, 3) ? 0.f : (float)g.range(-8, 8) / 4.f;
    c.desc << "convert " << src << " -> " << dst << (bin ? " binarise at " + std::to_string(th) : std::string()) << "\n";
    describe(c, d);
    c.label("convert " + src + "->" + dst);
    int ret;
    if (how == 2) {
      std::vector<std::string> a = {tool("CONVERTER"), "-i", ina, "-s", src, "-o", outa, "-d", dst};
      if (bin) {
        a.push_back("-b");
        a.push_back(std::to_string(th));
      }
      ret = prog(a);
    } else if (how == 1) {
      ret = sol_convert_data(in.c_str(), src.c_str(), out.c_str(), dst.c_str(), bin, th);
    } else {
      ret = sol::convert(in, src, out, dst, bin, th);
    }
    Data want = through(d, src, bin, th, dst);
    if (dst == "csv" && max_index(through(d, src, false, 0, "svm")) == 0) {
      PBT_CHECK(ret != 0 && ret < 1000, "status", "csv without any feature column: status " << ret);
      return;
    }
    if (dst == "csv" && from) {
      PBT_CHECK(ret < 1000, "crash", "killed by signal " << ret - 1000);
      if (ret != 0) return;  // it cannot be read twice
    }
    ok(ret);
    Data got = must_read(out, dst);
    PBT_CHECK(same(got, want, &why), "convert", why);
  } else if (op == 1) {
    bool deflt = g.chance(1, 3);
    std::string type = deflt ? src : dst;
    c.desc << "shuffle " << src << " -> " << (deflt ? "(same)" : dst) << "\n";
    describe(c, d);
    c.label("shuffle");
    int ret;
    if (how == 2) {
      std::vector<std::string> a = {tool("SHUFFLE"), "-i", ina, "-s", src};
      if (!to || g.chance(1, 2)) a.insert(a.end(), {"-o", outa});
      if (!deflt) {
        a.push_back("-d");
        a.push_back(dst);
      }
      ret = prog(a);
    } else if (how == 1) {
      ret = sol_shuffle_data(in.c_str(), src.c_str(), out.c_str(), deflt ? nullptr : dst.c_str());
    } else {
      ret = sol::shuffle(in, src, out, deflt ? "" : dst);
    }
    if (type == "csv" && max_index(through(d, src, false, 0, "svm")) == 0) {
      PBT_CHECK(ret < 1000, "status", "crash");
      return;  // nothing to announce in the header
    }
    ok(ret);
    Data got = must_read(out, type);
    PBT_CHECK(same(sorted(got), sorted(through(d, src, false, 0, type)), &why), "shuffle", "not a permutation: " << why);
  } else if (op == 2) {
    int k = g.chance(1, 12) ? (int)g.range(10, 130) : (int)g.range(1, d.size() > 20 ? 9 : 6);
    bool shuf = g.chance(1, 4);
    bool deflt = how == 1 && g.chance(1, 4);
    std::string type = deflt ? src : dst;
    c.desc << "split " << src << " -> " << k << " x " << type << (shuf ? " shuffled" : "") << "\n";
    describe(c, d);
    c.label("split");
    std::string pre = c.path("part-");
    for (int i = 0; i < k + 2; ++i) {
      std::string pp = pre + std::to_string(i) + "." + type;
      if (i < k && i < 8 && !d.empty()) before_output(g, pp);
      else unlink(pp.c_str());
    }
    int ret;
    if (how == 2) {
      std::vector<std::string> a = {tool("SPLIT"), "-i", ina, "-s", src, "-n", std::to_string(k), "-o", pre, "-d", dst};
      if (shuf) a.push_back("-r");
      ret = prog(a);
    } else if (how == 1) {
      ret = sol_split_data(in.c_str(), src.c_str(), k, pre.c_str(), deflt ? nullptr : dst.c_str(), shuf);
    } else {
      ret = sol::split(in, src, k, pre, dst, shuf);
    }
    if (type == "csv" && max_index(through(d, src, false, 0, "svm")) == 0) {
      PBT_CHECK(ret < 1000, "status", "crash");
      return;
    }
    ok(ret);
    Data all;
    for (int i = 0; i < k; ++i) {
      std::string pp = pre + std::to_string(i) + "." + type;
      if (d.empty() && !exists(pp)) continue;
      Data part = must_read(pp, type);
      PBT_CHECK(part.size() == part_size(d.size(), (size_t)k, (size_t)i), "split-size", "part " << i << " of " << k << " has " << part.size() << " of " << d.size() << " examples");
      all.insert(all.end(), part.begin(), part.end());
    }
    PBT_CHECK(!exists(pre + std::to_string(k) + "." + type), "split-size", "one part too many");
    Data want = through(d, src, false, 0, type);
    if (shuf)
      PBT_CHECK(same(sorted(all), sorted(want), &why), "split", "parts are not a permutation: " << why);
    else
      PBT_CHECK(same(all, want, &why), "split", "parts do not add up: " << why);
  } else {
    int m = (int)g.range(1, 3);
    c.desc << "concat of " << m << " " << src << " -> " << dst << "\n";
    describe(c, d);
    c.label("concat");
    Data want = through(d, src, false, 0, dst);
    bool none = max_index(through(d, src, false, 0, "svm")) == 0;
    std::string ins = ina;
    for (int i = 1; i < m; ++i) {
      Data e = gen_set(g, i + 1);
      describe(c, e);
      std::string p = c.path("in" + std::to_string(i) + "." + src);
      write_data(p, src, e, (uint32_t)g.range(1, 4));
      ins += ";" + p;
      none = none && max_index(through(e, src, false, 0, "svm")) == 0;
      Data t = through(e, src, false, 0, dst);
      want.insert(want.end(), t.begin(), t.end());
    }
    int ret = prog({tool("CONCAT"), "-i", ins, "-s", src, "-o", outa, "-d", dst});
    if (dst == "csv" && from) {
      PBT_CHECK(ret < 1000, "crash", "killed by signal " << ret - 1000);
      if (ret != 0) return;  // it cannot be read twice
    }
    if (dst == "csv" && none) {
      PBT_CHECK(ret < 1000, "status", "crash");
      return;
    }
    ok(ret);
    Data got = must_read(out, dst);
    PBT_CHECK(same(got, want, &why), "concat", why);
  }
}
// something stops the tool from doing its work; it has to say so
void fail_case(pbt::Gen& g, pbt::Ctx& c) {
  std::string src = g.pick(kTypes), dst = g.pick(kTypes);
  int how = (int)g.weighted({2, 2, 1});
  int op = (int)g.below(how == 2 ? 4 : 3);
  static const char* kOps[] = {"convert", "shuffle", "split", "concat"};
  int m = op == 3 ? (int)g.range(1, 3) : 1;
  int k = (int)g.range(1, 4);
  bool opt = g.chance(1, 3);  // binarise, shuffle
  int bad = (int)g.below((uint64_t)m);
  enum { kMissing, kDirectory, kDamaged, kNoDir, kFull, kSrcType, kDstType, kFold };
  int what = (int)g.weighted({2, 1, 6, 2, 4, 1, 1, 1});
  if (what == kFold && op != 2) what = kDamaged;
  static const char* kWhat[] = {"missing source", "source is a directory", "damaged source", "output in a missing directory", "output on a full device", "unknown source format", "unknown output format", "no folds"};
  c.desc << kOps[op] << " " << src << " -> " << dst << " how " << how << " : " << kWhat[what] << "\n";
  c.label(kWhat[what]);
  c.label(kOps[op]);
  std::string ins;
  bool any_feature = false;
  size_t total = 0;
  for (int i = 0; i < m; ++i) {
    Data d = gen_set(g, i + 1);
    if (d.empty()) {
      Ex e;
      e.label = 1;
      e.f.push_back(std::make_pair(1u, 0.5f));
      d.push_back(e);
    }
    total += d.size();
    if (max_index(through(d, src, false, 0, "svm")) > 0) any_feature = true;
    std::string in = c.path("in" + std::to_string(i) + "." + src);
    unlink(in.c_str());
    rmdir(in.c_str());
    c.desc << "source " << i << ": " << d.size() << " examples";
    if (i == bad && what == kMissing) {
    } else if (i == bad && what == kDirectory) {
      mkdir(in.c_str(), 0755);
    } else {
      write_data(in, src, d, (uint32_t)g.range(1, 4));
      if (i == bad && what == kDamaged) {
        std::string t = read_file(in);
        if (src == "bin") {
          // cut inside the last record
          std::string head = to_bin(Data(d.begin(), d.end() - 1));
          size_t at = head.size() + 1 + (size_t)g.below(t.size() - head.size() - 1);
          c.desc << ", cut after " << at << " of " << t.size() << " bytes";
          write_file(in, t.substr(0, at));
        } else {
          std::vector<size_t> starts;
          for (size_t p = 0; p < t.size(); ++p)
            if (p == 0 || t[p - 1] == '\n') starts.push_back(p);
          if (src == "csv") starts.erase(starts.begin());
          starts.push_back(t.size());
          size_t at = starts[(size_t)g.below(starts.size())];
          std::string line;
          if (src == "svm") {
            line = g.pick(std::vector<std::string>{"1 abc", "1 3", "1 2:x", "+ 1:1", "1 1:1 zz"});
          } else {
            line = g.pick(std::vector<std::string>{"1,abc", "abc,1", "1,x1"});
          }
          c.desc << ", line '" << line << "' at byte " << at << " of " << t.size();
          t.insert(at, line + "\n");
          write_file(in, t);
        }
      }
    }
    c.desc << "\n";
    ins += (i ? ";" : "") + in;
  }
  std::string outdir = what == kNoDir ? c.path("no/such/dir/") : c.path("");
  std::string out = outdir + "out." + dst, pre = outdir + "part-";
  std::vector<std::string> made = {out};
  unlink(out.c_str());
  for (int i = 0; i < k; ++i) {
    made.push_back(pre + std::to_string(i) + "." + dst);
    unlink(made.back().c_str());
  }
  if (what == kFull) {
    if (op == 2) {
      size_t part = (size_t)g.below((uint64_t)k);
      if (dst != "csv" && part_size(total, (size_t)k, part) == 0) part = 0;
      c.desc << "part " << part << "\n";
      if (symlink("/dev/full", made[1 + part].c_str()) != 0) abort();
    } else if (symlink("/dev/full", out.c_str()) != 0) {
      abort();
    }
  }
  if (what == kFold) k = g.chance(1, 2) ? 0 : -(int)g.range(1, 3);
  std::string st = what == kSrcType ? "svmx" : src, dt = what == kDstType ? "nosuch" : dst;
  (void)any_feature;
  c.nontrivial = true;
  int ret = 0;
  if (how == 2) {
    std::vector<std::string> a;
    if (op == 0) a = {tool("CONVERTER"), "-i", ins, "-s", st, "-o", out, "-d", dt};
    if (op == 0 && opt) a.insert(a.end(), {"-b", "0.5"});
    if (op == 1) a = {tool("SHUFFLE"), "-i", ins, "-s", st, "-o", out, "-d", dt};
    if (op == 2) a = {tool("SPLIT"), "-i", ins, "-s", st, "-n", std::to_string(k), "-o", pre, "-d", dt};
    if (op == 2 && opt) a.push_back("-r");
    if (op == 3) a = {tool("CONCAT"), "-i", ins, "-s", st, "-o", out, "-d", dt};
    ret = run_prog(c, a).status;
  } else if (how == 1) {
    if (op == 0) ret = sol_convert_data(ins.c_str(), st.c_str(), out.c_str(), dt.c_str(), opt, 0.5f);
    if (op == 1) ret = sol_shuffle_data(ins.c_str(), st.c_str(), out.c_str(), dt.c_str());
    if (op == 2) ret = sol_split_data(ins.c_str(), st.c_str(), k, pre.c_str(), dt.c_str(), opt);
  } else {
    if (op == 0) ret = sol::convert(ins, st, out, dt, opt, 0.5f);
    if (op == 1) ret = sol::shuffle(ins, st, out, dt);
    if (op == 2) ret = sol::split(ins, st, k, pre, dt, opt);
  }
  for (auto& p : made) unlink(p.c_str());
  PBT_CHECK(ret < 1000, "crash", "killed by signal " << ret - 1000);
  PBT_CHECK(ret != 0, "silent-failure", kOps[op] << " reported success: " << kWhat[what]);
}
void lib_case(pbt::Gen& g, pbt::Ctx& c) { op_case(g, c, false); }
void cli_case(pbt::Gen& g, pbt::Ctx& c) { op_case(g, c, true); }
void large_case(pbt::Gen& g, pbt::Ctx& c) {
  g_large = true;
  bool cli = g.chance(1, 3);
  try {
    op_case(g, c, cli);
  } catch (...) {
    g_large = false;
    throw;
  }
  g_large = false;
}
}  // namespace
int main(int argc, char** argv) {
  std::vector<pbt::Target> t;
  t.push_back({"tools-library", "data set x format pair x convert/shuffle/split through the C++ and C interfaces; non-trivial: at least 2 examples", 16000, 300000, lib_case, 30});
  t.push_back({"tools-programs", "the same and concat through the installed programs; non-trivial: at least 2 examples", 4000, 60000, cli_case, 30});
  t.push_back({"tools-failures", "every tool through every interface with a missing, unreadable or damaged source, an output that cannot be created or not be written completely, unknown formats, no folds; non-trivial: all", 6000, 100000, fail_case, 30});
  t.push_back({"tools-large", "the same with 4000 to 140000 examples; non-trivial: all", 48, 600, large_case, 60});
  return pbt::Main(argc, argv, t);
}
