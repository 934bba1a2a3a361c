// P01: reading svm text
#include "numtext.h"
using namespace vf;
namespace {
struct Line {
  long long label;
  std::vector<std::pair<uint32_t, double>> f;  // sorted by index
};

std::string ws(pbt::Gen& g, bool need) {
  if (g.chance(9, 10)) return need ? " " : "";
  std::string s;
  int n = (int)g.range(need ? 1 : 0, 3);
  for (int i = 0; i < n; ++i) s += g.chance(1, 3) ? "\t" : " ";
  return s;
}

void read_case(pbt::Gen& g, pbt::Ctx& c) {
  int nlines = (int)g.sized(1, 12);
  bool crlf = g.chance(1, 5);
  bool final_nl = !g.chance(1, 4);
  bool fancy = g.chance(2, 3);
  std::vector<Line> want;
  std::string text;
  size_t longest = 0;
  bool unsorted = false, big = false, dup = false;
  for (int l = 0; l < nlines; ++l) {
    Line ln;
    std::string s;
    if (fancy) s += ws(g, false);
    s += gen_label_text(g, &ln.label);
    int nf = g.chance(1, 12) ? (int)g.range(200, 1200) : (int)g.sized(0, 12);
    int mode = g.weighted({4, 3, 1});  // 0 sorted, 1 shuffled, 2 arbitrary (duplicates possible)
    std::set<uint32_t> used;
    std::vector<std::pair<uint32_t, std::string>> toks;
    bool dense = nf > 20;
    for (int i = 0; i < nf; ++i) {
      uint32_t idx = dense ? (uint32_t)g.range(1, 5000) : gen_big_index(g);
      if (mode != 2 && used.count(idx)) continue;
      if (used.count(idx)) dup = true;
      used.insert(idx);
      if (idx > 2147483647u) big = true;
      toks.push_back(std::make_pair(idx, dense && g.chance(1, 2)
                                             ? std::to_string(g.below(100))
                                             : gen_float_text(g)));
    }
    if (mode == 0)
      std::stable_sort(toks.begin(), toks.end(),
                       [](const std::pair<uint32_t, std::string>& a,
                          const std::pair<uint32_t, std::string>& b) { return a.first < b.first; });
    for (size_t i = 0; i < toks.size(); ++i) {
      if (i && toks[i].first < toks[i - 1].first) unsorted = true;
      s += fancy ? ws(g, true) : std::string(" ");
      s += fancy ? index_text(g, toks[i].first) : std::to_string(toks[i].first);
      if (fancy) s += ws(g, false);
      s += ":";
      if (fancy) s += ws(g, false);
      s += toks[i].second;
      ln.f.push_back(std::make_pair(toks[i].first, strtod(toks[i].second.c_str(), nullptr)));
    }
    std::stable_sort(ln.f.begin(), ln.f.end(),
                     [](const std::pair<uint32_t, double>& a, const std::pair<uint32_t, double>& b) {
                       return a.first < b.first;
                     });
    if (fancy) s += ws(g, false);
    if (g.chance(1, 40)) pad_line(g, s);
    if (crlf) s += "\r";
    longest = std::max(longest, s.size());
    text += s;
    if (l + 1 < nlines || final_nl) text += "\n";
    want.push_back(ln);
  }
  if (unsorted) c.label("unsorted line");
  if (big) c.label("index above 2^31");
  if (dup) c.label("repeated index");
  if (longest >= 4095) c.label("line longer than the initial buffer");
  if (crlf) c.label("CRLF");
  if (!final_nl) c.label("no final newline");
  c.nontrivial = nlines >= 2;
  c.desc << (text.size() > 3000 ? text.substr(0, 3000) + "..." : text) << "\n";

  std::string path = c.path("d.svm");
  write_file(path, text);
  std::unique_ptr<sol::pario::DataReader> r(sol::pario::DataReader::Create("svm"));
  PBT_CHECK(r != nullptr, "create", "no svm reader");
  PBT_CHECK(r->Open(path) == sol::Status_OK, "open", "open failed");
  int passes = (int)g.range(1, 3);
  c.desc << "passes:";
  sol::pario::DataPoint p;
  for (int k = 0; k < passes; ++k) {
    // all but the last pass may stop anywhere
    size_t stop = k + 1 < passes ? (size_t)g.range(0, (int64_t)want.size() + 1) : want.size() + 1;
    c.desc << " " << stop;
    for (size_t i = 0; i < stop; ++i) {
      int ret = r->Next(p);
      if (i == want.size()) {
        PBT_CHECK(ret == sol::Status_EndOfFile, "eof", "status " << ret << " instead of end of file");
        break;
      }
      PBT_CHECK(ret == sol::Status_OK, "status", "line " << i + 1 << ": status " << ret);
      const Line& w = want[i];
      PBT_CHECK(p.label() == w.label, "label", "line " << i + 1 << ": label " << p.label() << " instead of " << w.label);
      PBT_CHECK(p.size() == w.f.size(), "count", "line " << i + 1 << ": " << p.size() << " features instead of " << w.f.size());
      std::vector<char> used(w.f.size(), 0);
      for (size_t j = 0; j < w.f.size(); ++j) {
        PBT_CHECK(p.index(j) == w.f[j].first, "index", "line " << i + 1 << " feature " << j << ": index " << p.index(j) << " instead of " << w.f[j].first);
        // pair with an unused written value of the same index
        bool ok = false;
        for (size_t m = 0; m < w.f.size() && !ok; ++m) {
          if (used[m] || w.f[m].first != p.index(j)) continue;
          if (value_matches(p.feature(j), w.f[m].second)) {
            used[m] = 1;
            ok = true;
          }
        }
        PBT_CHECK(ok, "value", "line " << i + 1 << " index " << p.index(j) << ": value " << p.feature(j) << " instead of " << w.f[j].second);
      }
      if (!w.f.empty() && w.f.back().first < 4294967295u)
        PBT_CHECK(p.dim() == w.f.back().first + 1, "dim", "dimension " << p.dim() << " with last index " << w.f.back().first);
    }
    r->Rewind();
  }
  PBT_CHECK(r->Good(), "good", "reader not good after reading a well-formed file");
}
// sort / clone / clear of the data point the readers fill
void point_case(pbt::Gen& g, pbt::Ctx& c) {
  sol::pario::DataPoint p;
  p.Clear();
  std::vector<std::pair<uint32_t, float>> m;
  int label = (int)g.range(-5, 5);
  p.set_label(label);
  int n = (int)g.sized(0, 60);
  std::set<uint32_t> used;
  for (int i = 0; i < n; ++i) {
    uint32_t idx = gen_big_index(g);
    if (!used.insert(idx).second) continue;
    float v = nice_value(g);
    p.AddNewFeat(idx, v);
    m.push_back(std::make_pair(idx, v));
    c.desc << idx << ":" << v << " ";
  }
  c.nontrivial = m.size() >= 3;
  bool sorted = std::is_sorted(m.begin(), m.end());
  if (!m.empty())
    PBT_CHECK(p.IsSorted() == sorted, "is-sorted", "IsSorted says " << p.IsSorted());
  sol::pario::DataPoint q = p.Clone(), r2;
  if (g.chance(1, 2)) r2.AddNewFeat(3, 4.f);
  p.Clone(r2);
  if (!m.empty()) p.Sort();
  std::vector<std::pair<uint32_t, float>> s = m;
  std::sort(s.begin(), s.end());
  auto same = [](const sol::pario::DataPoint& a, const std::vector<std::pair<uint32_t, float>>& b) {
    Ex e = from_point(a);
    return e.f == b;
  };
  PBT_CHECK(same(p, s) && p.label() == label, "sort", "sorted point is " << str(from_point(p)));
  PBT_CHECK(same(q, m) && q.label() == label, "clone", "clone changed by sorting the original: " << str(from_point(q)));
  PBT_CHECK(same(r2, m) && r2.label() == label, "clone", "clone into a point: " << str(from_point(r2)));
  p.Clear();
  PBT_CHECK(p.size() == 0 && same(q, m), "clear", "clear left features or changed a clone");
}
// lines of very many features, in orders that are hard on a sort
void long_line(pbt::Gen& g, pbt::Ctx& c) {
  size_t n = (size_t)g.range(20000, 250000);
  int order = (int)g.below(6), step = (int)g.range(1, 5);
  static const char* on[] = {"increasing", "decreasing", "increasing but for a few", "rotated", "organ pipe", "all equal but a few"};
  std::vector<std::pair<uint32_t, int>> f(n);
  for (size_t i = 0; i < n; ++i) {
    uint32_t x;
    switch (order) {
      case 1: x = (uint32_t)((n - i) * step); break;
      case 3: x = (uint32_t)(((i + n / 3) % n + 1) * step); break;
      case 4: x = (uint32_t)(i < n / 2 ? 2 * i + 2 : 2 * (n - i) + 1); break;
      case 5: x = i % 1000 == 999 ? (uint32_t)i : 7; break;
      default: x = (uint32_t)((i + 1) * step); break;
    }
    f[i] = std::make_pair(x, (int)((i * 7 + n) % 1000) + 1);
  }
  if (order == 2)
    for (int k = (int)g.range(1, 5); k--;) std::swap(f[g.below(n)].first, f[g.below(n)].first);
  c.desc << n << " features, " << on[order] << ", step " << step << "\n";
  c.label(on[order]);
  std::string s = "1";
  for (auto& p : f) s += " " + std::to_string(p.first) + ":" + std::to_string(p.second);
  s += "\n-1 3:4\n";
  std::string path = c.path("long");
  write_file(path, s);
  std::unique_ptr<sol::pario::DataReader> r(sol::pario::DataReader::Create("svm"));
  PBT_CHECK(r && r->Open(path) == 0, "open", "cannot open");
  std::sort(f.begin(), f.end());
  sol::pario::DataPoint p;
  PBT_CHECK(r->Next(p) == 0, "status", "the line is refused");
  PBT_CHECK(p.label() == 1 && p.size() == n, "count", p.size() << " features instead of " << n);
  std::vector<std::pair<uint32_t, int>> got(n);
  for (size_t i = 0; i < n; ++i) got[i] = std::make_pair((uint32_t)p.index(i), (int)p.feature(i));
  for (size_t i = 1; i < n; ++i) PBT_CHECK(got[i - 1].first <= got[i].first, "sort", "feature " << i << " is out of order");
  std::sort(got.begin(), got.end());  // several features of the same index: in any order
  PBT_CHECK(got == f, "value", "the features are not those of the line");
  PBT_CHECK(r->Next(p) == 0 && p.label() == -1 && p.size() == 1 && p.index(0) == 3 && p.feature(0) == 4, "next", "the line after the long one is wrong");
  c.nontrivial = order != 0;
}
}  // namespace
int main(int argc, char** argv) {
  std::vector<pbt::Target> t;
  t.push_back({"svm-read", "one svm text of 1-12 generated lines and a rewind history; non-trivial: at least 2 lines", 40000, 600000, read_case, 20});
  t.push_back({"data-point", "features added to a data point, then sort/clone/clear; non-trivial: at least 3 distinct indices", 20000, 300000, point_case, 20});
  t.push_back({"long-lines", "a line of 20000-250000 features in an order that is hard on a sort, then a short line; non-trivial: not in increasing order", 40, 1500, long_line, 20});
  return pbt::Main(argc, argv, t);
}
