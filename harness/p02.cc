// P02: reading csv text
#include "numtext.h"
using namespace vf;
namespace {
void csv_case(pbt::Gen& g, pbt::Ctx& c) {
  int width = g.chance(1, 15) ? (int)g.range(100, 900) : g.chance(1, 20) ? 0 : (int)g.sized(1, 20);
  if (width == 0) c.label("no value columns");
  int nlines = (int)g.sized(0, 12);
  bool huge = g.chance(1, 300);
  uint64_t mul = 1;
  if (huge) {
    width = (int)g.range(30000, 180000);
    nlines = (int)g.range(1, 2);
    mul = g.range(1, 1000);
    c.label("tens of thousands of columns");
  }
  bool crlf = g.chance(1, 5), final_nl = !g.chance(1, 4), blanks = g.chance(1, 4);
  int zero_pct = (int)g.range(0, 100);
  struct Line { long long label; std::vector<double> v; };
  std::vector<Line> want;
  std::string text;
  // header: any text with the right number of columns
  switch (g.below(4)) {
    case 0: text = "class"; break;
    case 1: text = "1"; break;  // looks like data
    case 2: text = "the label"; break;
    default: text = "y";
  }
  bool numeric_header = g.chance(1, 3);
  for (int i = 1; i <= width; ++i) text += numeric_header ? "," + std::to_string(i) : ",v" + std::to_string(i);
  if (g.chance(1, 40)) pad_line(g, text);
  if (crlf) text += "\r";
  size_t longest = text.size();
  if (nlines > 0 || final_nl) text += "\n";
  int zeros = 0;
  auto pad = [&]() { return blanks && g.chance(1, 4) ? std::string(g.chance(1, 3) ? "\t" : " ") : std::string(); };
  for (int l = 0; l < nlines; ++l) {
    Line ln;
    std::string s = pad() + gen_label_text(g, &ln.label) + pad();
    for (int i = 0; i < width; ++i) {
      std::string v;
      if (huge) {
        v = std::to_string((int)(((uint64_t)i * mul + l) % 7) - 3);
      } else if ((int)g.below(100) < zero_pct) {
        v = g.pick(std::vector<std::string>{"0", "0.0", "0e3", "-0"});
        ++zeros;
      } else if (width > 60) {
        v = std::to_string(g.range(-99, 99));
      } else {
        v = gen_float_text(g);
      }
      ln.v.push_back(strtod(v.c_str(), nullptr));
      s += huge ? "," + v : "," + pad() + v + pad();
    }
    if (g.chance(1, 40)) pad_line(g, s);
    if (crlf) s += "\r";
    longest = std::max(longest, s.size());
    text += s;
    if (l + 1 < nlines || final_nl) text += "\n";
    want.push_back(ln);
  }
  if (longest >= 4095) c.label("line longer than the initial buffer");
  if (zeros) c.label("zero columns");
  if (nlines == 0) c.label("no data lines");
  c.nontrivial = nlines >= 2;
  c.desc << (text.size() > 3000 ? text.substr(0, 3000) + "..." : text) << "\n";
  std::string path = c.path("d.csv");
  write_file(path, text);
  std::unique_ptr<sol::pario::DataReader> r(sol::pario::DataReader::Create("csv"));
  PBT_CHECK(r != nullptr, "create", "no csv reader");
  PBT_CHECK(r->Open(path) == sol::Status_OK, "open", "open failed");
  int passes = (int)g.range(1, 4);
  c.desc << "passes:";
  sol::pario::DataPoint p;
  for (int k = 0; k < passes; ++k) {
    size_t stop = k + 1 < passes ? (size_t)g.range(0, (int64_t)want.size() + 1) : want.size() + 1;
    c.desc << " " << stop;
    for (size_t i = 0; i < stop; ++i) {
      int ret = r->Next(p);
      if (i == want.size()) {
        PBT_CHECK(ret == sol::Status_EndOfFile, "eof", "status " << ret << " instead of end of file");
        break;
      }
      PBT_CHECK(ret == sol::Status_OK, "status", "line " << i + 2 << ": status " << ret);
      PBT_CHECK(p.label() == want[i].label, "label", "data line " << i + 1 << ": label " << p.label() << " instead of " << want[i].label);
      size_t j = 0;
      for (int col = 0; col < width; ++col) {
        double v = want[i].v[col];
        if (v == 0) continue;
        PBT_CHECK(j < p.size(), "count", "data line " << i + 1 << ": only " << p.size() << " features");
        PBT_CHECK(p.index(j) == (uint32_t)col + 1, "index", "data line " << i + 1 << ": index " << p.index(j) << " instead of " << col + 1);
        PBT_CHECK(value_matches(p.feature(j), v), "value", "data line " << i + 1 << " column " << col + 1 << ": " << p.feature(j) << " instead of " << v);
        ++j;
      }
      PBT_CHECK(j == p.size(), "count", "data line " << i + 1 << ": " << p.size() << " features instead of " << j);
    }
    r->Rewind();
  }
}
}  // namespace
int main(int argc, char** argv) {
  std::vector<pbt::Target> t;
  t.push_back({"csv-read", "one csv text of 0-12 generated data lines, 0 to 900 value columns, and a rewind history; non-trivial: at least 2 data lines", 80000, 1000000, csv_case, 20});
  return pbt::Main(argc, argv, t);
}
