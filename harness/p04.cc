// P04: damaged data files
#include "numtext.h"
using namespace vf;
namespace {
Data small_data(pbt::Gen& g, int maxn, int maxf, uint32_t dim) {
  Data d;
  int n = (int)g.sized(1, maxn);
  for (int i = 0; i < n; ++i) {
    Ex e;
    e.label = g.chance(1, 8) ? g.range(-2147483648LL, 2147483647LL) : (g.chance(1, 2) ? 1 : -1);
    std::set<uint32_t> s;
    int k = (int)g.sized(0, maxf);
    for (int j = 0; j < k; ++j) s.insert(g.chance(1, 6) ? gen_big_index(g) : (uint32_t)g.range(1, dim));
    for (uint32_t x : s) e.f.push_back(std::make_pair(x, nice_value(g)));
    d.push_back(e);
  }
  return d;
}
std::string hex(const std::string& s) {
  std::string o;
  char b[4];
  for (size_t i = 0; i < s.size() && i < 600; ++i) {
    unsigned char ch = (unsigned char)s[i];
    if (ch >= 32 && ch < 127 && ch != '\\') {
      o.push_back((char)ch);
    } else {
      snprintf(b, sizeof(b), "%02x", ch);
      o += std::string("\\x") + b;
    }
  }
  return o;
}
// every truncation point of one binary file
void truncate_case(pbt::Gen& g, pbt::Ctx& c) {
  Data d = small_data(g, 5, 6, 300);
  std::string bytes = to_bin(d);
  std::vector<size_t> ends;  // end offset of each record
  {
    Data pre;
    for (auto& e : d) {
      pre.push_back(e);
      ends.push_back(to_bin(pre).size());
    }
  }
  c.desc << str(d) << "cut at every byte of " << bytes.size();
  c.nontrivial = d.size() >= 2;
  c.count("truncation points", (int)bytes.size() + 1);
  std::string path = c.path("t.bin");
  for (size_t cut = 0; cut <= bytes.size(); ++cut) {
    write_file(path, bytes.substr(0, cut));
    size_t whole = 0;
    while (whole < ends.size() && ends[whole] <= cut) ++whole;
    bool boundary = cut == 0 || (whole > 0 && ends[whole - 1] == cut);
    Data got;
    int st = read_all(path, "bin", &got, d.size() + 5);
    PBT_CHECK(got.size() == whole, "truncated-records", "cut at " << cut << ": " << got.size() << " records delivered, " << whole << " are complete");
    for (size_t i = 0; i < whole; ++i)
      PBT_CHECK(got[i] == d[i], "truncated-content", "cut at " << cut << ": record " << i << " is " << str(got[i]));
    if (boundary)
      PBT_CHECK(st == sol::Status_EndOfFile, "truncated-eof", "cut at record boundary " << cut << ": status " << st);
    else
      PBT_CHECK(st != sol::Status_EndOfFile && st != sol::Status_OK, "truncated-undetected", "cut inside a record at " << cut << " reported as status " << st);
  }
}
void put64(std::string& s, size_t off, uint64_t v) {
  for (int i = 0; i < 8 && off + i < s.size(); ++i) s[off + i] = (char)(v >> (8 * i));
}
uint64_t nasty64(pbt::Gen& g) {
  switch (g.weighted({2, 2, 2, 2, 2})) {
    case 0: return g.below(20);
    case 1: return 1ULL << g.range(0, 63);
    case 2: return ~0ULL - g.below(20);
    case 3: return g.bits(64);
    default: return g.bits((int)g.range(1, 40));
  }
}
// first byte that differs
size_t first_diff(const std::string& a, const std::string& b) {
  size_t i = 0;
  while (i < a.size() && i < b.size() && a[i] == b[i]) ++i;
  return i;
}
void mutate(pbt::Gen& g, std::string& s) {
  int k = (int)g.range(1, 3);
  for (int m = 0; m < k; ++m) {
    size_t off = s.empty() ? 0 : (size_t)g.below(s.size());
    switch (g.weighted({3, 3, 2, 2, 2, 1})) {
      case 0: if (!s.empty()) s[off] = (char)g.below(256); break;
      case 1: if (!s.empty()) s[off] = (char)(s[off] ^ (1 << g.below(8))); break;
      case 2: s.insert(off, 1, (char)g.below(256)); break;
      case 3: if (!s.empty()) s.erase(off, (size_t)g.range(1, 9)); break;
      case 4: if (!s.empty()) s.resize(off); break;
      default: s.insert(off, s.substr(off, (size_t)g.range(1, 20)));
    }
  }
}
void bin_mutate_case(pbt::Gen& g, pbt::Ctx& c) {
  Data d = small_data(g, 5, 6, 300);
  std::string bytes = to_bin(d), bad = bytes;
  std::vector<size_t> starts(1, 0);
  {
    Data pre;
    for (auto& e : d) {
      pre.push_back(e);
      starts.push_back(to_bin(pre).size());
    }
  }
  switch (g.weighted({3, 4, 1})) {
    case 0: mutate(g, bad); break;
    case 1: {  // damage a count or length field of a record, or its index codes
      size_t r = (size_t)g.below(d.size());
      size_t o = starts[r];
      int what = (int)g.below(3);
      if (what == 0 || d[r].f.empty())
        put64(bad, o + 4, nasty64(g));
      else if (what == 1)
        put64(bad, o + 12, nasty64(g));
      else {
        size_t n = starts[r + 1] - (o + 20) - 4 * d[r].f.size();
        for (size_t i = 0; i < n; ++i)
          if (g.chance(1, 2)) bad[o + 20 + i] = (char)(bad[o + 20 + i] | 0x80);
      }
      c.label("count/length/code damage");
      break;
    }
    default: {
      bad.clear();
      int n = (int)g.sized(0, 200);
      for (int i = 0; i < n; ++i) bad.push_back((char)g.below(256));
      c.label("random bytes");
    }
  }
  c.nontrivial = bad != bytes;
  c.desc << hex(bad);
  size_t fd = first_diff(bytes, bad), intact = 0;
  while (intact < d.size() && starts[intact + 1] <= fd) ++intact;
  std::string path = c.path("m.bin");
  write_file(path, bad);
  Data got;
  size_t limit = bad.size() + 2;
  int st = read_all(path, "bin", &got, limit);
  PBT_CHECK(got.size() < limit, "endless", "reader keeps producing records");
  PBT_CHECK(st != sol::Status_OK, "endless", "no end");
  PBT_CHECK(got.size() >= intact, "prefix", "only " << got.size() << " records, " << intact << " are before the damage");
  for (size_t i = 0; i < intact; ++i)
    PBT_CHECK(got[i] == d[i], "prefix", "record " << i << " before the damage is " << str(got[i]));
}
// one malformed line after valid lines
void text_bad_case(pbt::Gen& g, pbt::Ctx& c) {
  bool csv = g.chance(1, 2);
  Data d = small_data(g, 5, 5, 8);
  for (auto& e : d) {
    e.f.erase(std::remove_if(e.f.begin(), e.f.end(), [](const std::pair<uint32_t, float>& p) { return p.first > 8; }), e.f.end());
  }
  std::string text = csv ? to_csv(d, 8) : to_svm(d);
  std::string bad;
  // never (the beginning of) a number
  std::string word = g.pick(std::vector<std::string>{"abc", "x1", "*", "#", "-", "+", ".", "e5", "-.", "nan", "inf", "--1", "+-", "\"1\"", "?", ";", "E"});
  // directly after a number: neither part of it nor a separator
  std::string junk = g.pick(std::vector<std::string>{"abc", "x1", "*", "#", "\"", "?", ";", "/2", "_", "%", "(", "|3", "!"});
  bool nul = g.chance(1, 12);  // (in a line that ends)
  if (nul) junk = std::string("\0", 1) + g.pick(std::vector<std::string>{"", "1", "x", " 5:1"});
  int kind;
  if (csv) {
    // a good line of 8 values, one cell of it damaged
    std::vector<std::string> cell(1, g.chance(1, 2) ? "1" : "-1");
    for (int i = 0; i < 8; ++i) cell.push_back(g.pick(std::vector<std::string>{"0", "1", "-2.5", "1e-3", "7"}));
    kind = nul ? (g.chance(1, 2) ? 5 : 7) : (int)g.below(9);
    std::string sep = ",";
    size_t at = 1 + (size_t)g.below(8);
    switch (kind) {
      case 0: cell[0] = word; break;           // label
      case 1: cell[at] = word; break;          // value
      case 2: cell[at] = ""; break;            // missing value, also the last one
      case 3: cell[at] += " 3"; break;         // missing comma
      case 4: cell[0] = ""; break;             // missing label
      case 5: cell[0] += junk; break;          // label with something behind
      case 6: cell[0] = g.chance(1, 2) ? std::to_string(g.range(2147483648LL, 99999999999LL)) : std::to_string(-g.range(2147483649LL, 99999999999LL)); break;  // label out of range
      case 7: cell[at] += junk; break;         // value with something behind
      default: sep = g.pick(std::vector<std::string>{";", ":", "|", "\t", "/", "'", "x"});  // wrong separator
    }
    for (size_t i = 0; i < cell.size(); ++i) bad += (i == 0 ? "" : i == at ? sep : ",") + cell[i];
  } else {
    kind = nul ? (int)g.range(6, 8) : (int)g.below(12);
    std::string pre = g.chance(1, 2) ? "1 2:0.5 " : "1 ";
    if (g.chance(1, 12)) {
      // far into a long line
      for (int n = (int)g.range(200, 4000), i = 10; n > 0; --n) pre += std::to_string(i += (int)g.range(1, 9)) + ":1 ";
      c.label("long line");
    }
    std::string post = g.chance(1, 2) ? " 9:1" : "";
    switch (kind) {
      case 0: bad = word + " 1:1"; break;                      // label
      case 1: bad = pre + word + ":1" + post; break;           // index
      case 2: bad = pre + "3:" + word + post; break;           // value
      case 3: bad = pre + "3 4 " + post; break;                // missing colon
      case 4: bad = pre + "3:" + post; if (!post.empty()) bad = pre + "3:"; break;  // missing value
      case 5: bad = pre + ":5" + post; break;                  // missing index
      case 6: bad = "1" + junk + " 3:1" + post; break;         // label with something behind
      case 7: bad = pre + "3" + junk + ":1" + post; break;     // index with something behind
      case 8: bad = pre + "3:2.5" + junk + post; break;        // value with something behind
      case 9: bad = std::to_string(g.chance(1, 2) ? g.range(2147483648LL, 99999999999LL) : -g.range(2147483649LL, 99999999999LL)) + " 3:1" + post; break;  // label out of range
      case 10: bad = pre + (g.chance(1, 2) ? std::to_string(g.range(4294967296LL, 999999999999LL)) : std::to_string(-g.range(1, 5000))) + ":1"; break;  // index out of range
      default: bad = pre + "3:1" + g.pick(std::vector<std::string>{",", ":"}) + "4:1" + post;  // wrong separator
    }
  }
  c.label((csv ? "csv kind " : "svm kind ") + std::to_string(kind));
  int after = (int)g.below(3);
  std::string file = text + bad + (after == 0 && !nul && g.chance(1, 3) ? "" : "\n");
  for (int i = 0; i < after; ++i) file += csv ? "1,1,0,0,0,0,0,0,0\n" : "1 1:1\n";
  if (nul) c.label("NUL byte");
  c.desc << (nul || file.size() > 2000 ? hex(text + bad) : file);
  c.label(csv ? "csv" : "svm");
  c.nontrivial = true;
  std::string type = csv ? "csv" : "svm", path = c.path("b." + type);
  write_file(path, file);
  Data got;
  int st = read_all(path, type, &got, 1000);
  PBT_CHECK(st != sol::Status_EndOfFile && st != sol::Status_OK, "accepted", "malformed line not reported: status " << st << ", " << got.size() << " records");
  PBT_CHECK(got == d, "prefix", "records before the malformed line: " << str(got));
  // through the iterator: the same records, then the end
  sol::pario::DataIter it((int)g.range(1, 4), (int)g.range(1, 3));
  PBT_CHECK(it.AddReader(path, type) == sol::Status_OK, "open", "AddReader failed");
  Data via;
  sol::pario::MiniBatch* mb = nullptr;
  while ((mb = it.Next(mb)) != nullptr)
    for (int i = 0; i < mb->size(); ++i) via.push_back(from_point((*mb)[i]));
  PBT_CHECK(via == d, "iter-prefix", "iterator delivered " << str(via));
}
void text_fuzz_case(pbt::Gen& g, pbt::Ctx& c) {
  bool csv = g.chance(1, 2);
  Data d = small_data(g, 6, 6, 12);
  if (csv)
    for (auto& e : d)
      e.f.erase(std::remove_if(e.f.begin(), e.f.end(), [](const std::pair<uint32_t, float>& p) { return p.first > 12; }), e.f.end());
  std::string good = csv ? to_csv(d, 12) : to_svm(d), bad = good;
  switch (g.weighted({4, 3, 2, 2, 1})) {
    case 0: mutate(g, bad); break;
    case 1: {  // splice hostile tokens
      std::string tok = g.pick(std::vector<std::string>{
          "99999999999999999999", "1e999999999999", "-99999999999", "1e-99999999999", "0.00000000000000000000000000000000000000000000000001",
          "4294967296:1", "1:1e50", ":::", "\n\n", " \t ", "1:2:3", std::string(5000, '1'), std::string(3000, '.'), "1e", "e", "+", "-", "1.5e3", "2.5", "\r"});
      bad.insert((size_t)g.below(bad.size() + 1), tok);
      c.label("hostile token");
      break;
    }
    case 2: {  // NUL bytes
      int n = (int)g.sized(1, 60);
      for (int i = 0; i < n; ++i) bad.insert((size_t)g.below(bad.size() + 1), 1, '\0');
      if (g.chance(1, 2)) {
        std::string z;
        int m = (int)g.range(1, 60);
        for (int i = 0; i < m; ++i) z += std::string("\0\n", 2);
        bad.insert((size_t)g.below(bad.size() + 1), z);
      }
      c.label("NUL bytes");
      break;
    }
    case 3: {  // text-like noise
      bad.clear();
      static const char al[] = "0123456789:.,eE+- \t\n\r-1";
      int n = (int)g.sized(0, 300);
      for (int i = 0; i < n; ++i) bad.push_back(al[g.below(sizeof(al) - 1)]);
      c.label("noise");
      break;
    }
    default: {  // a binary file read as text
      bad = to_bin(d);
      c.label("binary as text");
    }
  }
  c.nontrivial = bad != good;
  std::string type = csv ? "csv" : "svm", path = c.path("f." + type);
  c.desc << type << ": " << hex(bad);
  write_file(path, bad);
  size_t fd = first_diff(good, bad);
  // records on lines wholly before the damage (and terminated before it)
  size_t lines = (size_t)std::count(good.begin(), good.begin() + std::min(fd, good.size()), '\n');
  size_t intact = csv ? (lines > 0 ? lines - 1 : 0) : lines;
  size_t total_lines = (size_t)std::count(bad.begin(), bad.end(), '\n') + 1;
  Data got;
  int st = read_all(path, type, &got, total_lines + 10);
  if (st >= 1000) {
    PBT_CHECK(csv && lines == 0, "open", "open failed with status " << st);
    return;
  }
  PBT_CHECK(st != sol::Status_OK && got.size() <= total_lines, "endless", got.size() << " records from " << total_lines << " lines");
  PBT_CHECK(got.size() >= intact, "prefix", "only " << got.size() << " records, " << intact << " are before the damage");
  for (size_t i = 0; i < intact; ++i)
    PBT_CHECK(got[i] == d[i], "prefix", "record " << i << " before the damage is " << str(got[i]));
}
}  // namespace
int main(int argc, char** argv) {
  std::vector<pbt::Target> t;
  t.push_back({"bin-truncate", "one generated binary file cut at every byte offset; non-trivial: at least 2 records", 1200, 20000, truncate_case, 60});
  t.push_back({"bin-mutate", "one generated binary file damaged (bytes, counts, lengths, codes) or random; non-trivial: content differs from the valid file", 40000, 800000, bin_mutate_case, 20});
  t.push_back({"text-malformed-line", "valid lines, one malformed line of a known kind, more lines; all are non-trivial", 12000, 200000, text_bad_case, 20});
  t.push_back({"text-fuzz", "mutated svm/csv text, hostile tokens, NULs, noise, binary as text; non-trivial: differs from the valid text", 40000, 800000, text_fuzz_case, 20});
  return pbt::Main(argc, argv, t);
}
