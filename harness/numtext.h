// numtext.h - spellings of decimal numbers
#ifndef VERIF_NUMTEXT_H_
#define VERIF_NUMTEXT_H_
#include "common.h"
namespace vf {
inline std::string digits(pbt::Gen& g, int n) {
  std::string s;
  for (int i = 0; i < n; ++i) s.push_back((char)('0' + g.below(10)));
  return s;
}
// a decimal number whose magnitude is 0 or within the range of normal floats
inline std::string gen_float_text(pbt::Gen& g) {
  for (int tries = 0; tries < 30; ++tries) {
    std::string s;
    int sg = g.weighted({6, 3, 1});
    if (sg == 1) s += "-";
    if (sg == 2) s += "+";
    switch (g.weighted({4, 4, 2, 2, 2, 1, 2})) {
      case 0:
        s += std::to_string(g.below(10));
        break;
      case 1:  // ordinary decimal
        s += std::to_string(g.below(1000)) + "." + digits(g, (int)g.range(1, 6));
        break;
      case 2:  // many digits
        s += std::to_string(1 + g.below(9)) + digits(g, (int)g.range(0, g.chance(1, 3) ? 36 : 14));
        if (g.chance(1, 2)) s += "." + digits(g, (int)g.range(1, g.chance(1, 3) ? 40 : 14));
        if (g.chance(1, 4)) s += (g.chance(1, 2) ? "e-" : "E-") + std::to_string(g.below(30));
        break;
      case 3:  // small, many zeros
        s += "0." + std::string((size_t)g.range(0, 12), '0') + digits(g, (int)g.range(1, 9));
        if (g.chance(1, 6)) s += (g.chance(1, 2) ? "e+" : "E") + std::to_string(g.below(30));
        break;
      case 4:  // exponent
        s += std::to_string(g.below(100));
        if (g.chance(1, 2)) s += "." + digits(g, (int)g.range(1, 8));
        s += g.chance(1, 2) ? "e" : "E";
        s += g.pick(std::vector<std::string>{"", "+", "-"});
        if (g.chance(1, 4)) s += "0";
        s += std::to_string(g.chance(1, 4) ? g.below(46) : g.below(28));
        break;
      case 5:  // unusual but legal: ".5" "5." leading zeros
        switch (g.below(3)) {
          case 0: s += "." + digits(g, (int)g.range(1, 5)); break;
          case 1: s += std::to_string(g.below(100)) + "."; break;
          default: s += std::string((size_t)g.range(1, g.chance(1, 4) ? 30 : 4), '0') + std::to_string(g.below(1000));
        }
        break;
      default:  // what printf gives for some float
        {
          double v = std::ldexp((double)(g.below(1 << 24)), (int)g.range(-40, 20));
          char b[64];
          snprintf(b, sizeof(b), g.pick(std::vector<const char*>{"%g", "%.9g", "%e", "%f"}), v);
          s += b;
        }
    }
    double v = std::fabs(strtod(s.c_str(), nullptr));
    if (v == 0 || (v >= 1.18e-38 && v <= 3.4e38)) return s;
  }
  return "1";
}
// integer label text
inline std::string gen_label_text(pbt::Gen& g, long long* v) {
  switch (g.weighted({6, 3, 2, 1})) {
    case 0: *v = g.chance(1, 2) ? -1 : 1; break;
    case 1: *v = (long long)g.below(30); break;
    case 2: *v = g.range(-2147483648LL, 2147483647LL); break;
    default: *v = g.pick(std::vector<long long>{-2147483648LL, 2147483647LL, 0, -2147483647LL, 2147483640LL});
  }
  std::string s = std::to_string(*v);
  if (*v >= 0 && g.chance(1, 4)) s = "+" + s;
  if (*v >= 0 && s[0] != 0x2b && g.chance(1, 12)) s = "00" + s;
  // integer written with an exponent or trailing-zero decimal+exponent
  if (*v > 0 && *v < 1000 && g.chance(1, 20)) {
    *v *= 100;
    s = std::to_string(*v / 100);
    if (g.chance(1, 3)) {  // 123 -> 1.23e4
      s = s.substr(0, 1) + "." + s.substr(1);
      s += "e" + std::to_string(s.size() - 2 + 2);
    } else {
      s += g.chance(1, 2) ? "e2" : "E+2";
    }
    if (g.chance(1, 3)) {
      *v = -*v;
      s = "-" + s;
    }
  }
  return s;
}
inline uint32_t gen_big_index(pbt::Gen& g) {
  switch (g.weighted({5, 3, 2, 2, 1})) {
    case 0: return (uint32_t)g.range(1, 40);
    case 1: return (uint32_t)g.range(1, 70000);
    case 2: return (uint32_t)g.range(1, 2147483647LL);
    case 3: return (uint32_t)g.range(2147483648LL, 4294967295LL);
    default: {
      int b = (int)g.range(0, 31);
      int64_t v = (1LL << b) + g.range(-1, 1);
      return (uint32_t)std::max<int64_t>(1, std::min<int64_t>(v, 4294967295LL));
    }
  }
}
// the spellings of an index the reader knows
inline std::string index_text(pbt::Gen& g, uint32_t i) {
  std::string s = std::to_string(i);
  switch (g.weighted({12, 1, 2})) {
    case 1: return std::string((size_t)g.range(1, 12), '0') + s;
    case 2: {
      size_t z = 0;
      while (z + 1 < s.size() && s[s.size() - 1 - z] == '0') ++z;
      if (z == 0) return s;
      z = (size_t)g.range(1, (int64_t)z);
      return s.substr(0, s.size() - z) + (g.chance(1, 2) ? "e" : "E") + (g.chance(1, 3) ? "+" : "") + std::to_string(z);
    }
    default: return s;
  }
}
inline bool value_matches(float got, double want) {
  if (want == 0) return got == 0;
  return std::fabs((double)got - want) <= 1e-5 * std::fabs(want);
}
}  // namespace vf
#endif
