// histories of a DataIter: files, passes, batch sizes, next/add calls
#ifndef VERIF_ITERHIST_H_
#define VERIF_ITERHIST_H_
#include "common.h"
namespace vf {

struct IterFile {
  std::string path, type;
  Data data;
  int passes;
  bool broken;       // ends in a malformed record
  bool missing;
};
struct IterHist {
  int batch, bufs;
  std::vector<IterFile> files;  // in the order they are added
  std::vector<int> first;       // number of files added before the k-th phase
  int phases;
};

inline Data gen_iter_data(pbt::Gen& g, int id, int maxn) {
  Data d;
  int n = (int)g.sized(0, maxn);
  for (int i = 0; i < n; ++i) {
    Ex e;
    e.label = id * 1000 + i + 1;  // identifies the example
    int k = (int)g.below(3);
    uint32_t ix = 0;
    for (int j = 0; j < k; ++j) {
      ix += (uint32_t)g.range(1, 3);
      e.f.push_back(std::make_pair(ix, nice_value(g)));
    }
    d.push_back(e);
  }
  return d;
}

inline void gen_iter_hist(pbt::Gen& g, pbt::Ctx& c, IterHist& h, int maxfiles, int maxn, const std::string& prefix = "") {
  h.batch = (int)g.range(1, 5);
  h.bufs = (int)g.range(1, 4);
  // sizes below 1 count as 1
  if (g.chance(1, 24)) h.batch = (int)g.range(-1, 0);
  if (g.chance(1, 24)) h.bufs = (int)g.range(-1, 0);
  if (h.batch < 1 || h.bufs < 1) c.label("batch size or buffers below 1");
  h.phases = g.chance(1, 4) ? 2 : 1;
  c.desc << "batch size " << h.batch << ", " << h.bufs << " buffers\n";
  int id = 0;
  // many files or many passes over little data
  bool many_files = g.chance(1, 24), many_passes = g.chance(1, 24);
  if (many_files) c.label("many files");
  if (many_passes) c.label("many passes");
  if (many_files || many_passes) maxn = std::min(maxn, 4);
  for (int p = 0; p < h.phases; ++p) {
    int nf = many_files ? (int)g.range(4, 20) : (int)g.range(0, maxfiles);
    for (int i = 0; i < nf; ++i) {
      IterFile f;
      ++id;
      f.type = g.pick(std::vector<std::string>{"svm", "bin", "csv"});
      f.path = c.path(prefix + "f" + std::to_string(id) + "." + f.type);
      f.data = gen_iter_data(g, id, maxn);
      f.passes = (int)g.weighted({1, 6, 2, 1});
      if (many_passes && f.passes) f.passes = (int)g.range(4, many_files ? 12 : 40);
      f.missing = g.chance(1, 15);
      f.broken = false;
      if (!f.missing) {
        write_data(f.path, f.type, f.data, 6);
        if (g.chance(1, 12)) {
          f.broken = true;
          FILE* fp = fopen(f.path.c_str(), "ab");
          fputs(f.type == "bin" ? "\1" : "x\n", fp);
          fclose(fp);
          c.label("file ends in a malformed record");
        }
      } else {
        f.path = c.path(prefix + "missing" + std::to_string(id));
      }
      c.desc << "phase " << p << " file " << id << " " << f.type << (f.missing ? " missing" : "") << (f.broken ? " broken" : "") << " " << f.data.size() << " examples x " << f.passes << " passes\n";
      h.files.push_back(f);
    }
    h.first.push_back((int)h.files.size());
  }
}
inline void expected(const IterFile& f, std::vector<Ex>& out) {
  if (f.missing) return;
  int passes = f.broken ? std::min(f.passes, 1) : f.passes;
  for (int k = 0; k < passes; ++k) out.insert(out.end(), f.data.begin(), f.data.end());
}
}  // namespace vf
#endif
