// runs an IterHist, abandoning after `stop` calls to Next (negative: never)
#ifndef VERIF_ITERRUN_H_
#define VERIF_ITERRUN_H_
#include "iterhist.h"
namespace vf {
typedef void (*FailFn)(const std::string& key, const std::string& msg);

// returns the batch still held by the consumer
inline sol::pario::MiniBatch* drive(sol::pario::DataIter& it, const IterHist& h, int stop, bool give_back_last, FailFn fail, pbt::Ctx& c,
                                    const std::function<void()>& pause) {
  int calls = 0;
  size_t at = 0;  // files added
  sol::pario::MiniBatch* mb = nullptr;
  for (int p = 0; p < h.phases; ++p) {
    std::vector<Ex> want;
    for (; at < (size_t)h.first[p]; ++at) {
      const IterFile& f = h.files[at];
      int ret = it.AddReader(f.path, f.type, f.passes);
      if ((ret == sol::Status_OK) == f.missing)
        fail("add", "AddReader(" + f.path + ") returned " + std::to_string(ret));
      expected(f, want);
    }
    size_t k = 0;
    for (;;) {
      if (stop >= 0 && calls >= stop) return mb;
      ++calls;
      pause();
      mb = it.Next(mb);
      if (mb == nullptr) break;
      if (mb->size() > std::max(h.batch, 1) || mb->size() < 0) fail("batch", "batch of " + std::to_string(mb->size()) + " examples, batch size " + std::to_string(h.batch));
      for (int i = 0; i < mb->size(); ++i, ++k) {
        Ex e = from_point((*mb)[i]);
        if (k >= want.size()) fail("extra", "example " + str(e) + " delivered after all " + std::to_string(want.size()) + " examples of the files");
        if (!(e == want[k])) fail("sequence", "example " + std::to_string(k) + " is " + str(e) + " instead of " + str(want[k]));
      }
    }
    if (k != want.size()) fail("lost", "only " + std::to_string(k) + " of " + std::to_string(want.size()) + " examples delivered");
    for (int r = 0; r < 2; ++r)
      if (it.Next(nullptr) != nullptr) fail("end", "a batch is delivered after the end");
  }
  return nullptr;
}
}  // namespace vf
#endif
