// P05 under generated schedules
#include "iterrun.h"
#include "detsched.h"
using namespace vf;
namespace {
void failfn(const std::string& k, const std::string& m) { sched::fail(k, m); }
void iter_case(pbt::Gen& g, pbt::Ctx& c) {
  IterHist h;
  gen_iter_hist(g, c, h, 3, 9);
  size_t n = 0;
  for (auto& f : h.files) {
    std::vector<Ex> w;
    expected(f, w);
    n += w.size();
  }
  c.nontrivial = n >= 3;
  if (h.phases > 1) c.label("files added after the end");
  sched::run(g, c, [&]() {
    sol::pario::DataIter it(h.batch, h.bufs);
    drive(it, h, -1, false, failfn, c, []() {});
  });
}
}  // namespace
int main(int argc, char** argv) {
  std::vector<pbt::Target> t;
  t.push_back({"iterate-schedules", "files x passes x batch size x buffers x schedule, concatenation compared; non-trivial: at least 3 examples delivered", 30000, 600000, iter_case, 30});
  return pbt::Main(argc, argv, t);
}
