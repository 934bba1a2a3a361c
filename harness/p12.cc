// P12: L1-regularised learners against the reference update
#include "refmodel.h"
using namespace vf;
namespace {
void run(pbt::Gen& g, pbt::Ctx& c, const std::vector<std::string>& algos, long late = 0) {
  Setup s = gen_setup(g, g.pick(algos));
  if (late) s.set("t", std::to_string(late));
  Data d = gen_stream(g, s.cls, 30);
  c.desc << s.str() << "\n" << str(d);
  c.label(s.algo);
  if (s.cls > 2) c.label("multi-class");
  LockRun r;
  r.run(g, c, s, d, late == 0);
  check_sparsity(*r.m);
  c.nontrivial = r.ls->n_updates >= 2;
}
void l1_learners(pbt::Gen& g, pbt::Ctx& c) {
  static const std::vector<std::string> v = {"stg", "fobos-l1", "rda-l1", "erda-l1", "ada-fobos-l1", "ada-rda-l1"};
  run(g, c, v);
}
// the same with an iteration count beyond what single precision counts exactly
void late_learners(pbt::Gen& g, pbt::Ctx& c) {
  long t = (long)g.range(1 << 24, (1 << 24) + (1 << 22));
  if (g.chance(1, 2)) return run(g, c, {"rda-l1", "erda-l1", "ada-rda-l1"}, t);
  // these keep the time of the last shrinkage of each weight in single precision
  try {
    run(g, c, {"stg", "fobos-l1", "ada-fobos-l1"}, t);
  } catch (pbt::Failure& f) {
    if (f.key == "weights" || f.key == "final-weights" || f.key == "scores" || f.key == "decision" || f.key == "label") PBT_FAIL("late-time", f.what());
    throw;
  }
}
}  // namespace
int main(int argc, char** argv) {
  std::vector<pbt::Target> t;
  t.push_back({"l1", "learner x parameters x loss x classes x example stream; non-trivial: at least two updates", 200000, 6000000, l1_learners, 20});
  t.push_back({"l1-late", "the same with 2^24 or more iterations before; non-trivial: at least two updates", 40000, 800000, late_learners, 20});
  return pbt::Main(argc, argv, t);
}
