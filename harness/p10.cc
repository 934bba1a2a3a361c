// P10: first-order learners against the reference update
#include "refmodel.h"
using namespace vf;
namespace {
void run(pbt::Gen& g, pbt::Ctx& c, const std::vector<std::string>& algos) {
  Setup s = gen_setup(g, g.pick(algos));
  Data d = gen_stream(g, s.cls, 30, 8, true, true);
  // (large values are ill-conditioned for the others)
  if (g.chance(1, 30)) rescale(g, c, d, -14, s.algo == "perceptron" || starts(s.algo, "pa") ? 11 : 0);
  c.desc << s.str() << "\n" << str(d);
  c.label(s.algo);
  if (s.cls > 2) c.label("multi-class");
  LockRun r;
  r.run(g, c, s, d);
  c.nontrivial = r.ls->n_updates >= 2;
}
void first_order(pbt::Gen& g, pbt::Ctx& c) {
  static const std::vector<std::string> v = {"perceptron", "ogd", "pa", "pa1", "pa2", "alma2", "rda"};
  run(g, c, v);
}
}  // namespace
int main(int argc, char** argv) {
  std::vector<pbt::Target> t;
  t.push_back({"first-order", "learner x parameters x loss x classes x example stream; non-trivial: at least two updates", 200000, 6000000, first_order, 20});
  return pbt::Main(argc, argv, t);
}
