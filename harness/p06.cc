// P06: shutting a data iterator down under generated schedules
#include "iterrun.h"
#include "detsched.h"
using namespace vf;
namespace {
void failfn(const std::string& k, const std::string& m) { sched::fail(k, m); }
// returns the number of allocations that were not released
size_t one(pbt::Gen& g, pbt::Ctx& c) {
  IterHist h;
  gen_iter_hist(g, c, h, 3, 8);
  int stop = g.chance(1, 4) ? -1 : (int)g.range(0, g.chance(1, 8) ? 60 : 12);
  c.desc << (stop < 0 ? std::string("drained") : "abandoned after " + std::to_string(stop) + " batches") << "\n";
  size_t usable = 0;
  for (auto& f : h.files) usable += !f.missing;
  c.nontrivial = usable >= 1 && stop != 0;
  c.label(stop < 0 ? "drained" : stop == 0 ? "never started" : "abandoned midway");
  sched::Stats s = sched::run(g, c, [&]() {
    sched::track(true);
    sol::pario::MiniBatch* held = nullptr;
    {
      sol::pario::DataIter it(h.batch, h.bufs);
      held = drive(it, h, stop, false, failfn, c, []() {});
      sched::point();
    }
    // a batch still in the consumer's hands is the consumer's to release
    if (held != nullptr && sched::tracked(held)) delete held;
    sched::track(false);
  });
  PBT_CHECK(s.unfinished == 0, "thread-leak", s.unfinished << " reader threads still alive after the iterator was destroyed");
  PBT_CHECK(s.unjoined == 0, "thread-leak", s.unjoined << " reader threads have not been joined when the iterator was destroyed");
  return sched::tracked_live();
}
void shutdown_case(pbt::Gen& g, pbt::Ctx& c) {
  size_t left = one(g, c);
  // what is allocated once and kept is no leak: the same history again must leave something again
  for (int k = 0; left > 0 && k < 3; ++k) {
    const std::vector<uint64_t> same = g.choices();
    pbt::Gen g2(same);
    pbt::Ctx c2;
    c2.scratch = c.scratch;
    left = one(g2, c2);
  }
  PBT_CHECK(left == 0, "leak", left << " allocations of the iterator were not released");
}
}  // namespace
int main(int argc, char** argv) {
  std::vector<pbt::Target> t;
  t.push_back({"shutdown", "iterator history, abandonment point and schedule; non-trivial: at least one readable file and the iteration started", 30000, 600000, shutdown_case, 30});
  return pbt::Main(argc, argv, t);
}
