// P05 with real threads: bigger files, random delays on the consumer side
#include <unistd.h>
#include <memory>
#include "iterrun.h"
using namespace vf;
namespace {
void failfn(const std::string& k, const std::string& m) { throw pbt::Failure(k, m); }
void iter_case(pbt::Gen& g, pbt::Ctx& c) {
  IterHist h;
  gen_iter_hist(g, c, h, 4, 60);
  if (g.chance(1, 2)) h.batch = (int)g.range(1, 64);
  if (g.chance(1, 3)) h.bufs = (int)g.range(1, 16);
  c.desc << "(batch size " << h.batch << ", " << h.bufs << " buffers)\n";
  size_t n = 0;
  for (auto& f : h.files) {
    std::vector<Ex> w;
    expected(f, w);
    n += w.size();
  }
  c.nontrivial = n >= 3;
  if (n > (size_t)h.batch * h.bufs) c.label("more examples than buffers hold");
  int slow = (int)g.below(3);
  sol::pario::DataIter it(h.batch, h.bufs);
  drive(it, h, -1, false, failfn, c, [&]() {
    if (slow == 1 && g.chance(1, 4)) usleep((useconds_t)g.range(0, 300));
    if (slow == 2) sched_yield();
  });
}
// big files: many examples, or examples with many features between small ones
void large_case(pbt::Gen& g, pbt::Ctx& c) {
  IterHist h;
  h.batch = g.chance(1, 3) ? (int)g.range(1, 9) : (int)g.range(10, 5000);
  h.bufs = g.chance(1, 3) ? (int)g.range(1, 3) : (int)g.range(4, 100);
  h.phases = 1;
  c.desc << "batch size " << h.batch << ", " << h.bufs << " buffers\n";
  int nf = (int)g.range(1, 3);
  for (int id = 1; id <= nf; ++id) {
    IterFile f;
    f.type = g.pick(std::vector<std::string>{"svm", "bin", "csv"});
    f.path = c.path("f" + std::to_string(id) + "." + f.type);
    f.passes = (int)g.range(1, 4);
    f.missing = f.broken = false;
    bool wide = f.type != "csv" && g.chance(1, 3);
    int n = wide ? (int)g.range(200, 2000) : g.chance(1, 3) ? (int)g.range(60000, 90000) : (int)g.range(1000, 30000);
    int every = (int)g.range(3, 40), many = (int)g.range(300, 6000);
    for (int i = 0; i < n; ++i) {
      Ex e;
      e.label = id * 1000000 + i;
      int k = wide && i % every == 0 ? many : i % 3;
      for (int j = 1; j <= k; ++j) e.f.push_back(std::make_pair((uint32_t)(wide ? j * 3 : j), (float)((i + j) % 9 + 1) / 4.f));
      f.data.push_back(e);
    }
    c.desc << "file " << id << " " << f.type << " " << n << " examples x " << f.passes << " passes" << (wide ? ", every " + std::to_string(every) + "th with " + std::to_string(many) + " features" : std::string()) << "\n";
    write_data(f.path, f.type, f.data, 3);
    h.files.push_back(f);
  }
  h.first.push_back((int)h.files.size());
  c.nontrivial = true;
  sol::pario::DataIter it(h.batch, h.bufs);
  drive(it, h, -1, false, failfn, c, []() {});
}
// several iterators alive at once, read in turn: each delivers its own files
void together_case(pbt::Gen& g, pbt::Ctx& c) {
  struct One {
    IterHist h;
    std::unique_ptr<sol::pario::DataIter> it;
    std::vector<Ex> want;
    size_t k = 0, at = 0;
    sol::pario::MiniBatch* mb = nullptr;
    bool done = false;
  };
  int m = (int)g.range(2, 4);
  std::vector<One> all(m);
  size_t n = 0;
  for (int i = 0; i < m; ++i) {
    c.desc << "iterator " << i << ": ";
    gen_iter_hist(g, c, all[i].h, 3, 30, "i" + std::to_string(i));
    if (g.chance(1, 3)) all[i].h.batch = (int)g.range(1, 40);
    for (auto& f : all[i].h.files) {
      std::vector<Ex> w;
      expected(f, w);
      n += w.size();
    }
  }
  c.nontrivial = n >= 6;
  bool upfront = g.chance(1, 2);  // all constructed and loaded before the first is read
  auto start = [&](int i) {
    One& o = all[i];
    o.it.reset(new sol::pario::DataIter(o.h.batch, o.h.bufs));
    for (auto& f : o.h.files) {
      int ret = o.it->AddReader(f.path, f.type, f.passes);
      PBT_CHECK((ret == sol::Status_OK) != f.missing, "add", "iterator " << i << ": AddReader(" << f.path << ") returned " << ret);
      expected(f, o.want);
    }
  };
  if (upfront)
    for (int i = 0; i < m; ++i) start(i);
  c.desc << "reads:";
  for (int left = m; left > 0;) {
    int i = (int)g.below(m);
    One& o = all[i];
    if (o.done) {
      for (i = 0; all[i].done; ++i) {}
    }
    One& p = all[i];
    if (!p.it) start(i);
    c.desc << " " << i;
    p.mb = p.it->Next(p.mb);
    if (p.mb == nullptr) {
      PBT_CHECK(p.k == p.want.size(), "lost", "iterator " << i << " of " << m << ": only " << p.k << " of " << p.want.size() << " examples delivered");
      p.done = true;
      --left;
      if (g.chance(1, 2)) p.it.reset();
      continue;
    }
    for (int j = 0; j < p.mb->size(); ++j, ++p.k) {
      Ex e = from_point((*p.mb)[j]);
      PBT_CHECK(p.k < p.want.size(), "extra", "iterator " << i << " of " << m << ": example " << str(e) << " after all " << p.want.size() << " of its files");
      PBT_CHECK(e == p.want[p.k], "sequence", "iterator " << i << " of " << m << ": example " << p.k << " is " << str(e) << " instead of " << str(p.want[p.k]));
    }
  }
  c.desc << "\n";
}
}  // namespace
int main(int argc, char** argv) {
  std::vector<pbt::Target> t;
  t.push_back({"iterate", "files x passes x batch size x buffers with OS scheduling and consumer delays; non-trivial: at least 3 examples delivered", 12000, 200000, iter_case, 20});
  t.push_back({"iterate-large", "files of 1000 to 90000 examples or with examples of thousands of features, batches to 5000, 100 buffers; non-trivial: all", 32, 500, large_case, 60});
  t.push_back({"iterators-together", "2 to 4 iterators with files of their own alive at once, read in a generated order; non-trivial: at least 6 examples delivered", 4000, 60000, together_case, 20});
  return pbt::Main(argc, argv, t);
}
