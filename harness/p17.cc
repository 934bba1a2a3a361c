// P17: prediction and testing
#include "refmodel.h"
#include <sol/c_api.h>
using namespace vf;
namespace {
typedef sol::pario::DataIter DataIter;
struct Pred {
  long long label, pred;
  std::vector<float> sc;
};
void collect(void* ctx, double label, double pred, int n, float* sc) {
  Pred p;
  p.label = (long long)label;
  p.pred = (long long)pred;
  p.sc.assign(sc, sc + n);
  ((std::vector<Pred>*)ctx)->push_back(p);
}
std::vector<std::vector<float>> weights(OLM& m) {
  std::vector<std::vector<float>> r;
  for (int c = 0; c < m.clf_num(); ++c) {
    r.push_back(std::vector<float>());
    for (size_t i = 0; i < m.w(c).size(); ++i) r.back().push_back(m.w(c)[i]);
  }
  return r;
}
Data gen_probe(pbt::Gen& g, int cls, int maxn) {
  Data d = gen_stream(g, cls, maxn, 10);
  for (auto& e : d) {
    if (g.chance(1, 6)) e.label = g.range(-3, 6);
    if (g.chance(1, 6)) e.f.push_back(std::make_pair((uint32_t)(e.f.empty() ? 0 : e.f.back().first) + (uint32_t)g.range(1, 100000), nice_value(g)));
  }
  return d;
}
// preprocessing in double precision
XY prep(const Ex& e, const Setup& s) {
  XY x;
  x.y = s.cls == 2 ? (e.label == 1 ? 1 : -1) : e.label;
  double n = 0;
  std::string norm;
  for (auto& p : s.p) if (p.first == "norm") norm = p.second;
  if (s.algo == "alma2") norm = "L2";
  for (auto& p : e.f) n += norm == "L1" ? std::fabs(p.second) : norm == "L2" ? (double)p.second * p.second : 0;
  if (norm == "L2") n = std::sqrt(n);
  if (norm.empty() || n == 0) n = 1;
  for (auto& p : e.f) x.f.push_back(std::make_pair(p.first, p.second / n));
  return x;
}
void decision(pbt::Gen& g, pbt::Ctx& c) {
  Setup s = gen_setup(g, g.pick(all_algos()), true);
  Data d = gen_stream(g, s.cls, 16);
  c.label(s.algo);
  c.desc << s.str() << "\ntrain\n" << str(d);
  std::unique_ptr<OLM> m(make_model(s));
  m->set_iterate_callback(nullptr, nullptr);
  bool trained = !g.chance(1, 12);
  if (trained) {
    VecIter it(d, (int)g.range(1, 5));
    m->Train(it);
  }
  Data probe = gen_probe(g, s.cls, 10);
  c.desc << "test\n" << str(probe);
  if (s.cls < 10 && g.chance(1, 400)) {
    // a large test set: the same again and again
    size_t n = (size_t)g.range(1000, 9000), k = probe.size();
    for (size_t i = k; i < n; ++i) {
      probe.push_back(probe[i % k]);
      if (i % 3 == 0) probe.back().label = s.cls == 2 ? -probe.back().label : (probe.back().label + 1) % s.cls;
    }
    c.desc << "repeated to " << n << " examples with other labels\n";
    c.label("large test set");
  }
  std::vector<std::vector<float>> w;
  // the ways to test, in any order, any number of times
  int n = (int)g.range(1, 4);
  bool nz = false;
  for (int k = 0; k < n; ++k) {
    int how = (int)g.below(4);
    VecIter it(probe, (int)g.range(1, g.chance(1, 20) ? 500 : 5));
    std::vector<Pred> out;
    std::string text;
    float err = -1;
    if (how == 0) {
      std::ostringstream os;
      err = m->Test(it, &os);
      text = os.str();
    } else if (how == 1) {
      std::string p = c.path("out");
      before_output(g, p);
      err = sol_Test((sol::model::Model*)m.get(), (DataIter*)&it, p.c_str());
      text = read_file(p);
    } else if (how == 2) {
      err = g.chance(1, 2) ? m->Test(it, nullptr) : sol_Test((sol::model::Model*)m.get(), (DataIter*)&it, nullptr);
    } else {
      int cnt = sol_Predict((sol::model::Model*)m.get(), (DataIter*)&it, collect, &out);
      PBT_CHECK(cnt == (int)probe.size() && out.size() == probe.size(), "count", "sol_Predict delivered " << out.size() << " and reported " << cnt << " of " << probe.size());
    }
    auto w2 = weights(*m);
    if (w.empty()) w = w2;
    PBT_CHECK(w == w2, "changed", "testing again changed the weights");
    // the decision rule on those weights
    std::vector<Pred> mine;
    size_t wrong = 0;
    for (auto& e : probe) {
      sol::pario::DataPoint dp;
      to_point(e, dp);
      m->PreProcess(dp);
      XY x = prep(e, s);
      Pred p;
      p.sc.assign(w.size(), 0);
      std::vector<float> buf(w.size() + 1, 777.f);
      p.pred = m->Predict(dp, buf.data());
      PBT_CHECK(buf[w.size()] == 777.f, "overrun", "more scores than classes");
      p.sc.assign(buf.begin(), buf.end() - 1);
      p.label = dp.label();
      PBT_CHECK(p.label == x.y, "label", "label " << e.label << " became " << p.label);
      for (size_t q = 0; q < w.size(); ++q) {
        double sc = w[q][0], mag = std::fabs(sc);
        for (auto& f : x.f)
          if (f.first < w[q].size()) {
            sc += w[q][f.first] * f.second;
            mag += std::fabs(w[q][f.first] * f.second);
            nz |= w[q][f.first] * f.second != 0;
          }
        if (mag > 1e33) throw pbt::Discard();  // settings with which the algorithm itself diverges
        PBT_CHECK(std::isfinite(p.sc[q]) && std::fabs(sc - p.sc[q]) <= 1e-6 + 2e-5 * mag, "score", "score of class " << q << " is " << p.sc[q] << ", weights give " << sc << " on " << str(e));
      }
      long long want = w.size() == 1 ? (p.sc[0] >= 0 ? 1 : -1) : (long long)(std::max_element(p.sc.begin(), p.sc.end()) - p.sc.begin());
      PBT_CHECK(p.pred == want, "decision", "predicted " << p.pred << " with first score " << p.sc[0] << " instead of " << want << " on " << str(e));
      wrong += want != x.y;
      mine.push_back(p);
    }
    if (how == 3) {
      for (size_t i = 0; i < mine.size(); ++i)
        PBT_CHECK(out[i].label == mine[i].label && out[i].pred == mine[i].pred && out[i].sc == mine[i].sc, "predict", "sol_Predict: example " << i + 1 << " has label " << out[i].label << ", prediction " << out[i].pred << ", score " << out[i].sc[0] << " instead of "
                                                                                                                                            << mine[i].label << ", " << mine[i].pred << ", " << mine[i].sc[0]);
    } else {
      float want = (float)((double)wrong / (double)probe.size());
      PBT_CHECK(std::fabs(err - want) <= 1e-6, "error-rate", "error rate " << err << ", but " << wrong << " of " << probe.size() << " are wrong");
    }
    if (how < 2) {
      std::istringstream in(text);
      std::string line;
      PBT_CHECK(std::getline(in, line) && line.compare(0, 5, "label") == 0, "output", "no header line in the output:\n" << text);
      for (size_t i = 0; i < mine.size(); ++i) {
        PBT_CHECK(bool(std::getline(in, line)), "output", "no output line for example " << i + 1 << ":\n" << text);
        std::istringstream ls(line);
        long long y, z;
        ls >> y >> z;
        PBT_CHECK(ls && y == mine[i].label && z == mine[i].pred, "output", "line '" << line << "' instead of label " << mine[i].label << ", prediction " << mine[i].pred);
        for (float v : mine[i].sc) {
          double r;
          ls >> r;
          PBT_CHECK(ls && std::fabs(r - v) <= 1e-5 * std::fabs(v) + 1e-30, "output", "line '" << line << "' instead of score " << v);
        }
        std::string rest;
        PBT_CHECK(!(ls >> rest), "output", "more scores than classes in '" << line << "'");
      }
      PBT_CHECK(!std::getline(in, line), "output", "more lines than examples: '" << line << "'");
    }
  }
  c.nontrivial = trained && nz;
}
// looking at a model does not alter what it learns
void interleave(pbt::Gen& g, pbt::Ctx& c) {
  std::string a;
  do a = g.pick(all_algos());
  while (is_lazy_l1(a) || a == "adarda-ofs");
  Setup s = gen_setup(g, a, true);
  if (starts(a, "ada-rda")) s.drop("bias_eta");  // its bias is rounded in another order when training ends
  c.label(a);
  c.desc << s.str() << "\n";
  std::unique_ptr<OLM> m(make_model(s)), r(make_model(s));
  m->set_iterate_callback(nullptr, nullptr);
  r->set_iterate_callback(nullptr, nullptr);
  int n = (int)g.range(1, 4), looks = 0;
  for (int k = 0; k < n; ++k) {
    Data d = gen_stream(g, s.cls, 12);
    c.desc << "train\n" << str(d);
    VecIter i1(d, 3), i2(d, 3);
    float e1 = m->Train(i1), e2 = r->Train(i2);
    PBT_CHECK(e1 == e2, "later", "training error " << e1 << " after testing, " << e2 << " without");
    int q = (int)g.below(4);
    for (int j = 0; j < q; ++j) {
      Data probe = gen_probe(g, s.cls, 4);
      VecIter it(probe, 2);
      std::vector<Pred> out;
      ++looks;
      switch (g.below(5)) {
        case 0: c.desc << "test\n" << str(probe); m->Test(it, nullptr); break;
        case 1: c.desc << "predict\n" << str(probe); sol_Predict((sol::model::Model*)m.get(), (DataIter*)&it, collect, &out); break;
        case 2: c.desc << "sparsity\n"; m->model_sparsity(); break;
        case 3: c.desc << "info\n"; m->model_info(); break;
        default: c.desc << "save\n"; m->Save(c.path("m")); break;
      }
    }
  }
  m->EndTrain();
  r->EndTrain();
  PBT_CHECK(m->update_num() == r->update_num() && m->cur_iter_num() == r->cur_iter_num(), "later", "counters differ after testing");
  auto w1 = weights(*m), w2 = weights(*r);
  for (size_t q = 0; q < w1.size(); ++q) {
    PBT_CHECK(w1[q].size() == w2[q].size(), "later", "dimension " << w1[q].size() << " after testing, " << w2[q].size() << " without");
    for (size_t i = 0; i < w1[q].size(); ++i)
      PBT_CHECK(w1[q][i] == w2[q][i], "later", std::setprecision(9) << "weight " << i << " is " << w1[q][i] << " when tested in between, " << w2[q][i] << " without");
  }
  c.nontrivial = looks > 0 && m->update_num() >= 2;
}
}  // namespace
int main(int argc, char** argv) {
  std::vector<pbt::Target> t;
  t.push_back({"decision", "learner x parameters x training stream x test data with unseen features and odd labels, tested in several ways; non-trivial: a trained weight meets a test feature", 50000, 1500000, decision, 20});
  t.push_back({"interleave", "training histories with and without tests, predictions and saves in between; non-trivial: at least one look and two updates", 50000, 1500000, interleave, 20});
  return pbt::Main(argc, argv, t);
}
