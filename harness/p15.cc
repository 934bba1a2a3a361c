// P15: saving and loading models
#include "refmodel.h"
#include <sol/c_api.h>
using namespace vf;
namespace {
std::vector<std::vector<float>> weights(OLM& m) {
  std::vector<std::vector<float>> r;
  for (int c = 0; c < m.clf_num(); ++c) {
    r.push_back(std::vector<float>());
    for (size_t i = 0; i < m.w(c).size(); ++i) r.back().push_back(m.w(c)[i]);
  }
  return r;
}
bool same(float a, float b) { return a == b || (std::isnan(a) && std::isnan(b)); }
void same_weights(OLM& a, OLM& b, const char* when) {
  auto x = weights(a), y = weights(b);
  PBT_CHECK(x.size() == y.size(), "weights", when << ": " << x.size() << " and " << y.size() << " classifiers");
  for (size_t c = 0; c < x.size(); ++c) {
    PBT_CHECK(x[c].size() == y[c].size(), "weights", when << ": dimension " << x[c].size() << " and " << y[c].size());
    for (size_t i = 0; i < x[c].size(); ++i)
      PBT_CHECK(same(x[c][i], y[c][i]), "weights", std::setprecision(9) << when << ": weight " << i << " of class " << c << " is " << x[c][i] << " in the original, " << y[c][i] << " in the loaded model");
  }
}
void quiet(OLM& m) { m.set_iterate_callback(nullptr, nullptr); }
void train(OLM& m, const Data& d, int batch) {
  VecIter it(d, batch);
  m.Train(it);
}
std::string test(OLM& m, const Data& d, float* err) {
  VecIter it(d, 4);
  std::ostringstream os;
  os.precision(9);
  *err = m.Test(it, &os);
  return os.str();
}
void roundtrip(pbt::Gen& g, pbt::Ctx& c) {
  Setup s = gen_setup(g, g.pick(all_algos()), true);
  if (s.algo == "fofs" && g.chance(1, 4)) s.drop("B");
  c.label(s.algo);
  c.desc << s.str() << "\n";
  std::unique_ptr<OLM> m(make_model(s));
  quiet(*m);
  // settings are saved with 6 digits, which the default C of alma2 (sqrt 2) does not fit in
  // and the deferred shrinkage of stg and fobos-l1 uses the step of the last update, which only a
  // constant step size keeps over a save (stg: and k = 1, as saving ends a period)
  bool exact = !((s.algo == "stg" || s.algo == "fobos-l1") && (s.num("power_t", 0.5) != 0 || s.num("k", 1) != 1)) && !is_fs(s.algo) && !(s.algo == "alma2" && s.v.find("C") == s.v.end());
  int n = (int)g.range(1, 3), trained = 0;
  bool nz = false;
  for (int k = 0; k < n; ++k) {
    if (!g.chance(1, 10)) {
      Data d = gen_stream(g, s.cls, 16);
      c.desc << "train\n" << str(d);
      train(*m, d, (int)g.range(1, 6));
      trained += (int)d.size();
    }
    Data probe = gen_stream(g, s.cls, 6, 12);
    if (g.chance(1, 4)) {
      float e;
      c.desc << "test\n" << str(probe);
      test(*m, probe, &e);
    }
    if (g.chance(1, 8)) {
      std::string v = gen_num(g, {"0.5", "2", "0.25", "100"});
      c.desc << "active_smoothness=" << v << "\n";
      m->SetParameter("active_smoothness", v);
    }
    std::string p = c.path("m" + std::to_string(k));
    before_output(g, p);
    int rc = g.chance(1, 2) ? sol_SaveModel((sol::model::Model*)m.get(), p.c_str()) : m->Save(p);
    PBT_CHECK(rc == 0, "save", "saving failed with " << rc);
    c.desc << "save, load\n";
    {
      // steps can diverge; such weights have no text form to load again
      std::string t = read_file(p);
      t = t.substr(std::min(t.size(), t.find("model parameters:")));
      if (t.find("inf") != std::string::npos || t.find("nan") != std::string::npos) throw pbt::Discard();
    }
    std::string info = m->model_info();
    std::unique_ptr<sol::model::Model> q(g.chance(1, 2) ? (sol::model::Model*)sol_RestoreModel(p.c_str()) : sol::model::Model::Load(p));
    PBT_CHECK(q != nullptr, "load", "loading the saved model failed:\n" << read_file(p));
    OLM* o = dynamic_cast<OLM*>(q.get());
    PBT_CHECK(o != nullptr, "load", "loaded model is of another kind");
    quiet(*o);
    PBT_CHECK(o->model_info() == info, "info", "description\n" << o->model_info() << "instead of\n" << info);
    PBT_CHECK(o->name() == s.algo && o->class_num() == s.cls, "info", "learner or class number changed");
    std::string p2 = c.path("again");
    PBT_CHECK(o->Save(p2) == 0, "save", "saving the loaded model failed");
    PBT_CHECK(read_file(p2) == read_file(p), "resave", "saving the loaded model gives another file:\n" << read_file(p2) << "instead of\n" << read_file(p));
    // predictions
    float e1, e2;
    std::string t1 = test(*m, probe, &e1), t2 = test(*o, probe, &e2);
    c.desc << "compare on\n" << str(probe);
    PBT_CHECK(t1 == t2, "predict", "predictions of the loaded model\n" << t2 << "original\n" << t1);
    PBT_CHECK(same(e1, e2), "predict", "error rate " << e2 << " instead of " << e1);
    same_weights(*m, *o, "after loading");
    for (auto& v : weights(*m)) for (float x : v) nz |= x != 0;
    float s1 = m->model_sparsity(), s2 = o->model_sparsity();
    PBT_CHECK(same(s1, s2), "sparsity", "sparsity " << s2 << " instead of " << s1);
    // continue with both
    if (m->model_info().find("active_smoothness") != std::string::npos) break;
    if (exact && g.chance(2, 3)) {
      Data d = gen_stream(g, s.cls, 12, 12);
      c.desc << "train both\n" << str(d);
      train(*m, d, 3);
      train(*o, d, 3);
      m->EndTrain();
      o->EndTrain();
      same_weights(*m, *o, "after training both on");
      PBT_CHECK(m->cur_iter_num() == o->cur_iter_num(), "counters", "iteration number " << o->cur_iter_num() << " instead of " << m->cur_iter_num());
      c.label("continued");
    }
    if (g.chance(1, 2)) {
      q.release();
      m.reset(o);
      c.desc << "go on with the loaded model\n";
    }
  }
  c.nontrivial = trained >= 2 && nz;
}
}  // namespace
int main(int argc, char** argv) {
  std::vector<pbt::Target> t;
  t.push_back({"round-trip", "learner x parameters x history of training, testing, saving, loading; non-trivial: a saved model with a non-zero weight after two examples", 60000, 1500000, roundtrip, 20});
  return pbt::Main(argc, argv, t);
}
