// P13: feature-selecting learners
#include "refmodel.h"
using namespace vf;
namespace {
int kept(OLM& m) {
  std::set<size_t> s;
  for (int c = 0; c < m.clf_num(); ++c)
    for (size_t i = 1; i < m.w(c).size(); ++i)
      if (m.w(c)[i] != 0) s.insert(i);
  return (int)s.size();
}
void fs_case(pbt::Gen& g, pbt::Ctx& c) {
  static const std::vector<std::string> v = {"pet", "fofs", "sofs", "adafobos-ofs", "adarda-ofs"};
  Setup s = gen_setup(g, g.pick(v));
  Data d = gen_stream(g, s.cls, 40, s.num("B", 0) > 5 ? 120 : 12);
  int cut = g.chance(1, 3) ? (int)g.below(d.size() + 1) : -1;
  bool again = g.chance(1, 3);
  c.desc << s.str() << (cut >= 0 ? " end of training also after example " + std::to_string(cut + 1) : "") << "\n" << str(d);
  c.label(s.algo);
  if (s.cls > 2) c.label("multi-class");
  std::unique_ptr<OLM> m(make_model(s));
  m->set_iterate_callback(nullptr, nullptr);
  Data none;
  { VecIter it(none, 1); m->Train(it); }
  std::unique_ptr<LockStep> ls(new LockStep(*m, s));
  int B = (int)s.num("B", 0);
  bool late = s.algo == "pet" || s.algo == "fofs", ada = s.algo == "adarda-ofs";
  int allowed = B;
  for (size_t i = 0; i < d.size(); ++i) {
    if (again && i > 0 && g.chance(1, 6)) {
      // training begins again: after loading, or because of a setting
      int op = (int)g.below(3);
      c.desc << "before example " << i + 1 << ": ";
      if (op == 0) {
        ls->finish("before saving");
        c.desc << "save, load\n";
        c.label("loaded");
        std::string p = c.path("m");
        PBT_CHECK(m->Save(p) == 0, "save", "saving failed");
        OLM* o = dynamic_cast<OLM*>(sol::model::Model::Load(p));
        PBT_CHECK(o != nullptr, "load", "loading failed");
        std::unique_ptr<LockStep> n(new LockStep(*o, *ls));
        n->r.updates = (long long)o->update_num();
        ls.swap(n);
        m.reset(o);
        m->set_iterate_callback(nullptr, nullptr);
      } else if (op == 1) {
        c.desc << "loss=" << ls->r.loss << "\n";
        m->SetParameter("loss", ls->r.loss);
      } else {
        B = (int)g.range(1, 7);
        c.desc << "B=" << B << "\n";
        c.label("new budget");
        m->SetParameter("B", std::to_string(B));
        ls->r.s.set("B", std::to_string(B));
        ls->r.grow((uint32_t)B + 1);
        if (B > allowed) allowed = B;
      }
      VecIter it(none, 1);
      m->Train(it);
      // adarda-ofs leaves weights alone until their features occur again or training ends
      if (ada) ls->finish("after training has begun again and ended");
      else if (!late) ls->begun();
      if (!late) allowed = B;
    }
    bool upd = false;
    ls->step(d[i], &upd);
    if (upd) allowed = B;
    PBT_CHECK(kept(*m) <= allowed, "budget", "after example " << i + 1 << ": " << kept(*m) << " features have weight, the budget is " << allowed);
    if ((int)i == cut) ls->finish("after finishing training half-way");
  }
  ls->finish();
  if (ada) allowed = B;
  PBT_CHECK(kept(*m) <= allowed, "budget", "after training: " << kept(*m) << " features have weight, the budget is " << allowed);
  check_sparsity(*m);
  c.nontrivial = ls->n_updates >= 2 && (int)max_index(d) > B;
}
// the budget over save / load / setting histories, training through the public loop
void history_case(pbt::Gen& g, pbt::Ctx& c) {
  static const std::vector<std::string> v = {"pet", "fofs", "sofs", "adafobos-ofs", "adarda-ofs"};
  Setup s = gen_setup(g, g.pick(v));
  c.desc << s.str() << "\n";
  c.label(s.algo);
  std::unique_ptr<OLM> m(make_model(s));
  m->SetParameter("step_show", "1000000");
  m->set_iterate_callback(nullptr, nullptr);
  int B = (int)s.num("B", 0);
  int newB = B;
  int n = (int)g.range(1, 4), trained = 0, loads = 0;
  for (int k = 0; k < n; ++k) {
    Data d = gen_stream(g, s.cls, 16, s.num("B", 0) > 5 ? 100 : 12);
    c.desc << "train\n" << str(d);
    VecIter it(d, (int)g.range(1, 8));
    size_t u0 = m->update_num();
    m->Train(it);
    if (m->update_num() > u0) B = newB;  // a new budget takes hold with the next selection
    trained += (int)d.size();
    m->model_sparsity();  // ends the training
    PBT_CHECK(kept(*m) <= B, "budget", "after training part " << k + 1 << ": " << kept(*m) << " features have weight, the budget is " << B);
    for (int cc = 0; cc < m->clf_num(); ++cc)
      for (size_t i = 0; i < m->w(cc).size(); ++i) PBT_CHECK(std::isfinite(m->w(cc)[i]), "nonfinite", "weight " << i << " is " << m->w(cc)[i]);
    check_sparsity(*m);
    int op = (int)g.below(4);
    if (op == 0) {
      c.desc << "save, load\n";
      std::string p = c.path("m");
      PBT_CHECK(m->Save(p) == 0, "save", "saving failed");
      std::unique_ptr<sol::model::Model> q(sol::model::Model::Load(p));
      PBT_CHECK(q != nullptr, "load", "loading failed");
      OLM* o = dynamic_cast<OLM*>(q.get());
      PBT_CHECK(o != nullptr, "load", "loaded model is of another kind");
      q.release();
      m.reset(o);
      m->SetParameter("step_show", "1000000");
      m->set_iterate_callback(nullptr, nullptr);
      ++loads;
    } else if (op == 1 && g.chance(1, 2)) {
      int nb = (int)g.range(1, 6);
      c.desc << "B=" << nb << "\n";
      m->SetParameter("B", std::to_string(nb));
      newB = nb;
      B = std::max(B, nb);
    }
  }
  c.nontrivial = trained >= 4 && n >= 2;
}
}  // namespace
int main(int argc, char** argv) {
  std::vector<pbt::Target> t;
  t.push_back({"selection", "learner x budget x parameters x example stream, in lock step with the reference; non-trivial: two updates and more features than the budget", 120000, 3000000, fs_case, 20});
  t.push_back({"budget-history", "histories of training, saving, loading and changing the budget; non-trivial: two training parts", 30000, 800000, history_case, 20});
  return pbt::Main(argc, argv, t);
}
