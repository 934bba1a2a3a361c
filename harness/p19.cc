// P19: settings are validated, stored and reported; a refused one changes nothing
#include "refmodel.h"
#include <sol/c_api.h>
#include <sol/loss/loss.h>
#include <sol/math/operator.h>
using namespace vf;
namespace {
typedef sol::pario::DataIter DataIter;
// legal values of one parameter
struct Par {
  std::string name;
  char kind;      // f float, i int
  int range;      // 0: any number, 1: >= 0, 2: > 0, 3: in (0,1]
  std::vector<std::string> good;
};
std::vector<Par> table(const std::string& a, int cls) {
  std::vector<Par> t;
  t.push_back({"bias_eta", 'f', 1, {"0", "1", "0.5", "0.125", "2", "1e-3"}});
  t.push_back({"t", 'i', 1, {"0", "1", "7", "20"}});
  t.push_back({"dim", 'i', 1, {"1", "3", "12", "30"}});
  t.push_back({"active_smoothness", 'f', 2, {}});  // random: never set to a legal value here
  if (cls == 2) t.push_back({"cost_margin", 'f', 2, {"1", "2", "0.5"}});
  if (is_ogd(a)) {
    t.push_back({"power_t", 'f', 1, {"0", "0.5", "1", "0.25", "2"}});
    t.push_back({"eta", 'f', 1, {"0", "0.5", "1", "2", "0.125"}});
  }
  if (a == "pa1" || a == "pa2" || a == "alma2") t.push_back({"C", 'f', 0, {"1", "0.5", "2", "0.01"}});
  if (a == "alma2") {
    t.push_back({"alpha", 'f', 3, {"0.5", "1", "0.9", "0.1"}});
    t.push_back({"p", 'i', 0, {"2", "3", "5"}});
    t.push_back({"k", 'i', 2, {"1", "2", "7"}});
  }
  if (starts(a, "rda") || a == "erda-l1") t.push_back({"sigma", 'f', 2, {"1", "0.5", "2", "10"}});
  if (a == "erda-l1") t.push_back({"rou", 'f', 1, {"0", "0.1", "0.5"}});
  if (a == "sop") t.push_back({"a", 'f', 0, {"1", "0.5", "2"}});
  if (a == "cw" || a == "eccw") {
    t.push_back({"a", 'f', 0, {"1", "0.5", "2", "0.1"}});
    t.push_back({"phi", 'f', 0, {"0.25", "1", "2"}});
  }
  if (a == "arow" || a == "sofs") t.push_back({"r", 'f', 0, {"1", "0.5", "2", "10"}});
  if (starts(a, "ada")) {
    t.push_back({"delta", 'f', 2, {"1", "0.5", "10", "0.01"}});
    t.push_back({"eta", 'f', 1, {"0", "1", "0.5", "2"}});
  }
  if (a == "fofs") {
    t.push_back({"eta", 'f', 1, {"0", "0.5", "0.25", "1"}});
    t.push_back({"lambda", 'f', 1, {"0.01", "0.1", "0.5"}});
  }
  if (is_l1(a)) {
    t.push_back({"lambda", 'f', 0, {"0", "0.1", "0.01", "0.0625"}});
    t.push_back({"sparse_thresh", 'f', 0, {"0.001", "0.1", "1e-06"}});
  }
  if (a == "stg") t.push_back({"k", 'i', 2, {"1", "2", "5"}});
  if (is_fs(a)) t.push_back({"B", a == "fofs" ? 'i' : 'f', 1, {"1", "2", "5", "9"}});
  return t;
}
const std::vector<std::string>& all_names() {
  static const std::vector<std::string> v = {"power_t", "eta", "C", "alpha", "p", "k", "sigma", "rou", "a", "phi", "r", "delta", "lambda", "sparse_thresh", "B",
                                             "Eta", "bias", "bias_eta ", " t", "norms", "los", "cls", "", "gamma", "x", "tt", "online", "regularizer", "dimension", "lazy"};
  return v;
}
bool knows(const std::vector<Par>& t, const std::string& a, const std::string& n) {
  for (auto& p : t) if (p.name == n) return true;
  if (n == "lambda" && (is_l1(a) || is_fs(a))) return true;
  return false;
}
std::vector<std::string> good_losses(const std::string& a, int cls) {
  std::vector<std::string> k, r;
  if (!is_hinge_only(a)) k.push_back("bool");
  if (!is_bool_only(a)) k.push_back("hinge");
  if (!is_hinge_only(a) && !is_bool_only(a)) k.push_back("logistic");
  for (auto& x : k)
    if (cls == 2) r.push_back(x);
    else { r.push_back("maxscore-" + x); r.push_back("uniform-" + x); }
  return r;
}
const std::vector<std::string>& losses() {
  static const std::vector<std::string> v = {"bool", "hinge", "logistic", "square", "maxscore-bool", "uniform-bool", "maxscore-hinge", "uniform-hinge", "maxscore-logistic", "uniform-logistic"};
  return v;
}
struct Set {
  std::string name, value;
  bool ok;
  bool num;
};
std::string bad_value(pbt::Gen& g, const Par& p) {
  std::vector<std::string> b = {"abc", "", "-", "x1", ".", "+-1", "e5", "1e999"};
  if (p.kind == 'i') b.back() = "99999999999";
  if (p.range == 1 || p.range == 2) { b.push_back("-1"); b.push_back("-7"); b.push_back("-2147483648"); }
  if ((p.range == 1 || p.range == 2) && p.kind == 'f') { b.push_back("-0.5"); b.push_back("-1e-3"); b.push_back("nan"); }
  if (p.range == 2) { b.push_back("0"); b.push_back("0"); b.push_back("-0"); }
  if (p.range == 3) { b.push_back("0"); b.push_back("1.5"); b.push_back("-0.5"); b.push_back("2"); b.push_back("1.001"); }
  return b[g.below(b.size())];
}
// cost sensitive learning needs the hinge loss; which of two conflicting settings comes last is refused
bool conflict(OLM* m, const Set& x) {
  auto has = m->model_info();
  bool cost = has.find("\"cost_margin\"") != std::string::npos;
  bool hinge = has.find("\"loss\" : \"hinge\"") != std::string::npos;
  if (x.name == "cost_margin") return !hinge;
  if (x.name == "loss") return cost && x.value != "hinge";
  return false;
}
Set gen_set(pbt::Gen& g, const std::string& a, int cls, pbt::Ctx& c) {
  auto t = table(a, cls);
  bool ok = g.chance(1, 2);
  int what = g.weighted({6, 3, 2, 1, 2, 2});
  if (what == 0) {  // number
    const Par& p = t[g.below(t.size())];
    if (ok && !p.good.empty()) return {p.name, g.pick(p.good), true, true};
    return {p.name, bad_value(g, p), false, true};
  }
  if (what == 1) {  // loss
    auto gl = good_losses(a, cls);
    if (ok) return {"loss", g.pick(gl), true, false};
    std::vector<std::string> b = {"nosuch", "", "hinge-loss", "hing", "maxscore", "hinge_loss"};
    for (auto& l : losses()) if (std::find(gl.begin(), gl.end(), l) == gl.end()) b.push_back(l);
    return {"loss", g.pick(b), false, false};
  }
  if (what == 2) {  // norm
    if (ok) return {"norm", a == "alma2" ? (g.chance(1, 2) ? "L2" : "2") : g.pick(std::vector<std::string>{"L1", "L2", "None", "0", "1", "2"}), true, false};
    std::vector<std::string> b = {"L3", "3", "-1", "l2", "2x", "", "none ", "12", "99999999999", "2 x", "1 ", "0x1", "1.5"};
    if (a == "alma2") { b.push_back("L1"); b.push_back("None"); b.push_back("1"); b.push_back("0"); }
    return {"norm", g.pick(b), false, false};
  }
  if (what == 3) {  // identity of the model
    int k = (int)g.below(3);
    if (k == 0) return {"model", ok ? a : "x" + a, ok, false};
    int v = k == 1 ? cls : (cls == 2 ? 1 : cls);
    return {k == 1 ? "cls_num" : "clf_num", std::to_string(ok ? v : v + 1), ok, false};
  }
  if (what == 4) {  // unknown names
    for (int i = 0; i < 10; ++i) {
      std::string n = g.pick(all_names());
      if (cls != 2 && g.chance(1, 8)) n = "cost_margin";
      if (!knows(t, a, n)) return {n, g.pick(std::vector<std::string>{"1", "0.5", "abc"}), false, false};
    }
    return {"nosuch", "1", false, false};
  }
  switch (g.below(3)) {
    case 0: return {"lazy_update", ok ? "true" : "false", true, false};
    case 1: return {g.chance(1, 2) ? "exp_show" : "step_show", ok ? "3" : g.chance(1, 2) ? "abc" : "99999999999", ok, false};
    default: {
      std::string text;
      int k = ok ? 0 : (int)g.range(1, 5);
      if (k == 1) return {"filter", c.path("missing"), false, false};
      if (k != 2)
        for (int n = (int)g.range(1, 6); n--;) text += std::to_string(g.range(1, 14)) + "\n";
      if (k == 3) text += g.pick(std::vector<std::string>{"0\n", "-2\n", "x\n", "99999999999\n", "\n"});
      if (k == 4) text = "0\n" + text;
      if (k == 5) text = "# nothing\n";
      if (k == 0 && g.chance(1, 4)) text = "# list\n" + text;
      std::string path = c.path("filter" + std::to_string(g.below(1000)));
      write_file(path, text);
      std::replace(text.begin(), text.end(), '\n', ' ');
      c.desc << "(list: " << text << ") ";
      return {"filter", path, ok, false};
    }
  }
}
bool apply(OLM* m, const Set& s, bool capi) {
  if (capi) return sol_SetModelParameter((sol::model::Model*)m, s.name.c_str(), s.value.c_str()) == 0;
  try {
    m->SetParameter(s.name, s.value);
  } catch (std::exception&) {
    return false;
  }
  return true;
}
void get_par(void* ctx, const char* n, const char* v) { (*(std::map<std::string, std::string>*)ctx)[n] = v; }
std::map<std::string, std::string> pars(OLM* m) {
  std::map<std::string, std::string> r;
  sol_GetModelParameters((sol::model::Model*)m, get_par, &r);
  return r;
}
std::vector<std::vector<float>> weights(OLM& m) {
  std::vector<std::vector<float>> r;
  for (int c = 0; c < m.clf_num(); ++c) {
    r.push_back(std::vector<float>());
    for (size_t i = 0; i < m.w(c).size(); ++i) r.back().push_back(m.w(c)[i]);
  }
  return r;
}
void same(OLM& a, OLM& b, const char* key, const char* what) {
  PBT_CHECK(a.model_info() == b.model_info(), key, what << ": descriptions differ\n" << a.model_info() << "\n---\n" << b.model_info());
  auto w1 = weights(a), w2 = weights(b);
  PBT_CHECK(w1.size() == w2.size(), key, what << ": number of weight vectors differs");
  for (size_t q = 0; q < w1.size(); ++q) {
    PBT_CHECK(w1[q].size() == w2[q].size(), key, what << ": dimension " << w1[q].size() << " against " << w2[q].size());
    for (size_t i = 0; i < w1[q].size(); ++i)
      PBT_CHECK(memcmp(&w1[q][i], &w2[q][i], 4) == 0 || w1[q][i] == w2[q][i], key, std::setprecision(9) << what << ": weight " << i << " of class " << q << " is " << w1[q][i] << " against " << w2[q][i]);
  }
  PBT_CHECK(a.update_num() == b.update_num() && a.cur_iter_num() == b.cur_iter_num(), key, what << ": counters differ");
}
void reported(OLM* m, const Set& s, const std::map<std::string, std::string>& before) {
  auto p = pars(m);
  if (s.name == "exp_show" || s.name == "step_show" || s.name == "filter") return;
  std::string n = s.name == "B" && p.find("B") == p.end() ? "lambda" : s.name;
  PBT_CHECK(p.count(n) == 1, "report", "no " << n << " reported after setting it");
  if (s.name == "norm") {
    std::string w = s.value == "None" || s.value == "0" ? "0" : s.value == "L1" || s.value == "1" ? "1" : "2";
    PBT_CHECK(p[n] == w, "report", "norm " << s.value << " reported as " << p[n]);
  } else if (s.num) {
    double v = strtof(s.value.c_str(), nullptr), r = atof(p[n].c_str());
    if (s.name == "dim") v = std::max(v, atof(before.at("dim").c_str()));
    PBT_CHECK(std::fabs(v - r) <= 2e-6 * std::fabs(v), "report", n << " set to " << s.value << " reported as " << p[n]);
  } else {
    PBT_CHECK(p[n] == s.value, "report", n << " set to " << s.value << " reported as " << p[n]);
  }
  // nothing else changes
  for (auto& x : before)
    if (x.first != n) PBT_CHECK(p.count(x.first) && p[x.first] == x.second, "side", "setting " << s.name << "=" << s.value << " changed the reported " << x.first << " from " << x.second << " to " << p[x.first]);
}
// refused settings, at any point of a history, leave no trace
void refuse(pbt::Gen& g, pbt::Ctx& c) {
  Setup s;
  s.algo = g.pick(all_algos());
  s.cls = gen_classes(g);
  c.label(s.algo);
  c.desc << s.algo << " " << s.cls << " classes\n";
  std::unique_ptr<OLM> m(make_model(s)), r(make_model(s));
  m->set_iterate_callback(nullptr, nullptr);
  r->set_iterate_callback(nullptr, nullptr);
  if (is_fs(s.algo)) {
    m->SetParameter("B", "3");
    r->SetParameter("B", "3");
  }
  int n = (int)g.range(2, 12), refused = 0, after = 0;
  for (int k = 0; k < n; ++k) {
    if (g.chance(1, 4)) {
      Data d = gen_stream(g, s.cls, 6);
      c.desc << "train\n" << str(d);
      VecIter a(d, 3), b(d, 3);
      float e1 = m->Train(a), e2 = r->Train(b);
      PBT_CHECK(e1 == e2 || (std::isnan(e1) && std::isnan(e2)), "trace", "training error " << e1 << " after refused settings, " << e2 << " without them");
      if (refused && m->update_num() > 0) ++after;
      same(*m, *r, "trace", "after training");
      continue;
    }
    Set x = gen_set(g, s.algo, s.cls, c);
    if (conflict(m.get(), x)) x.ok = false;
    bool capi = g.chance(1, 2);
    c.desc << (x.ok ? "set " : "refuse ") << x.name << "=" << x.value << (capi ? " (C API)" : "") << "\n";
    std::string before = m->model_info();
    auto pb = pars(m.get());
    bool got = apply(m.get(), x, capi);
    PBT_CHECK(got == x.ok, got ? "accepted" : "refused", "setting " << x.name << "=" << x.value << " was " << (got ? "accepted" : "refused"));
    if (!got) {
      ++refused;
      PBT_CHECK(m->model_info() == before, "trace", "refused setting " << x.name << "=" << x.value << " changed the description to\n" << m->model_info() << "\nfrom\n" << before);
    } else {
      PBT_CHECK(apply(r.get(), x, !capi), "refused", "setting " << x.name << "=" << x.value << " was refused the second time");
      reported(m.get(), x, pb);
    }
  }
  Data d = gen_stream(g, s.cls, 10);
  c.desc << "train\n" << str(d);
  VecIter a(d, 3), b(d, 3);
  float e1 = m->Train(a), e2 = r->Train(b);
  PBT_CHECK(e1 == e2 || (std::isnan(e1) && std::isnan(e2)), "trace", "training error " << e1 << " after refused settings, " << e2 << " without them");
  m->model_sparsity();  // finishes the training, if it was not refused
  r->model_sparsity();
  same(*m, *r, "trace", "after the last training");
  if (refused && m->update_num() > 0) ++after;
  c.nontrivial = refused > 0 && after > 0;
}
// before training, the last value of each setting counts, in whatever order
void last_wins(pbt::Gen& g, pbt::Ctx& c) {
  std::string algo = g.pick(all_algos());
  Setup s = gen_setup(g, algo, true), other = gen_setup(g, algo, true);
  other.cls = s.cls;
  c.label(algo);
  // settings of 'other' that s sets too come first, in any order
  std::vector<std::pair<std::string, std::string>> seq, fin = s.p;
  std::set<std::string> mine;
  for (auto& p : s.p) mine.insert(p.first);
  auto gl = good_losses(algo, s.cls);
  for (auto& p : other.p) {
    if (!mine.count(p.first) || p.first == "dim" ) continue;
    if (p.first == "loss" && (s.cost || std::find(gl.begin(), gl.end(), p.second) == gl.end())) continue;
    seq.push_back(p);
  }
  size_t over = seq.size();
  for (size_t i = fin.size(); i > 1; --i) std::swap(fin[i - 1], fin[g.below(i)]);
  seq.insert(seq.end(), fin.begin(), fin.end());
  c.desc << s.str() << "\nset";
  Setup t = s;
  t.p = seq;
  for (auto& p : seq) c.desc << " " << p.first << "=" << p.second;
  Data d = gen_stream(g, s.cls, 16);
  c.desc << "\n" << str(d);
  std::unique_ptr<OLM> m(make_model(t)), r(make_model(s));
  m->set_iterate_callback(nullptr, nullptr);
  r->set_iterate_callback(nullptr, nullptr);
  same(*m, *r, "order", "before training");
  VecIter a(d, 3), b(d, 3);
  m->Train(a);
  r->Train(b);
  m->EndTrain();
  r->EndTrain();
  same(*m, *r, "order", "after training");
  c.nontrivial = (over > 0 || fin != s.p) && m->update_num() > 0;
}
// a setting changed in the middle of the training is the one used from there on
void midway(pbt::Gen& g, pbt::Ctx& c) {
  std::string algo = g.pick(all_algos());
  Setup s = gen_setup(g, algo, true);
  Data d = gen_stream(g, s.cls, 24);
  c.label(algo);
  c.desc << s.str() << "\n" << str(d);
  std::unique_ptr<OLM> m(make_model(s));
  m->set_iterate_callback(nullptr, nullptr);
  Data none;
  { VecIter it(none, 1); m->Train(it); }
  LockStep ls(*m, s);
  int changes = 0, before = 0;
  for (size_t i = 0; i < d.size(); ++i) {
    if (i > 0 && g.chance(1, 6)) {
      Setup o = gen_setup(g, algo, true);
      std::vector<std::pair<std::string, std::string>> can;
      for (auto& p : o.p) {
        const std::string& n = p.first;
        if (n == "t" || n == "dim" || n == "k" || n == "a" || n == "delta" || n == "B" || n == "loss" || n == "cost_margin" || n == "lazy_update") continue;
        can.push_back(p);
      }
      can.push_back(std::make_pair("lazy_update", g.chance(1, 2) ? "true" : "false"));
      auto gl = good_losses(algo, s.cls);
      if (is_fs(algo)) ;  // selects anew then, ties at will
      else if (ls.r.s.cost) can.push_back(std::make_pair("cost_margin", g.pick(std::vector<std::string>{"2", "0.5", "1", "4"})));
      else can.push_back(std::make_pair("loss", g.pick(gl)));
      auto p = g.pick(can);
      c.desc << "before example " << i + 1 << ": " << p.first << "=" << p.second << "\n";
      m->SetParameter(p.first, p.second);
      VecIter it(none, 1);
      m->Train(it);
      Ref& r = ls.r;
      if (p.first == "lazy_update") r.s.lazy = p.second == "true";
      else if (p.first == "loss") r.loss = p.second;
      else if (p.first != "norm") r.s.set(p.first, p.second);
      r.bias0 = r.s.num("bias_eta", 0);
      r.lambda = r.s.num("lambda", 0);
      r.thresh = r.s.num("sparse_thresh", 1e-6);
      r.pw = r.s.num("power_t", 0.5);
      r.eta0 = r.s.num("eta", 1);
      if (p.first == "eta" && !is_ogd(algo)) r.eta = r.eta0;
      ++changes;
      before = ls.n_updates;
    }
    ls.step(d[i]);
  }
  ls.finish();
  c.nontrivial = changes > 0 && ls.n_updates > before && before > 0;
}
// settings and training of one object do not reach another
void independent(pbt::Gen& g, pbt::Ctx& c) {
  std::string algo = g.pick(all_algos());
  Setup s = gen_setup(g, algo, true);
  std::string algo2 = g.chance(2, 3) ? algo : g.pick(all_algos());
  Setup u = gen_setup(g, algo2, true);
  c.label(algo);
  Data d = gen_stream(g, s.cls, 12), e = gen_stream(g, u.cls, 12);
  c.desc << s.str() << "\n" << str(d) << "beside " << u.str() << "\n" << str(e);
  std::unique_ptr<OLM> ref(make_model(s));
  ref->set_iterate_callback(nullptr, nullptr);
  { VecIter it(d, 3); ref->Train(it); ref->EndTrain(); }
  std::unique_ptr<OLM> m, o;
  bool first = g.chance(1, 2);
  if (first) m.reset(make_model(s));
  o.reset(make_model(u));
  if (!first) m.reset(make_model(s));
  m->set_iterate_callback(nullptr, nullptr);
  o->set_iterate_callback(nullptr, nullptr);
  // examples of the two models alternate
  m->BeginTrain();
  o->BeginTrain();
  size_t i = 0, j = 0;
  std::vector<float> buf(512);
  while (i < d.size() || j < e.size()) {
    bool mine = j >= e.size() || (i < d.size() && g.chance(1, 2));
    sol::pario::DataPoint dp;
    to_point(mine ? d[i++] : e[j++], dp);
    OLM& x = mine ? *m : *o;
    x.PreProcess(dp);
    x.Iterate(dp, buf.data());
    if (o != nullptr && i * 2 > d.size() && j == e.size() && g.chance(1, 4)) { o.reset(); if (i >= d.size()) break; }
  }
  m->EndTrain();
  same(*m, *ref, "beside", "trained beside another model");
  c.nontrivial = m->update_num() > 0 && !e.empty();
}
// creation by name
std::string mutate(pbt::Gen& g, std::string s) {
  int k = (int)g.below(5);
  if (s.empty()) k = 1;
  size_t p = s.empty() ? 0 : g.below(s.size());
  switch (k) {
    case 0: s.erase(p, 1); break;
    case 1: s.insert(p, 1, g.pick(std::vector<char>{'a', '1', '-', '_', ' ', 'l'})); break;
    case 2: s[p] = g.pick(std::vector<char>{'a', '1', '-', '_', 'z'}); break;
    case 3: s += g.pick(std::vector<std::string>{"-l1", "_model", "_loss", "2", "-ofs", "_reader", "x"}); break;
    default: s = s.substr(0, p); break;
  }
  return s;
}
std::string lower(std::string s) {
  for (auto& ch : s) ch = (char)tolower((unsigned char)ch);
  return s;
}
void names(pbt::Gen& g, pbt::Ctx& c) {
  static const std::vector<std::string> readers = {"svm", "csv", "bin"}, writers = {"svm", "csv", "bin"};
  int kind = (int)g.below(4);
  const std::vector<std::string>& known = kind == 0 ? all_algos() : kind == 1 ? losses() : kind == 2 ? readers : writers;
  std::string n = g.pick(known);
  int muts = (int)g.below(3);
  for (int i = 0; i < muts; ++i) n = mutate(g, n);
  if (g.chance(1, 10)) n = g.pick(g.chance(1, 2) ? losses() : all_algos());
  bool have = std::find(known.begin(), known.end(), lower(n)) != known.end();
  bool exact = std::find(known.begin(), known.end(), n) != known.end();
  int cls = g.chance(1, 2) ? 2 : (int)g.range(-2, 6);
  static const char* kn[] = {"model", "loss", "reader", "writer"};
  c.desc << kn[kind] << " '" << n << "' classes " << cls;
  c.label(kn[kind]);
  bool got = false;
  if (kind == 0) {
    std::unique_ptr<sol::model::Model> m(g.chance(1, 2) ? sol::model::Model::Create(n, cls) : (sol::model::Model*)sol_CreateModel(n.c_str(), cls));
    got = m != nullptr;
    if (cls < 2) {
      PBT_CHECK(!got, "classes", "a model with " << cls << " classes was created");
      c.nontrivial = have;
      return;
    }
    if (got) {
      PBT_CHECK(m->name() == lower(n) && m->class_num() == cls && m->clf_num() == (cls == 2 ? 1 : cls), "identity", "created model calls itself " << m->name() << " with " << m->class_num() << " classes, " << m->clf_num() << " classifiers");
      auto p = pars((OLM*)m.get());
      PBT_CHECK(p["model"] == m->name() && p["cls_num"] == std::to_string(cls), "identity", "description of the created model: " << m->model_info());
    }
  } else if (kind == 1) {
    std::unique_ptr<sol::loss::Loss> l(sol::loss::Loss::Create(n));
    got = l != nullptr;
    if (got) PBT_CHECK(l->name() == lower(n), "identity", "loss " << n << " calls itself " << l->name());
  } else if (kind == 2) {
    std::unique_ptr<sol::pario::DataReader> r(sol::pario::DataReader::Create(n));
    got = r != nullptr;
    if (n == "numpy" || n == "csr_matrix") throw pbt::Discard();
  } else {
    std::unique_ptr<sol::pario::DataWriter> w(sol::pario::DataWriter::Create(n));
    got = w != nullptr;
  }
  if (exact) PBT_CHECK(got, "missing", "no " << kn[kind] << " named " << n);
  if (!have) PBT_CHECK(!got, "unknown", "a " << kn[kind] << " named '" << n << "' was created");
  c.nontrivial = true;
}
}  // namespace
int main(int argc, char** argv) {
  std::vector<pbt::Target> t;
  t.push_back({"refuse", "learner x history of legal and illegal settings and trainings, compared with the history without the illegal ones; non-trivial: a setting was refused and a later training updated the model", 40000, 1200000, refuse, 20});
  t.push_back({"last-wins", "learner x overwritten settings in any order against the final settings in plain order; non-trivial: something overwritten or reordered, and an update made", 30000, 900000, last_wins, 20});
  t.push_back({"midway", "settings changed between the examples of a stream, every step against the reference with the settings of the moment; non-trivial: updates before and after a change", 60000, 2000000, midway, 20});
  t.push_back({"independent", "two models created and trained side by side, one destroyed early; non-trivial: both got examples and the first was updated", 20000, 600000, independent, 20});
  t.push_back({"names", "registered names, and mutations of them, with class counts from -2 to 6; all cases count", 15000, 300000, names, 20});
  return pbt::Main(argc, argv, t);
}
