// P20: preprocessing of examples
#include "refmodel.h"
#include <sol/c_api.h>
using namespace vf;
namespace {
struct Filter {
  bool on = false;
  std::set<uint32_t> f;
};
// text of a feature list and the features it names
std::string gen_list(pbt::Gen& g, std::set<uint32_t>& out, uint32_t maxi) {
  std::string s;
  int n = (int)g.sized(1, 12);
  if (g.chance(1, 40)) {
    // a long list, not in order
    int k = (int)g.range(100, 3000);
    uint32_t mul = 2 * (uint32_t)g.below(1000) + 1, off = (uint32_t)g.below(100000);
    for (int i = 0; i < k; ++i) {
      uint32_t x = (i * mul + off) % 100000 + 1;
      out.insert(x);
      s += std::to_string(x) + "\n";
    }
  }
  for (int i = 0; i < n; ++i) {
    if (g.chance(1, 5)) s += g.pick(std::vector<std::string>{"# selected features\n", "  # 7\n", "#\n", "\t#3 4\n"});
    uint32_t x = (uint32_t)g.range(1, maxi);
    if (g.chance(1, 6)) x = g.chance(1, 2) ? near_power(g, 20) : (uint32_t)g.range(1, 5000);
    out.insert(x);
    if (g.chance(1, 6)) s += g.chance(1, 2) ? "  " : "\t";
    s += std::to_string(x);
    if (g.chance(1, 8)) s += g.chance(1, 2) ? "\r" : "  ";
    if (i + 1 < n || !g.chance(1, 4)) s += "\n";
  }
  return s;
}
std::string bad_list(pbt::Gen& g, uint32_t maxi) {
  switch (g.below(5)) {
    case 0: return "";
    case 1: return "# nothing\n";
    default: {
      std::set<uint32_t> o;
      std::string s = gen_list(g, o, maxi);
      if (s.empty() || s.back() != '\n') s += "\n";
      s += g.pick(std::vector<std::string>{"0", "-3", "abc", "x7", "99999999999999", "-1"});
      if (g.chance(1, 2)) s += "\n5\n";
      return s;
    }
  }
}
float any_value(pbt::Gen& g, bool wild) {
  switch (g.below(wild ? 6 : 3)) {
    case 0: return nice_value(g);
    case 1: return 0.f;
    case 2: {
      float v = (float)g.range(-1000000, 1000000) / (float)g.range(1, 1000);
      return v;
    }
    case 3: return g.chance(1, 2) ? 1e30f : -3e38f;
    case 4: return g.chance(1, 2) ? 1e-30f : -1e-45f;
    default: return g.chance(1, 2) ? 1e18f : 1e-18f;
  }
}
Ex gen_ex(pbt::Gen& g, uint32_t maxi, bool wild) {
  Ex e;
  switch (g.below(4)) {
    case 0: e.label = 1; break;
    case 1: e.label = -1; break;
    case 2: e.label = g.range(-5, 7); break;
    default: e.label = g.chance(1, 2) ? 2147483647 : -2147483647 - 1; break;
  }
  uint32_t i = 0;
  int n = (int)g.sized(0, 10);
  if (g.chance(1, 50)) {
    // many features
    int k = (int)g.range(100, 3000), step = (int)g.range(1, 5);
    for (; k > 0; --k) {
      i += (uint32_t)step;
      e.f.push_back(std::make_pair(i, k % 7 == 0 ? 0.f : (float)(k % 13 - 6) * 0.5f + 0.125f));
    }
  }
  for (int k = 0; k < n; ++k) {
    i += (uint32_t)g.range(1, 3);
    uint32_t z;
    if (g.chance(1, 12) && (z = near_power(g, 18)) > i) i = z;
    if (g.chance(1, 20)) i += (uint32_t)g.range(0, 100000);
    if (k + 1 == n && g.chance(1, 30)) i = 4294967295u;
    if (i > maxi + 200000 && i != 4294967295u) break;
    e.f.push_back(std::make_pair(i, any_value(g, wild)));
    if (i == 4294967295u) break;
  }
  if (!wild && g.chance(1, 3)) {  // all values of another order of magnitude
    int k = g.chance(1, 2) ? (int)g.range(-36, 26) : (int)g.range(-90, 90);
    for (auto& p : e.f) p.second = std::ldexp(p.second, k);
  }
  return e;
}
void pre(pbt::Gen& g, pbt::Ctx& c) {
  Setup s;
  s.algo = g.pick(all_algos());
  s.cls = gen_classes(g);
  std::string norm = "None";
  std::unique_ptr<OLM> m(make_model(s));
  m->set_iterate_callback(nullptr, nullptr);
  c.desc << s.algo << " " << s.cls << " classes\n";
  if (s.algo == "alma2") norm = "L2";
  Filter f;
  int n = (int)g.range(1, 10), changed = 0;
  for (int k = 0; k < n; ++k) {
    int what = g.weighted({5, 1, 1, 1});
    if (what == 1 && s.algo != "alma2") {
      norm = g.pick(std::vector<std::string>{"L1", "L2", "None"});
      c.desc << "norm " << norm << "\n";
      m->SetParameter("norm", norm);
      continue;
    }
    if (what == 2) {
      std::set<uint32_t> o;
      std::string t = gen_list(g, o, 12), p = c.path("list");
      write_file(p, t);
      c.desc << "filter list\n" << t << "\nend of list\n";
      bool ok = true;
      if (g.chance(1, 2)) ok = sol_SetModelParameter((sol::model::Model*)m.get(), "filter", p.c_str()) == 0;
      else if (g.chance(1, 2)) ok = m->LoadPreSelFeatures(p) == 0;
      else m->SetParameter("filter", p);
      PBT_CHECK(ok, "list", "the list was refused");
      f.on = true;
      f.f = o;
      continue;
    }
    if (what == 3) {
      std::string t = bad_list(g, 12), p = c.path("list");
      bool missing = g.chance(1, 5);
      if (missing) p = c.path("none");
      else write_file(p, t);
      c.desc << "bad filter list" << (missing ? " (missing)" : "") << "\n" << t << "\nend of list\n";
      PBT_CHECK(m->LoadPreSelFeatures(p) != 0, "badlist", "an invalid list was accepted");
      continue;
    }
    bool wild = g.chance(1, 4);
    Ex e = gen_ex(g, 30, wild);
    if (f.on && g.chance(1, 2)) {
      // features of the list and their neighbours
      std::map<uint32_t, float> all(e.f.begin(), e.f.end());
      std::vector<uint32_t> l(f.f.begin(), f.f.end());
      int k = (int)g.range(1, 4);
      for (int j = 0; j < k; ++j) {
        uint32_t x = l[g.below(l.size())] + (uint32_t)g.weighted({4, 1});
        if (g.chance(1, 6) && x > 1) --x;
        all[x] = nice_value(g);
      }
      e.f.assign(all.begin(), all.end());
    }
    c.desc << "example " << str(e) << "\n";
    sol::pario::DataPoint dp;
    to_point(e, dp);
    m->PreProcess(dp);
    Ex r = from_point(dp);
    long long y = s.cls == 2 ? (e.label == 1 ? 1 : -1) : e.label;
    PBT_CHECK(r.label == y, "label", "label " << e.label << " became " << r.label);
    PBT_CHECK(r.f.size() == e.f.size(), "size", "number of features " << e.f.size() << " became " << r.f.size());
    double nrm = 0, mx = 0, mn = 1e300;
    std::vector<float> v;
    for (auto& p : e.f) {
      float x = !f.on || f.f.count(p.first) ? p.second : 0.f;
      v.push_back(x);
      if (x != 0) { mx = std::max(mx, std::fabs((double)x)); mn = std::min(mn, std::fabs((double)x)); }
      nrm += norm == "L1" ? std::fabs((double)x) : (double)x * x;
      if (x != p.second) ++changed;
    }
    if (norm == "L2") nrm = std::sqrt(nrm);
    if (norm == "None" || mx == 0) nrm = 1;
    if (norm != "None" && mx != 0) ++changed;
    bool plain = norm == "None" || mx == 0 || (norm == "L1" ? mx < 1e36 && mn > 1e-32 : mx < 1e15 && mn > 1e-15);
    double sum = 0;
    for (size_t i = 0; i < v.size(); ++i) {
      PBT_CHECK(r.f[i].first == e.f[i].first, "index", "index " << e.f[i].first << " became " << r.f[i].first);
      PBT_CHECK(std::isfinite(r.f[i].second), "finite", "feature " << e.f[i].first << " became " << r.f[i].second);
      if (v[i] == 0) PBT_CHECK(r.f[i].second == 0, "filter", "feature " << e.f[i].first << " should count as zero but is " << r.f[i].second);
      if (!plain) continue;
      double want = v[i] / nrm;
      if (nrm == 1 && norm == "None") PBT_CHECK(r.f[i].second == v[i], "value", "feature " << e.f[i].first << " changed from " << v[i] << " to " << r.f[i].second);
      PBT_CHECK(close(want, r.f[i].second, 1e-5, 1.2e-38), "norm", "feature " << e.f[i].first << " of value " << v[i] << " became " << r.f[i].second << ", norm " << norm << " is " << nrm);
      sum += norm == "L1" ? std::fabs((double)r.f[i].second) : (double)r.f[i].second * r.f[i].second;
    }
    if (plain && norm != "None" && mx != 0) PBT_CHECK(std::fabs(sum - 1) < 1e-4, "norm", norm << " norm of the result is " << sum);
  }
  c.label(norm + (f.on ? " filter" : ""));
  c.nontrivial = changed > 0;
}
// the sign of a score that is not a number means nothing
std::string plain_nan(std::string s) {
  for (size_t p; (p = s.find("-nan")) != std::string::npos;) s.erase(p, 1);
  return s;
}
// training, testing and predicting with a filter is training without it on data whose
// other features are zero
void train_filter(pbt::Gen& g, pbt::Ctx& c) {
  Setup s = gen_setup(g, g.pick(all_algos()), true);
  c.label(s.algo);
  Data d = gen_stream(g, s.cls, 16), q = gen_stream(g, s.cls, 8, 10);
  std::set<uint32_t> o;
  std::string t = gen_list(g, o, 8), p = c.path("list");
  write_file(p, t);
  c.desc << s.str() << "\nfilter list\n" << t << "\nend of list\n" << str(d) << "test\n" << str(q);
  Data d0 = d, q0 = q;
  int drop = 0;
  for (auto* x : {&d0, &q0})
    for (auto& e : *x) {
      if (s.cls == 2) e.label = e.label == 1 ? 1 : -1;
      for (auto& fe : e.f)
        if (!o.count(fe.first)) {
          fe.second = 0;
          ++drop;
        }
    }
  std::unique_ptr<OLM> m(make_model(s)), r(make_model(s));
  m->set_iterate_callback(nullptr, nullptr);
  r->set_iterate_callback(nullptr, nullptr);
  m->SetParameter("filter", p);
  VecIter a(d, 3), b(d0, 3), ta(q, 2), tb(q0, 2);
  float e1 = m->Train(a), e2 = r->Train(b);
  PBT_CHECK(e1 == e2, "train", "training error " << e1 << " with the filter, " << e2 << " on filtered data");
  std::ostringstream o1, o2;
  e1 = m->Test(ta, &o1);
  e2 = r->Test(tb, &o2);
  PBT_CHECK(e1 == e2 && plain_nan(o1.str()) == plain_nan(o2.str()), "test", "test results\n" << o1.str() << "with the filter,\n" << o2.str() << "on filtered data");
  for (int k = 0; k < m->clf_num(); ++k) {
    PBT_CHECK(m->w(k).size() == r->w(k).size(), "train", "dimensions differ");
    for (size_t i = 0; i < m->w(k).size(); ++i)
      PBT_CHECK(m->w(k)[i] == r->w(k)[i] || (std::isnan(m->w(k)[i]) && std::isnan(r->w(k)[i])), "train", "weight " << i << " is " << m->w(k)[i] << " with the filter, " << r->w(k)[i] << " on filtered data");
    bool diverged = false;  // the algorithm itself overflows with some settings
    for (size_t i = 0; i < m->w(k).size(); ++i) diverged |= !std::isfinite(m->w(k)[i]);
    for (size_t i = 1; i < m->w(k).size(); ++i)
      PBT_CHECK(o.count((uint32_t)i) || m->w(k)[i] == 0 || diverged, "unlisted", "feature " << i << " is not listed but has weight " << m->w(k)[i]);
  }
  c.nontrivial = drop > 0 && m->update_num() > 0;
}
// a label that is none of the classes of a multi-class model: counted as a mistake, nothing learned
void foreign(pbt::Gen& g, pbt::Ctx& c) {
  Setup s = gen_setup(g, g.pick(all_algos()), true);
  if (s.cls == 2) throw pbt::Discard();
  c.label(s.algo);
  Data d = gen_stream(g, s.cls, 14), d0, q = gen_stream(g, s.cls, 8, 10);
  size_t foreign = 0;
  for (auto& e : d) {
    if (g.chance(1, 3)) {
      e.label = g.chance(1, 3) ? s.cls : g.chance(1, 2) ? -1 : g.chance(1, 2) ? g.range(-40000, 40000) : g.chance(1, 2) ? 2147483647 : -2147483647 - 1;
      if (e.label >= 0 && e.label < s.cls) e.label = s.cls;
      ++foreign;
    } else {
      d0.push_back(e);
    }
  }
  // dimensions are learned from every example
  uint32_t dim = max_index(d) + 1;
  c.desc << s.str() << " dim=" << dim << "\n" << str(d) << "test\n" << str(q);
  std::unique_ptr<OLM> m(make_model(s)), r(make_model(s));
  for (OLM* x : {m.get(), r.get()}) {
    x->set_iterate_callback(nullptr, nullptr);
    x->SetParameter("dim", std::to_string(dim));
  }
  VecIter a(d, 3), b(d0, 3);
  float e1 = m->Train(a), e2 = d0.empty() ? 0 : r->Train(b);
  double want = (double)(std::lround((double)e2 * d0.size()) + foreign) / d.size();
  PBT_CHECK(std::fabs(e1 - want) < 1e-5, "error-rate", "training error " << e1 << " instead of " << want << ", " << foreign << " of " << d.size() << " labels are no class");
  PBT_CHECK(m->update_num() == r->update_num(), "updates", m->update_num() << " updates instead of " << r->update_num());
  if (!d0.empty()) {
    std::ostringstream o1, o2;
    VecIter ta(q, 2), tb(q, 2);
    m->Test(ta, &o1);
    r->Test(tb, &o2);
    PBT_CHECK(plain_nan(o1.str()) == plain_nan(o2.str()), "predictions", "predictions\n" << o1.str() << "instead of\n" << o2.str());
    for (int k = 0; k < m->clf_num(); ++k)
      for (size_t i = 0; i < m->w(k).size(); ++i)
        PBT_CHECK(i < r->w(k).size() && (m->w(k)[i] == r->w(k)[i] || (std::isnan(m->w(k)[i]) && std::isnan(r->w(k)[i]))), "weights", "weight " << i << " of class " << k << " is " << m->w(k)[i] << ", without the examples of no class " << r->w(k)[i]);
  }
  c.nontrivial = foreign > 0 && m->update_num() > 0;
}
}  // namespace
int main(int argc, char** argv) {
  std::vector<pbt::Target> t;
  t.push_back({"preprocess", "histories of norm changes, feature lists, refused lists and examples of any finite values; non-trivial: an example was changed by filter or norm", 60000, 2000000, pre, 20});
  t.push_back({"train-filter", "learner x stream x feature list against training on data with the other features zeroed; non-trivial: a feature was dropped and an update made", 30000, 1000000, train_filter, 20});
  t.push_back({"foreign-labels", "multi-class learner x stream in which some labels are no class against training without those examples; non-trivial: such a label and an update", 30000, 1000000, foreign, 20});
  return pbt::Main(argc, argv, t);
}
