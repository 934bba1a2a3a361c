// refmodel.h - double precision reference of the online learners, run in lock
// step with the library.  Decisions (predicted label, rival class, sign of the
// loss) are taken on the scores the library reports, after these have been
// checked against the reference scores.
#ifndef VERIF_REFMODEL_H_
#define VERIF_REFMODEL_H_
#include "common.h"
#include <sol/model/online_linear_model.h>
#include <sol/model/model.h>

namespace vf {
typedef sol::model::OnlineLinearModel OLM;

struct Setup {
  std::string algo;
  int cls = 2;
  std::string loss;                                     // empty: default
  std::vector<std::pair<std::string, std::string>> p;   // parameters in setting order
  std::map<std::string, double> v;                      // their values
  bool lazy = false;
  bool cost = false;
  std::string str() const {
    std::string s = algo + " classes " + std::to_string(cls);
    for (auto& x : p) s += " " + x.first + "=" + x.second;
    return s;
  }
  long long whole(const std::string& n, long long def) const {
    for (size_t i = p.size(); i-- > 0;)
      if (p[i].first == n) return atoll(p[i].second.c_str());
    return def;
  }
  double num(const std::string& n, double d) const {
    auto it = v.find(n);
    return it == v.end() ? d : it->second;
  }
  void set(const std::string& n, const std::string& val) {
    p.push_back(std::make_pair(n, val));
    v[n] = strtof(val.c_str(), nullptr);
  }
  void drop(const std::string& n) {
    v.erase(n);
    for (size_t i = 0; i < p.size();)
      if (p[i].first == n) p.erase(p.begin() + i);
      else ++i;
  }
};

inline bool starts(const std::string& s, const char* p) { return s.compare(0, strlen(p), p) == 0; }
inline bool is_ogd(const std::string& a) { return a == "ogd" || a == "stg" || a == "fobos-l1" || a == "pet"; }
inline bool is_hinge_only(const std::string& a) { return a == "alma2" || a == "cw" || a == "eccw" || a == "arow" || a == "sofs"; }
inline bool is_bool_only(const std::string& a) { return a == "perceptron" || a == "sop"; }
inline bool is_l1(const std::string& a) { return a == "stg" || (a.size() > 3 && a.compare(a.size() - 3, 3, "-l1") == 0); }
inline bool is_fs(const std::string& a) { return a == "pet" || a == "fofs" || a == "sofs" || a == "adafobos-ofs" || a == "adarda-ofs"; }
inline bool is_lazy_l1(const std::string& a) { return a == "stg" || a == "fobos-l1" || a == "ada-fobos-l1"; }
inline const std::vector<std::string>& all_algos() {
  static const std::vector<std::string> v = {"perceptron", "ogd", "pa", "pa1", "pa2", "alma2", "rda", "sop", "cw", "eccw", "arow", "ada-fobos", "ada-rda",
                                             "stg", "fobos-l1", "rda-l1", "erda-l1", "ada-fobos-l1", "ada-rda-l1", "pet", "fofs", "sofs", "adafobos-ofs", "adarda-ofs"};
  return v;
}

inline std::string gen_num(pbt::Gen& g, const std::vector<std::string>& v) { return v[g.below(v.size())]; }

// a valid configuration of the learner
inline int gen_classes(pbt::Gen& g) {
  if (!g.chance(2, 5)) return 2;
  if (g.chance(1, 16)) return (int)g.range(6, g.chance(1, 6) ? 300 : 20);
  return (int)g.range(3, 5);
}
inline Setup gen_setup(pbt::Gen& g, const std::string& algo, bool options = false) {
  Setup s;
  s.algo = algo;
  s.cls = gen_classes(g);
  bool bin = s.cls == 2;
  if (g.chance(1, 3)) {
    std::vector<std::string> k;
    if (!is_hinge_only(algo)) k.push_back("bool");
    if (!is_bool_only(algo)) k.push_back("hinge");
    if (!is_hinge_only(algo) && !is_bool_only(algo)) k.push_back("logistic");
    std::string l = g.pick(k);
    if (!bin) l = (g.chance(1, 2) ? "maxscore-" : "uniform-") + l;
    s.loss = l;
    s.p.push_back(std::make_pair("loss", l));
  }
  if (g.chance(1, 3)) s.set("bias_eta", gen_num(g, {"1", "0.5", "0.1", "2", "0.00002"}));
  if (g.chance(1, 6)) s.set("t", std::to_string(g.chance(1, 8) ? g.range(21, 200000) : g.range(0, 20)));
  if (g.chance(1, 8)) s.set("dim", std::to_string(g.range(1, 14)));
  if (is_ogd(algo)) {
    if (g.chance(1, 2)) s.set("power_t", gen_num(g, {"0", "1", "0.5", "0.25", "0.75", "2"}));
    if (g.chance(1, 2)) s.set("eta", gen_num(g, {"0.5", "0.1", "2", "0.125", "4", "0.0003"}));
  }
  if (algo == "pa1" || algo == "pa2" || algo == "alma2")
    if (g.chance(1, 2)) s.set("C", gen_num(g, {"0.5", "0.1", "2", "0.01", "10", "0.0002"}));
  if (algo == "alma2") {
    if (g.chance(1, 2)) s.set("alpha", gen_num(g, {"0.5", "0.9", "0.1", "0.99"}));
    if (g.chance(1, 4)) s.set("p", gen_num(g, {"2", "3", "5"}));
    if (g.chance(1, 4)) s.set("k", gen_num(g, {"1", "2", "7"}));
  }
  if (starts(algo, "rda") || algo == "erda-l1")
    if (g.chance(1, 2)) s.set("sigma", gen_num(g, {"0.5", "2", "0.1", "10"}));
  if (algo == "erda-l1" && g.chance(1, 2)) s.set("rou", gen_num(g, {"0", "0.1", "0.5", "0.01"}));
  if (algo == "sop" && g.chance(1, 2)) s.set("a", gen_num(g, {"0.5", "2", "10"}));
  if (algo == "cw" || algo == "eccw") {
    if (g.chance(1, 2)) s.set("a", gen_num(g, {"0.5", "2", "0.1", "4"}));
    if (g.chance(1, 2)) s.set("phi", gen_num(g, {"0.25", "1", "2", "0.1"}));
  }
  if (algo == "arow" || algo == "sofs")
    if (g.chance(1, 2)) s.set("r", gen_num(g, {"0.5", "2", "0.1", "10", "300"}));
  if (starts(algo, "ada")) {
    if (g.chance(1, 2)) s.set("delta", gen_num(g, {"1", "0.5", "0.01", "20"}));
    if (g.chance(1, 2)) s.set("eta", gen_num(g, {"0.5", "2", "0.1", "10"}));
  }
  if (algo == "fofs") {
    if (g.chance(1, 2)) s.set("eta", gen_num(g, {"0.5", "0.2", "0.1", "1"}));
    if (g.chance(1, 2)) s.set("lambda", gen_num(g, {"0.01", "0.1", "0.25", "0", "0.5"}));
  }
  if (is_l1(algo)) {
    if (g.chance(5, 6)) s.set("lambda", gen_num(g, {"0.0625", "0.01", "0.001", "0.25", "0.1", "0"}));
    if (g.chance(1, 8)) s.set("sparse_thresh", gen_num(g, {"0.001", "0.01", "0.1"}));
  }
  if (algo == "stg" && g.chance(2, 3)) s.set("k", gen_num(g, {"2", "1", "3", "5"}));
  if (is_fs(algo)) s.set("B", std::to_string(g.chance(1, 30) ? g.range(6, 60) : g.range(1, 5)));
  if (algo != "alma2" && g.chance(1, 8)) s.p.push_back(std::make_pair("norm", g.chance(1, 2) ? "L2" : "L1"));
  if (options) {
    if (g.chance(1, 2)) {
      s.lazy = true;
      s.p.push_back(std::make_pair("lazy_update", "true"));
    }
    std::string l = s.loss.empty() ? (is_bool_only(algo) ? "bool" : "hinge") : s.loss;
    if (bin && l == "hinge" && algo != "alma2" && algo != "cw" && algo != "eccw" && g.chance(1, 2)) {
      s.cost = true;
      s.set("cost_margin", gen_num(g, {"2", "0.5", "1", "4", "0.25"}));
    }
  }
  return s;
}

inline OLM* make_model(const Setup& s) {
  sol::model::Model* m = sol::model::Model::Create(s.algo, s.cls);
  if (m == nullptr) PBT_FAIL("create", "cannot create " << s.algo << " with " << s.cls << " classes");
  OLM* o = dynamic_cast<OLM*>(m);
  if (o == nullptr) PBT_FAIL("create", "model is not an online linear model");
  try {
    for (auto& x : s.p) o->SetParameter(x.first, x.second);
  } catch (std::exception& e) {
    delete m;
    PBT_FAIL("refused", "valid setting refused: " << e.what());
  }
  return o;
}

// a stream with recurring features, repeated examples, empty examples, growing dimension
inline Data gen_stream(pbt::Gen& g, int cls, int maxn, uint32_t maxdim = 8, bool far = true, bool lengthy = false) {
  Data d;
  uint32_t dim = (uint32_t)g.range(1, g.chance(1, 80) ? 15 * maxdim : maxdim);
  int n = (int)g.sized(1, g.chance(1, 40) ? (lengthy && g.chance(1, 12) && cls < 20 ? 50 : 8) * maxn : maxn);
  int style = (int)g.below(4);  // 0: any, 1: separable by feature sign, 2: small values, 3: repeats
  int max8 = style == 2 ? 8 : 24;
  for (int i = 0; i < n; ++i) {
    if (style == 3 && i > 0 && g.chance(1, 2)) {
      d.push_back(d[g.below(i)]);
      continue;
    }
    int label = cls == 2 ? (g.chance(1, 2) ? 1 : -1) : (int)g.below(cls);
    Ex e = gen_nice(g, dim, (int)dim, label, max8);
    if (style == 1 && !e.f.empty()) e.label = cls == 2 ? (e.f[0].second > 0 ? 1 : -1) : (int)(e.f[0].first % cls);
    if (g.chance(1, 12) && !e.f.empty()) e.f[g.below(e.f.size())].second = 0;
    d.push_back(e);
    if (g.chance(1, 10)) dim += (uint32_t)g.range(1, 4);
  }
  // the same with the features further apart
  if (g.chance(1, 25)) {
    // rarely beyond 2^16, if that does not take too many weights
    uint32_t top = (uint32_t)(800000 / ((uint64_t)cls * max_index(d) + 1));
    uint32_t k = (uint32_t)g.range(2, far && top > 300 && g.chance(1, 40) ? std::min(top, 40000u) : g.chance(1, 4) ? 300 : 30), off = (uint32_t)g.below(k);
    for (auto& e : d)
      for (auto& f : e.f) f.first = f.first * k - off;
  }
  return d;
}

// the same with much smaller or larger values, by a power of two
inline void rescale(pbt::Gen& g, pbt::Ctx& c, Data& d, int lo, int hi) {
  int k = (int)g.range(lo, hi);
  for (auto& e : d)
    for (auto& f : e.f) f.second = std::ldexp(f.second, k);
  c.label(k < 0 ? "small values" : "large values");
}

struct XY {
  long long y;
  std::vector<std::pair<uint32_t, double>> f;
  double norm2() const {
    double n = 0;
    for (auto& p : f) n += p.second * p.second;
    return n;
  }
};

class Ref {
 public:
  Setup s;
  std::string a;
  int C;
  double bias0, eta0, pw, lambda, thresh;
  double eta = 1;
  long long t, t0;
  int k;      // alma2 counter / stg period
  double Vi = 0;
  uint32_t dim = 1;
  std::vector<std::vector<double>> w, u, S;
  std::vector<double> X, last;
  std::vector<char> wnoise;
  std::string loss;
  long long updates = 0;

  explicit Ref(const Setup& st) : s(st), a(st.algo) {
    C = s.cls == 2 ? 1 : s.cls;
    bias0 = s.num("bias_eta", 0);
    eta0 = s.num("eta", 1);
    if (!is_ogd(a)) eta = s.num("eta", 1);
    pw = s.num("power_t", 0.5);
    lambda = s.num("lambda", 0);
    thresh = s.num("sparse_thresh", 1e-6);
    t = t0 = s.whole("t", 0);
    k = (int)s.num("k", 1);
    loss = s.loss.empty() ? (is_bool_only(a) ? (C == 1 ? "bool" : "maxscore-bool") : (C == 1 ? "hinge" : "maxscore-hinge")) : s.loss;
    w.assign(C, std::vector<double>(1, 0.));
    u = w;
    S.assign(C, std::vector<double>(1, init_s()));
    X.assign(1, 0.);
    last.assign(1, (double)t0);
    grow((uint32_t)s.num("dim", 1));
    if (is_fs(a) && s.num("B", 0) > 0) grow((uint32_t)s.num("B", 0) + 1);
  }
  double init_s() const {
    if (a == "cw" || a == "eccw") return s.num("a", 1);
    if (starts(a, "ada")) return s.num("delta", 10);
    return 1;
  }
  void grow(uint32_t d) {
    if (d <= dim) return;
    for (int c = 0; c < C; ++c) {
      w[c].resize(d, 0.);
      u[c].resize(d, 0.);
      S[c].resize(d, init_s());
    }
    X.resize(d, 0.);
    last.resize(d, (double)t0);
    dim = d;
  }
  static double trunc(double v, double th) { return v >= 0 ? (v > th ? v - th : 0) : (-v > th ? v + th : 0); }
  double beta() const { return bias0 * eta; }

  // what happens before the example is scored
  void pre(const XY& x) {
    if (!x.f.empty()) grow(x.f.back().first + 1);
    ++t;
    double tt = (double)(t - 1);
    if (a == "stg") {
      // every k examples the weights are shrunk by k steps
      for (auto& p : x.f) {
        int step = (int)(tt - last[p.first]);
        step -= step % k;
        for (int c = 0; c < C; ++c) w[c][p.first] = trunc(w[c][p.first], step * eta * lambda);
        last[p.first] += step;
      }
      for (int c = 0; c < C; ++c) w[c][0] = trunc(w[c][0], beta() * lambda * (tt - last[0]));
      last[0] = tt;
    } else if (a == "fobos-l1" || a == "ada-fobos-l1") {
      for (int c = 0; c < C; ++c) {
        for (auto& p : x.f) {
          double h = a == "fobos-l1" ? 1 : S[c][p.first];
          w[c][p.first] = trunc(w[c][p.first], eta * lambda * (tt - last[p.first]) / h);
        }
        double h = a == "fobos-l1" ? 1 : S[c][0];
        w[c][0] = trunc(w[c][0], beta() * lambda * (tt - last[0]) / h);
      }
      for (auto& p : x.f) last[p.first] = tt;
      last[0] = tt;
    } else if (a == "rda" || a == "rda-l1" || a == "erda-l1") {
      rda(tt, &x);
    } else if (a == "ada-rda-l1") {
      double th = lambda * (double)t;
      for (int c = 0; c < C; ++c) {
        for (auto& p : x.f) w[c][p.first] = -eta * trunc(u[c][p.first], th) / S[c][p.first];
        w[c][0] = -beta() * trunc(u[c][0], th) / S[c][0];
      }
    } else if (a == "sop") {
      double aa = s.num("a", 1);
      for (int c = 0; c < C; ++c) {
        for (auto& p : x.f) w[c][p.first] = u[c][p.first] / (aa + X[p.first] + p.second * p.second);
        w[c][0] = u[c][0] / (aa + X[0]);
      }
    }
  }
  void rda(double tt, const XY* x) {
    double sg = s.num("sigma", 1), th = 0;
    if (tt <= 0) {  // nothing learned yet
      for (int c = 0; c < C; ++c) {
        if (x == nullptr) for (auto& v : w[c]) v = 0;
        else for (auto& p : x->f) w[c][p.first] = 0;
        w[c][0] = 0;
      }
      return;
    }
    if (a == "erda-l1") {
      eta = 1 / (std::sqrt(tt) * sg);
      th = lambda * tt + sg * s.num("rou", 0) * std::sqrt(tt);
    } else {
      eta = 1 / (tt * sg);
      if (a == "rda-l1") th = lambda * tt;
    }
    for (int c = 0; c < C; ++c) {
      if (x == nullptr) {
        for (uint32_t i = 1; i < dim; ++i) w[c][i] = -eta * trunc(u[c][i], th);
      } else {
        for (auto& p : x->f) w[c][p.first] = -eta * trunc(u[c][p.first], th);
      }
      w[c][0] = -beta() * trunc(u[c][0], th);
    }
  }

  std::vector<double> scores(const XY& x, std::vector<double>* mag) const {
    std::vector<double> r(C), m(C);
    for (int c = 0; c < C; ++c) {
      r[c] = w[c][0];
      m[c] = std::fabs(w[c][0]);
      for (auto& p : x.f) {
        double z = p.first < w[c].size() ? w[c][p.first] * p.second : 0;
        r[c] += z;
        m[c] += std::fabs(z);
      }
    }
    if (mag) *mag = m;
    return r;
  }

  double margin_of(const XY& x, const std::vector<double>& g) {
    if (a == "cw" || a == "eccw") {
      Vi = 0;
      for (int c = 0; c < C; ++c) {
        if (g[c] == 0) continue;
        double q = bias0 != 0 ? S[c][0] : 0;
        for (auto& p : x.f) q += S[c][p.first] * p.second * p.second;
        Vi += q * g[c] * g[c];
      }
      return s.num("phi", 0.5244f) * (a == "eccw" ? std::sqrt(Vi) : Vi);
    }
    if (a == "alma2") {
      double al = s.num("alpha", 0.9f);
      return (1 - al) / al * std::sqrt(s.num("p", 2) - 1) / std::sqrt((double)k);
    }
    if (s.cost && x.y == 1) return s.num("cost_margin", 1);
    return 1;
  }

  // loss on the given scores; fills the gradient
  double eval_loss(const XY& x, const std::vector<double>& sc, long long pred, std::vector<double>& g) {
    g.assign(C, 0.);
    double gap = 0;
    bool have = true;
    std::vector<double> d(C, 0.);  // derivative of the gap
    if (C == 1) {
      gap = -(double)x.y * sc[0];
      d[0] = -(double)x.y;
    } else if (starts(loss, "uniform")) {
      std::vector<int> r;
      double sum = 0;
      for (int i = 0; i < C; ++i)
        if (i != x.y && sc[i] >= sc[x.y]) {
          r.push_back(i);
          sum += sc[i];
        }
      have = !r.empty();
      if (have) {
        gap = sum / (double)r.size() - sc[x.y];
        for (int i : r) d[i] = 1. / (double)r.size();
        d[x.y] = -1;
      }
    } else {
      int r = -1;
      if (pred != x.y) r = (int)pred;
      else
        for (int i = 0; i < C; ++i)
          if (i != x.y && (r < 0 || sc[i] > sc[r])) r = i;
      gap = sc[r] - sc[x.y];
      d[r] = 1;
      d[x.y] = -1;
    }
    if (!have) return 0;
    double L, wgt;
    if (loss.find("bool") != std::string::npos) {
      L = pred == x.y ? 0 : 1;
      wgt = 1;
    } else if (loss.find("hinge") != std::string::npos) {
      L = margin_of(x, d) + gap;
      wgt = 1;
    } else {
      L = gap > 0 ? gap + std::log1p(std::exp(-gap)) : std::log1p(std::exp(gap));
      wgt = gap >= 0 ? 1 / (1 + std::exp(-gap)) : std::exp(gap) / (1 + std::exp(gap));
    }
    for (int c = 0; c < C; ++c) g[c] = d[c] * wgt;
    return L;
  }

  void update(const XY& x, const std::vector<double>& g, double L) {
    double n2 = x.norm2();
    double coef = C == 1 ? 1 : 2;
    auto step = [&](double e) {
      eta = e;
      for (int c = 0; c < C; ++c) {
        if (g[c] == 0) continue;
        for (auto& p : x.f) w[c][p.first] -= e * g[c] * p.second;
        w[c][0] -= bias0 * e * g[c];
      }
    };
    if (a == "perceptron") {
      step(1);
    } else if (is_ogd(a)) {
      step(eta0 / std::pow((double)t, pw));
    } else if (a == "pa") {
      step(n2 > 0 ? L / (coef * n2) : 0);
    } else if (a == "pa1") {
      double Cp = s.num("C", 1);
      step(n2 > 0 ? std::min(Cp, L / (coef * n2)) : Cp);
    } else if (a == "pa2") {
      step(L / (coef * n2 + 0.5 / s.num("C", 1)));
    } else if (a == "alma2") {
      double sp = std::sqrt(s.num("p", 2) - 1);
      step(s.num("C", std::sqrt(2.0)) / (sp * std::sqrt((double)k)));
      for (int c = 0; c < C; ++c) {
        if (g[c] == 0) continue;
        double n = 0;
        for (double v : w[c]) n += v * v;
        n = std::sqrt(n);
        if (n > 1) for (double& v : w[c]) v /= n;
      }
      ++k;
    } else if (a == "rda" || a == "rda-l1" || a == "erda-l1") {
      for (int c = 0; c < C; ++c) {
        for (auto& p : x.f) u[c][p.first] += g[c] * p.second;
        u[c][0] += g[c];
      }
    } else if (a == "sop") {
      eta = 1;
      for (int c = 0; c < C; ++c) {
        for (auto& p : x.f) u[c][p.first] -= g[c] * p.second;
        u[c][0] -= bias0 * g[c];
      }
      for (auto& p : x.f) X[p.first] += p.second * p.second;
    } else if (a == "cw" || a == "eccw") {
      double phi = s.num("phi", 0.5244f), al, q;
      if (a == "cw") {
        double M = phi * Vi - L, b = 1 + 2 * phi * M;
        al = (-b + std::sqrt(b * b - 8 * phi * (M - phi * Vi))) / (4 * phi * Vi);
        q = 2 * al * phi;
      } else {
        double m = phi * std::sqrt(Vi) - L, psi = 1 + phi * phi / 2, xi = 1 + phi * phi;
        al = (-m * psi + std::sqrt(m * m * phi * phi * phi * phi / 4 + Vi * phi * phi * xi)) / (Vi * xi);
        double su = 0.5 * (-al * Vi * phi + std::sqrt(al * al * Vi * Vi * phi * phi + 4 * Vi));
        q = al * phi / su;
      }
      eta = al;
      for (int c = 0; c < C; ++c) {
        if (g[c] == 0) continue;
        for (auto& p : x.f) {
          w[c][p.first] -= al * g[c] * S[c][p.first] * p.second;
          S[c][p.first] /= 1 + q * S[c][p.first] * p.second * p.second;
        }
        w[c][0] -= beta() * g[c] * S[c][0];
        S[c][0] /= 1 + q * S[c][0];
      }
    } else if (a == "arow" || a == "sofs") {
      double r = s.num("r", 1), b = 0;
      for (int c = 0; c < C; ++c) {
        if (g[c] == 0) continue;
        double q = bias0 != 0 ? S[c][0] : 0;
        for (auto& p : x.f) q += S[c][p.first] * p.second * p.second;
        b += q * g[c] * g[c];
      }
      eta = L / (b + r);
      for (int c = 0; c < C; ++c) {
        if (g[c] == 0) continue;
        double r1 = g[c] * g[c] / r;
        for (auto& p : x.f) {
          w[c][p.first] -= eta * g[c] * S[c][p.first] * p.second;
          S[c][p.first] /= 1 + S[c][p.first] * p.second * p.second * r1;
        }
        w[c][0] -= beta() * g[c] * S[c][0];
        S[c][0] /= 1 + S[c][0] * r1;
      }
    } else if (starts(a, "ada")) {
      double de = s.num("delta", 10);
      bool fobos = a.find("fobos") != std::string::npos;
      auto inc = [&](double& h, double gx) { h = std::sqrt((h - de) * (h - de) + gx * gx) + de; };
      for (int c = 0; c < C; ++c) {
        if (g[c] == 0) continue;
        for (auto& p : x.f) inc(S[c][p.first], g[c] * p.second);
        inc(S[c][0], g[c]);
        for (auto& p : x.f) {
          if (fobos) {
            w[c][p.first] -= eta * g[c] * p.second / S[c][p.first];
          } else {
            u[c][p.first] += g[c] * p.second;
            w[c][p.first] = -eta * u[c][p.first] / S[c][p.first];
          }
        }
        if (fobos) {
          w[c][0] -= beta() * g[c] / S[c][0];
        } else {
          u[c][0] += g[c];
          w[c][0] = -beta() * u[c][0] / S[c][0];
        }
      }
    } else if (a == "fofs") {
      for (int c = 0; c < C; ++c) {
        if (g[c] == 0) continue;
        for (double& v : w[c]) v *= 1 - lambda * eta;
        for (auto& p : x.f) w[c][p.first] -= eta * g[c] * p.second;
        w[c][0] -= beta() * g[c];
        if (lambda > 0) {
          double n = 0;
          for (double v : w[c]) n += v * v;
          double co = 1 / std::sqrt(lambda) / std::sqrt(n);
          if (co < 1) for (double& v : w[c]) v *= co;
        }
      }
    } else {
      PBT_FAIL("harness", "no reference for " << a);
    }
  }

  // what happens when training ends (the model is about to be used)
  void end() {
    double tt = (double)t;
    if (is_lazy_l1(a)) {
      for (int c = 0; c < C; ++c) {
        for (uint32_t i = 1; i < dim; ++i)
          w[c][i] = trunc(w[c][i], eta * lambda * (tt - last[i]) / (a == "ada-fobos-l1" ? S[c][i] : 1));
        w[c][0] = trunc(w[c][0], beta() * lambda * (tt - last[0]) / (a == "ada-fobos-l1" ? S[c][0] : 1));
      }
      for (auto& l : last) l = tt;
    } else if (a == "rda" || a == "rda-l1" || a == "erda-l1") {
      rda(tt, nullptr);
    } else if (a == "sop") {
      for (int c = 0; c < C; ++c)
        for (uint32_t i = 0; i < dim; ++i) w[c][i] = u[c][i] / (s.num("a", 1) + X[i]);
    } else if (starts(a, "ada-rda") || a == "adarda-ofs") {
      double th = a == "ada-rda-l1" ? lambda * (double)t : 0;
      for (int c = 0; c < C; ++c) {
        for (uint32_t i = 1; i < dim; ++i) w[c][i] = -eta * trunc(u[c][i], th) / S[c][i];
        w[c][0] = -beta() * trunc(u[c][0], th) / S[c][0];
      }
    }
    if (is_l1(a))
      for (auto& v : w)
        for (double& z : v)
          if (std::fabs(z) < thresh) z = 0;
  }
  // feature selection criterion, larger is better
  double crit(uint32_t i) const {
    double r = 0;
    for (int c = 0; c < C; ++c) {
      if (a == "pet" || a == "fofs") r += std::fabs(w[c][i]);
      else if (a == "sofs") r -= S[c][i];
      else r += S[c][i];
    }
    return r;
  }
};

inline XY to_xy(const sol::pario::DataPoint& dp) {
  XY x;
  x.y = dp.label();
  for (size_t i = 0; i < dp.size(); ++i) x.f.push_back(std::make_pair((uint32_t)dp.index(i), (double)dp.feature(i)));
  return x;
}

// drives a model and its reference
class LockStep {
 public:
  OLM& m;
  Ref r;
  double rel;
  int n_updates = 0, steps = 0;
  bool exact_w = true;  // compare all weights after each example
  LockStep(OLM& model, const Setup& s) : m(model), r(s), rel(3e-5) {}
  // goes on with another model of the same state
  LockStep(OLM& model, const LockStep& o) : m(model), r(o.r), rel(o.rel), n_updates(o.n_updates), steps(o.steps) {}
  // after training has begun anew: features may have been dropped in favour of others just as good or better
  void begun() {
    double sc = 0;
    for (auto& v : r.w) for (double z : v) sc = std::max(sc, std::fabs(z));
    compare("when training begins again", sc, is_fs(r.a) && r.s.num("B", 0) > 0);
  }

  double wtol(int c, uint32_t i, double ref, double scale) const { return 2e-6 + rel * std::max(std::fabs(ref), scale); }

  void compare(const char* when, double scale, bool selecting) {
    if (selecting) {
      compare_selected(when, scale);
      return;
    }
    for (int c = 0; c < r.C; ++c) {
      auto& w = m.w(c);
      PBT_CHECK(w.size() == r.dim, "dim", when << ": class " << c << " has " << w.size() << " weights instead of " << r.dim);
      for (uint32_t i = 0; i < r.dim; ++i) {
        double ref = r.w[c][i], obs = w[i];
        PBT_CHECK(std::isfinite(obs), "nonfinite", when << ": weight " << i << " of class " << c << " is " << obs << ", reference " << ref);
        PBT_CHECK(std::fabs(obs - ref) <= wtol(c, i, ref, scale), "weights",
                  when << ": weight " << i << " of class " << c << " is " << obs << ", reference " << ref);
        r.w[c][i] = obs;
      }
    }
  }
  void compare_selected(const char* when, double scale) {
    uint32_t B = (uint32_t)r.s.num("B", 0);
    std::vector<double> cr;
    for (uint32_t i = 1; i < r.dim; ++i) cr.push_back(r.crit(i));
    std::vector<double> so = cr;
    std::sort(so.begin(), so.end(), std::greater<double>());
    double edge = so[B - 1];  // the worst of the B best
    double etol = 1e-5 + 1e-4 * std::fabs(edge);
    uint32_t nz = 0;
    for (uint32_t i = 1; i < r.dim; ++i) {
      bool kept = false, had = false;
      double mass = 0;
      for (int c = 0; c < r.C; ++c) {
        PBT_CHECK(m.w(c).size() == r.dim, "dim", when << ": class " << c << " has " << m.w(c).size() << " weights instead of " << r.dim);
        kept |= m.w(c)[i] != 0;
        had |= std::fabs(r.w[c][i]) > 3e-6 + rel * scale;
        mass += std::fabs(r.w[c][i]);
      }
      nz += kept;
      if (kept) {
        PBT_CHECK(cr[i - 1] >= edge - etol, "selection", when << ": feature " << i << " is kept with criterion " << cr[i - 1] << ", but the " << B << " best reach " << edge);
      } else if (had) {
        PBT_CHECK(cr[i - 1] <= edge + etol, "selection", when << ": feature " << i << " was dropped with criterion " << cr[i - 1] << ", but the worst of the " << B << " best has " << edge);
      }
      for (int c = 0; c < r.C; ++c) {
        double ref = kept ? r.w[c][i] : 0, obs = m.w(c)[i];
        PBT_CHECK(std::fabs(obs - ref) <= wtol(c, i, ref, scale), "weights", when << ": weight " << i << " of class " << c << " is " << obs << ", reference " << ref);
        r.w[c][i] = obs;
      }
    }
    PBT_CHECK(nz <= B, "budget", when << ": " << nz << " features have weight, the budget is " << B);
    for (int c = 0; c < r.C; ++c) {
      double ref = r.w[c][0], obs = m.w(c)[0];
      PBT_CHECK(std::fabs(obs - ref) <= wtol(c, 0, ref, scale), "weights", when << ": bias of class " << c << " is " << obs << ", reference " << ref);
      r.w[c][0] = obs;
    }
  }

  // one training example; returns the predicted label
  long long step(const Ex& e, bool* updated = nullptr) {
    sol::pario::DataPoint dp;
    to_point(e, dp);
    m.PreProcess(dp);
    XY x = to_xy(dp);
    std::vector<float> p(r.C + 1, 12345.f);
    size_t u0 = m.update_num();
    long long label = m.Iterate(dp, p.data());
    ++steps;
    std::string at = "after example " + std::to_string(steps);
    int du = (int)(m.update_num() - u0);
    r.pre(x);
    PBT_CHECK(m.cur_iter_num() == r.t, "counters", at << ": iteration number " << m.cur_iter_num() << " instead of " << r.t);
    PBT_CHECK(p[r.C] == 12345.f, "overrun", "more scores than classes");
    std::vector<double> mag, sc = r.scores(x, &mag);
    double scale = 0;
    for (int c = 0; c < r.C; ++c) {
      if (!(mag[c] <= 1e33)) throw pbt::Discard();
      PBT_CHECK(std::isfinite(p[c]), "nonfinite", at << ": score of class " << c << " is " << p[c] << ", reference " << sc[c]);
      PBT_CHECK(std::fabs(p[c] - sc[c]) <= 1e-5 + 5e-5 * mag[c], "scores", at << ": score of class " << c << " is " << p[c] << ", reference " << sc[c]);
      sc[c] = p[c];
      scale = std::max(scale, mag[c]);
    }
    long long want = r.C == 1 ? (p[0] >= 0 ? 1 : -1) : (long long)(std::max_element(p.begin(), p.begin() + r.C) - p.begin());
    PBT_CHECK(label == want, "label", at << ": predicted " << label << " instead of " << want);
    std::vector<double> g;
    double L = r.eval_loss(x, sc, want, g);
    bool upd = r.s.lazy ? want != x.y : L > 0;
    double tol = 2e-6 * (1 + scale) + (r.a == "cw" || r.a == "eccw" ? 1e-4 * (1 + std::sqrt(r.Vi) + r.Vi) : 0);
    bool amb = !r.s.lazy && std::fabs(L) <= tol;
    PBT_CHECK(du == 0 || du == 1, "counters", at << ": update count changed by " << du);
    if (!amb) PBT_CHECK(upd == (du == 1), "decision", at << (du ? ": updated" : ": did not update") << " on a loss of " << L);
    double ws = 0;
    if (du == 1) {
      ++n_updates;
      ++r.updates;
      if (r.a == "cw" || r.a == "eccw") {
        if (r.Vi < 1e-9) throw pbt::Discard();
      }
      r.update(x, g, std::max(L, 0.));
      // step sizes with which the algorithm itself leaves the range of float
      for (auto& v : r.w)
        for (double z : v) if (!(std::fabs(z) <= 1e30)) throw pbt::Discard();
      double gx = 0;
      for (auto& q : x.f) gx = std::max(gx, std::fabs(q.second));
      ws = std::fabs(r.eta) * (gx + r.bias0) * (r.a == "cw" || r.a == "eccw" ? r.init_s() : 1);
      if (!std::isfinite(ws)) ws = 0;
    }
    if (updated) *updated = du == 1;
    bool sel = is_fs(r.a) && r.s.num("B", 0) > 0 && du == 1;
    if (amb && du == 1 && (r.a == "cw" || r.a == "eccw")) ws += 1;
    compare(at.c_str(), std::max(scale * 0.1, ws), sel);
    PBT_CHECK((long long)m.update_num() == r.updates, "counters", at << ": update count " << m.update_num() << " instead of " << r.updates);
    return label;
  }
  void finish(const char* when = "after training") {
    m.EndTrain();
    r.end();
    double sc = 0;
    for (auto& v : r.w) for (double z : v) sc = std::max(sc, std::fabs(z));
    if (is_l1(r.a)) {
      for (int c = 0; c < r.C; ++c)
        for (uint32_t i = 0; i < r.dim; ++i) {
          double ref = r.w[c][i], obs = m.w(c)[i];
          double tol = 2e-6 + rel * std::max(std::fabs(ref), sc);
          bool near = std::fabs(std::fabs(obs) - r.thresh) <= tol || std::fabs(std::fabs(ref) - r.thresh) <= tol || r.thresh <= tol;
          if (near) tol += r.thresh;
          PBT_CHECK(std::isfinite(obs) && std::fabs(obs - ref) <= tol, "final-weights", when << ": weight " << i << " of class " << c << " is " << obs << ", reference " << ref);
          PBT_CHECK(obs == 0 || std::fabs(obs) >= r.thresh * 0.999, "not-sparse", when << ": weight " << i << " of class " << c << " is " << obs << ", below the threshold but not zero");
          r.w[c][i] = obs;
        }
    } else {
      compare(when, sc, is_fs(r.a) && r.s.num("B", 0) > 0 && (r.a == "adarda-ofs"));
    }
  }
};

// a whole training in lock step, which may end, begin again because of a setting, or go on with the loaded model in between
struct LockRun {
  std::unique_ptr<OLM> m;
  std::unique_ptr<LockStep> ls;
  void run(pbt::Gen& g, pbt::Ctx& c, const Setup& s, const Data& d, bool reload = true) {
    m.reset(make_model(s));
    m->set_iterate_callback(nullptr, nullptr);
    Data none;
    { VecIter it(none, 1); m->Train(it); }
    ls.reset(new LockStep(*m, s));
    int cut = g.chance(1, 3) ? (int)g.below(d.size() + 1) : -1, op = cut < 0 ? 0 : (int)g.below(3);
    // the step size reached is not part of a saved model of these
    bool decays = (s.algo == "stg" || s.algo == "fobos-l1") && ls->r.pw != 0;
    // nor is what is left of the current period of k examples
    bool period = s.algo == "stg" && s.num("k", 1) > 1;
    if ((decays || period || !reload) && op == 2) op = 0;
    for (size_t i = 0; i < d.size(); ++i) {
      ls->step(d[i]);
      if ((int)i != cut) continue;
      c.desc << "after example " << i + 1 << ": ";
      if (op == 0) {
        c.desc << "end of training\n";
        ls->finish("after finishing training half-way");
        continue;
      }
      if (op == 1) {
        c.desc << "loss=" << ls->r.loss << "\n";
        c.label("begun again");
        m->SetParameter("loss", ls->r.loss);
      } else {
        c.desc << "save, load\n";
        c.label("loaded");
        ls->finish("before saving");
        std::string p = c.path("m");
        PBT_CHECK(m->Save(p) == 0, "save", "saving failed");
        OLM* o = dynamic_cast<OLM*>(sol::model::Model::Load(p));
        PBT_CHECK(o != nullptr, "load", "loading failed");
        std::unique_ptr<LockStep> n(new LockStep(*o, *ls));
        n->r.updates = (long long)o->update_num();
        ls.swap(n);
        m.reset(o);
        m->set_iterate_callback(nullptr, nullptr);
      }
      VecIter it(none, 1);
      m->Train(it);
    }
    ls->finish();
  }
};

// the reported sparsity is the fraction of zero weights, bias left out
inline void check_sparsity(OLM& m) {
  double nz = 0, all = 0;
  float got = m.model_sparsity();
  for (int c = 0; c < m.clf_num(); ++c)
    for (size_t i = 1; i < m.w(c).size(); ++i) {
      ++all;
      nz += m.w(c)[i] != 0;
    }
  if (all == 0) return;
  PBT_CHECK(std::fabs(got - (1 - nz / all)) <= 1e-6, "sparsity", "sparsity " << got << " instead of " << 1 - nz / all);
}
}  // namespace vf
#endif
