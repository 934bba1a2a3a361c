// P14: loss values and gradients
#include "common.h"
#include <sol/loss/loss.h>
#include <sol/loss/hinge_loss.h>
using namespace vf;
using sol::loss::Loss;
namespace {
float gen_score(pbt::Gen& g, int scale) {
  switch (scale) {
    case 0: return (float)g.range(-16, 16) / 8.f;            // ties and exact margins
    case 1: return (float)g.range(-2000000, 2000000) / 1e6f;
    case 2: return (float)g.range(-1300, 1300) / 10.f;       // around the cut-offs of exp
    default: return (float)(g.range(-1000, 1000)) * std::pow(10.f, (float)g.range(-6, 11));
  }
}
double softplus(double z) { return z > 0 ? z + std::log1p(std::exp(-z)) : std::log1p(std::exp(z)); }
double sigmoid(double z) { return z >= 0 ? 1 / (1 + std::exp(-z)) : std::exp(z) / (1 + std::exp(z)); }

void loss_case(pbt::Gen& g, pbt::Ctx& c) {
  static const std::vector<std::string> names = {"bool", "maxscore-bool", "uniform-bool", "hinge", "maxscore-hinge", "uniform-hinge",
                                                 "logistic", "maxscore-logistic", "uniform-logistic", "square"};
  std::string name = g.pick(names);
  bool multi = name.find('-') != std::string::npos;
  bool hinge = name.find("hinge") != std::string::npos, boolean = name.find("bool") != std::string::npos;
  bool uniform = name.compare(0, 7, "uniform") == 0;
  int n = multi ? (g.chance(1, 20) ? (int)g.range(8, g.chance(1, 8) ? 600 : 40) : (int)g.range(2, 7)) : 1;
  int scale = (int)g.below(4);
  std::vector<float> s;
  for (int i = 0; i < n; ++i) s.push_back(gen_score(g, scale));
  if (multi && g.chance(1, 4)) s[g.below(n)] = s[g.below(n)];
  sol::pario::DataPoint dp;
  dp.Clear();
  long long y = multi ? (long long)g.below(n) : (name == "square" ? g.range(-20, 20) : (g.chance(1, 2) ? 1 : -1));
  dp.set_label((sol::label_t)y);
  long long pred = multi ? (long long)(std::max_element(s.begin(), s.end()) - s.begin()) : (s[0] >= 0 ? 1 : -1);
  std::unique_ptr<Loss> l(Loss::Create(name));
  PBT_CHECK(l != nullptr, "create", "no loss " << name);
  double margin = 1;
  int mode = hinge ? (int)g.below(3) : 0;
  if (mode == 1) {
    margin = (double)(float)((double)g.range(0, 80) / 16.);
    dynamic_cast<sol::loss::HingeBase&>(*l).set_margin((float)margin);
  } else if (mode == 2) {
    margin = (double)(float)((double)g.range(0, 80) / 16.);
    float m = (float)margin;
    dynamic_cast<sol::loss::HingeBase&>(*l).set_margin([m](const sol::pario::DataPoint&, float*, sol::label_t, float*, int) { return m; });
  }
  c.desc << name << " label " << y << " scores";
  c.desc.precision(9);
  for (float v : s) c.desc << " " << v;
  if (hinge) c.desc << " margin " << margin << (mode == 2 ? " (from a handler)" : "");
  c.label(name);
  // definition
  double L, z = 0;
  std::vector<double> G(n, 0.);
  double mag = margin;
  for (float v : s) mag = std::max(mag, std::fabs((double)v));
  if (name == "square") {
    double d = (double)s[0] - (double)y;
    L = 0.5 * d * d;
    G[0] = d;
    mag = std::max(1.0, std::max(std::fabs((double)s[0]), std::fabs((double)y)));
  } else {
    int rival = -1;
    std::vector<int> rivals;
    double gap;  // score of the rivals minus score of the label
    bool have = true;
    if (!multi) {
      gap = -(double)y * s[0];
    } else if (uniform) {
      double sum = 0;
      for (int i = 0; i < n; ++i)
        if (i != y && s[i] >= s[y]) {
          rivals.push_back(i);
          sum += s[i];
        }
      have = !rivals.empty();
      gap = have ? sum / (double)rivals.size() - s[y] : 0;
    } else {
      for (int i = 0; i < n; ++i)
        if (i != y && (rival < 0 || s[i] > s[rival])) rival = i;
      gap = (double)s[rival] - s[y];
    }
    double w = 0;  // derivative of the loss with respect to the gap
    if (!have) {
      L = 0;
    } else if (boolean) {
      L = pred == y ? 0 : 1;
      w = L;
    } else if (hinge) {
      L = std::max(0., margin + gap);
      w = L > 0 ? 1 : 0;
      z = margin + gap;
    } else {
      L = softplus(gap);
      w = sigmoid(gap);
    }
    if (boolean && multi && !uniform) rival = (int)pred;
    if (!multi) {
      G[0] = -(double)y * w;
    } else if (uniform) {
      for (int i : rivals) G[i] = w / (double)rivals.size();
      G[y] = have ? -w : 0;
    } else if (rival != y) {
      G[rival] += w;
      G[y] -= w;
    }
  }
  c.nontrivial = L > 0;
  if (L > 0) c.label("positive loss");
  double atol = 4e-7 * mag * (uniform ? n : 1) + 1e-30;
  double ltol = name == "square" ? mag * mag * 2e-6 : atol + 2e-6 * std::fabs(L) + (hinge || boolean ? 0 : 3e-7);
  // loss() after set_margin(handler) uses the stored margin: only gradient() evaluates the handler
  std::vector<float> in = s;
  if (mode != 2) {
    float got = l->loss(dp, in.data(), (sol::label_t)pred, n);
    PBT_CHECK(std::isfinite(got), "finite", "loss is " << got);
    PBT_CHECK(std::fabs(got - L) <= ltol, "loss", "loss " << got << " instead of " << L);
    PBT_CHECK(in == s, "scores-changed", "loss() changed the scores");
    if (boolean) PBT_CHECK((got > 0) == (L > 0), "loss-zero", "loss " << got << " instead of " << L);
  }
  std::vector<float> grad(n + 1, 777.f);
  float got = l->gradient(dp, in.data(), (sol::label_t)pred, grad.data(), n);
  PBT_CHECK(in == s, "scores-changed", "gradient() changed the scores");
  PBT_CHECK(grad[n] == 777.f, "overrun", "gradient() wrote more than one entry per class");
  PBT_CHECK(std::isfinite(got), "finite", "gradient() returned loss " << got);
  PBT_CHECK(std::fabs(got - L) <= ltol, "gradient-loss", "gradient() returned loss " << got << " instead of " << L);
  if (mode != 2) {
    std::vector<float> in2 = s;
    float again = l->loss(dp, in2.data(), (sol::label_t)pred, n);
    PBT_CHECK(std::fabs(again - got) <= ltol, "inconsistent", "gradient() returned " << got << ", loss() " << again);
  }
  // on the kink of the hinge both one-sided derivatives are subgradients
  if (hinge && std::fabs(z) <= atol * 4) return;
  if (!(got > 0)) return;  // no update is due: the gradient is not used
  double sum = 0;
  for (int i = 0; i < n; ++i) {
    PBT_CHECK(std::isfinite(grad[i]), "finite", "gradient of class " << i << " is " << grad[i]);
    double tol = name == "square" ? mag * 1e-6 : 3e-6 + (hinge || boolean ? 0 : std::min(1.0, 8 * atol));
    PBT_CHECK(std::fabs(grad[i] - G[i]) <= tol, "gradient", "gradient of class " << i << " is " << grad[i] << " instead of " << G[i]);
    sum += grad[i];
  }
  if (multi) PBT_CHECK(std::fabs(sum) <= 1e-5, "sum", "gradients sum to " << sum);
}
}  // namespace
int main(int argc, char** argv) {
  std::vector<pbt::Target> t;
  t.push_back({"loss", "one loss x label x score vector x margin; non-trivial: the loss is positive", 400000, 8000000, loss_case, 20});
  return pbt::Main(argc, argv, t);
}
