// P24: lazy updates, cost margins, active querying
#include "refmodel.h"
#include <random>
#include <sys/wait.h>
#include <unistd.h>
using namespace vf;
// makes the library's querying reproducible: each active case runs in a process of its own and
// seeds the generator the library draws from
static unsigned g_seed = 1;
unsigned int std::random_device::_M_getval() { return g_seed; }
namespace {
void options_case(pbt::Gen& g, pbt::Ctx& c) {
  std::string a = g.pick(all_algos());
  Setup s = gen_setup(g, a, true);
  if (!s.lazy && !s.cost) {
    s.lazy = true;
    s.p.push_back(std::make_pair("lazy_update", "true"));
  }
  Data d = gen_stream(g, s.cls, 30);
  c.desc << s.str() << "\n" << str(d);
  c.label(s.algo);
  if (s.lazy) c.label("lazy_update");
  if (s.cost) c.label("cost_margin");
  std::unique_ptr<OLM> m(make_model(s));
  m->BeginTrain();
  LockStep ls(*m, s);
  for (auto& e : d) ls.step(e);
  ls.finish();
  c.nontrivial = ls.n_updates >= 2;
}
std::vector<std::vector<float>> weights(OLM& m) {
  std::vector<std::vector<float>> r;
  for (int c = 0; c < m.clf_num(); ++c) {
    r.push_back(std::vector<float>());
    for (size_t i = 0; i < m.w(c).size(); ++i) r.back().push_back(m.w(c)[i]);
  }
  return r;
}
// options that must change nothing
void neutral_case(pbt::Gen& g, pbt::Ctx& c) {
  std::string a = g.pick(all_algos());
  Setup s = gen_setup(g, a);
  std::string l = s.loss.empty() ? (is_bool_only(a) ? "bool" : "hinge") : s.loss;
  Data d = gen_stream(g, s.cls, 20);
  c.desc << s.str() << "\n" << str(d);
  std::unique_ptr<OLM> m(make_model(s)), r(make_model(s));
  m->set_iterate_callback(nullptr, nullptr);
  r->set_iterate_callback(nullptr, nullptr);
  bool cost = s.cls == 2 && l == "hinge" && a != "alma2" && a != "cw" && a != "eccw" && g.chance(1, 2);
  bool smooth = !cost || g.chance(1, 2);
  if (cost) m->SetParameter("cost_margin", "1");
  if (smooth) m->SetParameter("active_smoothness", "1e30");
  if (g.chance(1, 4)) m->SetParameter("lazy_update", "false");
  c.desc << (cost ? "cost_margin=1 " : "") << (smooth ? "active_smoothness=1e30" : "") << "\n";
  VecIter i1(d, 3), i2(d, 3);
  float e1 = m->Train(i1), e2 = r->Train(i2);
  PBT_CHECK(e1 == e2, "neutral", "error rate " << e1 << " with, " << e2 << " without the options");
  PBT_CHECK(m->cur_iter_num() == r->cur_iter_num() && m->update_num() == r->update_num(), "neutral", "iterations " << m->cur_iter_num() << " updates " << m->update_num() << " instead of " << r->cur_iter_num() << ", " << r->update_num());
  m->EndTrain();
  r->EndTrain();
  auto w1 = weights(*m), w2 = weights(*r);
  for (size_t q = 0; q < w2.size(); ++q)
    for (size_t i = 0; i < w2[q].size(); ++i)
      PBT_CHECK(w1[q][i] == w2[q][i], "neutral", "weight " << i << " of class " << q << " is " << w1[q][i] << " with the options, " << w2[q][i] << " without");
  c.nontrivial = r->update_num() >= 2;
}
// runs f in a child process; a failure there becomes a failure here
void in_child(unsigned seed, pbt::Ctx& c, const std::function<int()>& f) {
  int p[2];
  if (pipe(p) != 0) abort();
  fflush(nullptr);
  pid_t pid = fork();
  if (pid < 0) abort();
  if (pid == 0) {
    close(p[0]);
    g_seed = seed;
    std::string out;
    try {
      int nt = f();
      out = std::string("+") + (nt ? "1" : "0");
    } catch (pbt::Failure& e) {
      out = "-" + e.key + "\n" + e.what();
    } catch (pbt::Discard&) {
      out = "?";
    } catch (std::exception& e) {
      out = std::string("-exception\n") + e.what();
    }
    if (out.size() > 4000) out.resize(4000);
    if (write(p[1], out.data(), out.size()) < 0) _exit(3);
    _exit(0);
  }
  close(p[1]);
  std::string in;
  char buf[4096];
  ssize_t k;
  while ((k = read(p[0], buf, sizeof(buf))) > 0) in.append(buf, k);
  close(p[0]);
  int st = 0;
  waitpid(pid, &st, 0);
  if (in.empty() || !WIFEXITED(st) || WEXITSTATUS(st) != 0) PBT_FAIL("crash", "training with active learning ended with status " << st);
  if (in[0] == '?') throw pbt::Discard();
  if (in[0] == '-') {
    size_t e = in.find('\n');
    PBT_FAIL(in.substr(1, e - 1), in.substr(e + 1));
  }
  c.nontrivial = in == "+1";
}
struct Last {
  long long data = -1, iter = -1, upd = -1;
  double err = -1;
};
void note(void* ctx, long long data, long long iter, long long upd, double err) {
  Last* l = (Last*)ctx;
  l->data = data;
  l->iter = iter;
  l->upd = upd;
  l->err = err;
}
// what was not queried has not been learned
void active_case(pbt::Gen& g, pbt::Ctx& c) {
  std::string a = g.pick(all_algos());
  Setup s = gen_setup(g, a, g.chance(1, 3));
  if (a == "stg" || a == "fobos-l1") {
    s.drop("power_t");
    s.set("power_t", "0");
  }
  if (a == "stg") s.drop("k");
  std::string sm = gen_num(g, {"1", "0.5", "0.1", "3", "0.01", "10"});
  Data d = gen_stream(g, s.cls, 24);
  unsigned seed = (unsigned)g.below(100000);
  bool loop = g.chance(1, 2);
  c.desc << s.str() << " active_smoothness=" << sm << " generator seed " << seed << (loop ? ", Train" : ", Iterate") << "\n" << str(d);
  c.label(a);
  in_child(seed, c, [&]() -> int {
    std::unique_ptr<OLM> m(make_model(s)), r(make_model(s));
    m->SetParameter("active_smoothness", sm);
    Last last;
    m->SetParameter("step_show", "1");
    m->set_iterate_callback(note, &last);
    r->set_iterate_callback(nullptr, nullptr);
    m->BeginTrain();
    r->BeginTrain();
    size_t asked = 0, wrong = 0;
    for (size_t i = 0; i < d.size(); ++i) {
      int it0 = m->cur_iter_num();
      size_t up0 = m->update_num();
      std::vector<float> p(m->clf_num() + 1, 0), q(m->clf_num() + 1, 0);
      sol::pario::DataPoint dp;
      to_point(d[i], dp);
      m->PreProcess(dp);
      if (loop) {
        Data one(1, d[i]);
        VecIter vi(one, 1);
        m->Train(vi);
        PBT_CHECK(last.data == (long long)i + 1, "count", "example " << i + 1 << " is reported as number " << last.data);
      } else {
        bool was = m->Iterate(dp, p.data()) == dp.label();
        wrong += !was;
        float mg;
        if (m->clf_num() == 1) {
          mg = std::fabs(p[0]);
        } else {
          std::vector<float> so(p.begin(), p.end() - 1);
          std::sort(so.begin(), so.end());
          mg = so[so.size() - 1] - so[so.size() - 2];
        }
        if (mg == 0) PBT_CHECK(m->cur_iter_num() == it0 + 1, "zero-margin", "example " << i + 1 << " with margin 0 is not queried");
      }
      int dt = m->cur_iter_num() - it0;
      PBT_CHECK(dt == 0 || dt == 1, "counters", "iteration number went from " << it0 << " to " << m->cur_iter_num());
      if (dt == 1) {
        ++asked;
        r->Iterate(dp, q.data());
      } else {
        PBT_CHECK(m->update_num() == up0, "counters", "an example that was not queried is counted as an update");
      }
      PBT_CHECK(m->update_num() == r->update_num(), "learned", "after example " << i + 1 << ": " << m->update_num() << " updates, training on the queried examples gives " << r->update_num());
    }
    m->EndTrain();
    r->EndTrain();
    auto w1 = weights(*m), w2 = weights(*r);
    double scale = 0;
    for (auto& v : w2) for (float x : v) scale = std::max(scale, (double)std::fabs(x));
    for (size_t q = 0; q < w1.size(); ++q)
      for (size_t i = 0; i < w1[q].size(); ++i) {
        float want = i < w2[q].size() ? w2[q][i] : 0, got = w1[q][i];
        // deferred shrinkage is added up in other portions
        double tol = is_lazy_l1(a) ? 2e-6 + 3e-5 * scale : 0;
        if (is_lazy_l1(a) && (got == 0 || want == 0)) tol += s.num("sparse_thresh", 1e-6);
        PBT_CHECK(std::fabs(got - want) <= tol, "learned", std::setprecision(9) << "weight " << i << " of class " << q << " is " << got << ", training on the " << asked << " queried examples only gives " << want);
      }
    return asked >= 1 && asked < d.size();
  });
}
// how often is an example queried
void rate_case(pbt::Gen& g, pbt::Ctx& c) {
  Setup s;
  s.algo = "perceptron";
  s.cls = g.chance(1, 2) ? (int)g.range(3, 5) : 2;
  std::string sm = gen_num(g, {"1", "0.5", "0.1", "3", "10"});
  Data d = gen_stream(g, s.cls, 10, 4, false);
  Ex e = gen_nice(g, 4, 4, 1);
  unsigned seed = (unsigned)g.below(100000);
  c.desc << s.str() << " active_smoothness=" << sm << " generator seed " << seed << "\n" << str(d) << "repeat\n" << str(e);
  in_child(seed, c, [&]() -> int {
    std::unique_ptr<OLM> m(make_model(s));
    m->BeginTrain();
    std::vector<float> p(8, 0);
    for (auto& x : d) {
      sol::pario::DataPoint dp;
      to_point(x, dp);
      m->PreProcess(dp);
      m->Iterate(dp, p.data());
    }
    m->SetParameter("active_smoothness", sm);
    // the example carries the predicted label, so that querying it changes nothing
    sol::pario::DataPoint dp;
    to_point(e, dp);
    dp.set_label(m->Predict(dp, p.data()));
    double mg;
    if (m->clf_num() == 1) {
      mg = std::fabs(p[0]);
    } else {
      std::vector<float> so(p.begin(), p.begin() + s.cls);
      std::sort(so.begin(), so.end());
      mg = so[s.cls - 1] - so[s.cls - 2];
    }
    double pr = atof(sm.c_str()) / (atof(sm.c_str()) + mg);
    const int N = 3000;
    int t0 = m->cur_iter_num();
    for (int i = 0; i < N; ++i) m->Iterate(dp, p.data());
    double asked = m->cur_iter_num() - t0, sd = std::sqrt(N * pr * (1 - pr));
    PBT_CHECK(std::fabs(asked - N * pr) <= 7 * sd + 3, "rate", asked << " of " << N << " queried with margin " << mg << ", expected " << N * pr);
    return mg > 0;
  });
}
// how often examples are queried while the learner goes on learning from them
void learning_rate_case(pbt::Gen& g, pbt::Ctx& c) {
  std::string a = g.pick(all_algos());
  Setup s = gen_setup(g, a, g.chance(1, 4));
  std::string sm = gen_num(g, {"1", "0.5", "0.1", "3", "10"});
  Data d = gen_stream(g, s.cls, 16, 8, false);
  if (d.empty()) throw pbt::Discard();
  unsigned seed = (unsigned)g.below(100000);
  int rounds = 1500 / (int)d.size();
  c.desc << s.str() << " active_smoothness=" << sm << " generator seed " << seed << "\n" << str(d) << "over and over, " << rounds << " times\n";
  c.label(a);
  in_child(seed, c, [&]() -> int {
    std::unique_ptr<OLM> m(make_model(s));
    m->SetParameter("active_smoothness", sm);
    m->BeginTrain();
    double sf = atof(sm.c_str());
    double asked[4] = {0}, want[4] = {0}, var[4] = {0};
    std::vector<float> p(m->clf_num() + 1, 0);
    for (int r = 0; r < rounds; ++r)
      for (auto& e : d) {
        sol::pario::DataPoint dp;
        to_point(e, dp);
        m->PreProcess(dp);
        int t0 = m->cur_iter_num();
        bool right = m->Iterate(dp, p.data()) == dp.label();
        double mg;
        if (m->clf_num() == 1) {
          mg = std::fabs(p[0]);
        } else {
          std::vector<float> so(p.begin(), p.end() - 1);
          std::sort(so.begin(), so.end());
          mg = (double)so[so.size() - 1] - so[so.size() - 2];
        }
        if (!std::isfinite(mg)) throw pbt::Discard();
        double pr = sf / (sf + mg);
        int k = (right ? 0 : 1) + (dp.label() > 0 ? 2 : 0);
        asked[k] += m->cur_iter_num() - t0;
        want[k] += pr;
        var[k] += pr * (1 - pr);
      }
    static const char* names[] = {"correctly predicted negative", "mistaken negative", "correctly predicted positive", "mistaken positive"};
    for (int k = 0; k < 4; ++k)
      PBT_CHECK(std::fabs(asked[k] - want[k]) <= 7 * std::sqrt(var[k]) + 10, "rate", asked[k] << " of the " << names[k] << " examples queried, expected " << want[k]);
    return var[0] + var[2] > 4 && var[1] + var[3] > 4;
  });
}
}  // namespace
int main(int argc, char** argv) {
  std::vector<pbt::Target> t;
  t.push_back({"options", "learner x lazy_update/cost_margin x parameters x stream in lock step with the reference; non-trivial: two updates", 120000, 3000000, options_case, 20});
  t.push_back({"neutral", "training with options at their neutral value against training without; non-trivial: two updates", 60000, 1500000, neutral_case, 20});
  t.push_back({"active", "active learning against passive training on the queried examples; non-trivial: some but not all queried", 16000, 400000, active_case, 20});
  t.push_back({"query-rate", "3000 looks at one example, binomial bound of 7 deviations on the queries; non-trivial: positive margin", 4000, 60000, rate_case, 20});
  t.push_back({"query-rate-learning", "1500 examples with true and wrong labels, queries of right and wrong predictions against the sum of s/(s+m), bound of 7 deviations; non-trivial: both kinds uncertain", 3000, 60000, learning_rate_case, 20});
  return pbt::Main(argc, argv, t);
}
