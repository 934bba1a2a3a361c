// P23: the command line programs against the library
#include <sys/stat.h>
#include "proc.h"
#include "refmodel.h"
using namespace vf;
using sol::model::Model;
namespace {
const std::vector<std::string> kTypes = {"svm", "bin", "csv"};
Data as_read(Data d, const std::string& type) {
  if (type == "csv")
    for (auto& e : d)
      e.f.erase(std::remove_if(e.f.begin(), e.f.end(), [](const std::pair<uint32_t, float>& p) { return p.second == 0; }), e.f.end());
  return d;
}
Data repeat(const Data& d, int n) {
  Data r;
  for (int i = 0; i < n; ++i) r.insert(r.end(), d.begin(), d.end());
  return r;
}
std::string params_text(pbt::Gen& g, const Setup& s) {
  std::string t;
  for (auto& x : s.p) {
    if (!t.empty()) t += ";";
    std::string sp = g.chance(1, 6) ? " " : "";
    t += sp + x.first + sp + "=" + sp + x.second + sp;
  }
  return t;
}
void line(pbt::Ctx& c, const std::vector<std::string>& a) {
  c.desc << "$";
  for (auto& x : a) {
    std::string b = x;
    size_t p = b.rfind('/');
    if (p != std::string::npos) b = b.substr(p + 1);
    c.desc << " '" << b << "'";
  }
  c.desc << "\n";
}
std::string fmt4(float v) {
  char b[64];
  snprintf(b, sizeof b, "%.4f", v);
  return b;
}
// value printed after a label at the start of a line
std::string field(const std::string& out, const std::string& key) {
  size_t p = 0;
  while (p < out.size()) {
    size_t e = out.find('\n', p);
    if (e == std::string::npos) e = out.size();
    if (out.compare(p, key.size(), key) == 0) return out.substr(p + key.size(), e - p - key.size());
    p = e + 1;
  }
  return "(not printed)";
}
std::string first_diff(const std::string& a, const std::string& b) {
  std::istringstream x(a), y(b);
  std::string p, q;
  for (int n = 1;; ++n) {
    bool i = (bool)std::getline(x, p), j = (bool)std::getline(y, q);
    if (!i && !j) return "same lines";
    if (i != j || p != q) return "line " + std::to_string(n) + " '" + (i ? p : "(end)") + "' instead of '" + (j ? q : "(end)") + "'";
  }
}
void io_options(pbt::Gen& g, std::vector<std::string>& a) {
  if (g.chance(1, 2)) {
    a.push_back("-b");
    a.push_back(std::to_string(g.chance(1, 20) ? g.range(-1, 0) : g.range(1, 9)));
  }
  if (g.chance(1, 3)) {
    a.push_back("--bufsize");
    a.push_back(std::to_string(g.chance(1, 20) ? g.range(-1, 0) : g.range(1, 4)));
  }
}
// the library's side of a test run
std::string lib_test(Model& m, const Data& d, const std::string& path, float* err) {
  VecIter it(d, 7);
  std::ofstream o(path.c_str());
  *err = m.Test(it, &o);
  o.close();
  return read_file(path);
}
void run_case(pbt::Gen& g, pbt::Ctx& c) {
  bool capi = g.chance(1, 2);
  Setup s = gen_setup(g, g.pick(all_algos()), true);
  std::string type = g.pick(kTypes);
  Data d = gen_stream(g, s.cls, 24);
  if (g.chance(1, 10)) d = repeat(d, 12);
  int pass = g.chance(1, 3) ? (int)g.range(2, g.chance(1, 6) ? 30 : 4) : 1;
  bool resume = g.chance(1, 3);
  std::string in = c.path("train." + type), out = c.path("model.txt"), pre = c.path("pre.txt");
  // what is there from before does not matter
  std::string stale(g.chance(1, 4) ? (size_t)g.range(1, 5000) : 0, 'z');
  unlink(out.c_str());
  if (!stale.empty()) {
    write_file(out, stale);
    c.label("output file exists");
  }
  write_data(in, type, d);
  c.desc << s.str() << "\n" << str(d).substr(0, 4000);
  c.label(capi ? "lsol_c" : "sol_train");
  c.label("format " + type);
  c.nontrivial = d.size() >= 2;
  // library
  std::unique_ptr<Model> m;
  Setup now = s;
  if (resume) {
    Data d0 = gen_stream(g, s.cls, 10);
    c.label("continued from a saved model");
    c.desc << "trained before on\n" << str(d0);
    std::unique_ptr<OLM> p(make_model(s));
    VecIter it(d0, 4);
    p->Train(it);
    PBT_CHECK(p->Save(pre) == 0, "save", "library cannot save");
    std::string pt = read_file(pre);
    if (pt.find("nan") != std::string::npos || pt.find("inf ") != std::string::npos) throw pbt::Discard();
    m.reset(Model::Load(pre));
    PBT_CHECK(m != nullptr, "load", "library cannot load what it saved");
    now.p.clear();
    if (g.chance(1, 2)) now.set("bias_eta", "0.25");
    for (auto& x : now.p) m->SetParameter(x.first, x.second);
  } else {
    m.reset(make_model(s));
  }
  float err;
  {
    Data all = repeat(as_read(d, type), pass);
    VecIter it(all, 5);
    err = m->Train(it);
  }
  float sparsity = capi ? 0.f : m->model_sparsity();
  std::string want_path = c.path("want.txt");
  PBT_CHECK(m->Save(want_path) == 0, "save", "library cannot save");
  std::string want = read_file(want_path);
  // steps can diverge; such weights have no text form to load again
  if (want.find("nan") != std::string::npos || want.find("inf\n") != std::string::npos || want.find("inf ") != std::string::npos) throw pbt::Discard();
  // program
  std::vector<std::string> a = {tool(capi ? "LSOL_C" : "SOL_TRAIN")};
  if (type != "svm" || g.chance(1, 3)) {
    a.push_back("-f");
    a.push_back(type);
  }
  if (capi && g.chance(1, 2)) {
    a.push_back("-t");
    a.push_back("train");
  }
  if (resume) {
    a.push_back("-m");
    a.push_back(pre);
    // the saved model decides
    if (g.chance(1, 8)) a.insert(a.end(), {"-a", g.pick(all_algos())});
    if (g.chance(1, 8)) a.insert(a.end(), {"-c", std::to_string(g.range(2, 6))});
  } else {
    if (s.algo != "ogd" || capi || g.chance(1, 2)) {
      a.push_back("-a");
      a.push_back(s.algo);
    }
    if (s.cls != 2 || g.chance(1, 4)) {
      a.push_back("-c");
      a.push_back(std::to_string(s.cls));
    }
  }
  if (pass != 1) {
    a.push_back("-p");
    a.push_back(std::to_string(pass));
  }
  io_options(g, a);
  std::string pt = params_text(g, now);
  if (!pt.empty()) {
    a.push_back("--params");
    a.push_back(pt);
  }
  if (capi) {
    a.insert(a.end(), {"-i", in, "-o", out});
  } else {
    a.push_back(in);
    a.push_back(out);
  }
  line(c, a);
  ProcResult r = run_prog(c, a);
  PBT_CHECK(r.status == 0, "train-status", "training ended with status " << r.status << ": " << r.err.substr(0, 300));
  PBT_CHECK(exists(out), "train-model", "no model file written");
  std::string got = read_file(out);
  PBT_CHECK(got == want, "train-model", "model file differs from library training: " << first_diff(got, want));
  std::string acc = field(r.out, "training accuracy: ");
  PBT_CHECK(acc == fmt4(1.f - err), "train-accuracy", "training accuracy printed as " << acc << ", library: " << fmt4(1.f - err));
  if (!capi) {
    std::string sp = field(r.out, "model sparsity: ");
    PBT_CHECK(sp == fmt4(sparsity * 100.f) + "%", "train-sparsity", "sparsity printed as " << sp << ", library: " << fmt4(sparsity * 100.f) << "%");
  }
  // testing
  bool tcapi = g.chance(1, 2);
  std::string ttype = g.pick(kTypes);
  Data t = g.chance(1, 4) ? d : gen_stream(g, s.cls, 16, 12);
  std::string tin = c.path("test." + ttype), tout = c.path("pred.txt");
  unlink(tout.c_str());
  if (!stale.empty()) write_file(tout, stale);
  write_data(tin, ttype, t);
  c.desc << "test on\n" << str(t).substr(0, 3000);
  std::unique_ptr<Model> lm(Model::Load(want_path));
  PBT_CHECK(lm != nullptr, "load", "library cannot load what it saved");
  std::string filter;
  if (g.chance(1, 4)) {
    filter = c.path("filter.txt");
    std::string text;
    int n = (int)g.range(1, 4);
    for (int i = 0; i < n; ++i) text += std::to_string(g.range(1, 12)) + "\n";
    write_file(filter, text);
    c.desc << "filter " << text;
    c.label("filter");
    lm->SetParameter("filter", filter);
  }
  float terr;
  std::string twant = lib_test(*lm, as_read(t, ttype), c.path("predwant.txt"), &terr);
  bool with_out = g.chance(4, 5);
  std::vector<std::string> b = {tool(tcapi ? "LSOL_C" : "SOL_TEST"), "-f", ttype};
  io_options(g, b);
  if (!filter.empty()) {
    b.push_back("--filter");
    b.push_back(filter);
  }
  if (tcapi) {
    b.insert(b.end(), {"-t", "test", "-m", out, "-i", tin});
    if (with_out) b.insert(b.end(), {"-o", tout});
  } else {
    b.push_back(out);
    b.push_back(tin);
    if (with_out) b.push_back(tout);
  }
  line(c, b);
  r = run_prog(c, b);
  PBT_CHECK(r.status == 0, "test-status", "testing ended with status " << r.status << ": " << r.err.substr(0, 300));
  acc = field(r.out, "test accuracy: ");
  PBT_CHECK(acc == fmt4(1.f - terr), "test-accuracy", "test accuracy printed as " << acc << ", library: " << fmt4(1.f - terr));
  if (with_out) {
    std::string tgot = exists(tout) ? read_file(tout) : std::string("(no file)");
    PBT_CHECK(tgot == twant, "test-predictions", "predictions differ from the library's: " << first_diff(tgot, twant));
  }
  PBT_CHECK(read_file(out) == want, "test-model", "testing changed the model file");
}
// runs that must be refused
void refuse_case(pbt::Gen& g, pbt::Ctx& c) {
  bool capi = g.chance(1, 2);
  Setup s = gen_setup(g, g.pick(all_algos()));
  std::string type = g.pick(kTypes);
  Data d = gen_stream(g, s.cls, 8);
  std::string in = c.path("train." + type), out = c.path("model.txt"), good = c.path("good.txt");
  unlink(out.c_str());
  write_data(in, type, d);
  c.nontrivial = true;
  bool test = g.chance(1, 3);
  std::string algo = s.algo, cls = std::to_string(s.cls), params = params_text(g, s), model = good, filter;
  bool use_model = test;
  std::string extra;
  {
    std::unique_ptr<OLM> m(make_model(s));
    VecIter it(d, 4);
    m->Train(it);
    PBT_CHECK(m->Save(good) == 0, "save", "library cannot save");
  }
  int kind = test ? (int)g.weighted({0, 0, 0, 2, 2, 2, 1, 2}) : (int)g.weighted({2, 2, 4, 2, 2, 2, 1, 0, 3});
  bool out_expected_absent = true;
  std::vector<std::string> opt;
  switch (kind) {
    case 0:
      algo = g.pick(std::vector<std::string>({"nope", "ogd2", "-", "hinge", "svm"}));
      c.label("unknown learner");
      break;
    case 1:
      cls = g.pick(std::vector<std::string>({"0", "1", "-1", "-2147483648"}));
      c.label("class number");
      break;
    case 2: {
      std::string bad = g.pick(std::vector<std::string>({"nope=1", "bias_eta=", "bias_eta=abc", "=1", "bias_eta", "bias_eta=1=2", "bias_eta=-1", "loss=nope", "norm=L3", "bias_eta=1e999", "t=99999999999999999999", "t=-3", "filter=/nonexistent/file"}));
      // before, between or after good ones
      std::vector<std::string> v;
      for (auto& x : s.p) v.push_back(x.first + "=" + x.second);
      v.insert(v.begin() + g.below(v.size() + 1), bad);
      params.clear();
      for (auto& x : v) params += (params.empty() ? "" : ";") + x;
      c.label("parameter");
      break;
    }
    case 3:
      in = c.path("missing." + type);
      c.label("missing data");
      break;
    case 4: {
      use_model = true;
      model = c.path(g.chance(1, 2) ? "nomodel.txt" : "broken.txt");
      unlink(c.path("nomodel.txt").c_str());
      std::string text = read_file(good);
      size_t w = text.find("model parameters");
      write_file(c.path("broken.txt"), text.substr(0, g.below(w == std::string::npos ? 1 : w)));
      params.clear();
      if (test && g.chance(1, 2)) {
        filter = c.path("filter.txt");
        write_file(filter, "1\n2\n");
      }
      c.label("missing or broken model");
      break;
    }
    case 5: {
      // output in a directory that does not exist
      out = c.path("nodir") + "/x/model.txt";
      c.label("output cannot be created");
      break;
    }
    case 6:
      out = "/dev/full";
      out_expected_absent = false;
      c.label("disk full");
      break;
    case 8: {
      // training on a part of the data only must not look like a success
      capi = false;
      std::string t = read_file(in);
      if (type == "bin") {
        Data h(d.begin(), d.end() - 1);
        size_t head = to_bin(h).size();
        t.resize(head + 1 + (size_t)g.below(t.size() - head - 1));
      } else {
        std::vector<size_t> starts;
        for (size_t p = 0; p <= t.size(); ++p)
          if (p == 0 || t[p - 1] == '\n') starts.push_back(p);
        if (type == "csv") starts.erase(starts.begin());
        std::string l = type == "svm" ? g.pick(std::vector<std::string>{"1 abc", "1 3", "1 2:x"}) : g.pick(std::vector<std::string>{"1,abc", "abc,1"});
        t.insert(starts[(size_t)g.below(starts.size())], l + "\n");
      }
      write_file(in, t);
      if (g.chance(1, 3)) opt = {"-p", std::to_string(g.range(1, 3))};
      c.label("damaged data");
      break;
    }
    default:
      filter = c.path("filter.txt");
      if (g.chance(1, 2))
        write_file(filter, g.pick(std::vector<std::string>({"", "abc\n", "1\n0\n", "-3\n", "99999999999\n"})));
      else
        unlink(filter.c_str());
      c.label("filter");
  }
  std::vector<std::string> a;
  if (test) {
    a = {tool(capi ? "LSOL_C" : "SOL_TEST"), "-f", type};
    if (!filter.empty()) a.insert(a.end(), {"--filter", filter});
    if (capi)
      a.insert(a.end(), {"-t", "test", "-m", model, "-i", in, "-o", out});
    else
      a.insert(a.end(), {model, in, out});
  } else {
    a = {tool(capi ? "LSOL_C" : "SOL_TRAIN"), "-f", type};
    if (use_model)
      a.insert(a.end(), {"-m", model});
    else
      a.insert(a.end(), {"-a", algo, "-c", cls});
    if (!params.empty()) a.insert(a.end(), {"--params", params});
    a.insert(a.end(), opt.begin(), opt.end());
    if (capi)
      a.insert(a.end(), {"-i", in, "-o", out});
    else
      a.insert(a.end(), {in, out});
  }
  line(c, a);
  ProcResult r = run_prog(c, a);
  PBT_CHECK(r.status < 1000, "refuse-crash", "the program died of signal " << r.status - 1000 << ": " << r.err.substr(0, 300));
  PBT_CHECK(r.status != 0, test && !capi && (kind == 5 || kind == 6) ? "predictions-unwritable" : "refuse-status", "the program reported success");
  if (out_expected_absent) PBT_CHECK(!exists(out), "refuse-output", "an output file was written all the same");
}
}  // namespace
int main(int argc, char** argv) {
  std::vector<pbt::Target> t;
  t.push_back({"programs", "configured learner x data set x format x passes x batch sizes: model file, accuracy, sparsity and predictions of sol_train/sol_test/lsol_c against library training; non-trivial: at least 2 training examples", 12000, 100000, run_case, 30});
  t.push_back({"refusals", "runs with one bad ingredient: non-zero exit status, no crash, no output file; every case is non-trivial", 6000, 60000, refuse_case, 30});
  return pbt::Main(argc, argv, t);
}
