// P16: damaged model files
#include "refmodel.h"
#include <sol/c_api.h>
#include <cctype>
using namespace vf;
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, size_t), void (*)(const volatile void*));
namespace {
volatile size_t g_max_alloc = 0;
void on_malloc(const volatile void*, size_t n) {
  if (n > g_max_alloc) g_max_alloc = n;
}
void on_free(const volatile void*) {}
void watch() {
  static bool once = false;
  if (!once) __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free);
  once = true;
  g_max_alloc = 0;
}
sol::model::Model* load(pbt::Gen& g, const std::string& p, size_t bytes) {
  bool capi = g.chance(1, 2);
  watch();
  sol::model::Model* m = nullptr;
  try {
    m = capi ? (sol::model::Model*)sol_RestoreModel(p.c_str()) : sol::model::Model::Load(p);
  } catch (std::exception& e) {
    PBT_FAIL("exception", "loading threw: " << e.what());
  } catch (...) {
    PBT_FAIL("exception", "loading threw something");
  }
  size_t mx = g_max_alloc;
  PBT_CHECK(mx <= (64u << 20) + bytes * 64, "memory", "loading a file of " << bytes << " bytes allocated " << mx << " bytes at once");
  return m;
}
std::string make(pbt::Gen& g, pbt::Ctx& c, int& cls) {
  Setup s = gen_setup(g, g.pick(all_algos()), true);
  s.drop("dim");
  cls = s.cls;
  Data d = gen_stream(g, s.cls, 6, 5, false);
  c.desc << s.str() << " trained on\n" << str(d);
  c.label(s.algo);
  std::unique_ptr<OLM> m(make_model(s));
  m->set_iterate_callback(nullptr, nullptr);
  if (!g.chance(1, 10)) {
    VecIter it(d, 3);
    m->Train(it);
  }
  std::string p = c.path("good");
  PBT_CHECK(m->Save(p) == 0, "save", "saving failed");
  return read_file(p);
}
void use(pbt::Ctx& c, sol::model::Model* m, int cls, pbt::Gen& g) {
  std::unique_ptr<sol::model::Model> own(m);
  try {
    Data d = gen_stream(g, cls, 4, 20, false);
    VecIter it(d, 2);
    std::ostringstream os;
    m->Test(it, &os);
    m->model_sparsity();
    m->model_info();
    PBT_CHECK(m->Save(c.path("resaved")) == 0, "unusable", "the accepted model cannot be saved");
  } catch (pbt::Failure&) {
    throw;
  } catch (std::exception& e) {
    PBT_FAIL("unusable", "using the accepted model threw: " << e.what());
  }
}
void truncation(pbt::Gen& g, pbt::Ctx& c) {
  int cls;
  std::string f = make(g, c, cls);
  size_t end = f.rfind(']');
  PBT_CHECK(end != std::string::npos, "save", "no weights in the saved file");
  std::string p = c.path("cut");
  size_t n = f.size();
  size_t all = n <= 4000 ? 1 : n / 1500, cuts = 0;  // of a big file every so many bytes only
  size_t off = (size_t)g.below(all);
  for (size_t i = 0; i <= n; ++i) {
    if (all > 1 && i > 600 && i + 600 < n && i % all != off) continue;
    ++cuts;
    write_file(p, f.substr(0, i));
    sol::model::Model* m = load(g, p, i);
    if (i == n && m == nullptr) PBT_FAIL("load", "the undamaged file is refused\n" << f);
    if (m != nullptr && i <= end) {
      delete m;
      PBT_FAIL("accepted", "cut after byte " << i << " of " << n << ", before the end of its parameters, but accepted:\n" << f.substr(0, i));
    }
    delete m;
  }
  c.count("truncation points", (int)cuts);
  c.nontrivial = true;
}
std::string junk_number(pbt::Gen& g) {
  return gen_num(g, {"-1", "0", "1", "2", "3", "2147483647", "4294967295", "99999999999999999999", "1e30", "1e999", "-5", "0.5", "100000000", "1e-50", "nan", "inf", "-0", "7", "65536"});
}
std::string junk_json(pbt::Gen& g) {
  return gen_num(g, {"null", "true", "[]", "{}", "\"\"", "\"x\"", "[1,2]", "{\"a\":1}", "\"hinge\"", "\"maxscore-hinge\"", "\"bool\"", "\"logistic\"", "\"uniform-hinge\"", "\"false\"", "1", "-3", "\"/dev/null\"", "[[[[[[[[", "}", "", ",", "\"\\u00\""});
}
std::vector<std::string> lines(const std::string& s) {
  std::vector<std::string> r;
  std::string cur;
  for (char ch : s) {
    cur.push_back(ch);
    if (ch == '\n') {
      r.push_back(cur);
      cur.clear();
    }
  }
  if (!cur.empty()) r.push_back(cur);
  return r;
}
std::string join(const std::vector<std::string>& v) {
  std::string s;
  for (auto& x : v) s += x;
  return s;
}
std::string mutate(pbt::Gen& g, std::string f) {
  static const std::vector<std::string> names = {"model", "cls_num", "clf_num", "loss", "norm", "online", "regularizer", "dim", "t", "bias_eta", "lazy_update", "cost_margin", "active_smoothness",
                                                 "eta", "lambda", "B", "k", "filter", "exp_show", "step_show", "power_t", "delta", "a", "phi", "r", "C", "sparse_thresh"};
  static const std::vector<std::string> algos = all_algos();
  switch (g.below(14)) {
    case 0: {  // flip a byte
      if (f.empty()) break;
      f[g.below(f.size())] = (char)g.below(256);
      break;
    }
    case 1: {  // drop a range
      if (f.empty()) break;
      size_t a = g.below(f.size());
      f.erase(a, (size_t)g.sized(1, 40));
      break;
    }
    case 2: {  // insert bytes
      size_t a = g.below(f.size() + 1);
      std::string x;
      int n = (int)g.sized(1, 10);
      for (int i = 0; i < n; ++i) x.push_back(g.chance(1, 2) ? "0123456789.-+eE []{}:,\"\n"[g.below(24)] : (char)g.below(256));
      f.insert(a, x);
      break;
    }
    case 3: {  // remove a line
      auto v = lines(f);
      if (v.empty()) break;
      v.erase(v.begin() + g.below(v.size()));
      f = join(v);
      break;
    }
    case 4: {  // repeat a line
      auto v = lines(f);
      if (v.empty()) break;
      size_t i = g.below(v.size()), j = g.below(v.size() + 1);
      std::string l = v[i];
      v.insert(v.begin() + j, l);
      f = join(v);
      break;
    }
    case 5: {  // swap lines
      auto v = lines(f);
      if (v.empty()) break;
      std::swap(v[g.below(v.size())], v[g.below(v.size())]);
      f = join(v);
      break;
    }
    case 6:
    case 7: {  // replace a number
      std::vector<std::pair<size_t, size_t>> nums;
      for (size_t i = 0; i < f.size();) {
        if (isdigit((unsigned char)f[i]) || ((f[i] == '-' || f[i] == '+') && i + 1 < f.size() && isdigit((unsigned char)f[i + 1]))) {
          size_t j = i + 1;
          while (j < f.size() && (isalnum((unsigned char)f[j]) || f[j] == '.')) ++j;
          nums.push_back(std::make_pair(i, j - i));
          i = j;
        } else {
          ++i;
        }
      }
      if (nums.empty()) break;
      auto q = nums[g.below(nums.size())];
      f.replace(q.first, q.second, junk_number(g));
      break;
    }
    case 8:
    case 9: {  // replace the value of a field
      std::string key = "\"" + g.pick(names) + "\"";
      size_t i = f.find(key);
      if (i == std::string::npos) break;
      size_t a = f.find(':', i);
      if (a == std::string::npos) break;
      size_t b = f.find_first_of(",\n", a);
      if (b == std::string::npos) break;
      f.replace(a + 1, b - a - 1, g.chance(1, 2) ? junk_json(g) : g.chance(1, 2) ? junk_number(g) : "\"" + junk_number(g) + "\"");
      break;
    }
    case 10: {  // add a field
      size_t i = f.find(g.chance(1, 2) ? "\"online\" :" : "\"regularizer\" :");
      if (i == std::string::npos) i = 0;
      i = f.find('{', i);
      if (i == std::string::npos) break;
      std::string val = g.chance(1, 2) ? junk_json(g) : junk_number(g);
      f.insert(i + 1, "\"" + g.pick(names) + "\" : " + val + ",");
      break;
    }
    case 11: {  // another learner
      size_t i = f.find("\"model\" : \"");
      if (i == std::string::npos) break;
      size_t b = f.find('"', i + 11);
      if (b == std::string::npos) break;
      f.replace(i + 11, b - i - 11, g.pick(algos));
      break;
    }
    case 12: {  // rename a field
      std::string key = "\"" + g.pick(names) + "\"";
      size_t i = f.find(key);
      if (i == std::string::npos) break;
      f.replace(i, key.size(), "\"" + g.pick(names) + "\"");
      break;
    }
    default: {
      f = f.substr(0, g.below(f.size() + 1));
    }
  }
  return f;
}
void mutation(pbt::Gen& g, pbt::Ctx& c) {
  int cls;
  std::string f = make(g, c, cls);
  int n = (int)g.range(1, 3);
  std::string orig = f;
  for (int i = 0; i < n; ++i) f = mutate(g, f);
  c.desc << "damaged file:\n" << f;
  std::string p = c.path("bad");
  write_file(p, f);
  sol::model::Model* m = load(g, p, f.size());
  c.label(m ? "accepted" : "refused");
  if (m) {
    cls = m->class_num();
    use(c, m, cls, g);
  }
  c.nontrivial = f != orig && f.compare(0, 11, "model info:") == 0;
}
void garbage(pbt::Gen& g, pbt::Ctx& c) {
  static const std::vector<std::string> tok = {"model info:\n", "model parameters:\n", "{", "}", "\"model\" : \"ogd\"", "\"model\":\"arow\"", "\"cls_num\" : 2", "\"cls_num\":3", "\"clf_num\" : 1", "\"loss\" : \"hinge\"",
                                               "\"norm\" : 0", "\"online\" : {", "\"regularizer\":{", "\"dim\" : 2", ",", ":", "weight[0]:\n", "[ ", "]\n", "1 ", "0.5 ", "\n", "[", "]", "\"t\":1", "null", "\"", "\\", "H[0]: \n"};
  std::string f = g.chance(3, 4) ? "model info:\n" : "";
  int n = (int)g.sized(0, 40);
  for (int i = 0; i < n; ++i) f += g.chance(1, 20) ? std::string(1, (char)g.below(256)) : g.pick(tok);
  if (g.chance(1, 40)) f += std::string(g.range(1, 20000), "[{"[g.below(2)]);
  c.desc << f.substr(0, 2000);
  std::string p = c.path("junk");
  if (g.chance(1, 50)) p += "/missing";
  else write_file(p, f);
  sol::model::Model* m = load(g, p, f.size());
  if (m) use(c, m, m->class_num(), g);
  c.nontrivial = f.size() > 30;
}
}  // namespace
int main(int argc, char** argv) {
  std::vector<pbt::Target> t;
  t.push_back({"truncation", "a saved model cut at every byte (of files above 4000 bytes at about 2700 places); every case is non-trivial", 1500, 40000, truncation, 120});
  t.push_back({"mutation", "a saved model with one to three structural or byte mutations; non-trivial: changed and still announced as a model", 120000, 3000000, mutation, 20});
  t.push_back({"garbage", "files put together from tokens of the format; non-trivial: over 30 bytes", 100000, 3000000, garbage, 20});
  return pbt::Main(argc, argv, t);
}
