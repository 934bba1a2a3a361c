// P27: nothing is kept once an object is gone or an operation has ended
#include <dirent.h>

#include <sol/c_api.h>
#include <sol/pario/file_reader.h>
#include <sol/pario/file_writer.h>
#include <sol/tools.h>
#include <sys/stat.h>
#include <unistd.h>
#include "refmodel.h"
extern "C" size_t __sanitizer_get_current_allocated_bytes();
using namespace vf;
namespace {
typedef sol::pario::DataIter DataIter;
typedef sol::pario::DataReader DataReader;
typedef sol::pario::DataWriter DataWriter;
typedef sol::pario::MiniBatch MiniBatch;
typedef sol::model::Model Model;
struct Held {
  size_t bytes;
  int files, threads;
};
int entries(const char* dir) {
  DIR* d = opendir(dir);
  if (d == nullptr) abort();
  int n = 0;
  while (readdir(d) != nullptr) ++n;
  closedir(d);
  return n;
}
Held held() {
  Held h;
  h.files = entries("/proc/self/fd");
  h.threads = entries("/proc/self/task");
  h.bytes = __sanitizer_get_current_allocated_bytes();
  return h;
}
typedef void (*Body)(pbt::Gen&, pbt::Ctx&);
// the same actions again and again: a leak grows every time
void repeat(pbt::Gen& g, pbt::Ctx& c, Body body) {
  body(g, c);
  const std::vector<uint64_t> again = g.choices();
  Held first{0, 0, 0}, last{0, 0, 0};
  for (int i = 0; i < 6; ++i) {
    Held a = held();
    {
      pbt::Gen h(again);
      pbt::Ctx x;
      x.scratch = c.scratch;
      body(h, x);
    }
    Held b = held();
    if (i == 0) first = a;
    last = b;
    if (b.bytes <= a.bytes && b.files <= a.files && b.threads <= a.threads) return;
    if (b.threads > a.threads || b.files > a.files) usleep(2000);
  }
  PBT_CHECK(last.files < first.files + 6, "open-files", "6 repetitions leave " << last.files - first.files << " files open");
  PBT_CHECK(last.threads < first.threads + 6, "threads", "6 repetitions leave " << last.threads - first.threads << " threads running");
  PBT_CHECK(last.bytes <= first.bytes, "memory", "6 repetitions keep " << last.bytes - first.bytes << " bytes of memory");
}
const std::vector<std::string> kTypes = {"svm", "bin", "csv"};
// a source: good, missing, a directory, damaged
std::string source(pbt::Gen& g, pbt::Ctx& c, const std::string& type, int nr, bool big = false) {
  std::string p = c.path("src" + std::to_string(nr) + "." + type);
  unlink(p.c_str());
  rmdir(p.c_str());
  Data d = big && g.chance(1, 6) ? gen_stream(g, 2, 40, 60, false) : gen_stream(g, 2, 6, 9, false);
  int k = (int)g.weighted({6, 1, 1, 3});
  if (k == 1) {
    c.desc << "(missing)";
    c.label("missing source");
    return p;
  }
  if (k == 2) {
    c.desc << "(directory)";
    c.label("directory as source");
    mkdir(p.c_str(), 0755);
    return p;
  }
  write_data(p, type, d, 1);
  if (k == 3) {
    c.label("damaged source");
    std::string t = read_file(p);
    if (type == "bin" || g.chance(1, 3)) {
      t.resize((size_t)g.below(t.size() + 1));
    } else {
      size_t at = (size_t)g.below(t.size() + 1);
      t.insert(at, g.pick(std::vector<std::string>{"x", "1 abc\n", ",", "::", "\n\n", "1:1:1"}));
    }
    write_file(p, t);
    c.desc << "(damaged, " << t.size() << " bytes)";
  } else {
    c.desc << "(" << d.size() << " examples)";
  }
  return p;
}
std::string target(pbt::Gen& g, pbt::Ctx& c, const std::string& name) {
  std::string p = c.path(name);
  unlink(p.c_str());
  switch (g.weighted({5, 1, 1})) {
    case 1:
      c.desc << "(no such directory)";
      c.label("output cannot be created");
      return c.path("no/such/" + name);
    case 2:
      c.desc << "(full device)";
      c.label("output cannot be written");
      if (symlink("/dev/full", p.c_str()) != 0) abort();
  }
  return p;
}

void reader_body(pbt::Gen& g, pbt::Ctx& c) {
  std::string type = g.pick(kTypes);
  std::unique_ptr<DataReader> r(DataReader::Create(g.chance(1, 12) ? "nosuch" : type));
  c.desc << "reader " << type << ":";
  if (!r) return;
  sol::pario::DataPoint dp;
  int n = (int)g.range(1, 6);
  for (int i = 0; i < n; ++i) {
    switch (g.weighted({3, 4, 1, 1})) {
      case 0: {
        c.desc << " open";
        std::string p = source(g, c, type, (int)g.below(2), true);
        int rc = r->Open(p);
        c.desc << "=" << (rc == 0 ? "ok" : "error");
        if (i > 0) c.nontrivial = true;
        break;
      }
      case 1: {
        int k = (int)g.range(1, 12);
        c.desc << " next*" << k;
        for (int j = 0; j < k && r->Good(); ++j)
          if (r->Next(dp) != 0) break;
        break;
      }
      case 2:
        c.desc << " rewind";
        if (r->Good()) r->Rewind();
        break;
      default:
        c.desc << " close";
        r->Close();
    }
  }
  if (g.chance(1, 3)) {
    c.desc << " close";
    r->Close();
  }
  c.desc << "\n";
}
void writer_body(pbt::Gen& g, pbt::Ctx& c) {
  std::string type = g.pick(kTypes);
  std::unique_ptr<DataWriter> w(DataWriter::Create(g.chance(1, 12) ? "nosuch" : type));
  c.desc << "writer " << type << ":";
  if (!w) return;
  int n = (int)g.range(1, 3);
  for (int i = 0; i < n; ++i) {
    c.desc << " open";
    std::string p = target(g, c, "out" + std::to_string(i));
    if (w->Open(p) != 0) continue;
    if (i > 0) c.nontrivial = true;
    sol::index_t dim = 10;
    w->SetExtraInfo((char*)&dim);
    Data d = g.chance(1, 8) ? gen_stream(g, 2, 60, 9, false) : gen_stream(g, 2, 6, 9, false);
    c.desc << " write " << d.size();
    for (auto& e : d) {
      sol::pario::DataPoint dp;
      to_point(e, dp);
      w->Write(dp);
    }
    if (g.chance(1, 2)) {
      c.desc << " close";
      w->Close();
    }
  }
  c.desc << "\n";
}
// the plain file classes, opened again without being closed
void file_body(pbt::Gen& g, pbt::Ctx& c) {
  sol::pario::FileReader r;
  sol::pario::FileWriter w;
  int n = (int)g.range(2, 7), opened = 0;
  int len = 16;
  char* buf = (char*)malloc((size_t)len);
  bool text = false;
  c.desc << "files:";
  for (int i = 0; i < n; ++i) {
    switch (g.weighted({4, 3, 1, 1, 4, 3, 1})) {
      case 0: {
        static const char* kModes[] = {"r", "rb", "w", ""};
        const char* m = kModes[g.weighted({4, 4, 1, 1})];
        c.desc << " open " << m;
        std::string p = source(g, c, g.pick(kTypes), (int)g.below(2), true);
        r.Open(p.c_str(), m);
        text = m[0] == 'r' && m[1] == 0;
        ++opened;
        break;
      }
      case 1: {
        if (!r.Good()) break;
        int k = (int)g.range(1, 8);
        c.desc << " read*" << k;
        char b[7];
        for (int j = 0; j < k; ++j)
          if ((text ? r.ReadLine(buf, len) : r.Read(b, 7)) != 0) break;
        break;
      }
      case 2:
        c.desc << " rewind";
        r.Rewind();
        break;
      case 3:
        c.desc << " close";
        r.Close();
        break;
      case 4: {
        static const char* kModes[] = {"w", "wb", "a", "w+"};
        c.desc << " create";
        w.Open(target(g, c, "out" + std::to_string(g.below(2))).c_str(), kModes[g.below(4)]);
        ++opened;
        break;
      }
      case 5: {
        if (!w.Good()) break;
        int k = g.chance(1, 8) ? (int)g.range(1000, 3000) : (int)g.range(1, 8);
        c.desc << " write*" << k;
        for (int j = 0; j < k; ++j)
          if (w.Write((char*)"0123456", 7) != 0) break;
        if (w.Good()) w.Printf("%d\n", k);
        break;
      }
      default:
        c.desc << " close-written";
        w.Close();
    }
  }
  free(buf);
  if (opened > 1) c.nontrivial = true;
  c.desc << "\n";
}
void iter_body(pbt::Gen& g, pbt::Ctx& c) {
  int batch = (int)g.range(1, 5), bufs = (int)g.range(1, 3);
  bool capi = g.chance(1, 2);
  c.desc << "iterator " << batch << " x " << bufs << ":";
  void* v = capi ? sol_CreateDataIter(batch, bufs) : (void*)new DataIter(batch, bufs);
  DataIter* it = (DataIter*)v;
  MiniBatch* mb = nullptr;
  int rounds = (int)g.range(1, 2);
  std::vector<std::vector<double>> xs, ys;
  std::vector<std::vector<int>> ind, ptr;
  int nr = 0;
  for (int q = 0; q < rounds; ++q) {
    int n = (int)g.range(1, 3);
    for (int i = 0; i < n; ++i) {
      int passes = (int)g.range(1, 3);
      int kind = (int)g.weighted({5, 1, 1});
      if (kind == 0) {
        std::string type = g.pick(kTypes);
        c.desc << " add " << type << " x" << passes;
        std::string p = source(g, c, type, nr++);
        it->AddReader(p, g.chance(1, 15) ? "nosuch" : type, passes);
      } else {
        int rows = (int)g.range(1, 5), cols = (int)g.range(1, 4);
        c.desc << (kind == 1 ? " add array " : " add csr ") << rows << "x" << cols;
        xs.push_back(std::vector<double>((size_t)(rows * cols), 0.5));
        ys.push_back(std::vector<double>((size_t)rows, 1.0));
        if (kind == 1) {
          npy_intp dims[2] = {rows, cols}, st[2] = {(npy_intp)(cols * sizeof(double)), (npy_intp)sizeof(double)};
          sol_loadArray(it, (char*)xs.back().data(), (char*)ys.back().data(), dims, st, passes);
        } else {
          ind.push_back(std::vector<int>());
          ptr.push_back(std::vector<int>(1, 0));
          for (int r = 0; r < rows; ++r) {
            for (int k = 0; k < cols; ++k) ind.back().push_back(k);
            ptr.back().push_back((int)ind.back().size());
          }
          sol_loadCsrMatrix(it, (char*)ind.back().data(), (char*)ptr.back().data(), (char*)xs.back().data(), (char*)ys.back().data(), rows, passes);
        }
      }
    }
    if (g.chance(1, 2)) {
      c.desc << " drain";
      while ((mb = it->Next(mb)) != nullptr) {
      }
    } else {
      int k = (int)g.range(0, 6);
      c.desc << " take " << k;
      for (int j = 0; j < k; ++j)
        if ((mb = it->Next(mb)) == nullptr) break;
      if (mb != nullptr) c.nontrivial = true;
    }
  }
  c.desc << " release\n";
  // a batch in the hands of the caller is the caller's
  delete mb;
  if (capi)
    sol_ReleaseDataIter(&v);
  else
    delete it;
}
void tool_body(pbt::Gen& g, pbt::Ctx& c) {
  std::string src = g.pick(kTypes), dst = g.pick(kTypes);
  int op = (int)g.below(4), k = (int)g.range(0, 4);
  bool opt = g.chance(1, 2);
  static const char* kOps[] = {"convert", "shuffle", "split", "analyze"};
  c.desc << kOps[op] << " " << src << " -> " << dst << " " << k << " ";
  c.label(kOps[op]);
  std::string in = source(g, c, src, 0, true);
  std::string st = g.chance(1, 15) ? "nosuch" : src, dt = g.chance(1, 15) ? "nosuch" : dst;
  int rc;
  if (op == 2) {
    std::string pre = c.path("part-");
    for (int i = 0; i < k; ++i) unlink((pre + std::to_string(i) + "." + dt).c_str());
    if (k > 0 && g.chance(1, 4)) target(g, c, "part-" + std::to_string(g.below((uint64_t)k)) + "." + dt);
    if (g.chance(1, 8)) pre = c.path("no/such/part-");
    rc = sol::split(in, st, k, pre, dt, opt);
  } else {
    std::string out = target(g, c, "out." + dst);
    rc = op == 0 ? sol::convert(in, st, out, dt, opt, 0.5f) : op == 1 ? sol::shuffle(in, st, out, dt) : sol::analyze(in, st, out);
  }
  c.desc << (rc == 0 ? " ok\n" : " error\n");
  c.nontrivial = rc != 0;
}
std::string damage(pbt::Gen& g, std::string f) {
  switch (g.below(4)) {
    case 0: f.resize((size_t)g.below(f.size() + 1)); break;
    case 1:
      if (!f.empty()) f[(size_t)g.below(f.size())] = "x{}[]\":,0 \n-"[g.below(12)];
      break;
    case 2: {
      size_t a = (size_t)g.below(f.size() + 1);
      f.erase(a, (size_t)g.range(1, 30));
      break;
    }
    default: f.insert((size_t)g.below(f.size() + 1), g.pick(std::vector<std::string>{"9", "nan ", "\"", "abc", "}"}));
  }
  return f;
}
void sink(void*, const char*, const char*) {}
void psink(void*, double, double, int, float*) {}
void isink(void*, long long, long long, long long, double) {}
void model_body(pbt::Gen& g, pbt::Ctx& c) {
  Setup s = gen_setup(g, g.pick(all_algos()), true);
  c.desc << s.str() << ":";
  if (g.chance(1, 12)) {
    void* bad = sol_CreateModel(g.pick(std::vector<std::string>{"nosuch", "", s.algo}).c_str(), (int)g.range(-1, 3));
    if (bad != nullptr) sol_ReleaseModel(&bad);
  }
  void* m = sol_CreateModel(s.algo.c_str(), s.cls);
  if (m == nullptr) return;
  for (auto& x : s.p) sol_SetModelParameter(m, x.first.c_str(), x.second.c_str());
  std::string file = c.path("model.txt");
  unlink(file.c_str());
  int n = (int)g.range(1, 6);
  for (int i = 0; i < n && m != nullptr; ++i) {
    Data d = gen_stream(g, s.cls, 8, 8, false);
    switch (g.below(8)) {
      case 0:
      case 1: {
        c.desc << " train " << d.size();
        VecIter it(d, (int)g.range(1, 4));
        sol_Train(m, (DataIter*)&it);
        break;
      }
      case 2: {
        c.desc << " set";
        std::string name = g.pick(std::vector<std::string>{"eta", "lambda", "B", "loss", "norm", "dim", "exp_show", "step_show", "t", "bias_eta", "cost_margin", "nosuch", "filter", "active_smoothness"});
        std::string val = g.pick(std::vector<std::string>{"1", "0", "-1", "abc", "", "hinge", "bool", "L2", "L1", "3", "/nonexistent", "1e99", "maxscore-hinge", "1=2"});
        c.desc << " " << name << "=" << val;
        if (sol_SetModelParameter(m, name.c_str(), val.c_str()) != 0) {
          c.label("refused parameter");
          c.nontrivial = true;
        }
        break;
      }
      case 3: {
        c.desc << " save";
        std::string p = target(g, c, "saved.txt");
        sol_SaveModel(m, p.c_str());
        if (g.chance(1, 2)) sol_SaveModel(m, file.c_str());
        break;
      }
      case 4:
      case 5: {
        if (!exists(file)) sol_SaveModel(m, file.c_str());
        std::string f = exists(file) ? read_file(file) : std::string();
        bool broken = g.chance(2, 3);
        c.desc << (broken ? " load-damaged" : " load");
        if (broken) f = damage(g, f);
        if (f.size() < 100000) write_file(c.path("load.txt"), f);
        void* o = sol_RestoreModel(g.chance(1, 10) ? "/nonexistent" : c.path("load.txt").c_str());
        c.desc << (o ? "=ok" : "=refused");
        if (o == nullptr) {
          c.nontrivial = true;
          c.label("refused file");
        }
        if (o != nullptr && ((Model*)o)->clf_num() > 100) sol_ReleaseModel(&o);
        if (o != nullptr) {
          if (g.chance(1, 2)) {
            sol_ReleaseModel(&m);
            m = o;
          } else {
            sol_ReleaseModel(&o);
          }
        }
        break;
      }
      case 6: {
        c.desc << " test";
        VecIter it(d, 3), it2(d, 2);
        std::string p = target(g, c, "pred.txt");
        // a loaded model may be untrained, which the library answers with an exception
        try {
          sol_Test(m, (DataIter*)&it, p.c_str());
          sol_Predict(m, (DataIter*)&it2, psink, nullptr);
        } catch (std::exception&) {
        }
        break;
      }
      default:
        c.desc << " inspect";
        sol_GetModelParameters(m, sink, nullptr);
        sol_model_sparsity(m);
        sol_InspectOnlineIteration(m, isink, nullptr);
    }
  }
  c.desc << "\n";
  if (n >= 3) c.nontrivial = true;
  if (m != nullptr) sol_ReleaseModel(&m);
}
template <typename T>
void math_ops(pbt::Gen& g, pbt::Ctx& c) {
  using sol::math::Matrix;
  using sol::math::SVector;
  using sol::math::Vector;
  std::vector<Vector<T>> v(1);
  std::vector<SVector<T>> s(1);
  std::vector<Matrix<T>> m(1);
  std::vector<sol::pario::DataPoint> p(1);
  int n = (int)g.range(1, 14);
  c.nontrivial = n >= 3;
  for (int i = 0; i < n; ++i) {
    size_t a = (size_t)g.below(v.size()), b = (size_t)g.below(s.size()), k = (size_t)g.below(m.size()), q = (size_t)g.below(p.size());
    int op = (int)g.below(16);
    c.desc << " " << op;
    size_t sz = (size_t)g.sized(0, 40);
    switch (op) {
      case 0: v.push_back(Vector<T>()); break;
      case 1: v.push_back(v[a]); break;
      case 2: v[a].resize(sz); break;
      case 3: v[a].push_back((T)1); break;
      case 4: { Vector<T> t(sz + 1); t = (T)2; v.push_back(t); break; }
      case 5: v[a] = v[g.below(v.size())]; break;
      case 6: s.push_back(s[b]); break;
      case 7: s[b].push_back((sol::index_t)sz, (T)1); break;
      case 8: s.push_back(SVector<T>()); s.back().resize(sz); break;
      case 9: s[b] = s[g.below(s.size())]; break;
      case 10: m[k].resize(sol::math::Shape<2>({sz % 5, sz / 5})); break;
      case 11: { m.push_back(m[k]); Matrix<T> t(sol::math::Shape<2>({sz % 5 + 1, sz / 5 + 1})); t = (T)1; m.push_back(t); break; }
      case 12: { Vector<T> t(sz + 1); t = (T)3; v[a].resize(sz + 1); v[a] = t + t * (T)2; break; }
      case 13: p.push_back(p[q]); p.back().AddNewFeat((sol::index_t)sz + 1, 1.f); break;
      case 14: { sol::pario::DataPoint t; p[q].Clone(t); p[q] = t.Clone(); break; }
      default: {
        if (v.size() > 1) v.erase(v.begin() + a);
        if (s.size() > 1) s.erase(s.begin() + b);
        if (m.size() > 1) m.erase(m.begin() + k);
      }
    }
  }
}
void math_body(pbt::Gen& g, pbt::Ctx& c) {
  c.desc << "vectors, matrices, examples:";
  if (g.chance(1, 2)) math_ops<float>(g, c);
  else math_ops<double>(g, c);
  c.desc << "\n";
}
}  // namespace
int main(int argc, char** argv) {
  std::vector<pbt::Target> t;
  auto run = [](Body b) { return [b](pbt::Gen& g, pbt::Ctx& c) { repeat(g, c, b); }; };
  t.push_back({"readers", "history of one reader over good, missing and damaged sources, repeated: memory, open files and threads return to where they were; non-trivial: it was opened more than once", 12000, 200000, run(reader_body), 30});
  t.push_back({"writers", "history of one writer over good and unwritable outputs, repeated; non-trivial: it was opened more than once", 8000, 100000, run(writer_body), 30});
  t.push_back({"files", "history of one plain file reader and one file writer over good, missing, unwritable and damaged files, opened again with and without closing, repeated; non-trivial: opened more than once", 12000, 150000, run(file_body), 30});
  t.push_back({"iterators", "iterator over several good and bad sources, drained or abandoned, repeated; non-trivial: released with data pending", 8000, 100000, run(iter_body), 30});
  t.push_back({"models", "history of one learner: training, testing, accepted and refused parameters, saving, loading good and damaged files, repeated; non-trivial: 3 or more steps, or a refusal", 12000, 200000, run(model_body), 30});
  t.push_back({"tools", "one data tool on good and bad sources and outputs, repeated; non-trivial: the tool fails", 8000, 100000, run(tool_body), 30});
  t.push_back({"containers", "history of vectors, matrices, sparse vectors and examples that share storage, repeated; non-trivial: 3 or more steps", 16000, 300000, run(math_body), 30});
  return pbt::Main(argc, argv, t);
}
