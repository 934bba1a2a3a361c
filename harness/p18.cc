// P18: training depends only on the sequence of examples
#include "refmodel.h"
#include <sol/c_api.h>
#include <sys/mman.h>
using namespace vf;
namespace {
typedef sol::pario::DataIter DataIter;
struct Row {
  long long data, iter, upd;
  double err;
};
typedef std::vector<Row> Log;
void note(void* ctx, long long data, long long iter, long long upd, double err) { ((Log*)ctx)->push_back({data, iter, upd, err}); }

struct Show {
  int kind = 0;  // 0 default (powers of 2), 1 exp_show, 2 step_show
  long long n = 2;
  void set(OLM& m) const {
    if (kind == 1) m.SetParameter("exp_show", std::to_string(n));
    if (kind == 2) m.SetParameter("step_show", std::to_string(n));
  }
  bool at(long long k) const {
    if (kind == 2) return k % n == 0;
    for (long long p = n; p <= k; p *= n)
      if (p == k) return true;
    return false;
  }
};
bool same(float a, float b) { return a == b || (std::isnan(a) && std::isnan(b)); }

void delivery_of(pbt::Gen& g, pbt::Ctx& c, bool large) {
  Setup s = gen_setup(g, g.pick(all_algos()), true);
  c.label(s.algo);
  Show show;
  show.kind = (int)g.below(3);
  show.n = show.kind == 0 ? 2 : show.kind == 1 ? g.range(2, 6) : g.range(1, 7);
  const Show show0 = show;
  // the calls to Train: each a list of sources, each source a data set with a number of passes
  struct Source {
    Data d;
    int passes;
    int type;  // 0 svm 1 csv 2 bin 3 dense array 4 csr
  };
  std::vector<std::vector<Source>> calls(g.range(1, large ? 2 : 3));
  // the reports wanted may change between the calls
  std::vector<Show> shows(1, show);
  while (shows.size() < calls.size()) {
    Show z = shows.back();
    if (g.chance(1, 4)) {
      z.kind = (int)g.range(1, 2);
      z.n = z.kind == 1 ? g.range(2, 6) : g.range(1, 7);
    }
    shows.push_back(z);
  }
  Data seq;
  std::vector<size_t> ends;
  bool files = g.chance(3, 4);
  c.desc << s.str() << (show.kind == 0 ? "" : show.kind == 1 ? " exp_show=" : " step_show=") << (show.kind ? std::to_string(show.n) : "") << "\n";
  for (auto& call : calls) {
    int n = (int)g.range(1, 3);
    for (int i = 0; i < n; ++i) {
      Source q;
      q.d = gen_stream(g, s.cls, 10, 8);
      for (auto& e : q.d)  // explicit zeros have no csv or dense form
        for (auto& f : e.f) if (f.second == 0) f.second = 1;
      q.passes = g.chance(1, 2) ? 1 : (int)g.range(1, 3);
      q.type = (int)g.below(5);
      if (large && g.chance(1, 2)) {
        q.passes = (int)g.range(100, 2500);
        c.desc << "(" << q.passes << " passes over " << q.d.size() << " examples)\n";
      } else if (large) {
        size_t n = q.d.size(), all = (size_t)g.range(500, g.chance(1, 4) ? 70000 : 9000);
        c.desc << "(" << n << " examples repeated up to " << all << ")\n";
        while (q.d.size() < all) q.d.push_back(q.d[q.d.size() % n]);
      }
      if ((size_t)max_index(q.d) * q.d.size() > 1000000) q.type = q.type == 3 ? 4 : q.type == 1 ? 0 : q.type;
      for (int k = 0; k < q.passes; ++k) seq.insert(seq.end(), q.d.begin(), q.d.end());
      call.push_back(q);
    }
    ends.push_back(seq.size());
  }
  std::unique_ptr<OLM> m(make_model(s)), r(make_model(s));
  // the plain way: one example at a time
  Log want;
  std::vector<double> rate;
  r->BeginTrain();
  size_t wrong = 0;
  std::vector<float> buf(r->clf_num());
  for (size_t i = 0; i < seq.size(); ++i) {
    sol::pario::DataPoint dp;
    to_point(seq[i], dp);
    r->PreProcess(dp);
    if (r->Iterate(dp, buf.data()) != dp.label()) ++wrong;
    double err = (double)wrong / (double)(i + 1);
    size_t call = 0;
    while (i >= ends[call]) ++call;
    if (shows[call].at((long long)i + 1)) want.push_back({(long long)i + 1, r->cur_iter_num(), (long long)r->update_num(), err});
    for (size_t e : ends)
      if (e == i + 1) {
        want.push_back({(long long)i + 1, r->cur_iter_num(), (long long)r->update_num(), err});
        rate.push_back(err);
      }
  }
  // the delivered way
  Log got;
  show0.set(*m);
  if (g.chance(1, 2)) m->set_iterate_callback(note, &got);
  else sol_InspectOnlineIteration((sol::model::Model*)(OLM*)m.get(), note, &got);
  size_t done = 0;
  int nf = 0;
  for (size_t k = 0; k < calls.size(); ++k) {
    float err;
    if (k > 0 && (shows[k].kind != shows[k - 1].kind || shows[k].n != shows[k - 1].n)) {
      shows[k].set(*m);
      c.label("reports changed");
      c.desc << (shows[k].kind == 1 ? "exp_show=" : "step_show=") << shows[k].n << "\n";
    }
    if (!files) {
      Data part(seq.begin() + done, seq.begin() + ends[k]);
      int batch = (int)g.range(1, 9);
      VecIter it(part, batch);
      c.desc << "train, batches of " << batch << "\n" << (large ? std::string() : str(part));
      err = g.chance(1, 2) ? m->Train(it) : sol_Train((sol::model::Model*)m.get(), (DataIter*)&it);
    } else {
      int batch = (int)g.range(1, 9), bufs = (int)g.range(1, 3);
      if (large && g.chance(1, 2)) batch = (int)g.range(10, 3000), bufs = (int)g.range(1, 20);
      c.desc << "train, batches of " << batch << ", " << bufs << " buffers\n";
      void* it = sol_CreateDataIter(batch, bufs);
      std::vector<std::vector<double>> keep;
      std::vector<std::vector<int>> keepi;
      for (auto& q : calls[k]) {
        static const char* tn[] = {"svm", "csv", "bin", "dense array", "csr array"};
        c.desc << tn[q.type] << " x " << q.passes << "\n" << (large ? str(Data(q.d.begin(), q.d.begin() + std::min<size_t>(q.d.size(), 10))) : str(q.d));
        int rc;
        if (q.type < 3) {
          std::string p = c.path("f" + std::to_string(nf++));
          write_data(p, tn[q.type], q.d, (uint32_t)g.range(0, 3));
          rc = sol_LoadData(it, p.c_str(), tn[q.type], q.passes);
        } else if (q.type == 3) {
          size_t cols = std::max<size_t>(1, max_index(q.d)), pad = g.below(3), w = cols + pad;
          keep.push_back(std::vector<double>(w * q.d.size(), 99.));
          auto& X = keep.back();
          std::vector<double> Y;
          for (size_t i = 0; i < q.d.size(); ++i) {
            for (size_t j = 0; j < cols; ++j) X[i * w + j] = 0;
            for (auto& f : q.d[i].f) X[i * w + f.first - 1] = f.second;
            Y.push_back((double)q.d[i].label);
          }
          double* xp = X.data();
          keep.push_back(Y);
          npy_intp dims[2] = {(npy_intp)q.d.size(), (npy_intp)cols}, st[2] = {(npy_intp)(w * sizeof(double)), (npy_intp)sizeof(double)};
          rc = sol_loadArray(it, (char*)xp, (char*)keep.back().data(), dims, st, q.passes);
        } else {
          int first = g.chance(1, 4) ? (int)g.range(1, 50) : 0;  // the row pointers of a part of a larger matrix
          std::vector<int> ind, ptr(1, first);
          std::vector<double> val, Y;
          for (auto& e : q.d) {
            std::vector<std::pair<uint32_t, float>> f = e.f;
            if (f.size() > 1 && !large && g.chance(1, 4)) std::swap(f[0], f[f.size() - 1]);  // indices need not be sorted
            for (auto& z : f) {
              ind.push_back((int)z.first - 1);
              val.push_back(z.second);
            }
            ptr.push_back(first + (int)ind.size());
            Y.push_back((double)e.label);
          }
          keepi.push_back(ind);
          int* ip = keepi.back().data();
          keepi.push_back(ptr);
          int* pp = keepi.back().data();
          keep.push_back(val);
          double* vp = keep.back().data();
          keep.push_back(Y);
          rc = sol_loadCsrMatrix(it, (char*)ip, (char*)pp, (char*)vp, (char*)keep.back().data(), (int)q.d.size(), q.passes);
        }
        PBT_CHECK(rc == 0, "load", "loading the data failed with " << rc);
      }
      err = sol_Train((sol::model::Model*)m.get(), it);
      sol_ReleaseDataIter(&it);
    }
    done = ends[k];
    PBT_CHECK(std::fabs(err - rate[k]) <= 1e-6, "error-rate", "training call " << k + 1 << " returned " << err << ", the examples so far give " << rate[k]);
    PBT_CHECK(m->model_updated(), "flag", "a trained model is not marked as updated");
  }
  PBT_CHECK(m->update_num() == r->update_num() && m->cur_iter_num() == r->cur_iter_num(), "counters", "updates " << m->update_num() << ", iterations " << m->cur_iter_num() << " instead of " << r->update_num() << ", " << r->cur_iter_num());
  std::ostringstream a, b;
  for (auto& x : want) a << x.data << " " << x.iter << " " << x.upd << "\n";
  for (auto& x : got) b << x.data << " " << x.iter << " " << x.upd << "\n";
  PBT_CHECK(a.str() == b.str(), "callback", "progress reports (examples, iterations, updates)\n" << b.str() << "instead of\n" << a.str());
  for (size_t i = 0; i < got.size(); ++i) PBT_CHECK(std::fabs(got[i].err - want[i].err) <= 1e-6, "callback", "progress report after " << got[i].data << " examples gives error rate " << got[i].err << " instead of " << want[i].err);
  m->EndTrain();
  r->EndTrain();
  for (int q = 0; q < r->clf_num(); ++q) {
    PBT_CHECK(m->w(q).size() == r->w(q).size(), "weights", "dimension " << m->w(q).size() << " instead of " << r->w(q).size());
    for (size_t i = 0; i < r->w(q).size(); ++i)
      PBT_CHECK(same(m->w(q)[i], r->w(q)[i]), "weights", std::setprecision(9) << "weight " << i << " of class " << q << " is " << m->w(q)[i] << ", example by example it is " << r->w(q)[i]);
  }
  c.nontrivial = seq.size() >= 4 && r->update_num() >= 2;
  c.label(files ? "files and arrays" : "in memory");
}
void delivery(pbt::Gen& g, pbt::Ctx& c) { delivery_of(g, c, false); }
void delivery_large(pbt::Gen& g, pbt::Ctx& c) { delivery_of(g, c, true); }
// arrays whose rows lie far apart: more than 2 GB or 4 GB in all
void far_rows(pbt::Gen& g, pbt::Ctx& c) {
  Data d = gen_stream(g, 2, 8, 6);
  for (auto& e : d)
    for (auto& f : e.f) if (f.second == 0) f.second = 1;
  size_t cols = std::max<size_t>(1, max_index(d)), n = d.size();
  long stride = 8 * (long)g.range((1L << 23), g.chance(1, 3) ? (1L << 31) : (1L << 28) - 1);
  bool back = g.chance(1, 4);
  size_t len = (size_t)stride * n + 8 * cols + 4096;
  char* mem = (char*)mmap(nullptr, len, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (mem == MAP_FAILED) throw pbt::Discard();
  std::vector<double> Y;
  char* base = back ? mem + (size_t)stride * (n - 1) : mem;
  if (back) stride = -stride;
  for (size_t i = 0; i < n; ++i) {
    double* row = (double*)(base + (long)i * stride);
    for (auto& f : d[i].f) row[f.first - 1] = f.second;
    Y.push_back((double)d[i].label);
  }
  c.desc << "rows " << stride << " bytes apart\n" << str(d);
  void* it = sol_CreateDataIter((int)g.range(1, 4), (int)g.range(1, 3));
  npy_intp dims[2] = {(npy_intp)n, (npy_intp)cols}, st[2] = {(npy_intp)stride, (npy_intp)sizeof(double)};
  int rc = sol_loadArray(it, base, (char*)Y.data(), dims, st, 1);
  Data got;
  if (rc == 0) {
    sol::pario::MiniBatch* mb = nullptr;
    while ((mb = ((DataIter*)it)->Next(mb)) != nullptr)
      for (int i = 0; i < mb->size(); ++i) got.push_back(from_point((*mb)[i]));
  }
  sol_ReleaseDataIter(&it);
  munmap(mem, len);
  PBT_CHECK(rc == 0, "load", "loading the data failed with " << rc);
  PBT_CHECK(str(got) == str(d), "rows", "the rows are read as\n" << str(got));
  c.label(len > (4ull << 30) ? "over 4 GB" : len > (2ull << 30) ? "over 2 GB" : "smaller");
  c.nontrivial = len > (2ull << 30);
}
// the readers of arrays: rows as examples, rewinding, no labels, addresses that are none
void array_readers(pbt::Gen& g, pbt::Ctx& c) {
  Data d = gen_stream(g, 2, 8, 6);
  bool dense = g.chance(1, 2), labels = g.chance(3, 4);
  size_t cols = std::max<size_t>(1, max_index(d)) + (size_t)g.below(3), n = d.size();
  std::vector<double> X(dense ? cols * n : 0, 0.), Y;
  std::vector<int> ind, ptr(1, dense ? 0 : (int)g.below(3));
  Data want = d;
  for (size_t i = 0; i < n; ++i) {
    want[i].f.clear();
    for (auto& f : d[i].f) {
      double v = f.second;
      if (g.chance(1, 4)) v = (double)f.second * (g.chance(1, 3) ? 1e-30 : g.chance(1, 4) ? 1e30 : 1e-3);
      if (!dense || v != 0) want[i].f.push_back(std::make_pair(f.first, (float)v));
      if (dense) X[i * cols + f.first - 1] = v;
      else {
        ind.push_back((int)f.first - 1);
        X.push_back(v);
      }
    }
    ptr.push_back(ptr[0] + (int)ind.size());
    // labels are whole numbers in floating point
    want[i].label = labels ? g.range(-3, 3) : 0;
    Y.push_back((double)want[i].label);
  }
  double* y = labels ? Y.data() : nullptr;
  std::ostringstream p;
  std::string type = dense ? "numpy" : "csr_matrix";
  std::vector<std::string> parts;
  auto num = [](long long v) { return std::to_string(v); };
  if (dense) parts = {num((long long)X.data()), num((long long)y), num((long long)n), num((long long)cols), num((long long)cols * 8)};
  else parts = {num((long long)ind.data()), num((long long)ptr.data()), num((long long)X.data()), num((long long)y), num((long long)n)};
  bool broken = g.chance(1, 4);
  if (broken) {
    size_t at = (size_t)g.below(parts.size());
    switch (g.below(4)) {
      case 0: parts.erase(parts.begin() + at); break;
      case 1: parts.push_back("1"); break;
      case 2: parts[at] = g.pick(std::vector<std::string>{"", "abc", "x1", "-", "/tmp"}); break;
      default: parts[at] += g.pick(std::vector<std::string>{"abc", "x", ".svm", "-", "/"});
    }
  }
  for (size_t i = 0; i < parts.size(); ++i) p << (i ? ";" : "") << parts[i];
  c.desc << type << (labels ? "" : " without labels") << (broken ? " broken address " : "") << "\n" << str(want);
  std::unique_ptr<sol::pario::DataReader> r(sol::pario::DataReader::Create(type));
  PBT_CHECK(r != nullptr, "create", "no reader for " << type);
  int st = r->Open(p.str());
  if (broken) {
    PBT_CHECK(st != sol::Status_OK, "broken-address", "accepted: " << p.str());
    c.label("broken address");
    c.nontrivial = true;
    return;
  }
  PBT_CHECK(st == sol::Status_OK && r->Good(), "open", "status " << st);
  sol::pario::DataPoint dp;
  if (g.chance(1, 2)) {
    dp.set_label(77);
    dp.AddNewFeat(5, 1.f);
  }
  int passes = (int)g.range(1, 3);
  for (int k = 0; k < passes; ++k) {
    size_t upto = k + 1 < passes && g.chance(1, 2) ? (size_t)g.below(n + 1) : n;
    for (size_t i = 0; i < upto; ++i) {
      st = r->Next(dp);
      PBT_CHECK(st == sol::Status_OK, "next", "row " << i << " of pass " << k + 1 << ": status " << st);
      PBT_CHECK(str(from_point(dp)) == str(want[i]), "row", "row " << i << " of pass " << k + 1 << " is " << str(from_point(dp)));
    }
    if (upto == n && n > 0) PBT_CHECK(r->Next(dp) == sol::Status_EndOfFile, "end", "no end after the last row");
    r->Rewind();
  }
  c.label(type);
  c.nontrivial = n >= 2 && passes >= 2;
}
}  // namespace
int main(int argc, char** argv) {
  std::vector<pbt::Target> t;
  t.push_back({"delivery", "learner x parameters x data sets delivered through files, arrays, batches, calls and passes; non-trivial: four examples and two updates", 60000, 1500000, delivery, 20});
  t.push_back({"delivery-large", "the same with up to 70000 examples in a source or 2500 passes, batches to 3000 and 20 buffers; non-trivial: as above", 200, 6000, delivery_large, 90});
  t.push_back({"far-rows", "dense arrays whose rows lie up to 2 GB apart, forwards or backwards; non-trivial: the array spans more than 2 GB", 2000, 40000, far_rows, 20});
  t.push_back({"array-readers", "dense and CSR arrays (also without labels, or with row pointers that do not start at 0) read and rewound, and broken addresses; non-trivial: two rows and two passes, or a broken address", 30000, 600000, array_readers, 20});
  return pbt::Main(argc, argv, t);
}
