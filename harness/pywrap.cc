// P25: counts the models and data iterators the Python module holds. Linked into the
// module with --wrap, so that only the module's own calls are counted.
extern "C" {
void* __real_sol_CreateModel(const char*, int);
void* __real_sol_RestoreModel(const char*);
void __real_sol_ReleaseModel(void**);
void* __real_sol_CreateDataIter(int, int);
void __real_sol_ReleaseDataIter(void**);
static int models = 0, iters = 0;
void* __wrap_sol_CreateModel(const char* a, int b) {
  void* r = __real_sol_CreateModel(a, b);
  models += r != nullptr;
  return r;
}
void* __wrap_sol_RestoreModel(const char* a) {
  void* r = __real_sol_RestoreModel(a);
  models += r != nullptr;
  return r;
}
void __wrap_sol_ReleaseModel(void** m) {
  models -= m && *m;
  __real_sol_ReleaseModel(m);
}
void* __wrap_sol_CreateDataIter(int a, int b) {
  void* r = __real_sol_CreateDataIter(a, b);
  iters += r != nullptr;
  return r;
}
void __wrap_sol_ReleaseDataIter(void** m) {
  iters -= m && *m;
  __real_sol_ReleaseDataIter(m);
}
int vf_live_models() { return models; }
int vf_live_iters() { return iters; }
}
