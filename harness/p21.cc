// P21: top-K heap
#include "common.h"
#include <sol/util/heap.h>
using namespace vf;
namespace {
template <typename H>
void heap_case_t(pbt::Gen& g, pbt::Ctx& c, bool keep_large) {
  // better(a,b): a must be kept rather than b
  auto better = [keep_large](float a, float b) { return keep_large ? a > b : a < b; };
  int N = g.chance(1, 60) ? (int)g.range(25, 700) : (int)g.sized(1, 24), K = (int)g.range(1, N);
  int span = (int)g.pick(std::vector<int>{1, 3, 10, 1000});
  auto val = [&]() { return (float)g.range(-span, span) / 4.f; };
  // storage that can move when the array is enlarged
  std::unique_ptr<std::vector<float>> v(new std::vector<float>());
  bool equal = g.chance(1, 4);
  for (int i = 0; i < N; ++i) v->push_back(equal ? 0.f : val());
  H h;
  c.desc << (keep_large ? "keep the largest" : "keep the smallest") << " K=" << K << " of";
  for (float x : *v) c.desc << " " << x;
  c.desc << "\n";
  auto check = [&](const char* when) {
    std::set<int> in;
    for (int i = 0; i < N; ++i)
      if (h.isTopK((sol::index_t)i)) in.insert(i);
    PBT_CHECK((int)in.size() == K, "members", when << ": " << in.size() << " elements in a heap of " << K);
    int i = *in.begin(), o = -1;  // the worst inside and the best outside
    for (int k = 0; k < N; ++k)
      if (in.count(k)) {
        if (better((*v)[i], (*v)[k])) i = k;
      } else if (o < 0 || better((*v)[k], (*v)[o])) {
        o = k;
      }
    if (o >= 0) PBT_CHECK(!better((*v)[o], (*v)[i]), "not-best", when << ": element " << o << " (" << (*v)[o] << ") is outside, element " << i << " (" << (*v)[i] << ") inside");
    std::set<int> pos;
    for (int i : in) {
      int p = (int)h.get_pos((sol::index_t)i);
      PBT_CHECK(p >= 0 && p < K, "maps", when << ": position " << p);
      pos.insert(p);
      PBT_CHECK(h.value_by_pos((sol::index_t)p) == (*v)[i], "maps", when << ": position " << p << " holds value " << h.value_by_pos((sol::index_t)p) << ", element " << i << " has " << (*v)[i]);
    }
    PBT_CHECK((int)pos.size() == K, "maps", when << ": two elements share a position");
    PBT_CHECK((int)h.K() == K, "members", when << ": K changed");
    // the root is the worst element kept
    for (int i : in) PBT_CHECK(!better(h.value_by_pos(0), (*v)[i]), "root", when << ": root " << h.value_by_pos(0) << " is better than member " << (*v)[i]);
  };
  auto offer = [&](int i) {
    bool was = h.isTopK((sol::index_t)i);
    float root = h.value_by_pos(0);
    std::set<int> before;
    for (int k = 0; k < N; ++k)
      if (h.isTopK((sol::index_t)k)) before.insert(k);
    sol::index_t r = h.UpdateHeap((sol::index_t)i);
    std::set<int> after;
    for (int k = 0; k < N; ++k)
      if (h.isTopK((sol::index_t)k)) after.insert(k);
    if (was) {
      PBT_CHECK(r == sol::invalid_index, "offer", "offering member " << i << " returned " << r);
      PBT_CHECK(before == after, "offer", "offering a member changed the heap");
      return;
    }
    bool enter = better((*v)[i], root);
    if (!enter) {
      PBT_CHECK((int)r == i, "offer", "refused element " << i << ", but " << r << " returned");
      PBT_CHECK(before == after, "offer", "refusing an element changed the heap");
    } else {
      PBT_CHECK((int)r != i && before.count((int)r), "offer", "element " << i << " entered, " << r << " returned as left out");
      PBT_CHECK((*v)[r] == root, "offer", "the element left out (" << (*v)[r] << ") is not the worst (" << root << ")");
      before.erase((int)r);
      before.insert(i);
      PBT_CHECK(before == after, "offer", "members are wrong after the exchange");
    }
  };
  if (g.chance(3, 4)) {
    h.Init((sol::index_t)N, (sol::index_t)K, v->data());
    check("after Init");
  } else {
    // initialise with given members: the K best ones
    std::vector<sol::index_t> ix(N);
    for (int i = 0; i < N; ++i) ix[i] = (sol::index_t)i;
    std::stable_sort(ix.begin(), ix.end(), [&](sol::index_t a, sol::index_t b) { return better((*v)[a], (*v)[b]); });
    h.Init((sol::index_t)N, (sol::index_t)K, ix.data(), v->data());
    check("after Init with indexes");
  }
  int ops = (int)g.sized(0, 20);
  int changed = 0;
  for (int k = 0; k < ops; ++k) {
    switch (g.below(5)) {
      case 0: {  // outside elements change, each is offered
        int m = (int)g.range(1, 4);
        std::vector<int> ch;
        for (int j = 0; j < m; ++j) {
          int i = (int)g.below(N);
          if (h.isTopK((sol::index_t)i)) continue;
          (*v)[i] = val();
          ch.push_back(i);
          c.desc << "v[" << i << "]=" << (*v)[i] << " ";
        }
        c.desc << "offer changed\n";
        for (int i : ch) offer(i);
        changed += (int)ch.size();
        break;
      }
      case 1: {  // anything changes: rebuild, offer everything
        int m = (int)g.range(1, 5);
        for (int j = 0; j < m; ++j) {
          int i = (int)g.below(N);
          (*v)[i] = val();
          c.desc << "v[" << i << "]=" << (*v)[i] << " ";
        }
        c.desc << "rebuild, offer all\n";
        h.BuildHeap();
        for (int i = 0; i < N; ++i) offer(i);
        changed += m;
        break;
      }
      case 2: {  // a member improves and sinks
        int i = (int)g.below(N);
        if (!h.isTopK((sol::index_t)i)) break;
        float d = (float)g.range(0, span) / 4.f;
        (*v)[i] += keep_large ? d : -d;
        c.desc << "member v[" << i << "]=" << (*v)[i] << " adjust\n";
        h.AdjustHeap(h.get_pos((sol::index_t)i), (sol::index_t)(K - 1));
        ++changed;
        break;
      }
      case 3: {  // the array grows and moves
        int add = (int)g.range(0, 6);
        std::unique_ptr<std::vector<float>> nv(new std::vector<float>(*v));
        int old = N;
        for (int j = 0; j < add; ++j) nv->push_back(val());
        N += add;
        c.desc << "grow to " << N;
        for (int j = old; j < N; ++j) c.desc << " " << (*nv)[j];
        c.desc << ", offer new\n";
        h.set_N((sol::index_t)N, nv->data());
        v.swap(nv);
        for (int j = old; j < N; ++j) offer(j);
        break;
      }
      default: {
        int i = (int)g.below(N);
        c.desc << "offer " << i << "\n";
        offer(i);
      }
    }
    check("after an operation");
  }
  c.nontrivial = changed >= 1 && K < N;
}
void min_case(pbt::Gen& g, pbt::Ctx& c) { heap_case_t<sol::MinHeap>(g, c, true); }
void max_case(pbt::Gen& g, pbt::Ctx& c) { heap_case_t<sol::MaxHeap>(g, c, false); }
}  // namespace
int main(int argc, char** argv) {
  std::vector<pbt::Target> t;
  t.push_back({"min-heap", "array, K and operation sequence on the heap that keeps the largest; non-trivial: values changed and K < N", 60000, 1500000, min_case, 20});
  t.push_back({"max-heap", "the same on the heap that keeps the smallest", 60000, 1500000, max_case, 20});
  return pbt::Main(argc, argv, t);
}
