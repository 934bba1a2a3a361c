// P07: BlockQueue under generated schedules
#include "common.h"
#include "detsched.h"
#include <sol/util/block_queue.h>
using namespace vf;
namespace {
struct Item { int producer; int seq; };
typedef sol::BlockQueue<Item*> Queue;

struct Op {
  int kind;  // producer: 0 single, 1 list; consumer: 0 single, 1 list, 2 forced list
  int n;
};
struct Prog {
  int cap;
  std::vector<std::vector<Op>> prod, cons;
  std::vector<std::vector<Item>> items;  // per producer
  std::vector<int> batch;                // elements of each consumer op
};

void gen_prog(pbt::Gen& g, pbt::Ctx& c, Prog& p, bool endless_consumers) {
  // now and then bigger: queue, lists or crowd
  int big = g.chance(1, 24) ? (int)g.range(1, 7) : 0;
  p.cap = (int)(big & 1 ? g.range(5, 48) : g.range(1, 4));
  int maxlist = big & 2 ? 60 : 6, crowd = big & 4 ? 7 : 3;
  if (big) c.label("bigger queue, lists or crowd");
  int np = (int)g.range(1, crowd), nc = (int)g.range(1, crowd);
  c.desc << "capacity " << p.cap << "\n";
  int total = 0;
  for (int i = 0; i < np; ++i) {
    std::vector<Op> ops;
    int k = (int)g.range(0, 4), n = 0;
    c.desc << "producer " << i << ":";
    for (int j = 0; j < k; ++j) {
      Op o;
      o.kind = g.chance(1, 3) ? 1 : 0;
      o.n = o.kind ? (int)g.range(0, maxlist) : 1;
      n += o.n;
      c.desc << (o.kind ? " list" : " one") << o.n;
      ops.push_back(o);
    }
    c.desc << "\n";
    p.prod.push_back(ops);
    std::vector<Item> it;
    for (int s = 0; s < n; ++s) it.push_back(Item{i, s});
    p.items.push_back(it);
    total += n;
  }
  for (int i = 0; i < nc; ++i) {
    std::vector<Op> ops;
    int k = endless_consumers ? 1 : (int)g.range(0, 4);
    c.desc << "consumer " << i << ":";
    for (int j = 0; j < k; ++j) {
      Op o;
      o.kind = (int)g.weighted({3, 2, 2});
      o.n = o.kind ? (int)g.range(1, maxlist - 1) : 1;
      c.desc << (o.kind == 0 ? " one" : o.kind == 1 ? " list" : " forced") << o.n;
      ops.push_back(o);
    }
    c.desc << (endless_consumers ? " repeated until the end marker\n" : "\n");
    p.cons.push_back(ops);
  }
  c.nontrivial = total >= 2 && np + nc >= 3;
  c.label(std::to_string(np) + " producers, " + std::to_string(nc) + " consumers");
}

struct Run {
  Prog& p;
  Queue q;
  std::vector<std::vector<Item*>> got;  // per consumer, in order; null = end marker
  int put_done = 0, get_started = 0;    // elements of completed puts / of gets begun
  int put_started = 0, get_done = 0;
  std::vector<int> stage;               // 1 = inside an operation
  explicit Run(Prog& pr) : p(pr), q(pr.cap), got(pr.cons.size()) {}

  void check_size() {
    int n = q.size();
    if (n < 0 || n > p.cap) sched::fail("size", "queue of capacity " + std::to_string(p.cap) + " reports " + std::to_string(n) + " elements");
    if (q.empty() != (q.size() == 0)) sched::fail("size", "empty() disagrees with size()");
    if (q.capacity() != p.cap) sched::fail("size", "capacity changed");
  }
  void bounds() {
    // completed puts that no get can have taken must fit in
    if (put_done - get_started > p.cap)
      sched::fail("capacity", std::to_string(put_done) + " elements were put while gets asked for at most " + std::to_string(get_started) + ": more than capacity " + std::to_string(p.cap));
    if (get_done > put_started)
      sched::fail("invented", std::to_string(get_done) + " elements came out but only " + std::to_string(put_started) + " were put in");
  }
  void produce(int i) {
    size_t at = 0;
    for (auto& o : p.prod[i]) {
      put_started += o.n;
      if (o.kind == 0) {
        q.Enqueue(&p.items[i][at]);
      } else {
        std::vector<Item*> l;
        for (int k = 0; k < o.n; ++k) l.push_back(&p.items[i][at + k]);
        l.push_back(nullptr);
        q.Enqueue(l.data(), o.n);
      }
      at += o.n;
      put_done += o.n;
      bounds();
    }
  }
  // one consumer operation; returns whether an end marker came out
  bool consume(int i, const Op& o) {
    std::vector<Item*> l(o.n + 1, (Item*)0x10);
    get_started += o.n;
    int n = 1;
    if (o.kind == 0)
      l[0] = q.Dequeue();
    else
      n = q.Dequeue(l.data(), o.n, o.kind == 2);
    get_done += n;
    get_started -= o.n - n;
    if (n < 1 || n > o.n) sched::fail("count", "dequeue of up to " + std::to_string(o.n) + " returned " + std::to_string(n));
    if (l[o.n] != (Item*)0x10) sched::fail("overrun", "dequeue wrote more elements than asked for");
    int ends = 0;
    for (int k = 0; k < n; ++k) {
      got[i].push_back(l[k]);
      if (l[k] == nullptr) ++ends;
    }
    if (o.kind == 2 && n < o.n && l[n - 1] != nullptr)
      sched::fail("forced", "forced dequeue of " + std::to_string(o.n) + " returned only " + std::to_string(n) + " without an end marker");
    bounds();
    // end markers meant for other consumers
    for (int k = 1; k < ends; ++k) {
      ++put_started;
      q.Enqueue(nullptr);
      ++put_done;
    }
    return ends > 0;
  }
  void history() {
    std::vector<std::vector<int>> seen(p.items.size());
    for (size_t i = 0; i < got.size(); ++i) {
      std::map<int, int> last;
      for (Item* it : got[i]) {
        if (it == nullptr) continue;
        bool ours = false;
        for (auto& v : p.items)
          if (!v.empty() && it >= &v.front() && it <= &v.back()) ours = true;
        if (!ours) sched::fail("invented", "an element came out that was never put in");
        if (last.count(it->producer) && last[it->producer] >= it->seq)
          sched::fail("order", "consumer " + std::to_string(i) + " got element " + std::to_string(it->seq) + " of producer " + std::to_string(it->producer) + " after element " + std::to_string(last[it->producer]));
        last[it->producer] = it->seq;
        seen[it->producer].push_back(it->seq);
      }
    }
    for (size_t i = 0; i < seen.size(); ++i) {
      std::sort(seen[i].begin(), seen[i].end());
      for (size_t k = 0; k + 1 < seen[i].size(); ++k)
        if (seen[i][k] == seen[i][k + 1]) sched::fail("duplicate", "element " + std::to_string(seen[i][k]) + " of producer " + std::to_string(i) + " came out twice");
    }
  }
  size_t received() {
    size_t n = 0;
    for (auto& v : got)
      for (Item* it : v) n += it != nullptr;
    return n;
  }
  size_t total() {
    size_t n = 0;
    for (auto& v : p.items) n += v.size();
    return n;
  }
};

// producers finish, then one end marker per consumer; everything must come out
void drain_case(pbt::Gen& g, pbt::Ctx& c) {
  Prog p;
  gen_prog(g, c, p, true);
  sched::run(g, c, [&]() {
    Run r(p);
    std::vector<int> ps, cs;
    for (size_t i = 0; i < p.cons.size(); ++i)
      cs.push_back(sched::spawn([&r, &p, i]() {
        while (!r.consume((int)i, p.cons[i][0])) r.check_size();
      }));
    for (size_t i = 0; i < p.prod.size(); ++i) ps.push_back(sched::spawn([&r, i]() { r.produce((int)i); }));
    r.check_size();
    for (int id : ps) sched::join(id);
    for (size_t i = 0; i < cs.size(); ++i) {
      ++r.put_started;
      r.q.Enqueue(nullptr);
      ++r.put_done;
      r.check_size();
    }
    for (int id : cs) sched::join(id);
    r.history();
    if (r.received() != r.total()) sched::fail("lost", std::to_string(r.total()) + " elements put in, " + std::to_string(r.received()) + " came out");
    if (p.cons.size() == 1 && p.prod.size() == 1) c.label("single producer and consumer");
    if (r.q.size() != 0) sched::fail("size", "empty queue reports elements");
  });
}

// arbitrary programs run until nobody can go on; whoever is blocked must have to be
void quiescent_case(pbt::Gen& g, pbt::Ctx& c) {
  Prog p;
  gen_prog(g, c, p, false);
  sched::run(g, c, [&]() {
    Run r(p);
    std::vector<int> ps, cs;
    for (size_t i = 0; i < p.cons.size(); ++i)
      cs.push_back(sched::spawn([&r, &p, i]() {
        for (auto& o : p.cons[i])
          if (r.consume((int)i, o)) break;
      }));
    for (size_t i = 0; i < p.prod.size(); ++i) ps.push_back(sched::spawn([&r, i]() { r.produce((int)i); }));
    sched::wait_quiescent();
    int bc = 0, bp = 0;
    for (int id : cs) bc += !sched::finished(id);
    for (int id : ps) bp += !sched::finished(id);
    if (bc) c.label("consumer left blocked");
    if (bp) c.label("producer left blocked");
    r.check_size();
    if (bc && r.q.size() != 0) sched::fail("stuck-consumer", "a consumer stays blocked although the queue holds " + std::to_string(r.q.size()) + " elements");
    if (bp && r.q.size() != p.cap) sched::fail("stuck-producer", "a producer stays blocked although the queue of capacity " + std::to_string(p.cap) + " holds only " + std::to_string(r.q.size()) + " elements");
    // release the blocked ones
    for (int round = 0; round < 4000; ++round) {
      bc = bp = 0;
      for (int id : cs) bc += !sched::finished(id);
      for (int id : ps) bp += !sched::finished(id);
      if (bc == 0 && bp == 0) break;
      if (bc) {
        ++r.put_started;
        r.q.Enqueue(nullptr);
        ++r.put_done;
      } else {
        ++r.get_started;
        Item* it = r.q.Dequeue();
        ++r.get_done;
        r.got[0].push_back(it);
      }
      sched::wait_quiescent();
      int b2 = 0, b3 = 0;
      for (int id : cs) b2 += !sched::finished(id);
      for (int id : ps) b3 += !sched::finished(id);
      if (b2 && r.q.size() != 0) sched::fail("stuck-consumer", "after a release: a consumer stays blocked on a non-empty queue");
      if (b3 && r.q.size() != p.cap) sched::fail("stuck-producer", "after a release: a producer stays blocked on a queue with room");
    }
    for (int id : ps) sched::join(id);
    for (int id : cs) sched::join(id);
    // the rest
    while (r.q.size() > 0) r.got[0].push_back(r.q.Dequeue());
    // order per consumer 0 may mix its own gets with the main thread's: check multiset only
    std::map<Item*, int> cnt;
    for (auto& v : r.got)
      for (Item* it : v)
        if (it) ++cnt[it];
    size_t n = 0;
    for (auto& k : cnt) {
      if (k.second != 1) sched::fail("duplicate", "an element came out twice");
      ++n;
    }
    if (n != r.total()) sched::fail("lost", std::to_string(r.total()) + " elements put in, " + std::to_string(n) + " came out");
  });
}
// one thread: exact FIFO model
void sequential_case(pbt::Gen& g, pbt::Ctx& c) {
  int cap = g.chance(1, 6) ? (int)g.range(7, 300) : (int)g.range(1, 6);
  Queue q(cap);
  const int most = 40 * 300;
  std::vector<Item> items(most);
  std::vector<Item*> model;
  int next = 0, wraps = 0;
  int n = (int)g.range(1, 40);
  c.desc << "capacity " << cap << ":";
  for (int i = 0; i < n; ++i) {
    PBT_CHECK(q.size() == (int)model.size() && q.empty() == model.empty() && q.capacity() == cap, "size", "size " << q.size() << " instead of " << model.size());
    int room = cap - (int)model.size();
    int k = (int)g.below(4);
    if (k == 0 && room > 0) {
      Item* it = g.chance(1, 6) ? nullptr : &items[next++];
      q.Enqueue(it);
      model.push_back(it);
      c.desc << " +1";
    } else if (k == 1 && room > 0) {
      int m = (int)g.range(0, room);
      std::vector<Item*> l;
      for (int j = 0; j < m; ++j) l.push_back(&items[next++]);
      l.push_back(nullptr);
      q.Enqueue(l.data(), m);
      model.insert(model.end(), l.begin(), l.begin() + m);
      c.desc << " +" << m;
    } else if (k == 2 && !model.empty()) {
      Item* it = q.Dequeue();
      PBT_CHECK(it == model[0], "fifo", "dequeued the wrong element");
      model.erase(model.begin());
      c.desc << " -1";
      ++wraps;
    } else if (k == 3 && !model.empty()) {
      bool force = g.chance(1, 2);
      int m = (int)g.range(1, cap <= 6 || g.chance(1, 2) ? 6 : cap + 5);
      size_t want = std::min<size_t>(m, model.size());
      // a forced dequeue of more than there is would block unless an end marker is last
      if (force && (size_t)m > model.size() && model.back() != nullptr) m = (int)model.size();
      std::vector<Item*> l(m + 1, nullptr);
      int got = q.Dequeue(l.data(), m, force);
      c.desc << (force ? " -f" : " -l") << m;
      want = std::min<size_t>(m, model.size());
      PBT_CHECK(got == (int)want, "count", "list dequeue of " << m << " from " << model.size() << " returned " << got);
      for (int j = 0; j < got; ++j) PBT_CHECK(l[j] == model[j], "fifo", "list dequeue returned the wrong element at " << j);
      model.erase(model.begin(), model.begin() + got);
      wraps += got;
    }
  }
  c.nontrivial = wraps > cap;
}
}  // namespace
int main(int argc, char** argv) {
  std::vector<pbt::Target> t;
  t.push_back({"sequential", "up to 40 single-threaded queue calls against a list; non-trivial: more elements dequeued than the capacity (wrap-around)", 20000, 400000, sequential_case, 20});
  t.push_back({"drain", "producer/consumer program and schedule, drained through end markers; non-trivial: at least 2 elements and 3 threads", 24000, 500000, drain_case, 30});
  t.push_back({"quiescence", "producer/consumer program and schedule run until everyone is blocked or done; non-trivial: at least 2 elements and 3 threads", 24000, 500000, quiescent_case, 30});
  return pbt::Main(argc, argv, t);
}
