// Workers as operating-system threads of which exactly one runs at a time (a baton is passed on at barriers):
// thread_local storage is per worker, and every run is a deterministic interleaving with explicit barrier epochs.
#pragma once
#include <pthread.h>
#include <vector>
#include <set>
#include <functional>
#include <string>
#include <stdexcept>
#include <exception>
#include <thread>
#include <mutex>
#include <condition_variable>
namespace fib
{
  struct killed {};
  struct fiber { std::thread th; bool done = false, waiting = false, go = false, preempted = false; long barriers = 0; std::string err; std::condition_variable cv; char *stk = nullptr; size_t stksz = 0; };
  struct sched
  {
    std::vector<fiber*> fs;
    int cur = -1;
    long epoch = 0;
    bool reverse = false;                 // order in which workers run within an epoch
    std::vector<int> perm;                // optional explicit order
    std::pair<long,int> first_in{-1, -1}; // (epoch, worker) that runs first in that epoch
    std::string deadlock;
    std::mutex m; std::condition_variable main_cv; bool main_go = false, kill = false;
    static sched &get() { static sched s; return s; }
  };
  inline void (*on_switch)(int thread, long epoch, char *stk, size_t sz) = nullptr;
  inline thread_local int me = -1;
  inline void back_to_main(std::unique_lock<std::mutex> &l) { sched &s = sched::get(); s.main_go = true; s.main_cv.notify_one(); }
  inline void wait_go(std::unique_lock<std::mutex> &l, fiber *f) { f->cv.wait(l, [f]() { return f->go; }); f->go = false; if (sched::get().kill) throw killed(); }
  // yield at a barrier
  inline void barrier()
  {
    if (me < 0) return; // outside of a parallel region
    sched &s = sched::get();
    fiber *f = s.fs[me];
    f->waiting = true; f->barriers++;
    std::unique_lock<std::mutex> l(s.m);
    back_to_main(l); wait_go(l, f);
  }
  // give up the processor between two barriers: the others run up to the barrier first
  inline void preempt()
  {
    if (me < 0) return;
    sched &s = sched::get(); fiber *f = s.fs[me];
    f->preempted = true;
    std::unique_lock<std::mutex> l(s.m);
    back_to_main(l); wait_go(l, f);
  }
  inline void resume(int i)
  {
    sched &s = sched::get();
    std::unique_lock<std::mutex> l(s.m);
    s.main_go = false; s.fs[i]->go = true; s.fs[i]->cv.notify_one();
    s.main_cv.wait(l, [&s]() { return s.main_go; });
  }
  // run n workers to completion; returns error text ("" if fine)
  inline std::string run(int n, std::function<void(int)> fn)
  {
    sched &s = sched::get();
    s.fs.clear(); s.deadlock.clear(); s.kill = false; s.main_go = false;
    for (int i = 0; i < n; ++i) s.fs.push_back(new fiber());
    for (int i = 0; i < n; ++i)
    {
      fiber *f = s.fs[i];
      f->th = std::thread([f, fn, i]() {
        sched &s = sched::get();
        me = i;
        pthread_attr_t a; void *p; size_t sz; pthread_getattr_np(pthread_self(), &a); pthread_attr_getstack(&a, &p, &sz); pthread_attr_destroy(&a);
        f->stk = (char*)p; f->stksz = sz;
        try { { std::unique_lock<std::mutex> l(s.m); back_to_main(l); wait_go(l, f); } fn(i); }
        catch (killed &) {}
        catch (std::exception &e) { f->err = e.what(); }
        catch (...) { f->err = "unknown exception"; }
        std::unique_lock<std::mutex> l(s.m);
        f->done = true; back_to_main(l);
      });
      std::unique_lock<std::mutex> l(s.m);
      s.main_cv.wait(l, [&s]() { return s.main_go; }); s.main_go = false;
    }
    std::string err;
    while (true)
    {
      bool any = false; std::set<int> ran;
      std::vector<int> ord;
      for (int i = 0; i < n; ++i) ord.push_back(s.reverse ? n - 1 - i : i);
      if (s.perm.size() == size_t(n)) ord = s.perm;
      if (s.first_in.first == s.epoch)
      {
        std::vector<int> o2{s.first_in.second};
        for (int i : ord) if (i != s.first_in.second) o2.push_back(i);
        o2.push_back(s.first_in.second); ord = o2; // a second turn if it was preempted
      }
      for (int i : ord)
      {
        fiber *f = s.fs[i];
        if (f->done) continue;
        any = true;
        if (f->waiting && ran.count(i)) continue;
        ran.insert(i);
        s.cur = i;
        if (on_switch) on_switch(i, s.epoch, f->stk, f->stksz);
        f->waiting = false;
        resume(i);
        s.cur = -1;
      }
      if (on_switch) on_switch(-1, s.epoch, nullptr, 0);
      s.epoch++;
      if (!any) break;
      int w = 0, d = 0;
      for (auto *f : s.fs) { w += f->waiting && !f->done; d += f->done; }
      for (auto *f : s.fs) if (!f->err.empty() && err.empty()) err = f->err;
      if (!err.empty()) break;
      if (w && d) { s.deadlock = "barrier reached by " + std::to_string(w) + " of " + std::to_string(n) + " workers while the others have finished"; err = s.deadlock; break; }
    }
    s.kill = true;
    for (int i = 0; i < n; ++i) if (!s.fs[i]->done) resume(i);
    for (auto *f : s.fs) { f->th.join(); delete f; }
    s.fs.clear(); s.kill = false;
    return err;
  }
}
