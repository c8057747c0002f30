// Stand-in: concurrency 0 runs every element in order on the caller's thread;
// concurrency n runs them on n threads that take from a shared queue.
#ifndef VERIF_STUB_BETTERTHREADS_WORKLOAD_HPP
#define VERIF_STUB_BETTERTHREADS_WORKLOAD_HPP
#include "conclog/logging.hpp"
#include "task_manager.hpp"
#include <deque>
#include <exception>
#include <vector>
namespace BetterThreads {
using ConcLog::ProgressIndicator;
namespace Detail {
template<class E> class Queue {
  public:
    void push(E const& e) { std::lock_guard<std::mutex> l(_m); _q.push_back(e); _cv.notify_one(); }
    template<class F> void run(F const& f) {
        unsigned int n = TaskManager::instance().concurrency();
        if (n == 0) {
            while (!_q.empty()) { E e = _q.front(); _q.pop_front(); f(e); }
            return;
        }
        std::exception_ptr ex; unsigned int busy = 0;
        std::vector<std::thread> ts;
        for (unsigned int i = 0; i != n; ++i) ts.emplace_back([&] {
            std::unique_lock<std::mutex> l(_m);
            for (;;) {
                _cv.wait(l, [&] { return !_q.empty() || busy == 0; });
                if (_q.empty()) { _cv.notify_all(); return; }
                E e = _q.front(); _q.pop_front(); ++busy; l.unlock();
                std::exception_ptr err;
                try { f(e); } catch (...) { err = std::current_exception(); }
                l.lock(); --busy;
                if (err) { if (!ex) ex = err; _q.clear(); }
                if (busy == 0 && _q.empty()) { _cv.notify_all(); }
            }
        });
        for (auto& t : ts) t.join();
        if (ex) std::rethrow_exception(ex);
    }
  private:
    std::deque<E> _q; std::mutex _m; std::condition_variable _cv;
};
}

template<class E, class... AS> class StaticWorkload {
  public:
    using FunctionType = std::function<void(E const&, AS...)>;
    StaticWorkload(FunctionType f, AS... as) : _f([=](E const& e) { f(e, as...); }) { }
    StaticWorkload& append(E const& e) { _q.push(e); return *this; }
    template<class X> requires requires(X const& x) { x.begin(); } StaticWorkload& append(X const& es) { for (auto const& e : es) _q.push(e); return *this; }
    void process() { _q.run(_f); }
  private:
    std::function<void(E const&)> _f; Detail::Queue<E> _q;
};

template<class E, class... AS> class DynamicWorkload {
  public:
    class Access {
        friend class DynamicWorkload; DynamicWorkload& _p; Access(DynamicWorkload& p) : _p(p) { }
      public: void append(E const& e) { _p._q.push(e); }
    };
    using FunctionType = std::function<void(Access&, E const&, AS...)>;
    using ProgressFunctionType = std::function<void(E const&, std::shared_ptr<ProgressIndicator>)>;
    DynamicWorkload(FunctionType f, AS... as) : DynamicWorkload(ProgressFunctionType(), f, as...) { }
    DynamicWorkload(ProgressFunctionType p, FunctionType f, AS... as)
        : _access(*this), _f([=, this](E const& e) { if (p) { auto i = std::make_shared<ProgressIndicator>(); p(e, i); } f(_access, e, as...); }) { }
    DynamicWorkload(DynamicWorkload const&) = delete;
    DynamicWorkload& append(E const& e) { _q.push(e); return *this; }
    template<class X> requires requires(X const& x) { x.begin(); } DynamicWorkload& append(X const& es) { for (auto const& e : es) _q.push(e); return *this; }
    void process() { _q.run(_f); }
  private:
    Access _access; std::function<void(E const&)> _f; Detail::Queue<E> _q;
};
}
#endif
