#ifndef VERIF_STUB_BETTERTHREADS_TASK_MANAGER_HPP
#define VERIF_STUB_BETTERTHREADS_TASK_MANAGER_HPP
#include "typedefs.hpp"
#include <atomic>
#include <stdexcept>
namespace BetterThreads {
class TaskManager {
  public:
    static TaskManager& instance() { static TaskManager t; return t; }
    unsigned int maximum_concurrency() const { return 8u; }
    unsigned int concurrency() const { return _c; }
    void set_concurrency(unsigned int v) {
        if (v > maximum_concurrency()) { throw std::invalid_argument("concurrency above the maximum"); }
        _c = v; }
    void set_maximum_concurrency() { _c = maximum_concurrency(); }
  private:
    std::atomic<unsigned int> _c{0u};
};
}
#endif
