// Stand-in for the BetterThreads submodule (empty in this checkout).
#ifndef VERIF_STUB_BETTERTHREADS_TYPEDEFS_HPP
#define VERIF_STUB_BETTERTHREADS_TYPEDEFS_HPP
#include <condition_variable>
#include <functional>
#include <future>
#include <memory>
#include <mutex>
#include <thread>
#include <utility>
namespace BetterThreads {
using Mutex = std::mutex;
template<class T> using LockGuard = std::lock_guard<T>;
template<class T> using UniqueLock = std::unique_lock<T>;
using ConditionVariable = std::condition_variable;
using VoidFunction = std::function<void()>;
template<class T> using Future = std::future<T>;
template<class T> using Promise = std::promise<T>;
}
#endif
