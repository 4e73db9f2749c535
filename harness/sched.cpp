#include "threads.hpp"

#include <atomic>
#include <chrono>
#include <condition_variable>
#include <mutex>
#include <random>
#include <vector>

static std::atomic<unsigned> reports;
extern "C" void __tsan_on_report(void*) { reports.fetch_add(1, std::memory_order_relaxed); }

namespace sched {
unsigned races() { return reports.load(); }
}

#ifdef TURNS
namespace {
std::mutex m;
std::condition_variable cv[64];
std::mt19937_64 rng;
unsigned quantum;
std::size_t holder, threads;
bool done[64];
std::size_t arrived;
std::atomic<unsigned long> turns;
thread_local std::size_t me = ~std::size_t(0);
thread_local unsigned left;
thread_local bool inside;

unsigned draw() { return 1 + static_cast<unsigned>(rng() % quantum); }

// with m held: the turn goes to a thread that is not done
void pass()
{
  std::size_t open = 0;
  for (std::size_t t = 0; t < threads; ++t) open += !done[t];
  if (open == 0) return;
  auto k = rng() % open;
  for (std::size_t t = 0; t < threads; ++t)
    if (!done[t] && k-- == 0) holder = t;
  ++turns;
  cv[holder].notify_one();
}

void wait(std::unique_lock<std::mutex>& l)
{
  while (holder != me)
  {
    auto const seen = turns.load();
    // A thread that waits for something another one has does not use its turn
    if (cv[me].wait_for(l, std::chrono::milliseconds(40)) == std::cv_status::timeout
        && holder != me && turns.load() == seen)
    {
      holder = me;
      ++turns;
    }
  }
  left = draw();
}
}

namespace sched {
void begin(unsigned long seed, unsigned q, std::size_t n)
{
  rng.seed(seed);
  quantum = q;
  threads = n;
  holder = ~std::size_t(0);
}
void enter(std::size_t t)
{
  if (quantum == 0) return;
  std::unique_lock<std::mutex> l(m);
  me = t;
  if (++arrived == threads) pass();
  wait(l);
}
void leave(std::size_t t)
{
  if (quantum == 0) return;
  std::unique_lock<std::mutex> l(m);
  me = ~std::size_t(0);
  done[t] = true;
  pass();
}
}

extern "C" void __sanitizer_cov_trace_pc()
{
  if (me == ~std::size_t(0) || inside || --left != 0) return;
  inside = true;
  {
    std::unique_lock<std::mutex> l(m);
    if (holder == me) pass();
    wait(l);
  }
  inside = false;
}
#else
namespace sched {
void begin(unsigned long, unsigned, std::size_t) {}
void enter(std::size_t) {}
void leave(std::size_t) {}
}
#endif
