#ifndef VERIF_THREADS_HPP
#define VERIF_THREADS_HPP
#include <cstddef>
// How threads take turns.  Compiled without instrumentation.
namespace sched {
void begin(unsigned long seed, unsigned quantum, std::size_t threads);
void enter(std::size_t t);
void leave(std::size_t t);
unsigned races();
}
#endif
