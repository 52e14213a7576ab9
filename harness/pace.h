// Schedule noise for multi-threaded runs: at recorded operations and, inside library calls, at every allocation.
#pragma once
#include <new>
#include <sched.h>
#include "mon.h"
namespace pace {
inline thread_local mon::u64 state = 0;
inline void noise(unsigned in) {
  if(!state) return;
  const mon::u64 r = mon::splitmix(state);
  if(r % in == 0) sched_yield();
  else if(r % in == 1) for(volatile int k = int(r >> 40) % 400; k > 0; k = k - 1) {}
}
}
void* operator new(std::size_t n) { pace::noise(5); if(void* p = std::malloc(n ? n : 1)) return p; throw std::bad_alloc(); }
void operator delete(void* p) noexcept { pace::noise(9); std::free(p); }
void operator delete(void* p, std::size_t) noexcept { pace::noise(9); std::free(p); }
void* operator new[](std::size_t n) { pace::noise(5); if(void* p = std::malloc(n ? n : 1)) return p; throw std::bad_alloc(); }
void operator delete[](void* p) noexcept { std::free(p); }
void operator delete[](void* p, std::size_t) noexcept { std::free(p); }
