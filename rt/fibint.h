#pragma once
#include <cstdint>
namespace fib {
bool inScope(void* ra);
}
// happens-before hooks of the race-tracking build (no-ops otherwise)
extern "C" {
void vmc_hb_fork(int id);
void vmc_hb_join(int id);
void vmc_hb_acquire(void* o);
void vmc_hb_release(void* o);
}
