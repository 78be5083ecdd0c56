// force-included into instrumented code: block copies are accesses like any other
#pragma once
extern "C" {
void *memcpy(void *, const void *, __SIZE_TYPE__) noexcept __asm__("sim_memcpy");
void *memmove(void *, const void *, __SIZE_TYPE__) noexcept __asm__("sim_memmove");
void *memset(void *, int, __SIZE_TYPE__) noexcept __asm__("sim_memset");
}
