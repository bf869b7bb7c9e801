#pragma once
#include <cstdint>
#include <cstddef>
extern "C" {
uint64_t vp_nondet_u64(); uint32_t vp_nondet_u32(); uint16_t vp_nondet_u16(); uint8_t vp_nondet_u8(); int vp_nondet_int(); bool vp_nondet_bool();
void vp_assume(bool); void vp_assert(bool, const char*); void vp_cover(const char*);
int vp_choice(int n);
uint64_t vp_clock();
void vp_event(const char* name, uint64_t a = 0, uint64_t b = 0);
void vp_note(const char*);
}
#define VP_CONST(n, e) extern "C" { extern const size_t n; const size_t n = (e); }
