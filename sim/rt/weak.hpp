// Included before everything else. clang's instrumentation drops the "weak"
// flag of a compare-exchange; this makes a weak one fail spuriously at the
// simulator's choice, as it may on hardware other than this one.
#pragma once
extern "C" int vsim_spurious(void);
extern "C" int vsim_message(const char*, ...);
#define __atomic_compare_exchange_n(p, e, d, w, s, f)                    \
    ((w) && vsim_spurious()                                              \
         ? (*(e) = __atomic_load_n(p, f), false)                         \
         : __atomic_compare_exchange_n(p, e, d, w, s, f))
#define __atomic_compare_exchange(p, e, d, w, s, f)                      \
    ((w) && vsim_spurious()                                              \
         ? (__atomic_load(p, e, f), false)                               \
         : __atomic_compare_exchange(p, e, d, w, s, f))
