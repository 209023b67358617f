"""Which simulated campaigns decide which property.

BINS: simulator binaries (harness sources + the parts of /repo they contain).
PROPS: property -> campaigns [(binary, harness, share of the time budget)].
"""

import os
_STUB = os.path.join(os.path.dirname(os.path.abspath(__file__)), "stub")
_DEV = ["h/h_atomic.cpp", "h/h_devvec.cpp"]

BINS = {
    "mr": dict(sources=["h/h_mr.cpp"], groups=()),
    # device-side header code, once per back-end
    "dev_posix": dict(sources=_DEV),
    "dev_std": dict(sources=_DEV, variant="cxx20"),
    "dev_dummy": dict(sources=_DEV, extra=("-DVSIM_DUMMY",)),
    "dev_cuda": dict(sources=_DEV, extra=("-DVSIM_CUDA", "-I" + _STUB)),
    "dev_hip": dict(sources=_DEV, extra=("-DVSIM_HIP", "-I" + _STUB)),
    "dev_sycl": dict(sources=_DEV, extra=("-DVSIM_SYCL", "-I" + _STUB)),
    "dev_sycl2020": dict(sources=_DEV,
                         extra=("-DVSIM_SYCL2020", "-I" + _STUB)),
    "mr_portable": dict(sources=["h/h_mr.cpp"], groups=(), variant="portable"),
}

CORE_REAL = ("vecmem core library compiled from /repo/core (instrumented): the "
             "memory resources and everything they call")
STUB_UP = ("upstream memory resource: simulated address space that never backs "
           "the memory it hands out, refuses on demand and checks every return")
STUB_HEAP = ("process heap (malloc/operator new): deterministic simulated heap "
             "with shadow state and injected failures")
STUB_CLK = "clocks: simulated, advancing per read, steppable"
STUB_SCHED = ("thread scheduler, mutexes, condition variables, atomics' "
              "interleaving: simulated, seeded")

_MR = dict(campaigns=[("mr", "mr", 3), ("mr_portable", "mr", 1)],
           real=[CORE_REAL], stub=[STUB_UP, STUB_HEAP, STUB_CLK])

PROPS = {
    "C01": _MR, "C02": _MR, "C03": _MR, "C04": _MR, "C05": _MR, "C06": _MR,
    "C07": _MR, "C16": _MR, "C17": _MR,
}

_DEVREAL = ("vecmem header code (atomic references, device containers, views) "
            "compiled and instrumented")
_DEVSTUB = ("CUDA / HIP intrinsics and SYCL atomics: relaxed atomic operations "
            "of the simulated machine")
PROPS["C20"] = dict(campaigns=[
    ("dev_posix", "atomic_lin", 3), ("dev_std", "atomic_lin", 1),
    ("dev_cuda", "atomic_lin", 2), ("dev_sycl", "atomic_lin", 2),
    ("dev_hip", "atomic_lin", 1), ("dev_sycl2020", "atomic_lin", 1),
    ("dev_dummy", "atomic_lin", 1)],
    real=[_DEVREAL], stub=[STUB_SCHED, _DEVSTUB])
PROPS["C21"] = dict(campaigns=[("dev_posix", "atomic_order", 3),
                               ("dev_std", "atomic_order", 1),
                               ("dev_cuda", "atomic_fence", 1),
                               ("dev_hip", "atomic_fence", 1)],
                    real=[_DEVREAL], stub=[STUB_SCHED,
                    "memory model: C++ memory orders with stale loads"])

def _dev(h, weights):
    return [(b, x, w) for b, w in weights for x in h]


_DW = (("dev_posix", 3), ("dev_std", 1), ("dev_cuda", 1), ("dev_sycl", 1),
       ("dev_hip", 1), ("dev_sycl2020", 1), ("dev_dummy", 1))
PROPS["C22"] = dict(campaigns=_dev(["devvec"], _DW), real=[_DEVREAL],
                    stub=[STUB_SCHED, _DEVSTUB])
PROPS["C23"] = dict(campaigns=_dev(["devjag", "devsoa"], _DW[:5]),
                    real=[_DEVREAL], stub=[STUB_SCHED, _DEVSTUB])

ASSUME = [
    "sampling: a clean batch is evidence for the explored seeds, not a proof",
    "the simulated components behave as their documented contracts allow",
    "code is compiled with clang++ -O1 (-O0 in binaries named _plain) and "
    "instrumented; compiler and libstdc++ are trusted",
]
BINS["sync"] = dict(sources=["h/h_sync.cpp"])
# not optimised: every access of the source is one, also those that an optimiser
# may remove (because it may assume that there are no races)
BINS["sync_plain"] = dict(sources=["h/h_sync.cpp"], extra=("-O0",))
PROPS["C11"] = dict(campaigns=[("sync", "sync", 3), ("sync_plain", "sync", 1)],
                    real=[CORE_REAL], stub=[STUB_UP, STUB_HEAP, STUB_SCHED])
PROPS["C24"] = dict(campaigns=[("sync", "indep", 3), ("sync_plain", "indep", 1)],
                    real=[CORE_REAL, "host copy object, host containers and "
                          "buffers"],
                    stub=[STUB_UP, STUB_HEAP, STUB_SCHED])
BINS["copy"] = dict(sources=["h/h_copy.cpp"])
_CREAL = ("vecmem::copy, host containers, views and buffers compiled from /repo "
          "and instrumented")
_SYM = ("memory of gigabytes: symbolic, ranges know where their content came "
        "from (harness huge)")
_CSTUB = ("accelerator: asynchronous copy back-end (in order / out of order "
          "queue, events, failures) with separate device and managed memory")
for _i, _h in (("C30", ("copy1d",)), ("C31", ("copyjag",)),
               ("C32", ("copysoa",))):
    PROPS[_i] = dict(campaigns=[("copy", h, 5) for h in _h] +
                     [("huge", "huge", 1)], real=[_CREAL],
                     stub=[_CSTUB, STUB_HEAP])
BINS["copy_talk"] = dict(sources=["h/h_copy.cpp"], variant="talkative")
for _i in ("C33", "C35", "C37"):
    PROPS[_i] = dict(campaigns=[(b, h, w) for h in
                                ("copy1d", "copyjag", "copysoa")
                                for b, w in (("copy", 3), ("copy_talk", 1))],
                     real=[_CREAL], stub=[_CSTUB, STUB_HEAP])
for _i in ("C34", "C36"):
    PROPS[_i] = dict(campaigns=[("copy", h, 2) for h in
                                ("copy1d", "copyjag", "copysoa")] +
                     [("huge", "huge", 1)],
                     real=[_CREAL], stub=[_CSTUB, STUB_HEAP])

# the same operations on buffers of gigabytes, in memory that is only symbolic
BINS["huge"] = dict(sources=["h/h_huge.cpp"])
BINS["mr2"] = dict(sources=["h/h_mr2.cpp"])
BINS["mr2_portable"] = dict(sources=["h/h_mr2.cpp"], variant="portable")
_U = [STUB_UP, STUB_HEAP]
PROPS["C08"] = dict(campaigns=[("mr2", "debugmr", 1)], real=[CORE_REAL], stub=_U)
PROPS["C09"] = dict(campaigns=[("mr2", "instr", 1)], real=[CORE_REAL],
                    stub=_U + ["clocks: simulated, wall clock jumps"])
PROPS["C10"] = dict(campaigns=[("mr2", "instr", 1)], real=[CORE_REAL], stub=_U)
PROPS["C12"] = dict(campaigns=[("mr2", "hostmr", 1), ("mr2_portable", "hostmr", 1)],
                    real=[CORE_REAL], stub=[STUB_HEAP])
PROPS["C13"] = dict(campaigns=[("mr2", "smartptr", 1)], real=[CORE_REAL],
                    stub=["memory resource: exactly as aligned as asked for, "
                          "checks every return", STUB_HEAP])
PROPS["C14"] = dict(campaigns=[("mr2", "route", 1)], real=[CORE_REAL], stub=_U)

BINS["equal"] = dict(sources=["h/h_equal.cpp"])
PROPS["C15"] = dict(campaigns=[("equal", "equal", 1)], real=[CORE_REAL],
                    stub=["upstream memory resources: groups that share memory "
                          "and compare equal, every return checked", STUB_HEAP,
                          STUB_SCHED])

BINS["access"] = dict(sources=["h/h_access.cpp"])
BINS["access_cuda"] = dict(sources=["h/h_access.cpp"],
                           extra=("-DVSIM_CUDA", "-I" + _STUB))
BINS["access_sycl"] = dict(sources=["h/h_access.cpp"],
                           extra=("-DVSIM_SYCL", "-I" + _STUB))
PROPS["C53"] = dict(campaigns=[("access", "access", 3),
                               ("access_cuda", "access", 1),
                               ("access_sycl", "access", 1),
                               ("cont", "buffers", 1)],
                    real=["device containers, iterators and views compiled "
                          "and instrumented"],
                    stub=[STUB_SCHED, "device memory: separate region"])

BINS["cont"] = dict(sources=["h/h_cont.cpp"])
_EXACT = ("memory resources: simulated host / managed / device memory, exactly "
          "as aligned as asked for, with injected failures")
PROPS["C50"] = dict(campaigns=[("cont", "buffers", 5), ("huge", "huge", 1)],
                    real=["buffers and views compiled from /repo and instrumented"],
                    stub=[_EXACT, STUB_HEAP])
PROPS["C51"] = dict(campaigns=[("cont", "hostcont", 1)],
                    real=["host containers compiled from /repo and instrumented"],
                    stub=[_EXACT, STUB_HEAP])
PROPS["C52"] = dict(campaigns=[("cont", "staticvec", 1)],
                    real=["static_vector compiled from /repo and instrumented"],
                    stub=["element type: objects with an identity, throwing "
                          "constructors"])

# the accelerator libraries on stand-ins for the runtimes
_ACC = dict(groups=("cuda", "hip", "sycl"))
BINS["copy_accel"] = dict(sources=["h/h_copy.cpp", "h/accel.cpp"],
                          extra=("-DVSIM_ACCEL", "-DVECMEM_HAVE_SYCL_MEMSET"),
                          **_ACC)
BINS["huge_accel"] = dict(sources=["h/h_huge.cpp", "h/accel.cpp"],
                          extra=("-DVSIM_ACCEL", "-DVECMEM_HAVE_SYCL_MEMSET"),
                          **_ACC)
# configuration in which a forgotten event is fatal
BINS["copy_strict"] = dict(sources=["h/h_copy.cpp", "h/accel.cpp"],
                           variant="talkative",
                           extra=("-DVSIM_ACCEL",
                                  "-DVECMEM_FAIL_ON_ASYNC_ERRORS"), **_ACC)
_AREAL = ("vecmem cuda, hip and sycl libraries (memory resources, copies, "
          "streams, queues, events) compiled from /repo and instrumented")
_ASTUB = ("CUDA, HIP and SYCL runtimes: simulated devices, streams, events and "
          "memory with injected errors")
BINS["accel"] = dict(sources=["h/h_accel.cpp", "h/accel.cpp"],
                     extra=("-DVSIM_ACCEL", "-DVECMEM_HAVE_SYCL_MEMSET"), **_ACC)
BINS["accel_strict"] = dict(sources=["h/h_accel.cpp", "h/accel.cpp"],
                            variant="talkative",
                            extra=("-DVSIM_ACCEL",
                                   "-DVECMEM_FAIL_ON_ASYNC_ERRORS"), **_ACC)
PROPS["C40"] = dict(campaigns=[("accel", "accelmr", 1)], real=[_AREAL],
                    stub=[_ASTUB, STUB_HEAP])
PROPS["C41"] = dict(campaigns=[("accel", "accelstream", 3),
                               ("accel_strict", "accelstream", 1)], real=[_AREAL],
                    stub=[_ASTUB, STUB_HEAP])
PROPS["C42"] = dict(campaigns=[(b, h, w) for b, w in
                               (("copy_accel", 3), ("copy_strict", 1)) for h in
                               ("copy1d", "copyjag", "copysoa")] +
                    [("huge_accel", "huge", 1)],
                    real=[_CREAL, _AREAL], stub=[_ASTUB, STUB_HEAP])
