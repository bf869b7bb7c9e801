from lib import *
from harness import Proof
import os, pool
from harness import REPO
UNITS = {"clients": ["p13.cpp"] + [os.path.join(REPO, "macoro/detail", x) for x in sorted(os.listdir(os.path.join(REPO, "macoro/detail"))) if x.startswith("stop") and x.endswith(".cpp")], "kernel": ["p13k.cpp"]}
SRCS = ["p13.cpp"]
F = ("macoro::thread_pool::run/schedule_after", "macoro::detail::thread_pool_state::post_after/cancel_delay_op", "macoro::detail::thread_pool_post_after", "macoro::detail::thread_pool_delay_op")
PROOFS = [client("order3", ("end",), F, unroll=60, steps=40_000_000), client("cancel2", ("end", "cancelled before", "cancelled queued"), F, unroll=60, steps=40_000_000), client("cancel3", ("end", "cancelled queued"), F, unroll=60, steps=40_000_000), client("acts2", ("end", "cancel other", "busy", "more", "again"), F, unroll=60, steps=40_000_000)]
for p in PROOFS: p.unit = "clients"
S = "macoro::detail::thread_pool_state"
K = [Proof("run", pool.p_run("P13"), ("macoro::thread_pool::run",)), Proof("post_after", pool.p_after, (S + "::post_after",)), Proof("cancel_delay_op", pool.p_cancel, (S + "::cancel_delay_op",))]
for p in K: p.unit = "kernel"
K[0].weight = 5; K[0].limit = 280
PROOFS += K
NATIVE_VARIANTS = ["own"]
NOTE = ("run(), post_after() and cancel_delay_op() are proved against the mutex contract of the pool's state for any heap size, deadline, clock and interference: an item leaves the heap only when its deadline has passed or it was cancelled, "
    "leaves it at most once, is resumed exactly once, keeps the workers alive while it is there and is waited for with a deadline that is not later than the earliest one; a cancel that finds the item moves exactly that item.  Deadline order and the "
    "heap's own order are decided by client proofs with the real std::vector heap (three items, symbolic delays, every cancel target and time).  Trusted: clang front end and coroutine lowering, VC generator, z3, container/mutex/condition_variable contracts, a monotonic clock.")
ASSUMPTIONS = ["heap order in the client proofs: at most three delayed items (kernel proofs: any number, but the heap algorithms are contracts)", "the clock is monotonic and does not overflow; delays near duration::max are excluded", "whole schedules with several workers are explored, bounded"]
