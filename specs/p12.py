"""P12  thread_pool.  Mutex contract of the pool's state (pool.py): run(), post(), try_dispatch() and the work tokens for every content of the
queues and every interference; lemma clients for the awaiters and for the sequences of operations."""
from lib import *
from harness import Proof
import pool
UNITS = {"clients": ["p12.cpp"], "kernel": ["p12k.cpp"]}
SRCS = ["p12.cpp"]
F = ("macoro::thread_pool::run/schedule/post/dispatch/make_work/join", "macoro::thread_pool::work", "macoro::detail::thread_pool_state::post/try_dispatch", "macoro::detail::thread_pool_post/thread_pool_dispatch (awaiters)")
PROOFS = [client("fifo", ("round", "again", "inline", "more", "nested"), F, unroll=60, steps=40_000_000), client("tokens", ("token", "more"), F, unroll=60), client("pools", ("hopped",), F, unroll=60), client("kinds", ("moved", "done", "macros"), F, unroll=60)]
for p in PROOFS: p.unit = "clients"
S = "macoro::detail::thread_pool_state"
K = [Proof("run", pool.p_run("P12"), ("macoro::thread_pool::run",)), Proof("post", pool.p_post("f_post"), (S + "::post",)), Proof("post.awaiter", pool.p_post("f_post_aw"), ("macoro::detail::thread_pool_post::await_suspend",)), Proof("try_dispatch", pool.p_post("f_dispatch", inline=True), (S + "::try_dispatch",))]
K += [Proof(f[2:].replace("work_", "work."), pool.p_token(f), ("macoro::thread_pool::work",)) for f in ("f_work", "f_work_reset", "f_work_dtor", "f_work_assign")]
for p in K: p.unit = "kernel"
K[0].weight = 5; K[0].limit = 280
PROOFS += K
NATIVE_VARIANTS = ["own"]
NOTE = ("run(), post() (from the call and from the awaiter), try_dispatch() and the work tokens are proved against the mutex contract of the pool's state for any queue length, any number of tokens and any interference by other threads while "
    "the mutex is free: a popped coroutine is resumed exactly once, the oldest first, outside the mutex; what a worker leaves behind when it returns is nothing; every change that lets a sleeping worker continue or leave is notified; "
    "nothing is accessed after the state may be gone.  Client proofs run the real pool with every order of scheduling, posting, dispatching and nesting on one worker.  Trusted: clang front end and coroutine lowering, VC generator, z3, and the contracts of std::deque, std::vector, std::mutex and std::condition_variable.")
ASSUMPTIONS = ["std::deque/std::vector/heap algorithms, mutex, condition_variable and thread are replaced by contracts in the kernel proofs", "the number of queued coroutines and of tokens is below 2^40", "several workers at once: the mutex contract is proved per thread; whole schedules (join, destroy, notify races) are explored, bounded"]
