from lib import *
from harness import Proof
SRCS = ["p02.cpp"]
T = "macoro::task<T,true>"; PR = "macoro::detail::task_promise<T,true>"
F = (T + "::task/~task/operator=/operator co_await/is_ready", PR + "::return_value/unhandled_exception/result", "macoro::detail::task_awaitable_base<T,true>::await_ready/await_suspend", "macoro::detail::task_promise_base<true>::final_awaitable::await_suspend")
PROOFS = [client(n, c, F) for n, c in (("task_val", ("value", "threw", "moved", "never-run", "again")), ("task_ref", ("value", "threw")), ("task_throwing", ("value", "threw")), ("mtask_throwing", ("value", "threw")), ("task_void", ("value", "threw")), ("mtask_val", ("value", "threw")), ("mtask_void", ("value", "threw")),
    ("task_assign", ("assigned",)), ("task_ready", ("ready",)), ("task_dropped", ("dropped",)), ("task_chain", ("chained",)))]
NOTE = ("Lemma clients over the real task / coroutine frames (native and macro-written bodies, value, reference and void results): verified on the lowered IR for every value, every outcome, ready or suspending bodies, never-run, moved, assigned, re-awaited, dropped and chained tasks; "
    "started/finished/resumed counts, delivered value/reference/exception, broken promise, memory safety, no leak of frames or stored results. Chain depth 4 is an instance, not a bound on values; links are checked one against the next by the same contract. Trusted: clang front end and coroutine lowering, VC generator, z3.")
ASSUMPTIONS = ["promise types instantiated at d::Val, int, int&, void stand for all T (the templates do not inspect T beyond construction, move, destruction)"]
