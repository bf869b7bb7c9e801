"""P20  the recorded call stack is the chain of awaiters."""
from lib import *
from harness import Proof
UNITS = {"clients": ["p20.cpp"]}
SRCS = ["p20.cpp"]
F = ("macoro::traceable::set_parent", "macoro::basic_traceable::get_call_stack", "macoro::trace::trace", "macoro::detail::get_traceable", "macoro::detail::task_promise_base<true>::set_continuation", "macoro::detail::task_promise::await_transform(get_trace)")
PROOFS = [client("depths", ("depth", "suspended"), F + ("macoro::wrapped_awaitable::awaiter::await_suspend",), unroll=80, steps=40_000_000), client("blocking", ("sync_wait",), F + ("macoro::detail::blocking_promise",), unroll=80), client("macros", ("macros",), F + ("macoro::await_suspend_at",), unroll=80), client("when_scope", ("scope",), F + ("macoro::when_all_scope::awaiter::await_suspend", "macoro::detail::scoped_task_promise::scoped_task_promise"), unroll=80), client("step", ("step",), F + ("macoro::traceable::get_call_stack",), unroll=80), client("links", ("links",), F, unroll=80)] + [client("own_" + k, ("owner",), F, unroll=80) for k in ("none", "base", "member", "pointer", "function")]
for p in PROOFS: p.unit = "clients"
NATIVE_VARIANTS = ["own"]
NOTE = "step is the induction over the depth of the chain: given a parent whose walk fulfils the contract (appends its entry and those above it), every kind of frame (basic_traceable, traceable, async_scope) appends exactly its own entry before them. depths/blocking/macros/when_scope/own_*: the links themselves, for real chains of task<void/int/int&/payload>, awaited as lvalue, rvalue, through when_ready and wrap, native and macro, below sync_wait, a when_all_scope and roots without a trace; the trace is taken before, between and after awaits, after a suspension and after an exception."
ASSUMPTIONS = ["the chain is listed up to the first awaiter that has no trace (when_all, generators and eager_task record no parent; a plain async_scope has an entry without a location)", "the entries for awaits that the library makes on behalf of the user (sync_wait, async_scope::add) are only counted; their locations are in the library", "the number of entries fits the stack: get_call_stack recurses once per frame, the machine stack is not modelled", "locations are compared as recorded by clang (proof) and g++ (native)"]
