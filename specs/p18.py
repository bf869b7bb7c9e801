"""P18  coroutine handles, the tagged address, the transfer loop and the no-op coroutine."""
from lib import *
from harness import Proof
UNITS = {"clients": ["p18.cpp"], "kernel": ["p18k.cpp"]}
SRCS = ["p18.cpp"]
F = ("macoro::coroutine_handle<P>/<void> (from_address, from_promise, promise, done, resume, destroy, std_cast, comparison)", "macoro::_macoro_coro_*", "macoro::FrameBase", "macoro::Frame::std_handle_adapter")
PROOFS = [client("two_small", ("two", "at its end"), F, unroll=60), client("two_aligned", ("two", "at its end"), F, unroll=60), client("chain3", ("chain",), F, unroll=60, steps=40_000_000), client("ping", ("self", "both"), F, unroll=60), client("bools", ("bool",), F, unroll=60), client("noop", ("noop",), F + ("macoro::noop_coroutine",), unroll=60), client("cont", ("cont",), F + ("macoro::detail::continuation_awaiter/convert_handle",), unroll=60)]
for p in PROOFS: p.unit = "clients"
def chain(fn):
    """The transfer loop for a chain of any length: the contract of a coroutine's body names the next coroutine (this one, another one, a native
    one or the no-op coroutine); the loop has to resume exactly the one that was named, once, and return when there is none."""
    def go(eng):
        m = eng.m; st = eng.start_state(); sz = const(m, "SZ_frame"); eng.eager_loops = lambda f: True; eng.split_ghost = ("next",)
        A = eng.alloc(st, sz, "global", "macro coroutine A"); B = eng.alloc(st, sz, "global", "macro coroutine B"); g = st.ghost
        for a in (A, B):
            for c in range(0, sz, 8): eng.wobj(st, a).cells[c] = (8, 0)
        def resumed(eng, st, h):
            eng.oblige(st, st.ghost["next"] == h, "loop:resumes-the-named", "another coroutine than the one named by the last link is resumed"); st.ghost["next"] = 0
        S = coro(eng, st, "native coroutine", resumed); g["next"] = A
        def step(eng, st, I, a):
            eng.oblige(st, st.ghost["next"] == a[0], "loop:resumes-the-named", "another coroutine than the one named by the last link is resumed, or a link is resumed twice"); out = []
            if not eng.quiet: eng.reached.add("link")
            for nx, ret, what in ((A, A ^ 1, "itself or A"), (B, B ^ 1, "B"), (S, S, "a native coroutine"), (0, 43, "the no-op coroutine")):
                t = st.copy(); t.ghost["next"] = nx; t.note("the link names " + what); out.append((t, ret))
            return out
        eng.rhook(r"vp_step", step); eng.covers = ("link", "returns")
        def ex(st, v): eng.reached.add("returns"); eng.oblige(st, st.ghost["next"] == 0, "post:chain-complete", "the call returns although the last link named another coroutine")
        eng.run(st, fn, [A, B], ex)
    return go
K = [Proof("resume." + f, chain("f_" + f), (w,)) for f, w in (("erased", "macoro::coroutine_handle<void>::resume"), ("typed", "macoro::coroutine_handle<P>::resume"), ("call", "macoro::coroutine_handle<void>::operator()"), ("callt", "macoro::coroutine_handle<P>::operator()"))]
for p in K: p.unit = "kernel"
PROOFS += K
NATIVE_VARIANTS = ["own"]
NOTE = "the symmetric-transfer loop (resume()/operator() of the erased and of the typed handle) is proved for chains of any length against the contract of one link (the body returns the handle of the next coroutine: itself, another macro coroutine, a native one or none). Clients: every operation of a handle (conversion, round trips, promise, done, comparison, resume in seven forms, destroy in four) on pairs of coroutines of either kind; chains of three links of either kind in every form of naming the successor; the no-op coroutine in all its forms."
ASSUMPTIONS = ["a coroutine body names its successor only by returning its handle (the contract of one link in the proof of the loop)", "chains that change between native and macro links are proved for three links; the recursion from a native to a macro link (the adapter calls resume) is one level per native link", "C++14 code paths (no MACORO_CPP_20) are not compiled here"]
