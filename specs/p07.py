from lib import *
SRCS = ["p07.cpp"]
Q = "macoro::sequence_spsc"; BN = "macoro::sequence_barrier"
F = (Q + "::sequence_spsc/claim_one/claim_up_to", Q + "_claim_one_awaiter::await_ready/await_suspend/await_resume", Q + "_claim_operation::await_ready/await_suspend/await_resume", BN + "::publish/wait_until_published/last_published")
PROOFS = [client("claims_" + n, ("waits", "all", "part", "next"), F) for n in ("u64", "u8")] + [client("publishes_" + n, ("by-number", "by-batch", "later"), F + (Q + "::publish/last_published/wait_until_published",)) for n in ("u64", "u8")] + [client("overlapping_" + n, ("both",), F + (Q + "::publish/last_published/wait_until_published",)) for n in ("u64", "u8")]
NATIVE_VARIANTS = ["own", "std"]
NOTE = ("Every claim, from every state: initial number, buffer size (1 .. half the range of the type), numbers claimed, published and released, and the requested count are symbolic (64 and 8 bit sequence types, wrap-around included); the "
    "post-state of each claim, publication and release is the pre-state of the next, so one step from an arbitrary state covers every history. The wake-up of a suspended claim and visibility of the data rest on sequence_barrier's contract (P06). "
    "Trusted: clang front end and coroutine lowering, VC generator, z3.")
ASSUMPTIONS = ["one producer; the buffer is at most half the range of the sequence type", "interleavings with the consumer meet only in sequence_barrier (its contract: P06); the whole is additionally explored over schedules (bounded)"]
