from lib import *
from harness import Proof, REPO
import os
SRCS = ["p10.cpp"] + [os.path.join(REPO, "macoro/detail", x) for x in sorted(os.listdir(os.path.join(REPO, "macoro/detail"))) if x.startswith("stop") and x.endswith(".cpp")]
S = "macoro::detail::stop_state"
F = (S + "::request_stop", S + "::try_register_callback", S + "::deregister_callback", "macoro::detail::stop_callback_state::add_registration", "macoro::stop_callback::stop_callback/~stop_callback")
PROOFS = [client("history", ("requested", "deregistered"), F, unroll=1100), client("many", ("all",), F, unroll=1100), client("inside", ("self", "other", "nested", "again", "all gone"), F, unroll=1100), client("await", ("resumed",), F + ("macoro::stop_awaiter",), unroll=1100), client("never", ("orphan",), F, unroll=1100)]
NATIVE_VARIANTS = ["own"]
NOTE = ("Lemma clients, verified on the real code for every choice: all histories of 4 registrations / deregistrations / requests on 3 callbacks; 20 and 50 callbacks (several blocks of entries) with holes that are refilled; callbacks that remove "
    "themselves, each other or everything, register new ones or ask again; coroutines awaiting the token; orphaned states.  Concurrent registration, deregistration and request are explored under controlled schedules (bounded). Trusted: clang front end and coroutine lowering, VC generator, z3.")
ASSUMPTIONS = ["clients: at most 56 callbacks per state, one registering thread (one entry list); schedules: explored, bounded"]
