from lib import *
SRCS = ["p22.cpp"]
T = "macoro::sequence_traits<S>"; R = "macoro::sequence_range<S>"
PROOFS = [client(n + w, c, f) for w in ("8", "16", "32", "64") for n, c, f in (("order", ("before", "not-before"), (T + "::difference/precedes/initial_sequence",)), ("range", ("element", "empty", "nonempty"), (R + "::size/empty/front/back/operator[]/first/skip/begin/end", R + "::const_iterator::operator+/-/*")),
    ("steps", ("steps",), (R + "::const_iterator::operator++/--/==/!=/->",)), ("walk", ("walked",), (R + "::begin/end", R + "::const_iterator::operator++/!=/*")))]
NOTE = ("difference/precedes proved equal to the signed distance in 128-bit integers for every pair of numbers, for 8, 16, 32 and 64 bit sequence types; every range operation against that arithmetic; iteration by an inferred loop invariant (current = begin + k, k <= size) for ranges of any length. Trusted: clang front end, VC generator, z3.")
ASSUMPTIONS = ["sequence types are the unsigned integers (8, 16, 32, 64 bits)"]
