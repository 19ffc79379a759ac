-------------------------- MODULE MCRecyclePolicy --------------------------
(* Every behaviour of a slot under WithCapacity, for every minimum, maximum   *)
(* and sequence of uses within the bounds.                                    *)
EXTENDS RecyclePolicy, FiniteSets
CONSTANTS N, Grow    \* bounds on sizes; Grow: does the collection over-allocate?
VARIABLES min, max, len, cap, fresh, warm
vars == <<min, max, len, cap, fresh, warm>>
Bounds == 0..N \cup {Unlimited}
Caps == 0..(2 * N)
Alloc(n) == IF n = Unlimited THEN Unlimited ELSE IF Grow /\ n > 0 THEN n + (n % 2) ELSE n

Init == /\ min \in 0..N /\ max \in Bounds
        /\ len = 0 /\ fresh = TRUE /\ warm = 0
        /\ cap \in {c \in Caps : NewOK(min, max, Alloc, 0, c, IF min = 0 THEN 0 ELSE 1)}
Fill == \E k \in 1..N, c \in Caps :
        /\ len + k <= N
        /\ FillOK(len, cap, k, len + k, c)
        /\ len' = len + k /\ cap' = c /\ fresh' = FALSE
        /\ warm' = Max(warm, len + k)
        /\ UNCHANGED <<min, max>>
Recycle == \E c \in Caps, a \in 0..1 :
        /\ RecycleOK(min, max, Alloc, len, cap, 0, c, a, len)
        /\ len' = 0 /\ cap' = c /\ fresh' = TRUE
        /\ UNCHANGED <<min, max, warm>>
Next == Fill \/ Recycle
Spec == Init /\ [][Next]_vars

(* the element handed to a producer is always empty, *)
Empty == fresh => len = 0
(* never holds on to much more than the maximum, *)
Bounded == (fresh /\ min <= max) => cap <= Alloc(max)
(* never falls below the minimum (if that is within the maximum), *)
Floor == (min <= max) => cap >= min
(* and once it has held n values, with n within the maximum, it never needs *)
(* to allocate again for n values.                                          *)
Warm == (warm <= max) => cap >= warm
(* recycling is always possible *)
CanRecycle == ENABLED Recycle
=============================================================================
