--------------------------- MODULE RecyclePolicy ---------------------------
(* One slot of a queue whose elements are collections, recycled by one of     *)
(* thingbuf's policies: which lengths, capacities and allocations are allowed *)
(* after each step.  `Alloc' is how much a collection type allocates when     *)
(* asked for room for n values (exactly n for array-based ones).              *)
EXTENDS Naturals

CONSTANTS Unlimited        \* stands for usize::MAX

Max(a, b) == IF a > b THEN a ELSE b

(* what WithCapacity promises *)
NewOK(min, max, alloc(_), len, cap, allocs) ==
  /\ len = 0
  /\ cap >= min
  /\ (min = 0 => allocs = 0)
  /\ (min <= max => cap <= alloc(max))

FillOK(n0, c0, k, len, cap) ==
  /\ len = n0 + k
  /\ cap >= len
  /\ (len <= c0 => cap = c0)

RecycleOK(min, max, alloc(_), n0, c0, len, cap, allocs, dropped) ==
  /\ len = 0
  /\ dropped = n0
  /\ IF c0 <= max
     THEN cap = c0 /\ allocs = 0                       \* the allocation is kept
     ELSE cap >= max /\ cap <= alloc(max)              \* shrunk, to the bound and not further

(* what DefaultRecycle promises: v is the content, 0 the type's default *)
DefNewOK(v) == v = 0
DefRecycleOK(keeps, c0, v, cap, allocs, clonefroms) ==
  /\ v = 0
  /\ clonefroms = 1
  /\ (keeps => cap = c0 /\ allocs = 0)
=============================================================================
