-------------------------- MODULE RecyclePolicyGen --------------------------
(* Enumerates the uses of a slot (configurations, and sequences of filling    *)
(* and recycling) which are then performed on the real collections.           *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS Mins, Maxs, Sizes, Depth
VARIABLES min, max, ops
vars == <<min, max, ops>>
Recycle == [op |-> "recycle", k |-> 0]
Fill(k) == [op |-> "fill", k |-> k]
Init == min \in Mins /\ max \in Maxs /\ ops = <<>>
Next == /\ Len(ops) < Depth
        /\ \/ /\ IF Len(ops) = 0 THEN TRUE ELSE ops[Len(ops)].op = "recycle"
              /\ \E k \in Sizes : ops' = Append(ops, Fill(k))
           \/ ops' = Append(ops, Recycle)
        /\ UNCHANGED <<min, max>>
Spec == Init /\ [][Next]_vars
Emit == Len(ops) = Depth => PrintT(<<"SCRIPT", ToJson([min |-> min, max |-> max, ops |-> ops])>>)
=============================================================================
