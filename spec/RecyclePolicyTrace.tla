------------------------- MODULE RecyclePolicyTrace -------------------------
(* Checks what was observed on the real collections step by step.             *)
EXTENDS RecyclePolicy, Sequences, TLC, TLCExt, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES i, j, ok
vars == <<i, j, ok>>
T == Traces[i]
Alloc(n) == IF n = T.max THEN T.amax ELSE n
Prev == T.st[j]
StepOK(s) ==
  IF T.pol = "cap" THEN
    CASE s.op = "cfg" -> s.len = T.min /\ s.cap = T.max
      [] s.op = "new" -> NewOK(T.min, T.max, Alloc, s.len, s.cap, s.al)
      [] s.op = "fill" -> FillOK(Prev.len, Prev.cap, s.k, s.len, s.cap)
      [] s.op = "recycle" -> RecycleOK(T.min, T.max, Alloc, Prev.len, Prev.cap, s.len, s.cap, s.al, s.dr)
      [] OTHER -> FALSE
  ELSE
    CASE s.op = "new" -> DefNewOK(s.len)
      [] s.op = "fill" -> TRUE
      [] s.op = "recycle" -> DefRecycleOK(T.keeps, Prev.cap, s.len, s.cap, s.al, s.dr)
      [] OTHER -> FALSE
Init == i \in 1..Len(Traces) /\ j = 0 /\ ok = TRUE
Next == /\ ok /\ j < Len(T.st)
        /\ j' = j + 1 /\ i' = i
        /\ ok' = StepOK(T.st[j + 1])
        /\ (ok' \/ PrintT(<<"REJ", i, j + 1>>))
Spec == Init /\ [][Next]_vars
=============================================================================
