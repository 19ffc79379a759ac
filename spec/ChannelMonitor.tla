---------------------------- MODULE ChannelMonitor ----------------------------
(***************************************************************************)
(* Which states can Channel be in, given the calls and returns seen so far? *)
(* Used to judge histories recorded from the implementation (ChannelTrace)  *)
(* and the executions of the design model (Queue).                          *)
(***************************************************************************)
EXTENDS Channel, IOUtils

Has(st, i) == i \in DOMAIN st.op
Remove(st, i) == [st EXCEPT !.op = [j \in DOMAIN st.op \ {i} |-> st.op[j]]]

\* The known deviation of the implementation (known_findings.txt): a panic of
\* the recycling policy inside a send leaves the slot claimed for ever.
\* Only allowed when explicitly asked for, see vlib/run.py.
Dev == "DEVIATION" \in DOMAIN IOEnv /\ IOEnv.DEVIATION = "wedge"
Wedge(st, i) ==
  LET o == st.op[i] IN
  IF Dev /\ o.ph = "act" /\ IsSend(o) /\ o.res = "upanic" /\ o.nm # "pushwp" /\ CanSend(st)
  THEN {[st EXCEPT !.sl[st.tl] = [ph |-> "w", v |-> 0, el |-> @.el, by |-> i],
                   !.tl = Nxt(st, @), !.op[i].ph = "wedged"]}
  ELSE {}
StepsD(st, i) == Steps(st, i) \cup Wedge(st, i)

\* all states in which operation i has taken effect, with no step after that
RECURSIVE Finish(_, _, _)
Finish(front, done, i) ==
  LET d == {s \in front : s.op[i].ph = "done"}
      rest == front \ d
      next == UNION {UNION {StepsD(s, j) : j \in DOMAIN s.op} : s \in rest}
  IN IF rest = {} THEN done \cup d ELSE Finish(next, done \cup d, i)

\* all states reachable without steps of the operations in B
RECURSIVE Settle(_, _, _)
Settle(front, seen, B0) ==
  LET next == (UNION {UNION {StepsD(s, j) : j \in DOMAIN s.op \ B0} : s \in front}) \ seen
  IN IF next = {} THEN seen ELSE Settle(next, seen \cup next, B0)

\* An operation may be asleep although it could go on if another one is still
\* under way (its thread is stalled), or if the wake-up went to another sender
\* whose future has been woken, but not been polled since.
Excused(s, i, B0) ==
  \E j \in DOMAIN s.op \ B0 :
     \/ s.op[j].ph # "idle"
     \/ IsSend(s.op[i]) /\ IsSend(s.op[j])

\* the operations in B0 are asleep, and nothing else is going on
Asleep(T, B0) ==
  {s \in Settle(T, T, {i \in B0 : \A s \in T : Has(s, i) => s.op[i].res # "timeout"}) :
     \A i \in B0 : /\ Has(s, i)
                   /\ (s.op[i].ph \in {"act", "idle"} \/ s.op[i].res = "timeout")
                   /\ (AsleepOk(s, s.op[i]) \/ Excused(s, i, B0))}

(***************************************************************************)
(* No sender starves: while a sender is asleep (not woken since it was last *)
(* polled), only boundedly many sends which were called after it fell       *)
(* asleep may complete. F[i] keeps, for a sleeping send i, the sends called *)
(* since and the number of those which have completed. (With the waiting    *)
(* senders served in the order in which they came, a send can be overtaken  *)
(* once per sender waiting before it at most.)                              *)
(***************************************************************************)
Bypass == 8
OvPut(F, i, v) == (i :> v) @@ F
OvDel(F, i) == [j \in DOMAIN F \ {i} |-> F[j]]
\* called: the sends which have been called and have not returned
Overtake(F, ev, issend) ==
  CASE ev.k = "p" /\ issend -> OvPut(F, ev.i, [young |-> {}, n |-> 0])
    [] ev.k \in {"a", "x", "y"} -> OvDel(F, ev.i)
    [] ev.k = "c" /\ issend -> [j \in DOMAIN F |-> [F[j] EXCEPT !.young = @ \cup {ev.i}]]
    [] ev.k = "r" -> [j \in DOMAIN F \ {ev.i} |->
                        IF ev.r = "ok" /\ ev.i \in F[j].young
                        THEN [F[j] EXCEPT !.n = @ + 1] ELSE F[j]]
    [] OTHER -> F
Starved(F, ev) == ev.k = "q" /\ \E j \in 1 .. Len(ev.b) : ev.b[j] \in DOMAIN F /\ F[ev.b[j]].n > Bypass
==============================================================================
