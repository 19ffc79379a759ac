------------------------------ MODULE ChannelGen ------------------------------
(***************************************************************************)
(* Generates test scripts for the implementation: every state of Channel    *)
(* which one thread can bring about by itself (messages told apart only by  *)
(* their place), with the last K calls remembered, a shortest way there,    *)
(* and all calls which can be made there.  Futures stay pending in between. *)
(* vlib/gen.py turns them into sequential scripts (every call in every      *)
(* state) and into concurrent programs (every pair of calls in every state).*)
(***************************************************************************)
EXTENDS ChannelMonitor, Json
CONSTANTS Cap, Kind, K, SRefs, RRefs, SFuts, RFuts, MaxTx

VARIABLES st, last, path
view == << st, last >>

Id == [a |-> 1, b |-> 2, c |-> 3, d |-> 4, f |-> 11, k |-> 12, l |-> 13, r |-> 14]
Op(nm, m) == [nm |-> nm, a |-> 0, m |-> m, res |-> "?", rv |-> 0, pb |-> << >>, pe |-> 0, ph |-> "act"]
\* which message it is does not matter
Norm(s) == [s EXCEPT !.sl = [i \in DOMAIN s.sl |->
              IF s.sl[i].ph \in {"w", "h"} /\ s.sl[i].by < 9 THEN [s.sl[i] EXCEPT !.v = 0]
              ELSE [s.sl[i] EXCEPT !.v = 0, !.by = 0]]]
Run(s, i) == {Norm(Remove(z, i)) : z \in Finish({s}, {}, i)}
Do(nm, i, m) == Run([st EXCEPT !.op = (i :> Op(nm, m)) @@ @], i)
HoldsW(n) == \E k \in DOMAIN st.sl : st.sl[k].by = Id[n] /\ st.sl[k].ph = "w"
HoldsR(n) == \E k \in DOMAIN st.sl : st.sl[k].by = Id[n] /\ st.sl[k].ph = "h"
Fut(n) == Id[n] \in DOMAIN st.op
Buf == Kind = "buf"
Tx == Buf \/ st.snd > 0
Rx == Buf \/ ~st.rxc
NoSend == (\A n \in SRefs : ~HoldsW(n)) /\ (\A n \in SFuts : ~Fut(n))
NoRecv == (\A n \in RRefs : ~HoldsR(n)) /\ (\A n \in RFuts : ~Fut(n))
Free == st.op = << >>

\* a call: what it is, and where it leads
M(l, S) == {[l |-> l, s |-> z] : z \in S}
If(c, S) == IF c THEN S ELSE {}
Poll(n) ==
  LET z == [st EXCEPT !.op[Id[n]].ph = "act"]
      d == Run(z, Id[n])
  IN IF d = {} THEN {[st EXCEPT !.op[Id[n]].ph = "idle"]} ELSE d
New(n, nm) == [st EXCEPT !.op = (Id[n] :> [Op(nm, 0) EXCEPT !.ph = "new"]) @@ @]

Moves ==
  If(Tx, M(<< "try", "#" >>, Do("try", 20, 0)))
  \cup If(Rx, M(<< "get" >>, Do("get", 20, 0)))
  \cup If(Buf, M(<< "pushw", "#" >>, Do("pushw", 20, 0)) \cup M(<< "popw" >>, Do("popw", 20, 0)))
  \cup UNION {If(Tx /\ ~HoldsW(n), M(<< "tryr", n >>, Do("tryr", Id[n], 0))) : n \in SRefs}
  \cup UNION {If(HoldsW(n), M(<< "relp", n, "#" >>, Do("relp", 20, Id[n]))) : n \in SRefs}
  \cup UNION {If(Rx /\ ~HoldsR(n), M(<< "getr", n >>, Do("getr", Id[n], 0))) : n \in RRefs}
  \cup UNION {If(HoldsR(n), M(<< "relc", n >>, Do("relc", 20, Id[n]))) : n \in RRefs}
  \cup UNION {If(Tx /\ ~Fut(n), M(<< "fsend", n, "#" >>, {New(n, "send")})) : n \in SFuts}
  \cup UNION {If(Rx /\ ~Fut(n), M(<< "frecv", n >>, {New(n, "recv")})) : n \in RFuts}
  \cup UNION {If(Fut(n), M(<< "poll", n >>, Poll(n)) \cup M(<< "drop", n >>, {Remove(st, Id[n])})) : n \in SFuts \cup RFuts}
  \cup If(~Buf /\ Tx /\ st.snd < MaxTx, M(<< "clone" >>, Do("clone", 20, 0)))
  \cup If(~Buf /\ Tx /\ NoSend, M(<< "dtx" >>, Do("dtx", 20, 0)))
  \cup If(~Buf /\ Rx /\ NoRecv, M(<< "drx" >>, Do("drx", 20, 0)))

Init == st = [Init0(Cap, FALSE, 1) EXCEPT !.snd = 1] /\ last = << >> /\ path = << >>
Next == \E m \in Moves :
  /\ st' = m.s
  /\ path' = Append(path, m.l)
  /\ last' = LET x == Append(last, m.l) IN SubSeq(x, IF Len(x) > K THEN Len(x) - K + 1 ELSE 1, Len(x))
Spec == Init /\ [][Next]_<< st, last, path >>

Sane == TypeOK(st) /\ RingOK(st)
Emit == PrintT(<< "GEN", ToJson([p |-> path, c |-> {m.l : m \in Moves}]) >>)
=============================================================================
