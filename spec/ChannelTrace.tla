----------------------------- MODULE ChannelTrace -----------------------------
(***************************************************************************)
(* Checks histories recorded from the implementation against Channel.      *)
(* The histories form a forest (common prefixes shared) in a JSON file.    *)
(* The state of this machine is a node of the forest and the set S of all  *)
(* states the specification can be in after the events up to that node.    *)
(* A history is accepted iff S is non-empty at its last node; a node where *)
(* S becomes empty is printed.                                             *)
(***************************************************************************)
EXTENDS ChannelMonitor, Json

File == IOEnv.TRIE
Nodes == ndJsonDeserialize(File)
Roots == {n \in 1 .. Len(Nodes) : Nodes[n].k = "root"}

VARIABLES node, S, F
vars == << node, S, F >>

NewOp(ev) == [nm |-> ev.o, a |-> ev.v, m |-> ev.n, res |-> ev.r, rv |-> ev.w,
              pb |-> ev.b, pe |-> ev.e, ph |-> "act"]

Slack == 2000  \* microseconds
RetOk(o, ev) ==
  /\ ev.r = o.res
  /\ ev.n = Class(o.nm, ev.r)
  /\ (IsSend(o) /\ o.nm \in {"try", "send", "sendt"} /\ ev.r \in {"full", "closed", "timeout"}) => ev.v = o.a
  /\ ev.t >= 0 => /\ ev.r = "timeout" => ev.t >= o.m
                  /\ ev.t <= o.m + Slack

Apply(T, ev) ==
  CASE ev.k = "made"     -> {s \in T : s.cap > 0}
    [] ev.k = "rejected" -> {s \in T : s.cap = 0}
    [] ev.k = "init"     -> {[s EXCEPT !.snd = ev.n] : s \in T}
    [] ev.k = "c" -> {[s EXCEPT !.op = (ev.i :> NewOp(ev)) @@ @] : s \in T}
    [] ev.k = "a" -> {[s EXCEPT !.op[ev.i].ph = "act"] : s \in {s \in T : Has(s, ev.i)}}
    [] ev.k = "p" -> {[s EXCEPT !.op[ev.i].ph = "idle"]
                        : s \in {s \in T : Has(s, ev.i) /\ s.op[ev.i].ph = "act"}}
    [] ev.k = "r" ->
         IF ev.r = "upanic"
         THEN {Remove(s, ev.i) : s \in {s \in Settle(T, T, {}) : s.op[ev.i].ph # "clm"}}
         ELSE {Remove(s, ev.i) : s \in {s \in Finish(T, {}, ev.i) : RetOk(s.op[ev.i], ev)}}
    [] ev.k = "x" -> {Remove(s, ev.i) : s \in {s \in T : Has(s, ev.i) /\ s.op[ev.i].ph \in {"act", "idle"}}}
    [] ev.k = "y" -> T
    [] ev.k = "q" ->
         Asleep(T, {ev.b[j] : j \in 1 .. Len(ev.b)})
    [] ev.k = "end" -> IF ev.n = 0 /\ ev.v = 0 THEN T ELSE {}
    [] OTHER -> {}        \* race, uaf, stuck, panic, hang, ...: never allowed

\* is the event one of a send?
SendEv(ev) == CASE ev.k = "c" -> IsSend(NewOp(ev))
                [] ev.k = "p" -> \E s \in S : Has(s, ev.i) /\ IsSend(s.op[ev.i])
                [] OTHER -> FALSE

Init == \E r \in Roots :
  /\ node = r
  /\ S = {Init0(Nodes[r].cap, Nodes[r].trk, Nodes[r].n)}
  /\ F = << >>

Next ==
  /\ S # {}
  /\ \E j \in 1 .. Len(Nodes[node].ch) :
       LET c == Nodes[node].ch[j]
           T == IF Starved(F, Nodes[c]) THEN {} ELSE Apply(S, Nodes[c])
       IN /\ (T = {} => PrintT(<< "REJ", c >>))
          /\ node' = c
          /\ S' = T
          /\ F' = Overtake(F, Nodes[c], SendEv(Nodes[c]))

Spec == Init /\ [][Next]_vars

\* every state the specification can be in is a proper ring
Sane == \A s \in S : s.cap > 0 => TypeOK(s) /\ RingOK(s)
==============================================================================
