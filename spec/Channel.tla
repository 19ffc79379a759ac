------------------------------- MODULE Channel -------------------------------
(***************************************************************************)
(* The abstract queue: what a user of thingbuf (ThingBuf, StaticThingBuf,  *)
(* the async and the blocking MPSC channels) can rely on.                  *)
(*                                                                         *)
(* A state is a record:                                                    *)
(*   cap       capacity                                                    *)
(*   trk       are element identities tracked (custom recycling policy)?   *)
(*   sl        the slots 0..cap-1 of the ring, each                        *)
(*             ph  "f" free | "w" claimed for writing                      *)
(*                 | "r" ready: holds a message | "h" held for reading     *)
(*             v   contents   el  element living in the slot (0: none yet) *)
(*             by  the operation which claimed it                          *)
(*   hd, tl    next slot to receive from / to send into                    *)
(*   snd       living sender handles                                       *)
(*   txc, rxc  closed because all senders / the receiver are gone          *)
(*   sp        static channel already split                                *)
(*   op        operations in progress: id -> record                        *)
(*             nm name, a argument, res its result ("?" unknown),          *)
(*             rv its value, pb policy calls it makes, pe the element it   *)
(*             deals with, ph "act" called, "clm" owns a slot, "done" has  *)
(*             taken effect, "idle" pending future nobody is polling       *)
(*                                                                         *)
(* An operation takes effect in atomic steps (Steps) somewhere between its *)
(* call and its return.                                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

SendVal == {"try", "send", "sendt", "pushw", "pushwp"}
SendRef == {"tryr", "sendr", "sendrt"}
RecvVal == {"get", "recv", "recvt", "popw", "popwp"}
RecvRef == {"getr", "recvr", "recvrt"}
TakeVal == {"get", "recv", "recvt"}            \* leave a new element behind
NonBlk  == {"try", "tryr", "pushw", "pushwp", "get", "getr", "popw", "popwp"}
Timed   == {"sendt", "sendrt", "recvt", "recvrt"}
IsSend(o) == o.nm \in SendVal \cup SendRef
IsRecv(o) == o.nm \in RecvVal \cup RecvRef

Slot0 == [ph |-> "f", v |-> 0, el |-> 0, by |-> 0]
Init0(cap, trk, snd) ==
  [cap |-> cap, trk |-> trk,
   sl  |-> [i \in 0 .. (cap - 1) |-> Slot0],
   hd  |-> 0, tl |-> 0, snd |-> snd, txc |-> FALSE, rxc |-> FALSE,
   sp  |-> FALSE, op |-> << >>]

Occupied(st) == {i \in DOMAIN st.sl : st.sl[i].ph # "f"}
Queued(st)   == {i \in DOMAIN st.sl : st.sl[i].ph \in {"w", "r"}}

\* can a message be sent / received now; is a send / receive refused as closed?
CanSend(st)  == ~st.rxc /\ st.sl[st.tl].ph = "f"
CanRecv(st)  == st.sl[st.hd].ph = "r"
SendOver(st) == st.rxc
RecvOver(st) == st.txc /\ st.sl[st.hd].ph \notin {"w", "r"}
IsFull(st)   == ~st.rxc /\ st.sl[st.tl].ph # "f"
IsEmpty(st)  == ~CanRecv(st) /\ ~RecvOver(st)

Wants(o, r) == o.res = r \/ o.res = "?"
\* an operation whose user-supplied code panics may have had its effect or not
WantsOk(o)  == Wants(o, "ok") \/ o.res = "upanic"
Res(o, r)   == IF o.res = "?" THEN r ELSE o.res
Nxt(st, i)  == (i + 1) % st.cap

Fin(st, i, r)  == [st EXCEPT !.op[i].ph = "done", !.op[i].res = Res(st.op[i], r)]
FinV(st, i, v) == [st EXCEPT !.op[i].ph = "done", !.op[i].res = Res(st.op[i], "ok"), !.op[i].rv = v]
ValOk(o, v) == o.res = "?" \/ o.rv = v

\* Recycling: an element is made for a slot used for the first time, and
\* recycled (not replaced) at every later use.
PolSend(st, o) ==
  st.trk => LET e == st.sl[st.tl].el
            IN IF e = 0 THEN Len(o.pb) = 1 /\ o.pb[1] > 0 ELSE o.pb = << -e >>
PolEl(st, o) ==
  IF ~st.trk THEN 0
  ELSE IF st.sl[st.tl].el = 0 THEN o.pb[1] ELSE st.sl[st.tl].el

SendSteps(st, i, o) ==
  (IF WantsOk(o) /\ CanSend(st) /\ PolSend(st, o)
      /\ (o.nm \in SendRef => ValOk(o, 0))
      /\ (st.trk /\ o.nm \in SendRef => o.pe = PolEl(st, o))
   THEN LET s1 == [st EXCEPT !.sl[st.tl] = [ph |-> "w", v |-> 0, el |-> PolEl(st, o), by |-> i],
                             !.tl = Nxt(st, @)]
        IN {IF o.nm \in SendRef
            THEN FinV(s1, i, 0)
            ELSE [s1 EXCEPT !.op[i].ph = "clm", !.op[i].res = Res(o, "ok")]}
   ELSE {})
  \cup (IF o.nm \in NonBlk /\ Wants(o, "full") /\ IsFull(st) THEN {Fin(st, i, "full")} ELSE {})
  \cup (IF o.nm \in Timed /\ Wants(o, "timeout") /\ IsFull(st) THEN {Fin(st, i, "timeout")} ELSE {})
  \cup (IF Wants(o, "closed") /\ SendOver(st) THEN {Fin(st, i, "closed")} ELSE {})

Publish(st, i, o) ==
  {LET s1 == [st EXCEPT !.sl[k].ph = "r", !.sl[k].v = o.a,
                        !.sl[k].el = IF st.trk /\ o.nm \notin {"pushw", "pushwp"} THEN o.pe ELSE @]
   IN IF o.nm \in {"pushw", "pushwp"} THEN FinV(s1, i, 0) ELSE Fin(s1, i, "ok")
   : k \in {k \in DOMAIN st.sl : st.sl[k].ph = "w" /\ st.sl[k].by = i}}

PolRecv(st, o) ==
  /\ IF o.nm \in TakeVal THEN Len(o.pb) = 1 /\ o.pb[1] > 0 ELSE o.pb = << >>
  /\ o.nm \notin {"popw", "popwp"} => o.pe = st.sl[st.hd].el

RecvSteps(st, i, o) ==
  (IF WantsOk(o) /\ CanRecv(st) /\ (o.res # "upanic" => ValOk(o, st.sl[st.hd].v))
      /\ (st.trk => PolRecv(st, o))
   THEN LET s1 == [st EXCEPT !.sl[st.hd].ph = "h", !.sl[st.hd].by = i, !.hd = Nxt(st, @)]
        IN {IF o.nm \in RecvRef
            THEN FinV(s1, i, st.sl[st.hd].v)
            ELSE [s1 EXCEPT !.op[i].ph = "clm", !.op[i].res = Res(o, "ok"), !.op[i].rv = st.sl[st.hd].v]}
   ELSE {})
  \cup (IF o.nm \in NonBlk /\ Wants(o, "empty") /\ IsEmpty(st) THEN {Fin(st, i, "empty")} ELSE {})
  \cup (IF o.nm \in Timed /\ Wants(o, "timeout") /\ IsEmpty(st) THEN {Fin(st, i, "timeout")} ELSE {})
  \cup (IF Wants(o, "closed") /\ RecvOver(st) THEN {Fin(st, i, "closed")} ELSE {})

Release(st, i, o) ==
  {Fin([st EXCEPT !.sl[k] = [ph |-> "f", v |-> 0, by |-> 0,
                             el |-> IF st.trk /\ o.nm \in TakeVal THEN o.pb[1] ELSE @.el]],
       i, "ok")
   : k \in {k \in DOMAIN st.sl : st.sl[k].ph = "h" /\ st.sl[k].by = i}}

\* dropping the references handed out by operation o.m
RelSend(st, i, o) ==
  {FinV([st EXCEPT !.sl[k].ph = "r", !.sl[k].v = o.a], i, o.a)
   : k \in {k \in DOMAIN st.sl : st.sl[k].ph = "w" /\ st.sl[k].by = o.m /\ ValOk(o, o.a)}}
RelRecv(st, i, o) ==
  {FinV([st EXCEPT !.sl[k].ph = "f", !.sl[k].v = 0, !.sl[k].by = 0], i, st.sl[k].v)
   : k \in {k \in DOMAIN st.sl : st.sl[k].ph = "h" /\ st.sl[k].by = o.m /\ ValOk(o, st.sl[k].v)}}

B(b) == IF b THEN 1 ELSE 0
Observe(st, nm) ==
  CASE nm = "isc"       -> B(st.snd = 0)
    [] nm = "len"       -> Cardinality(Queued(st))
    [] nm = "isempty"   -> B(Queued(st) = {})
    [] nm = "remaining" -> st.cap - Cardinality(Queued(st))
    [] nm = "capacity"  -> st.cap
Observers == {"isc", "len", "isempty", "remaining", "capacity"}

\* The states reachable by one step of operation i.
Steps(st, i) ==
  LET o == st.op[i] IN
  CASE o.ph = "act" /\ IsSend(o) -> SendSteps(st, i, o)
    [] o.ph = "act" /\ IsRecv(o) -> RecvSteps(st, i, o)
    [] o.ph = "clm" /\ IsSend(o) -> Publish(st, i, o)
    [] o.ph = "clm" /\ IsRecv(o) -> Release(st, i, o)
    [] o.ph = "act" /\ o.nm = "relp" -> RelSend(st, i, o)
    [] o.ph = "act" /\ o.nm = "relc" -> RelRecv(st, i, o)
    [] o.ph = "act" /\ o.nm \in Observers ->
         IF ValOk(o, Observe(st, o.nm)) THEN {FinV(st, i, Observe(st, o.nm))} ELSE {}
    [] o.ph = "act" /\ o.nm = "clone" -> {Fin([st EXCEPT !.snd = @ + 1], i, "ok")}
    [] o.ph = "act" /\ o.nm = "dtx" ->
         IF st.snd = 1 THEN {[st EXCEPT !.snd = 0, !.op[i].ph = "clm"]}
         ELSE {Fin([st EXCEPT !.snd = @ - 1], i, "ok")}
    [] o.ph = "clm" /\ o.nm = "dtx" -> {Fin([st EXCEPT !.txc = TRUE], i, "ok")}
    [] o.ph = "act" /\ o.nm = "drx" -> {Fin([st EXCEPT !.rxc = TRUE], i, "ok")}
    [] o.ph = "act" /\ o.nm = "split" ->
         IF st.sp THEN (IF Wants(o, "none") THEN {Fin(st, i, "none")} ELSE {})
         ELSE (IF Wants(o, "ok") THEN {Fin([st EXCEPT !.sp = TRUE, !.snd = 1], i, "ok")} ELSE {})
    [] o.ph = "act" /\ o.nm = "dbg" -> {Fin(st, i, "ok")}
    [] OTHER -> {}

\* What error predicates, accessors and texts must say: 1 is_full, 2 is_closed,
\* 4 is_timeout, 8 hands a value back, 16 not an error.
Class(nm, r) ==
  LET back == IF nm \in {"try", "send", "sendt"} THEN 8 ELSE 0 IN
  CASE r \in {"ok", "none"} -> 16
    [] r = "full"    -> 1 + back
    [] r = "closed"  -> 2 + back
    [] r = "timeout" -> 4 + back
    [] r = "empty"   -> 0
    [] OTHER -> 16

\* May operation o be asleep for good when nothing else is going on?
AsleepOk(st, o) ==
  \/ IsRecv(o) /\ ~CanRecv(st) /\ ~RecvOver(st)
  \/ IsSend(o) /\ ~SendOver(st) /\ Occupied(st) # {}

\* State invariants of the ring.
TypeOK(st) ==
  /\ st.hd \in DOMAIN st.sl /\ st.tl \in DOMAIN st.sl
  /\ \A i \in DOMAIN st.sl : st.sl[i].ph \in {"f", "w", "r", "h"}
Dist(st, a, b) == (b - a + st.cap) % st.cap
\* the slots between head and tail are exactly the queued ones
RingOK(st) ==
  LET n == Cardinality(Queued(st)) IN
  /\ n <= st.cap
  /\ \A i \in DOMAIN st.sl : (st.sl[i].ph \in {"w", "r"}) <=> (Dist(st, st.hd, i) < n)
  /\ Dist(st, st.hd, st.tl) = n % st.cap
==============================================================================
