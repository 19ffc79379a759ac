------------------------------ MODULE MCChannel ------------------------------
(***************************************************************************)
(* The abstract queue by itself: every concurrent history of at most MaxOps *)
(* operations.  Shows that Channel, which histories of the implementation   *)
(* are judged by, has the properties a user is promised.                    *)
(***************************************************************************)
EXTENDS Channel, SequencesExt
CONSTANTS Caps, MaxOps, MaxTx, Menu, Buffer

VARIABLES st,      \* the queue
          next,    \* identifier of the next operation; also the value it sends
          claims,  \* operations in the order in which they got a place in line
          taken    \* messages in the order in which they were received
vars == << st, next, claims, taken >>

InProg(P(_)) == {i \in DOMAIN st.op : P(st.op[i])}
SendsOrRefs ==
  Cardinality(InProg(LAMBDA o : IsSend(o) \/ o.nm = "clone")) + Cardinality({k \in DOMAIN st.sl : st.sl[k].ph = "w"})
IsDtx(o) == o.nm = "dtx"
IsDrx(o) == o.nm = "drx"
RxFree == /\ ~st.rxc
          /\ InProg(LAMBDA o : IsRecv(o) \/ o.nm = "drx") = {}
HeldS == {k \in DOMAIN st.sl : st.sl[k].ph = "w" /\ st.sl[k].by \notin DOMAIN st.op
                               /\ InProg(LAMBDA o : o.nm = "relp" /\ o.m = st.sl[k].by) = {}}
HeldR == {k \in DOMAIN st.sl : st.sl[k].ph = "h" /\ st.sl[k].by \notin DOMAIN st.op
                               /\ InProg(LAMBDA o : o.nm = "relc" /\ o.m = st.sl[k].by) = {}}

\* may a user make this call now?  (handles are not used after they are gone,
\* and the receiver of a channel does one thing at a time)
May(nm) ==
  CASE nm \in SendVal \cup SendRef -> Buffer \/ st.snd > Cardinality(InProg(IsDtx))
    [] nm \in RecvVal \cup RecvRef -> Buffer \/ RxFree
    [] nm = "clone" -> st.snd > Cardinality(InProg(IsDtx)) /\ st.snd < MaxTx
    [] nm = "dtx"   -> st.snd > Cardinality(InProg(IsDtx)) + (IF SendsOrRefs > 0 THEN 1 ELSE 0)
    [] nm = "drx"   -> RxFree /\ HeldR = {}
    [] nm = "isc"   -> RxFree
    [] OTHER -> TRUE

New(nm, a, m) ==
  /\ next <= MaxOps
  /\ st' = [st EXCEPT !.op = (next :> [nm |-> nm, a |-> a, m |-> m, res |-> "?", rv |-> 0,
                                       pb |-> << >>, pe |-> 0, ph |-> "act"]) @@ @]
  /\ next' = next + 1
  /\ UNCHANGED << claims, taken >>
Call == \E nm \in Menu : May(nm) /\ New(nm, IF nm \in SendVal THEN next ELSE 0, 0)
\* (a reference writes the value it was made with)
Drop == \/ \E k \in HeldS : New("relp", st.sl[k].by, st.sl[k].by)
        \/ \E k \in HeldR : New("relc", 0, st.sl[k].by)

Step(i) ==
  \E s \in Steps(st, i) :
     /\ st' = s
     /\ claims' = IF s.tl # st.tl \/ (s.sl[st.tl].ph # st.sl[st.tl].ph /\ s.sl[st.tl].ph = "w" /\ s.sl[st.tl].by = i)
                  THEN Append(claims, i) ELSE claims
     /\ taken' = IF \E k \in DOMAIN s.sl : s.sl[k].ph = "h" /\ st.sl[k].ph = "r"
                 THEN Append(taken, st.sl[st.hd].v) ELSE taken
     /\ UNCHANGED next
Ret(i) ==
  /\ st.op[i].ph = "done"
  /\ st' = [st EXCEPT !.op = [j \in DOMAIN st.op \ {i} |-> st.op[j]]]
  /\ UNCHANGED << next, claims, taken >>
Cancel(i) ==
  /\ st.op[i].ph = "act" /\ (IsSend(st.op[i]) \/ IsRecv(st.op[i])) /\ st.op[i].nm \notin NonBlk
  /\ st' = [st EXCEPT !.op = [j \in DOMAIN st.op \ {i} |-> st.op[j]]]
  /\ UNCHANGED << next, claims, taken >>

Init == /\ \E c \in Caps : st = [Init0(c, FALSE, 1) EXCEPT !.snd = 1]
        /\ next = 1 /\ claims = << >> /\ taken = << >>
Next == Call \/ Drop \/ \E i \in DOMAIN st.op : Step(i) \/ Ret(i) \/ Cancel(i)
Ids == 1 .. MaxOps
Spec == Init /\ [][Next]_vars
LiveSpec == Spec /\ \A i \in Ids : WF_vars(i \in DOMAIN st.op /\ (Step(i) \/ Ret(i)))

-----------------------------------------------------------------------------
Ring == TypeOK(st) /\ RingOK(st)
\* C01, C02: messages are received once each, in the order of their places
Fifo == /\ IsPrefix(taken, claims)
        /\ Len(claims) - Len(taken) = Cardinality(Queued(st))
\* ... and carry what their sender wrote
Contents == \A k \in DOMAIN st.sl : st.sl[k].ph = "r" => st.sl[k].v = st.sl[k].by
\* C03
Capacity == Cardinality(Occupied(st)) <= st.cap
\* C04: an operation which does not wait can always go on
NeverBlocks == \A i \in DOMAIN st.op :
  (st.op[i].ph = "act" /\ st.op[i].nm \in NonBlk \cup {"relp", "relc", "clone", "dtx", "drx", "isc"}) => Steps(st, i) # {}
\* C06: nor does one which has begun to take effect wait for anybody
NeverStuck == \A i \in DOMAIN st.op : st.op[i].ph = "clm" => Steps(st, i) # {}
\* C07, C08: a waiting operation is held up only by an empty / a full queue
\* (with room behind a message which is still being received, it may be full)
HeldUp == \A i \in DOMAIN st.op :
  (st.op[i].ph = "act" /\ Steps(st, i) = {}) => AsleepOk(st, st.op[i])
\* C10, C11
ClosedTx == st.txc => st.snd = 0 /\ \A k \in DOMAIN st.sl : st.sl[k].ph # "w"
RxClosedForGood == [][st.rxc => st'.rxc /\ claims' = claims]_vars
TxClosedForGood == [][RecvOver(st) => RecvOver(st')]_vars
NoSendAfterTxc == [][st.txc => claims' = claims]_vars
\* what was sent before the channel closed is received before `closed' is
Drained == \A i \in DOMAIN st.op :
  (IsRecv(st.op[i]) /\ st.op[i].ph = "done" /\ st.op[i].res = "closed") => Len(taken) = Len(claims)
\* C14
LenOK == Observe(st, "len") \in 0 .. st.cap /\ Observe(st, "len") + Observe(st, "remaining") = st.cap
-----------------------------------------------------------------------------
\* Liveness: a receive finishes if a message is (and stays) at the head, a
\* send if there is room or the receiver is gone.
Over(i) == i \notin DOMAIN st.op \/ st.op[i].ph = "done"
Live == \A i \in Ids :
  /\ (i \in DOMAIN st.op /\ IsSend(st.op[i]) /\ st.rxc) ~> Over(i)
  /\ (i \in DOMAIN st.op /\ IsRecv(st.op[i]) /\ st.txc) ~> (Over(i) \/ ~st.txc)
  /\ (i \in DOMAIN st.op /\ st.op[i].nm \in NonBlk) ~> Over(i)
  /\ (i \in DOMAIN st.op /\ IsRecv(st.op[i]) /\ CanRecv(st)) ~> (Over(i) \/ ~CanRecv(st))
  /\ (i \in DOMAIN st.op /\ IsSend(st.op[i]) /\ CanSend(st)) ~> (Over(i) \/ ~CanSend(st))
=============================================================================
