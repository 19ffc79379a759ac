-------------------------------- MODULE Queue --------------------------------
(***************************************************************************)
(* Design model of the implementation: the ring of src/lib.rs, the WaitCell *)
(* the receiver waits in (src/wait/cell.rs), the WaitQueue senders wait in  *)
(* (src/wait/queue.rs) and the channel operations on top of them (src/mpsc, *)
(* src/mpsc/async_impl.rs), one atomic access to shared memory at a time    *)
(* (sequentially consistent).  Every call and return is shown to the        *)
(* abstract queue (ChannelMonitor): S is the set of states Channel can be   *)
(* in.  The implementation's design is right iff S never becomes empty and  *)
(* no operation sleeps unless Channel lets it.                              *)
(***************************************************************************)
EXTENDS ChannelMonitor
CONSTANTS Caps, Senders, Receivers, SendProgs, RecvProgs, Pre

Threads == Senders \cup Receivers
G == 8                                   \* one lap, > 2 * any capacity
IdxOf(p) == p % G
GenOf(p) == p \div G
NextPos(cap, p) == IF IdxOf(p) + 1 < cap THEN p + 1 ELSE (GenOf(p) + 1) * G
SpecOp(nm, a, m) == [nm |-> nm, a |-> a, m |-> m, res |-> "?", rv |-> 0, pb |-> << >>, pe |-> 0, ph |-> "act"]
\* the variants of an operation the model has: given up (c), blocking (b), moved to another waker (m)
SpecName(nm) == CASE nm \in {"sendc", "sendb", "sendm"} -> "send" [] nm \in {"recvc", "recvm"} -> "recv" [] OTHER -> nm
HasValue(nm) == nm \in {"try", "send", "sendc", "sendb", "sendm", "sendt", "relp"}
Called(T, i, nm, a, m) == {[z EXCEPT !.op = (i :> SpecOp(nm, a, m)) @@ @] : z \in T}
Dropped(T, i) == {Remove(z, i) : z \in {z \in T : Has(z, i) /\ z.op[i].ph = "act"}}
Returned(T, i, r, hasv, v) ==
  {Remove(z, i) : z \in {z \in Finish(T, {}, i) : z.op[i].res = r /\ (hasv => z.op[i].rv = v)}}
Filled(cap, n) ==
  [Init0(cap, FALSE, Cardinality(Senders)) EXCEPT
     !.sl = [i \in 0 .. (cap - 1) |-> IF i < n THEN [ph |-> "r", v |-> 900 + i, el |-> 0, by |-> 900 + i] ELSE Slot0],
     !.tl = n % cap]

(* --algorithm Queue {
  variables
    cap \in Caps,
    full \in {n \in Pre : n <= cap},
    prog \in {f \in [Threads -> SendProgs \cup RecvProgs] :
                \A t \in Threads : f[t] \in IF t \in Senders THEN SendProgs ELSE RecvProgs},
    \* the ring
    head = 0,
    tail = [p |-> IF full = cap THEN G ELSE full, c |-> FALSE],
    slot = [i \in 0 .. (cap - 1) |-> IF i < full THEN i + 1 ELSE i],
    val  = [i \in 0 .. (cap - 1) |-> IF i < full THEN 900 + i ELSE 0],
    \* the receiver's cell: a set of "P" parking, "N" notifying, "C" closed
    cell = {}, rxw = 0,                  \* rxw: the waker, 0 or Wk(thread)
    \* the senders' queue
    q = "EMPTY", list = << >>, lock = 0,
    node = [t \in Threads |-> "EMPTY"],
    nwk = [t \in Threads |-> 0],         \* the waker of each node
    txn = Cardinality(Senders),
    made = 0 .. (full - 1),              \* slots which have an element
    \* tasks
    woken = [t \in Threads |-> FALSE],   \* by its present waker
    tok = [t \in Threads |-> 0],         \* number of its present waker
    out = [t \in Threads |-> ""],       \* what a procedure returned
    own = [t \in Threads |-> 0],        \* the position it claimed
    got = [t \in Threads |-> 0],        \* the message it received
    \* the specification
    S = {Filled(cap, full)},
    cur = [t \in Threads |-> 0];        \* operation in progress

  define {
    Blocked == {t \in Threads : pc[t] \in {"SWait", "RWait"} /\ ~woken[t]}
    Quiet == \A t \in Threads : pc[t] = "Done" \/ t \in Blocked
    Conforms == S # {}
    SleepsRightly == Quiet => Asleep(S, {cur[t] : t \in Blocked}) # {}
    ListOK == /\ (lock = 0 /\ q = "EMPTY") => list = << >>
              /\ (lock = 0 /\ q = "WAITING") => list # << >>
              /\ \A k \in 1 .. Len(list) : node[list[k]] = "WAITING"
              /\ \A j, k \in 1 .. Len(list) : j # k => list[j] # list[k]
    \* what drop_slots would drop is what has been created
    DropsRight == made = IF GenOf(tail.p) > 0 THEN 0 .. (cap - 1) ELSE 0 .. (IdxOf(tail.p) - 1)
    RingSane == \A i \in 0 .. (cap - 1) : IdxOf(slot[i]) \in {i, i + 1}
  }

  macro wake(w) { woken := [x \in Threads |-> woken[x] \/ w = x + 10 * tok[x]]; }

  procedure push() variables tl0 = 0; st0 = 0; {
    P1: tl0 := tail;
    P2: if (tl0.c) { out[self] := "closed"; return; }
        else { st0 := slot[IdxOf(tl0.p)]; };
    P3: if (st0 = tl0.p) {
          if (tail = tl0) {
            tail.p := NextPos(cap, tl0.p);
            \* an element is created on the first lap and recycled on the others
            assert (GenOf(tl0.p) = 0) <=> (IdxOf(tl0.p) \notin made);
            made := made \cup {IdxOf(tl0.p)};
            own[self] := tl0.p; out[self] := "ok"; return;
          } else { tl0 := tail; goto P2; }
        } else if (st0 + G = tl0.p + 1) {
    P4:   if (head + G = tl0.p) { out[self] := "full"; return; }
          else { either { out[self] := "full"; return; } or { goto P1; } }
        } else if (st0 + G = tl0.p) {
          either { out[self] := "full"; return; } or { goto P1; }
        } else { goto P1; };
  }

  procedure pop() variables h = 0; u = 0; {
    O1: h := head;
    O2: u := slot[IdxOf(h)];
    O3: if (u = h + 1) {
          if (head = h) {
            head := NextPos(cap, h);
            own[self] := h; out[self] := "ok"; return;
          } else { h := head; goto O2; }
        } else if (u = h \/ u + G = h + 1) {
    O4:   if (tail.p = h) { out[self] := IF tail.c THEN "closed" ELSE "empty"; return; }
          else { either { out[self] := "empty"; return; } or { goto O1; } }
        } else { goto O1; };
  }

  \* WaitCell::notify2
  procedure notifyrx(bits = {}) variables wk = 0; {
    N1: if (cell = {}) { cell := bits \cup {"N"}; }
        else { cell := cell \cup bits \cup {"N"}; return; };
    N2: wk := rxw; rxw := 0;
    N3: cell := cell \ {"N"};
    N4: wake(wk);
        return;
  }

  \* WaitCell::wait_with
  procedure waitrx() variables old = 0; mine = 0; {
    W1: if (cell = {}) { cell := {"P"}; }
        else if ("C" \in cell) { out[self] := "Closed"; return; }
        else if ("N" \in cell) { woken[self] := TRUE; out[self] := "Notified"; return; }
        else { out[self] := "Wait"; return; };
    W2: old := rxw; rxw := self + 10 * tok[self];
    W3: if (cell = {"P"}) { cell := {}; out[self] := "Wait"; return; };
    W4: mine := rxw; rxw := 0;
    W5: out[self] := IF "C" \in cell THEN "Closed" ELSE "Notified";
        cell := cell \cap {"C"};
    W6: woken := [x \in Threads |-> woken[x] \/ old = x + 10 * tok[x] \/ mine = x + 10 * tok[x]];
        return;
  }

  \* WaitQueue::start_wait
  procedure starttx() {
    Q1: if (q = "WAKING") { q := "EMPTY"; out[self] := "Notified"; return; }
        else if (q = "CLOSED") { out[self] := "Closed"; return; };
    Q2: await lock = 0; lock := self;
    Q3: if (q = "EMPTY") { q := "WAITING"; }
        else if (q = "WAKING") { q := "EMPTY"; out[self] := "Notified"; lock := 0; return; }
        else if (q = "CLOSED") { out[self] := "Closed"; lock := 0; return; };
    Q4: node[self] := "WAITING"; nwk[self] := tok[self]; list := Append(list, self);
    Q5: lock := 0; out[self] := "Wait"; return;
  }

  \* WaitQueue::continue_wait
  procedure conttx() {
    C1: if (node[self] = "WAKING") { out[self] := "Notified"; return; }
        else if (node[self] = "CLOSED") { out[self] := "Closed"; return; };
    C2: await lock = 0; lock := self;
    C3: out[self] := CASE node[self] = "WAKING" -> "Notified"
                       [] node[self] = "CLOSED" -> "Closed"
                       [] OTHER -> "Wait";
        if (node[self] = "WAITING") { nwk[self] := tok[self]; };
        lock := 0; return;
  }

  \* WaitQueue::notify
  procedure notifytx() variables wt = 0; {
    T1: if (q \in {"EMPTY", "WAKING"}) { q := "WAKING"; return; };
    T2: await lock = 0; lock := self;
    T3: if (q \in {"EMPTY", "WAKING"}) { q := "WAKING"; lock := 0; return; }
        else if (q = "CLOSED") { lock := 0; return; };
    T4: wt := Head(list) + 10 * nwk[Head(list)]; node[Head(list)] := "WAKING"; list := Tail(list);
    T5: if (list = << >> /\ q = "WAITING") { q := "EMPTY"; };
    T6: lock := 0;
    T7: wake(wt); return;
  }

  \* WaitQueue::close
  procedure closetx() variables kw = 0; {
    K1: q := "CLOSED";
    K2: await lock = 0; lock := self;
    K3: if (list = << >>) { lock := 0; return; }
        else { kw := Head(list) + 10 * nwk[Head(list)]; node[Head(list)] := "CLOSED"; list := Tail(list); };
    K4: lock := 0;
    K5: wake(kw); goto K2;
  }

  \* Waiter::remove
  procedure removetx() {
    R1: await lock = 0; lock := self;
    R2: if (node[self] # "WAITING") { lock := 0; out[self] := "notified"; return; }
        else { list := SelectSeq(list, LAMBDA x : x # self); node[self] := "EMPTY"; };
    R3: if (list = << >> /\ q = "WAITING") { q := "EMPTY"; };
        lock := 0; out[self] := "removed"; return;
  }

  process (T \in Threads)
    variables k = 1; nm = ""; ref = 0; refop = 0; lt = 0; lh = 0;
  {
    Fetch:
      if (k > Len(prog[self])) { goto Done; }
      else {
        nm := prog[self][k];
        if (nm \in {"relp", "relc"} /\ refop = 0) { k := k + 1; goto Fetch; }
        else {
        cur[self] := self * 100 + k;
        S := Called(S, self * 100 + k, SpecName(nm),
                    IF HasValue(nm) THEN self * 100 + k ELSE 0, refop);
        };
      };
    Go:
      if (nm \in {"try", "tryr"}) { call push(); goto Pushed; }
      else if (nm \in {"send", "sendc", "sendr", "sendb", "sendt", "sendm"}) { goto SStart; }
      else if (nm \in {"get", "getr"}) { call pop(); goto Popped; }
      else if (nm \in {"recv", "recvr", "recvt", "recvc", "recvm"}) { woken[self] := FALSE; goto RLoop; }
      else if (nm = "relp") { own[self] := ref; val[IdxOf(ref)] := self * 100 + k; goto PPub; }
      else if (nm = "relc") { own[self] := ref; goto Free; }
      else if (nm = "dtx") { goto D1; }
      else if (nm = "drx") { goto E1; }
      else if (nm = "len") { goto L1; }
      else if (nm = "isc") { got[self] := IF txn = 0 THEN 1 ELSE 0; goto Seen; }
      else if (nm = "clone") { txn := txn + 1; goto Seen; };
    Bad: assert FALSE;

    \* --- Core::len, Receiver::is_closed, Sender::clone
    L1: lt := tail;
    L2: lh := head;
    L3: if (tail # lt) { goto L1; }
        else {
          got[self] := IF IdxOf(lh) < IdxOf(lt.p) THEN IdxOf(lt.p) - IdxOf(lh)
                       ELSE IF IdxOf(lh) > IdxOf(lt.p) THEN cap - IdxOf(lh) + IdxOf(lt.p)
                       ELSE IF lt.p = lh THEN 0 ELSE cap;
          lt := 0; lh := 0;
        };
    Seen: out[self] := "ok"; goto Return;

    \* --- sending
    SStart: woken[self] := FALSE;
    S1: call push();
    S2: if (out[self] # "full") { goto Pushed; } else { call starttx(); };
    S3: if (out[self] = "Closed") { out[self] := "closed"; goto Return; }
        else if (out[self] = "Notified") { if (nm \in {"sendb", "sendt"}) { goto S6; } else { goto S1; }; };
    SWait:
      either { await woken[self]; }
      or { await nm = "sendm" /\ tok[self] < 1; tok[self] := tok[self] + 1; }
      or { await nm = "sendc"; goto Cancel; }
      or { await nm = "sendt"; goto Expire; };
    SPoll: woken[self] := FALSE; call conttx();
    S5: if (out[self] = "Closed") { out[self] := "closed"; goto Return; }
        else if (out[self] = "Wait") { goto SWait; };
    S6: call push();
    S7: if (out[self] = "full") {
          if (nm \notin {"sendb", "sendt"}) { goto S1; }
          else either { await nm = "sendt"; out[self] := "timeout"; goto Return; }
               or { call starttx(); goto S3; };
        };
    Pushed:
      if (out[self] # "ok") { goto Return; }
      else if (nm \in {"tryr", "sendr"}) { ref := own[self]; refop := cur[self]; goto Return; }
      else { val[IdxOf(own[self])] := cur[self]; };
    PPub:
      slot[IdxOf(own[self])] := own[self] + 1;
      call notifyrx({});
    PDone:
      out[self] := "ok"; if (nm = "relp") { refop := 0; };
      goto Return;
    Cancel:
      S := Dropped(S, cur[self]);
      call removetx();
    PassOn:
      if (out[self] = "notified") { call notifytx(); };
    Cancelled:
      cur[self] := 0; k := k + 1; goto Fetch;

    Expire: call removetx();
    Expired:
      if (out[self] = "removed") { out[self] := "timeout"; goto Return; }
      else { call push(); };
    LastChance:
      if (out[self] = "full") { out[self] := "timeout"; goto Return; } else { goto Pushed; };

    \* --- receiving
    RLoop: call pop();
    R21: if (out[self] # "empty") { goto Popped; } else { call waitrx(); };
    R22: if (out[self] = "Notified") { goto RLoop; }
         else if (out[self] = "Closed") { call pop(); goto R24; }
         else { call pop(); };
    R23: if (out[self] # "empty") { goto Popped; };
    RWait:
      either { await woken[self]; woken[self] := FALSE; goto RLoop; }
      or { await nm = "recvm" /\ tok[self] < 1; tok[self] := tok[self] + 1; woken[self] := FALSE; goto RLoop; }
      or { await nm = "recvc"; S := Dropped(S, cur[self]); goto Cancelled; }
      or { await nm = "recvt"; out[self] := "timeout"; goto Return; };
    R24: if (out[self] # "ok") { out[self] := "closed"; };
    Popped:
      got[self] := IF out[self] = "ok" THEN val[IdxOf(own[self])] ELSE 0;
      if (out[self] # "ok") { goto Return; }
      else if (nm \in {"getr", "recvr"}) { ref := own[self]; refop := cur[self]; goto Return; };
    Free:
      slot[IdxOf(own[self])] := own[self] + G;
      call notifytx();
    Freed:
      out[self] := "ok"; if (nm = "relc") { refop := 0; };
      goto Return;

    \* --- closing
    D1: txn := txn - 1;
        if (txn > 0) { out[self] := "ok"; goto Return; };
    D2: tail.c := TRUE;
        call notifyrx({"C"});
    D3: out[self] := "ok"; goto Return;
    E1: if (tail.c) { out[self] := "ok"; goto Return; } else { tail.c := TRUE; };
    E2: call closetx();
    E3: out[self] := "ok";

    Return:
      S := Returned(S, cur[self], out[self],
             out[self] = "ok" /\ nm \in {"get", "recv", "getr", "recvr", "recvt", "recvc", "recvm", "len", "isc"}, got[self]);
      cur[self] := 0; k := k + 1; goto Fetch;
  }
} *)
\* BEGIN TRANSLATION
VARIABLES pc, cap, full, prog, head, tail, slot, val, cell, rxw, q, list, 
          lock, node, nwk, txn, made, woken, tok, out, own, got, S, cur, 
          stack

(* define statement *)
Blocked == {t \in Threads : pc[t] \in {"SWait", "RWait"} /\ ~woken[t]}
Quiet == \A t \in Threads : pc[t] = "Done" \/ t \in Blocked
Conforms == S # {}
SleepsRightly == Quiet => Asleep(S, {cur[t] : t \in Blocked}) # {}
ListOK == /\ (lock = 0 /\ q = "EMPTY") => list = << >>
          /\ (lock = 0 /\ q = "WAITING") => list # << >>
          /\ \A k \in 1 .. Len(list) : node[list[k]] = "WAITING"
          /\ \A j, k \in 1 .. Len(list) : j # k => list[j] # list[k]

DropsRight == made = IF GenOf(tail.p) > 0 THEN 0 .. (cap - 1) ELSE 0 .. (IdxOf(tail.p) - 1)
RingSane == \A i \in 0 .. (cap - 1) : IdxOf(slot[i]) \in {i, i + 1}

VARIABLES tl0, st0, h, u, bits, wk, old, mine, wt, kw, k, nm, ref, refop, lt, 
          lh

vars == << pc, cap, full, prog, head, tail, slot, val, cell, rxw, q, list, 
           lock, node, nwk, txn, made, woken, tok, out, own, got, S, cur, 
           stack, tl0, st0, h, u, bits, wk, old, mine, wt, kw, k, nm, ref, 
           refop, lt, lh >>

ProcSet == (Threads)

Init == (* Global variables *)
        /\ cap \in Caps
        /\ full \in {n \in Pre : n <= cap}
        /\ prog \in {f \in [Threads -> SendProgs \cup RecvProgs] :
                       \A t \in Threads : f[t] \in IF t \in Senders THEN SendProgs ELSE RecvProgs}
        /\ head = 0
        /\ tail = [p |-> IF full = cap THEN G ELSE full, c |-> FALSE]
        /\ slot = [i \in 0 .. (cap - 1) |-> IF i < full THEN i + 1 ELSE i]
        /\ val = [i \in 0 .. (cap - 1) |-> IF i < full THEN 900 + i ELSE 0]
        /\ cell = {}
        /\ rxw = 0
        /\ q = "EMPTY"
        /\ list = << >>
        /\ lock = 0
        /\ node = [t \in Threads |-> "EMPTY"]
        /\ nwk = [t \in Threads |-> 0]
        /\ txn = Cardinality(Senders)
        /\ made = 0 .. (full - 1)
        /\ woken = [t \in Threads |-> FALSE]
        /\ tok = [t \in Threads |-> 0]
        /\ out = [t \in Threads |-> ""]
        /\ own = [t \in Threads |-> 0]
        /\ got = [t \in Threads |-> 0]
        /\ S = {Filled(cap, full)}
        /\ cur = [t \in Threads |-> 0]
        (* Procedure push *)
        /\ tl0 = [ self \in ProcSet |-> 0]
        /\ st0 = [ self \in ProcSet |-> 0]
        (* Procedure pop *)
        /\ h = [ self \in ProcSet |-> 0]
        /\ u = [ self \in ProcSet |-> 0]
        (* Procedure notifyrx *)
        /\ bits = [ self \in ProcSet |-> {}]
        /\ wk = [ self \in ProcSet |-> 0]
        (* Procedure waitrx *)
        /\ old = [ self \in ProcSet |-> 0]
        /\ mine = [ self \in ProcSet |-> 0]
        (* Procedure notifytx *)
        /\ wt = [ self \in ProcSet |-> 0]
        (* Procedure closetx *)
        /\ kw = [ self \in ProcSet |-> 0]
        (* Process T *)
        /\ k = [self \in Threads |-> 1]
        /\ nm = [self \in Threads |-> ""]
        /\ ref = [self \in Threads |-> 0]
        /\ refop = [self \in Threads |-> 0]
        /\ lt = [self \in Threads |-> 0]
        /\ lh = [self \in Threads |-> 0]
        /\ stack = [self \in ProcSet |-> << >>]
        /\ pc = [self \in ProcSet |-> "Fetch"]

P1(self) == /\ pc[self] = "P1"
            /\ tl0' = [tl0 EXCEPT ![self] = tail]
            /\ pc' = [pc EXCEPT ![self] = "P2"]
            /\ UNCHANGED << cap, full, prog, head, tail, slot, val, cell, rxw, 
                            q, list, lock, node, nwk, txn, made, woken, tok, 
                            out, own, got, S, cur, stack, st0, h, u, bits, wk, 
                            old, mine, wt, kw, k, nm, ref, refop, lt, lh >>

P2(self) == /\ pc[self] = "P2"
            /\ IF tl0[self].c
                  THEN /\ out' = [out EXCEPT ![self] = "closed"]
                       /\ pc' = [pc EXCEPT ![self] = Head(stack[self]).pc]
                       /\ tl0' = [tl0 EXCEPT ![self] = Head(stack[self]).tl0]
                       /\ st0' = [st0 EXCEPT ![self] = Head(stack[self]).st0]
                       /\ stack' = [stack EXCEPT ![self] = Tail(stack[self])]
                  ELSE /\ st0' = [st0 EXCEPT ![self] = slot[IdxOf(tl0[self].p)]]
                       /\ pc' = [pc EXCEPT ![self] = "P3"]
                       /\ UNCHANGED << out, stack, tl0 >>
            /\ UNCHANGED << cap, full, prog, head, tail, slot, val, cell, rxw, 
                            q, list, lock, node, nwk, txn, made, woken, tok, 
                            own, got, S, cur, h, u, bits, wk, old, mine, wt, 
                            kw, k, nm, ref, refop, lt, lh >>

P3(self) == /\ pc[self] = "P3"
            /\ IF st0[self] = tl0[self].p
                  THEN /\ IF tail = tl0[self]
                             THEN /\ tail' = [tail EXCEPT !.p = NextPos(cap, tl0[self].p)]
                                  /\ Assert((GenOf(tl0[self].p) = 0) <=> (IdxOf(tl0[self].p) \notin made), 
                                            "Failure of assertion at line 86, column 13.")
                                  /\ made' = (made \cup {IdxOf(tl0[self].p)})
                                  /\ own' = [own EXCEPT ![self] = tl0[self].p]
                                  /\ out' = [out EXCEPT ![self] = "ok"]
                                  /\ pc' = [pc EXCEPT ![self] = Head(stack[self]).pc]
                                  /\ tl0' = [tl0 EXCEPT ![self] = Head(stack[self]).tl0]
                                  /\ st0' = [st0 EXCEPT ![self] = Head(stack[self]).st0]
                                  /\ stack' = [stack EXCEPT ![self] = Tail(stack[self])]
                             ELSE /\ tl0' = [tl0 EXCEPT ![self] = tail]
                                  /\ pc' = [pc EXCEPT ![self] = "P2"]
                                  /\ UNCHANGED << tail, made, out, own, stack, 
                                                  st0 >>
                  ELSE /\ IF st0[self] + G = tl0[self].p + 1
                             THEN /\ pc' = [pc EXCEPT ![self] = "P4"]
                                  /\ UNCHANGED << out, stack, tl0, st0 >>
                             ELSE /\ IF st0[self] + G = tl0[self].p
                                        THEN /\ \/ /\ out' = [out EXCEPT ![self] = "full"]
                                                   /\ pc' = [pc EXCEPT ![self] = Head(stack[self]).pc]
                                                   /\ tl0' = [tl0 EXCEPT ![self] = Head(stack[self]).tl0]
                                                   /\ st0' = [st0 EXCEPT ![self] = Head(stack[self]).st0]
                                                   /\ stack' = [stack EXCEPT ![self] = Tail(stack[self])]
                                                \/ /\ pc' = [pc EXCEPT ![self] = "P1"]
                                                   /\ UNCHANGED <<out, stack, tl0, st0>>
                                        ELSE /\ pc' = [pc EXCEPT ![self] = "P1"]
                                             /\ UNCHANGED << out, stack, tl0, 
                                                             st0 >>
                       /\ UNCHANGED << tail, made, own >>
            /\ UNCHANGED << cap, full, prog, head, slot, val, cell, rxw, q, 
                            list, lock, node, nwk, txn, woken, tok, got, S, 
                            cur, h, u, bits, wk, old, mine, wt, kw, k, nm, ref, 
                            refop, lt, lh >>

P4(self) == /\ pc[self] = "P4"
            /\ IF head + G = tl0[self].p
                  THEN /\ out' = [out EXCEPT ![self] = "full"]
                       /\ pc' = [pc EXCEPT ![self] = Head(stack[self]).pc]
                       /\ tl0' = [tl0 EXCEPT ![self] = Head(stack[self]).tl0]
                       /\ st0' = [st0 EXCEPT ![self] = Head(stack[self]).st0]
                       /\ stack' = [stack EXCEPT ![self] = Tail(stack[self])]
                  ELSE /\ \/ /\ out' = [out EXCEPT ![self] = "full"]
                             /\ pc' = [pc EXCEPT ![self] = Head(stack[self]).pc]
                             /\ tl0' = [tl0 EXCEPT ![self] = Head(stack[self]).tl0]
                             /\ st0' = [st0 EXCEPT ![self] = Head(stack[self]).st0]
                             /\ stack' = [stack EXCEPT ![self] = Tail(stack[self])]
                          \/ /\ pc' = [pc EXCEPT ![self] = "P1"]
                             /\ UNCHANGED <<out, stack, tl0, st0>>
            /\ UNCHANGED << cap, full, prog, head, tail, slot, val, cell, rxw, 
                            q, list, lock, node, nwk, txn, made, woken, tok, 
                            own, got, S, cur, h, u, bits, wk, old, mine, wt, 
                            kw, k, nm, ref, refop, lt, lh >>

push(self) == P1(self) \/ P2(self) \/ P3(self) \/ P4(self)

O1(self) == /\ pc[self] = "O1"
            /\ h' = [h EXCEPT ![self] = head]
            /\ pc' = [pc EXCEPT ![self] = "O2"]
            /\ UNCHANGED << cap, full, prog, head, tail, slot, val, cell, rxw, 
                            q, list, lock, node, nwk, txn, made, woken, tok, 
                            out, own, got, S, cur, stack, tl0, st0, u, bits, 
                            wk, old, mine, wt, kw, k, nm, ref, refop, lt, lh >>

O2(self) == /\ pc[self] = "O2"
            /\ u' = [u EXCEPT ![self] = slot[IdxOf(h[self])]]
            /\ pc' = [pc EXCEPT ![self] = "O3"]
            /\ UNCHANGED << cap, full, prog, head, tail, slot, val, cell, rxw, 
                            q, list, lock, node, nwk, txn, made, woken, tok, 
                            out, own, got, S, cur, stack, tl0, st0, h, bits, 
                            wk, old, mine, wt, kw, k, nm, ref, refop, lt, lh >>

O3(self) == /\ pc[self] = "O3"
            /\ IF u[self] = h[self] + 1
                  THEN /\ IF head = h[self]
                             THEN /\ head' = NextPos(cap, h[self])
                                  /\ own' = [own EXCEPT ![self] = h[self]]
                                  /\ out' = [out EXCEPT ![self] = "ok"]
                                  /\ pc' = [pc EXCEPT ![self] = Head(stack[self]).pc]
                                  /\ h' = [h EXCEPT ![self] = Head(stack[self]).h]
                                  /\ u' = [u EXCEPT ![self] = Head(stack[self]).u]
                                  /\ stack' = [stack EXCEPT ![self] = Tail(stack[self])]
                             ELSE /\ h' = [h EXCEPT ![self] = head]
                                  /\ pc' = [pc EXCEPT ![self] = "O2"]
                                  /\ UNCHANGED << head, out, own, stack, u >>
                  ELSE /\ IF u[self] = h[self] \/ u[self] + G = h[self] + 1
                             THEN /\ pc' = [pc EXCEPT ![self] = "O4"]
                             ELSE /\ pc' = [pc EXCEPT ![self] = "O1"]
                       /\ UNCHANGED << head, out, own, stack, h, u >>
            /\ UNCHANGED << cap, full, prog, tail, slot, val, cell, rxw, q, 
                            list, lock, node, nwk, txn, made, woken, tok, got, 
                            S, cur, tl0, st0, bits, wk, old, mine, wt, kw, k, 
                            nm, ref, refop, lt, lh >>

O4(self) == /\ pc[self] = "O4"
            /\ IF tail.p = h[self]
                  THEN /\ out' = [out EXCEPT ![self] = IF tail.c THEN "closed" ELSE "empty"]
                       /\ pc' = [pc EXCEPT ![self] = Head(stack[self]).pc]
                       /\ h' = [h EXCEPT ![self] = Head(stack[self]).h]
                       /\ u' = [u EXCEPT ![self] = Head(stack[self]).u]
                       /\ stack' = [stack EXCEPT ![self] = Tail(stack[self])]
                  ELSE /\ \/ /\ out' = [out EXCEPT ![self] = "empty"]
                             /\ pc' = [pc EXCEPT ![self] = Head(stack[self]).pc]
                             /\ h' = [h EXCEPT ![self] = Head(stack[self]).h]
                             /\ u' = [u EXCEPT ![self] = Head(stack[self]).u]
                             /\ stack' = [stack EXCEPT ![self] = Tail(stack[self])]
                          \/ /\ pc' = [pc EXCEPT ![self] = "O1"]
                             /\ UNCHANGED <<out, stack, h, u>>
            /\ UNCHANGED << cap, full, prog, head, tail, slot, val, cell, rxw, 
                            q, list, lock, node, nwk, txn, made, woken, tok, 
                            own, got, S, cur, tl0, st0, bits, wk, old, mine, 
                            wt, kw, k, nm, ref, refop, lt, lh >>

pop(self) == O1(self) \/ O2(self) \/ O3(self) \/ O4(self)

N1(self) == /\ pc[self] = "N1"
            /\ IF cell = {}
                  THEN /\ cell' = (bits[self] \cup {"N"})
                       /\ pc' = [pc EXCEPT ![self] = "N2"]
                       /\ UNCHANGED << stack, bits, wk >>
                  ELSE /\ cell' = (cell \cup bits[self] \cup {"N"})
                       /\ pc' = [pc EXCEPT ![self] = Head(stack[self]).pc]
                       /\ wk' = [wk EXCEPT ![self] = Head(stack[self]).wk]
                       /\ bits' = [bits EXCEPT ![self] = Head(stack[self]).bits]
                       /\ stack' = [stack EXCEPT ![self] = Tail(stack[self])]
            /\ UNCHANGED << cap, full, prog, head, tail, slot, val, rxw, q, 
                            list, lock, node, nwk, txn, made, woken, tok, out, 
                            own, got, S, cur, tl0, st0, h, u, old, mine, wt, 
                            kw, k, nm, ref, refop, lt, lh >>

N2(self) == /\ pc[self] = "N2"
            /\ wk' = [wk EXCEPT ![self] = rxw]
            /\ rxw' = 0
            /\ pc' = [pc EXCEPT ![self] = "N3"]
            /\ UNCHANGED << cap, full, prog, head, tail, slot, val, cell, q, 
                            list, lock, node, nwk, txn, made, woken, tok, out, 
                            own, got, S, cur, stack, tl0, st0, h, u, bits, old, 
                            mine, wt, kw, k, nm, ref, refop, lt, lh >>

N3(self) == /\ pc[self] = "N3"
            /\ cell' = cell \ {"N"}
            /\ pc' = [pc EXCEPT ![self] = "N4"]
            /\ UNCHANGED << cap, full, prog, head, tail, slot, val, rxw, q, 
                            list, lock, node, nwk, txn, made, woken, tok, out, 
                            own, got, S, cur, stack, tl0, st0, h, u, bits, wk, 
                            old, mine, wt, kw, k, nm, ref, refop, lt, lh >>

N4(self) == /\ pc[self] = "N4"
            /\ woken' = [x \in Threads |-> woken[x] \/ wk[self] = x + 10 * tok[x]]
            /\ pc' = [pc EXCEPT ![self] = Head(stack[self]).pc]
            /\ wk' = [wk EXCEPT ![self] = Head(stack[self]).wk]
            /\ bits' = [bits EXCEPT ![self] = Head(stack[self]).bits]
            /\ stack' = [stack EXCEPT ![self] = Tail(stack[self])]
            /\ UNCHANGED << cap, full, prog, head, tail, slot, val, cell, rxw, 
                            q, list, lock, node, nwk, txn, made, tok, out, own, 
                            got, S, cur, tl0, st0, h, u, old, mine, wt, kw, k, 
                            nm, ref, refop, lt, lh >>

notifyrx(self) == N1(self) \/ N2(self) \/ N3(self) \/ N4(self)

W1(self) == /\ pc[self] = "W1"
            /\ IF cell = {}
                  THEN /\ cell' = {"P"}
                       /\ pc' = [pc EXCEPT ![self] = "W2"]
                       /\ UNCHANGED << woken, out, stack, old, mine >>
                  ELSE /\ IF "C" \in cell
                             THEN /\ out' = [out EXCEPT ![self] = "Closed"]
                                  /\ pc' = [pc EXCEPT ![self] = Head(stack[self]).pc]
                                  /\ old' = [old EXCEPT ![self] = Head(stack[self]).old]
                                  /\ mine' = [mine EXCEPT ![self] = Head(stack[self]).mine]
                                  /\ stack' = [stack EXCEPT ![self] = Tail(stack[self])]
                                  /\ woken' = woken
                             ELSE /\ IF "N" \in cell
                                        THEN /\ woken' = [woken EXCEPT ![self] = TRUE]
                                             /\ out' = [out EXCEPT ![self] = "Notified"]
                                             /\ pc' = [pc EXCEPT ![self] = Head(stack[self]).pc]
                                             /\ old' = [old EXCEPT ![self] = Head(stack[self]).old]
                                             /\ mine' = [mine EXCEPT ![self] = Head(stack[self]).mine]
                                             /\ stack' = [stack EXCEPT ![self] = Tail(stack[self])]
                                        ELSE /\ out' = [out EXCEPT ![self] = "Wait"]
                                             /\ pc' = [pc EXCEPT ![self] = Head(stack[self]).pc]
                                             /\ old' = [old EXCEPT ![self] = Head(stack[self]).old]
                                             /\ mine' = [mine EXCEPT ![self] = Head(stack[self]).mine]
                                             /\ stack' = [stack EXCEPT ![self] = Tail(stack[self])]
                                             /\ woken' = woken
                       /\ cell' = cell
            /\ UNCHANGED << cap, full, prog, head, tail, slot, val, rxw, q, 
                            list, lock, node, nwk, txn, made, tok, own, got, S, 
                            cur, tl0, st0, h, u, bits, wk, wt, kw, k, nm, ref, 
                            refop, lt, lh >>

W2(self) == /\ pc[self] = "W2"
            /\ old' = [old EXCEPT ![self] = rxw]
            /\ rxw' = self + 10 * tok[self]
            /\ pc' = [pc EXCEPT ![self] = "W3"]
            /\ UNCHANGED << cap, full, prog, head, tail, slot, val, cell, q, 
                            list, lock, node, nwk, txn, made, woken, tok, out, 
                            own, got, S, cur, stack, tl0, st0, h, u, bits, wk, 
                            mine, wt, kw, k, nm, ref, refop, lt, lh >>

W3(self) == /\ pc[self] = "W3"
            /\ IF cell = {"P"}
                  THEN /\ cell' = {}
                       /\ out' = [out EXCEPT ![self] = "Wait"]
                       /\ pc' = [pc EXCEPT ![self] = Head(stack[self]).pc]
                       /\ old' = [old EXCEPT ![self] = Head(stack[self]).old]
                       /\ mine' = [mine EXCEPT ![self] = Head(stack[self]).mine]
                       /\ stack' = [stack EXCEPT ![self] = Tail(stack[self])]
                  ELSE /\ pc' = [pc EXCEPT ![self] = "W4"]
                       /\ UNCHANGED << cell, out, stack, old, mine >>
            /\ UNCHANGED << cap, full, prog, head, tail, slot, val, rxw, q, 
                            list, lock, node, nwk, txn, made, woken, tok, own, 
                            got, S, cur, tl0, st0, h, u, bits, wk, wt, kw, k, 
                            nm, ref, refop, lt, lh >>

W4(self) == /\ pc[self] = "W4"
            /\ mine' = [mine EXCEPT ![self] = rxw]
            /\ rxw' = 0
            /\ pc' = [pc EXCEPT ![self] = "W5"]
            /\ UNCHANGED << cap, full, prog, head, tail, slot, val, cell, q, 
                            list, lock, node, nwk, txn, made, woken, tok, out, 
                            own, got, S, cur, stack, tl0, st0, h, u, bits, wk, 
                            old, wt, kw, k, nm, ref, refop, lt, lh >>

W5(self) == /\ pc[self] = "W5"
            /\ out' = [out EXCEPT ![self] = IF "C" \in cell THEN "Closed" ELSE "Notified"]
            /\ cell' = (cell \cap {"C"})
            /\ pc' = [pc EXCEPT ![self] = "W6"]
            /\ UNCHANGED << cap, full, prog, head, tail, slot, val, rxw, q, 
                            list, lock, node, nwk, txn, made, woken, tok, own, 
                            got, S, cur, stack, tl0, st0, h, u, bits, wk, old, 
                            mine, wt, kw, k, nm, ref, refop, lt, lh >>

W6(self) == /\ pc[self] = "W6"
            /\ woken' = [x \in Threads |-> woken[x] \/ old[self] = x + 10 * tok[x] \/ mine[self] = x + 10 * tok[x]]
            /\ pc' = [pc EXCEPT ![self] = Head(stack[self]).pc]
            /\ old' = [old EXCEPT ![self] = Head(stack[self]).old]
            /\ mine' = [mine EXCEPT ![self] = Head(stack[self]).mine]
            /\ stack' = [stack EXCEPT ![self] = Tail(stack[self])]
            /\ UNCHANGED << cap, full, prog, head, tail, slot, val, cell, rxw, 
                            q, list, lock, node, nwk, txn, made, tok, out, own, 
                            got, S, cur, tl0, st0, h, u, bits, wk, wt, kw, k, 
                            nm, ref, refop, lt, lh >>

waitrx(self) == W1(self) \/ W2(self) \/ W3(self) \/ W4(self) \/ W5(self)
                   \/ W6(self)

Q1(self) == /\ pc[self] = "Q1"
            /\ IF q = "WAKING"
                  THEN /\ q' = "EMPTY"
                       /\ out' = [out EXCEPT ![self] = "Notified"]
                       /\ pc' = [pc EXCEPT ![self] = Head(stack[self]).pc]
                       /\ stack' = [stack EXCEPT ![self] = Tail(stack[self])]
                  ELSE /\ IF q = "CLOSED"
                             THEN /\ out' = [out EXCEPT ![self] = "Closed"]
                                  /\ pc' = [pc EXCEPT ![self] = Head(stack[self]).pc]
                                  /\ stack' = [stack EXCEPT ![self] = Tail(stack[self])]
                             ELSE /\ pc' = [pc EXCEPT ![self] = "Q2"]
                                  /\ UNCHANGED << out, stack >>
                       /\ q' = q
            /\ UNCHANGED << cap, full, prog, head, tail, slot, val, cell, rxw, 
                            list, lock, node, nwk, txn, made, woken, tok, own, 
                            got, S, cur, tl0, st0, h, u, bits, wk, old, mine, 
                            wt, kw, k, nm, ref, refop, lt, lh >>

Q2(self) == /\ pc[self] = "Q2"
            /\ lock = 0
            /\ lock' = self
            /\ pc' = [pc EXCEPT ![self] = "Q3"]
            /\ UNCHANGED << cap, full, prog, head, tail, slot, val, cell, rxw, 
                            q, list, node, nwk, txn, made, woken, tok, out, 
                            own, got, S, cur, stack, tl0, st0, h, u, bits, wk, 
                            old, mine, wt, kw, k, nm, ref, refop, lt, lh >>

Q3(self) == /\ pc[self] = "Q3"
            /\ IF q = "EMPTY"
                  THEN /\ q' = "WAITING"
                       /\ pc' = [pc EXCEPT ![self] = "Q4"]
                       /\ UNCHANGED << lock, out, stack >>
                  ELSE /\ IF q = "WAKING"
                             THEN /\ q' = "EMPTY"
                                  /\ out' = [out EXCEPT ![self] = "Notified"]
                                  /\ lock' = 0
                                  /\ pc' = [pc EXCEPT ![self] = Head(stack[self]).pc]
                                  /\ stack' = [stack EXCEPT ![self] = Tail(stack[self])]
                             ELSE /\ IF q = "CLOSED"
                                        THEN /\ out' = [out EXCEPT ![self] = "Closed"]
                                             /\ lock' = 0
                                             /\ pc' = [pc EXCEPT ![self] = Head(stack[self]).pc]
                                             /\ stack' = [stack EXCEPT ![self] = Tail(stack[self])]
                                        ELSE /\ pc' = [pc EXCEPT ![self] = "Q4"]
                                             /\ UNCHANGED << lock, out, stack >>
                                  /\ q' = q
            /\ UNCHANGED << cap, full, prog, head, tail, slot, val, cell, rxw, 
                            list, node, nwk, txn, made, woken, tok, own, got, 
                            S, cur, tl0, st0, h, u, bits, wk, old, mine, wt, 
                            kw, k, nm, ref, refop, lt, lh >>

Q4(self) == /\ pc[self] = "Q4"
            /\ node' = [node EXCEPT ![self] = "WAITING"]
            /\ nwk' = [nwk EXCEPT ![self] = tok[self]]
            /\ list' = Append(list, self)
            /\ pc' = [pc EXCEPT ![self] = "Q5"]
            /\ UNCHANGED << cap, full, prog, head, tail, slot, val, cell, rxw, 
                            q, lock, txn, made, woken, tok, out, own, got, S, 
                            cur, stack, tl0, st0, h, u, bits, wk, old, mine, 
                            wt, kw, k, nm, ref, refop, lt, lh >>

Q5(self) == /\ pc[self] = "Q5"
            /\ lock' = 0
            /\ out' = [out EXCEPT ![self] = "Wait"]
            /\ pc' = [pc EXCEPT ![self] = Head(stack[self]).pc]
            /\ stack' = [stack EXCEPT ![self] = Tail(stack[self])]
            /\ UNCHANGED << cap, full, prog, head, tail, slot, val, cell, rxw, 
                            q, list, node, nwk, txn, made, woken, tok, own, 
                            got, S, cur, tl0, st0, h, u, bits, wk, old, mine, 
                            wt, kw, k, nm, ref, refop, lt, lh >>

starttx(self) == Q1(self) \/ Q2(self) \/ Q3(self) \/ Q4(self) \/ Q5(self)

C1(self) == /\ pc[self] = "C1"
            /\ IF node[self] = "WAKING"
                  THEN /\ out' = [out EXCEPT ![self] = "Notified"]
                       /\ pc' = [pc EXCEPT ![self] = Head(stack[self]).pc]
                       /\ stack' = [stack EXCEPT ![self] = Tail(stack[self])]
                  ELSE /\ IF node[self] = "CLOSED"
                             THEN /\ out' = [out EXCEPT ![self] = "Closed"]
                                  /\ pc' = [pc EXCEPT ![self] = Head(stack[self]).pc]
                                  /\ stack' = [stack EXCEPT ![self] = Tail(stack[self])]
                             ELSE /\ pc' = [pc EXCEPT ![self] = "C2"]
                                  /\ UNCHANGED << out, stack >>
            /\ UNCHANGED << cap, full, prog, head, tail, slot, val, cell, rxw, 
                            q, list, lock, node, nwk, txn, made, woken, tok, 
                            own, got, S, cur, tl0, st0, h, u, bits, wk, old, 
                            mine, wt, kw, k, nm, ref, refop, lt, lh >>

C2(self) == /\ pc[self] = "C2"
            /\ lock = 0
            /\ lock' = self
            /\ pc' = [pc EXCEPT ![self] = "C3"]
            /\ UNCHANGED << cap, full, prog, head, tail, slot, val, cell, rxw, 
                            q, list, node, nwk, txn, made, woken, tok, out, 
                            own, got, S, cur, stack, tl0, st0, h, u, bits, wk, 
                            old, mine, wt, kw, k, nm, ref, refop, lt, lh >>

C3(self) == /\ pc[self] = "C3"
            /\ out' = [out EXCEPT ![self] = CASE node[self] = "WAKING" -> "Notified"
                                              [] node[self] = "CLOSED" -> "Closed"
                                              [] OTHER -> "Wait"]
            /\ IF node[self] = "WAITING"
                  THEN /\ nwk' = [nwk EXCEPT ![self] = tok[self]]
                  ELSE /\ TRUE
                       /\ nwk' = nwk
            /\ lock' = 0
            /\ pc' = [pc EXCEPT ![self] = Head(stack[self]).pc]
            /\ stack' = [stack EXCEPT ![self] = Tail(stack[self])]
            /\ UNCHANGED << cap, full, prog, head, tail, slot, val, cell, rxw, 
                            q, list, node, txn, made, woken, tok, own, got, S, 
                            cur, tl0, st0, h, u, bits, wk, old, mine, wt, kw, 
                            k, nm, ref, refop, lt, lh >>

conttx(self) == C1(self) \/ C2(self) \/ C3(self)

T1(self) == /\ pc[self] = "T1"
            /\ IF q \in {"EMPTY", "WAKING"}
                  THEN /\ q' = "WAKING"
                       /\ pc' = [pc EXCEPT ![self] = Head(stack[self]).pc]
                       /\ wt' = [wt EXCEPT ![self] = Head(stack[self]).wt]
                       /\ stack' = [stack EXCEPT ![self] = Tail(stack[self])]
                  ELSE /\ pc' = [pc EXCEPT ![self] = "T2"]
                       /\ UNCHANGED << q, stack, wt >>
            /\ UNCHANGED << cap, full, prog, head, tail, slot, val, cell, rxw, 
                            list, lock, node, nwk, txn, made, woken, tok, out, 
                            own, got, S, cur, tl0, st0, h, u, bits, wk, old, 
                            mine, kw, k, nm, ref, refop, lt, lh >>

T2(self) == /\ pc[self] = "T2"
            /\ lock = 0
            /\ lock' = self
            /\ pc' = [pc EXCEPT ![self] = "T3"]
            /\ UNCHANGED << cap, full, prog, head, tail, slot, val, cell, rxw, 
                            q, list, node, nwk, txn, made, woken, tok, out, 
                            own, got, S, cur, stack, tl0, st0, h, u, bits, wk, 
                            old, mine, wt, kw, k, nm, ref, refop, lt, lh >>

T3(self) == /\ pc[self] = "T3"
            /\ IF q \in {"EMPTY", "WAKING"}
                  THEN /\ q' = "WAKING"
                       /\ lock' = 0
                       /\ pc' = [pc EXCEPT ![self] = Head(stack[self]).pc]
                       /\ wt' = [wt EXCEPT ![self] = Head(stack[self]).wt]
                       /\ stack' = [stack EXCEPT ![self] = Tail(stack[self])]
                  ELSE /\ IF q = "CLOSED"
                             THEN /\ lock' = 0
                                  /\ pc' = [pc EXCEPT ![self] = Head(stack[self]).pc]
                                  /\ wt' = [wt EXCEPT ![self] = Head(stack[self]).wt]
                                  /\ stack' = [stack EXCEPT ![self] = Tail(stack[self])]
                             ELSE /\ pc' = [pc EXCEPT ![self] = "T4"]
                                  /\ UNCHANGED << lock, stack, wt >>
                       /\ q' = q
            /\ UNCHANGED << cap, full, prog, head, tail, slot, val, cell, rxw, 
                            list, node, nwk, txn, made, woken, tok, out, own, 
                            got, S, cur, tl0, st0, h, u, bits, wk, old, mine, 
                            kw, k, nm, ref, refop, lt, lh >>

T4(self) == /\ pc[self] = "T4"
            /\ wt' = [wt EXCEPT ![self] = Head(list) + 10 * nwk[Head(list)]]
            /\ node' = [node EXCEPT ![Head(list)] = "WAKING"]
            /\ list' = Tail(list)
            /\ pc' = [pc EXCEPT ![self] = "T5"]
            /\ UNCHANGED << cap, full, prog, head, tail, slot, val, cell, rxw, 
                            q, lock, nwk, txn, made, woken, tok, out, own, got, 
                            S, cur, stack, tl0, st0, h, u, bits, wk, old, mine, 
                            kw, k, nm, ref, refop, lt, lh >>

T5(self) == /\ pc[self] = "T5"
            /\ IF list = << >> /\ q = "WAITING"
                  THEN /\ q' = "EMPTY"
                  ELSE /\ TRUE
                       /\ q' = q
            /\ pc' = [pc EXCEPT ![self] = "T6"]
            /\ UNCHANGED << cap, full, prog, head, tail, slot, val, cell, rxw, 
                            list, lock, node, nwk, txn, made, woken, tok, out, 
                            own, got, S, cur, stack, tl0, st0, h, u, bits, wk, 
                            old, mine, wt, kw, k, nm, ref, refop, lt, lh >>

T6(self) == /\ pc[self] = "T6"
            /\ lock' = 0
            /\ pc' = [pc EXCEPT ![self] = "T7"]
            /\ UNCHANGED << cap, full, prog, head, tail, slot, val, cell, rxw, 
                            q, list, node, nwk, txn, made, woken, tok, out, 
                            own, got, S, cur, stack, tl0, st0, h, u, bits, wk, 
                            old, mine, wt, kw, k, nm, ref, refop, lt, lh >>

T7(self) == /\ pc[self] = "T7"
            /\ woken' = [x \in Threads |-> woken[x] \/ wt[self] = x + 10 * tok[x]]
            /\ pc' = [pc EXCEPT ![self] = Head(stack[self]).pc]
            /\ wt' = [wt EXCEPT ![self] = Head(stack[self]).wt]
            /\ stack' = [stack EXCEPT ![self] = Tail(stack[self])]
            /\ UNCHANGED << cap, full, prog, head, tail, slot, val, cell, rxw, 
                            q, list, lock, node, nwk, txn, made, tok, out, own, 
                            got, S, cur, tl0, st0, h, u, bits, wk, old, mine, 
                            kw, k, nm, ref, refop, lt, lh >>

notifytx(self) == T1(self) \/ T2(self) \/ T3(self) \/ T4(self) \/ T5(self)
                     \/ T6(self) \/ T7(self)

K1(self) == /\ pc[self] = "K1"
            /\ q' = "CLOSED"
            /\ pc' = [pc EXCEPT ![self] = "K2"]
            /\ UNCHANGED << cap, full, prog, head, tail, slot, val, cell, rxw, 
                            list, lock, node, nwk, txn, made, woken, tok, out, 
                            own, got, S, cur, stack, tl0, st0, h, u, bits, wk, 
                            old, mine, wt, kw, k, nm, ref, refop, lt, lh >>

K2(self) == /\ pc[self] = "K2"
            /\ lock = 0
            /\ lock' = self
            /\ pc' = [pc EXCEPT ![self] = "K3"]
            /\ UNCHANGED << cap, full, prog, head, tail, slot, val, cell, rxw, 
                            q, list, node, nwk, txn, made, woken, tok, out, 
                            own, got, S, cur, stack, tl0, st0, h, u, bits, wk, 
                            old, mine, wt, kw, k, nm, ref, refop, lt, lh >>

K3(self) == /\ pc[self] = "K3"
            /\ IF list = << >>
                  THEN /\ lock' = 0
                       /\ pc' = [pc EXCEPT ![self] = Head(stack[self]).pc]
                       /\ kw' = [kw EXCEPT ![self] = Head(stack[self]).kw]
                       /\ stack' = [stack EXCEPT ![self] = Tail(stack[self])]
                       /\ UNCHANGED << list, node >>
                  ELSE /\ kw' = [kw EXCEPT ![self] = Head(list) + 10 * nwk[Head(list)]]
                       /\ node' = [node EXCEPT ![Head(list)] = "CLOSED"]
                       /\ list' = Tail(list)
                       /\ pc' = [pc EXCEPT ![self] = "K4"]
                       /\ UNCHANGED << lock, stack >>
            /\ UNCHANGED << cap, full, prog, head, tail, slot, val, cell, rxw, 
                            q, nwk, txn, made, woken, tok, out, own, got, S, 
                            cur, tl0, st0, h, u, bits, wk, old, mine, wt, k, 
                            nm, ref, refop, lt, lh >>

K4(self) == /\ pc[self] = "K4"
            /\ lock' = 0
            /\ pc' = [pc EXCEPT ![self] = "K5"]
            /\ UNCHANGED << cap, full, prog, head, tail, slot, val, cell, rxw, 
                            q, list, node, nwk, txn, made, woken, tok, out, 
                            own, got, S, cur, stack, tl0, st0, h, u, bits, wk, 
                            old, mine, wt, kw, k, nm, ref, refop, lt, lh >>

K5(self) == /\ pc[self] = "K5"
            /\ woken' = [x \in Threads |-> woken[x] \/ kw[self] = x + 10 * tok[x]]
            /\ pc' = [pc EXCEPT ![self] = "K2"]
            /\ UNCHANGED << cap, full, prog, head, tail, slot, val, cell, rxw, 
                            q, list, lock, node, nwk, txn, made, tok, out, own, 
                            got, S, cur, stack, tl0, st0, h, u, bits, wk, old, 
                            mine, wt, kw, k, nm, ref, refop, lt, lh >>

closetx(self) == K1(self) \/ K2(self) \/ K3(self) \/ K4(self) \/ K5(self)

R1(self) == /\ pc[self] = "R1"
            /\ lock = 0
            /\ lock' = self
            /\ pc' = [pc EXCEPT ![self] = "R2"]
            /\ UNCHANGED << cap, full, prog, head, tail, slot, val, cell, rxw, 
                            q, list, node, nwk, txn, made, woken, tok, out, 
                            own, got, S, cur, stack, tl0, st0, h, u, bits, wk, 
                            old, mine, wt, kw, k, nm, ref, refop, lt, lh >>

R2(self) == /\ pc[self] = "R2"
            /\ IF node[self] # "WAITING"
                  THEN /\ lock' = 0
                       /\ out' = [out EXCEPT ![self] = "notified"]
                       /\ pc' = [pc EXCEPT ![self] = Head(stack[self]).pc]
                       /\ stack' = [stack EXCEPT ![self] = Tail(stack[self])]
                       /\ UNCHANGED << list, node >>
                  ELSE /\ list' = SelectSeq(list, LAMBDA x : x # self)
                       /\ node' = [node EXCEPT ![self] = "EMPTY"]
                       /\ pc' = [pc EXCEPT ![self] = "R3"]
                       /\ UNCHANGED << lock, out, stack >>
            /\ UNCHANGED << cap, full, prog, head, tail, slot, val, cell, rxw, 
                            q, nwk, txn, made, woken, tok, own, got, S, cur, 
                            tl0, st0, h, u, bits, wk, old, mine, wt, kw, k, nm, 
                            ref, refop, lt, lh >>

R3(self) == /\ pc[self] = "R3"
            /\ IF list = << >> /\ q = "WAITING"
                  THEN /\ q' = "EMPTY"
                  ELSE /\ TRUE
                       /\ q' = q
            /\ lock' = 0
            /\ out' = [out EXCEPT ![self] = "removed"]
            /\ pc' = [pc EXCEPT ![self] = Head(stack[self]).pc]
            /\ stack' = [stack EXCEPT ![self] = Tail(stack[self])]
            /\ UNCHANGED << cap, full, prog, head, tail, slot, val, cell, rxw, 
                            list, node, nwk, txn, made, woken, tok, own, got, 
                            S, cur, tl0, st0, h, u, bits, wk, old, mine, wt, 
                            kw, k, nm, ref, refop, lt, lh >>

removetx(self) == R1(self) \/ R2(self) \/ R3(self)

Fetch(self) == /\ pc[self] = "Fetch"
               /\ IF k[self] > Len(prog[self])
                     THEN /\ pc' = [pc EXCEPT ![self] = "Done"]
                          /\ UNCHANGED << S, cur, k, nm >>
                     ELSE /\ nm' = [nm EXCEPT ![self] = prog[self][k[self]]]
                          /\ IF nm'[self] \in {"relp", "relc"} /\ refop[self] = 0
                                THEN /\ k' = [k EXCEPT ![self] = k[self] + 1]
                                     /\ pc' = [pc EXCEPT ![self] = "Fetch"]
                                     /\ UNCHANGED << S, cur >>
                                ELSE /\ cur' = [cur EXCEPT ![self] = self * 100 + k[self]]
                                     /\ S' = Called(S, self * 100 + k[self], SpecName(nm'[self]),
                                                    IF HasValue(nm'[self]) THEN self * 100 + k[self] ELSE 0, refop[self])
                                     /\ pc' = [pc EXCEPT ![self] = "Go"]
                                     /\ k' = k
               /\ UNCHANGED << cap, full, prog, head, tail, slot, val, cell, 
                               rxw, q, list, lock, node, nwk, txn, made, woken, 
                               tok, out, own, got, stack, tl0, st0, h, u, bits, 
                               wk, old, mine, wt, kw, ref, refop, lt, lh >>

Go(self) == /\ pc[self] = "Go"
            /\ IF nm[self] \in {"try", "tryr"}
                  THEN /\ stack' = [stack EXCEPT ![self] = << [ procedure |->  "push",
                                                                pc        |->  "Pushed",
                                                                tl0       |->  tl0[self],
                                                                st0       |->  st0[self] ] >>
                                                            \o stack[self]]
                       /\ tl0' = [tl0 EXCEPT ![self] = 0]
                       /\ st0' = [st0 EXCEPT ![self] = 0]
                       /\ pc' = [pc EXCEPT ![self] = "P1"]
                       /\ UNCHANGED << val, txn, woken, own, got, h, u >>
                  ELSE /\ IF nm[self] \in {"send", "sendc", "sendr", "sendb", "sendt", "sendm"}
                             THEN /\ pc' = [pc EXCEPT ![self] = "SStart"]
                                  /\ UNCHANGED << val, txn, woken, own, got, 
                                                  stack, h, u >>
                             ELSE /\ IF nm[self] \in {"get", "getr"}
                                        THEN /\ stack' = [stack EXCEPT ![self] = << [ procedure |->  "pop",
                                                                                      pc        |->  "Popped",
                                                                                      h         |->  h[self],
                                                                                      u         |->  u[self] ] >>
                                                                                  \o stack[self]]
                                             /\ h' = [h EXCEPT ![self] = 0]
                                             /\ u' = [u EXCEPT ![self] = 0]
                                             /\ pc' = [pc EXCEPT ![self] = "O1"]
                                             /\ UNCHANGED << val, txn, woken, 
                                                             own, got >>
                                        ELSE /\ IF nm[self] \in {"recv", "recvr", "recvt", "recvc", "recvm"}
                                                   THEN /\ woken' = [woken EXCEPT ![self] = FALSE]
                                                        /\ pc' = [pc EXCEPT ![self] = "RLoop"]
                                                        /\ UNCHANGED << val, 
                                                                        txn, 
                                                                        own, 
                                                                        got >>
                                                   ELSE /\ IF nm[self] = "relp"
                                                              THEN /\ own' = [own EXCEPT ![self] = ref[self]]
                                                                   /\ val' = [val EXCEPT ![IdxOf(ref[self])] = self * 100 + k[self]]
                                                                   /\ pc' = [pc EXCEPT ![self] = "PPub"]
                                                                   /\ UNCHANGED << txn, 
                                                                                   got >>
                                                              ELSE /\ IF nm[self] = "relc"
                                                                         THEN /\ own' = [own EXCEPT ![self] = ref[self]]
                                                                              /\ pc' = [pc EXCEPT ![self] = "Free"]
                                                                              /\ UNCHANGED << txn, 
                                                                                              got >>
                                                                         ELSE /\ IF nm[self] = "dtx"
                                                                                    THEN /\ pc' = [pc EXCEPT ![self] = "D1"]
                                                                                         /\ UNCHANGED << txn, 
                                                                                                         got >>
                                                                                    ELSE /\ IF nm[self] = "drx"
                                                                                               THEN /\ pc' = [pc EXCEPT ![self] = "E1"]
                                                                                                    /\ UNCHANGED << txn, 
                                                                                                                    got >>
                                                                                               ELSE /\ IF nm[self] = "len"
                                                                                                          THEN /\ pc' = [pc EXCEPT ![self] = "L1"]
                                                                                                               /\ UNCHANGED << txn, 
                                                                                                                               got >>
                                                                                                          ELSE /\ IF nm[self] = "isc"
                                                                                                                     THEN /\ got' = [got EXCEPT ![self] = IF txn = 0 THEN 1 ELSE 0]
                                                                                                                          /\ pc' = [pc EXCEPT ![self] = "Seen"]
                                                                                                                          /\ txn' = txn
                                                                                                                     ELSE /\ IF nm[self] = "clone"
                                                                                                                                THEN /\ txn' = txn + 1
                                                                                                                                     /\ pc' = [pc EXCEPT ![self] = "Seen"]
                                                                                                                                ELSE /\ pc' = [pc EXCEPT ![self] = "Bad"]
                                                                                                                                     /\ txn' = txn
                                                                                                                          /\ got' = got
                                                                              /\ own' = own
                                                                   /\ val' = val
                                                        /\ woken' = woken
                                             /\ UNCHANGED << stack, h, u >>
                       /\ UNCHANGED << tl0, st0 >>
            /\ UNCHANGED << cap, full, prog, head, tail, slot, cell, rxw, q, 
                            list, lock, node, nwk, made, tok, out, S, cur, 
                            bits, wk, old, mine, wt, kw, k, nm, ref, refop, lt, 
                            lh >>

Bad(self) == /\ pc[self] = "Bad"
             /\ Assert(FALSE, "Failure of assertion at line 218, column 10.")
             /\ pc' = [pc EXCEPT ![self] = "L1"]
             /\ UNCHANGED << cap, full, prog, head, tail, slot, val, cell, rxw, 
                             q, list, lock, node, nwk, txn, made, woken, tok, 
                             out, own, got, S, cur, stack, tl0, st0, h, u, 
                             bits, wk, old, mine, wt, kw, k, nm, ref, refop, 
                             lt, lh >>

L1(self) == /\ pc[self] = "L1"
            /\ lt' = [lt EXCEPT ![self] = tail]
            /\ pc' = [pc EXCEPT ![self] = "L2"]
            /\ UNCHANGED << cap, full, prog, head, tail, slot, val, cell, rxw, 
                            q, list, lock, node, nwk, txn, made, woken, tok, 
                            out, own, got, S, cur, stack, tl0, st0, h, u, bits, 
                            wk, old, mine, wt, kw, k, nm, ref, refop, lh >>

L2(self) == /\ pc[self] = "L2"
            /\ lh' = [lh EXCEPT ![self] = head]
            /\ pc' = [pc EXCEPT ![self] = "L3"]
            /\ UNCHANGED << cap, full, prog, head, tail, slot, val, cell, rxw, 
                            q, list, lock, node, nwk, txn, made, woken, tok, 
                            out, own, got, S, cur, stack, tl0, st0, h, u, bits, 
                            wk, old, mine, wt, kw, k, nm, ref, refop, lt >>

L3(self) == /\ pc[self] = "L3"
            /\ IF tail # lt[self]
                  THEN /\ pc' = [pc EXCEPT ![self] = "L1"]
                       /\ UNCHANGED << got, lt, lh >>
                  ELSE /\ got' = [got EXCEPT ![self] = IF IdxOf(lh[self]) < IdxOf(lt[self].p) THEN IdxOf(lt[self].p) - IdxOf(lh[self])
                                                       ELSE IF IdxOf(lh[self]) > IdxOf(lt[self].p) THEN cap - IdxOf(lh[self]) + IdxOf(lt[self].p)
                                                       ELSE IF lt[self].p = lh[self] THEN 0 ELSE cap]
                       /\ lt' = [lt EXCEPT ![self] = 0]
                       /\ lh' = [lh EXCEPT ![self] = 0]
                       /\ pc' = [pc EXCEPT ![self] = "Seen"]
            /\ UNCHANGED << cap, full, prog, head, tail, slot, val, cell, rxw, 
                            q, list, lock, node, nwk, txn, made, woken, tok, 
                            out, own, S, cur, stack, tl0, st0, h, u, bits, wk, 
                            old, mine, wt, kw, k, nm, ref, refop >>

Seen(self) == /\ pc[self] = "Seen"
              /\ out' = [out EXCEPT ![self] = "ok"]
              /\ pc' = [pc EXCEPT ![self] = "Return"]
              /\ UNCHANGED << cap, full, prog, head, tail, slot, val, cell, 
                              rxw, q, list, lock, node, nwk, txn, made, woken, 
                              tok, own, got, S, cur, stack, tl0, st0, h, u, 
                              bits, wk, old, mine, wt, kw, k, nm, ref, refop, 
                              lt, lh >>

SStart(self) == /\ pc[self] = "SStart"
                /\ woken' = [woken EXCEPT ![self] = FALSE]
                /\ pc' = [pc EXCEPT ![self] = "S1"]
                /\ UNCHANGED << cap, full, prog, head, tail, slot, val, cell, 
                                rxw, q, list, lock, node, nwk, txn, made, tok, 
                                out, own, got, S, cur, stack, tl0, st0, h, u, 
                                bits, wk, old, mine, wt, kw, k, nm, ref, refop, 
                                lt, lh >>

S1(self) == /\ pc[self] = "S1"
            /\ stack' = [stack EXCEPT ![self] = << [ procedure |->  "push",
                                                     pc        |->  "S2",
                                                     tl0       |->  tl0[self],
                                                     st0       |->  st0[self] ] >>
                                                 \o stack[self]]
            /\ tl0' = [tl0 EXCEPT ![self] = 0]
            /\ st0' = [st0 EXCEPT ![self] = 0]
            /\ pc' = [pc EXCEPT ![self] = "P1"]
            /\ UNCHANGED << cap, full, prog, head, tail, slot, val, cell, rxw, 
                            q, list, lock, node, nwk, txn, made, woken, tok, 
                            out, own, got, S, cur, h, u, bits, wk, old, mine, 
                            wt, kw, k, nm, ref, refop, lt, lh >>

S2(self) == /\ pc[self] = "S2"
            /\ IF out[self] # "full"
                  THEN /\ pc' = [pc EXCEPT ![self] = "Pushed"]
                       /\ stack' = stack
                  ELSE /\ stack' = [stack EXCEPT ![self] = << [ procedure |->  "starttx",
                                                                pc        |->  "S3" ] >>
                                                            \o stack[self]]
                       /\ pc' = [pc EXCEPT ![self] = "Q1"]
            /\ UNCHANGED << cap, full, prog, head, tail, slot, val, cell, rxw, 
                            q, list, lock, node, nwk, txn, made, woken, tok, 
                            out, own, got, S, cur, tl0, st0, h, u, bits, wk, 
                            old, mine, wt, kw, k, nm, ref, refop, lt, lh >>

S3(self) == /\ pc[self] = "S3"
            /\ IF out[self] = "Closed"
                  THEN /\ out' = [out EXCEPT ![self] = "closed"]
                       /\ pc' = [pc EXCEPT ![self] = "Return"]
                  ELSE /\ IF out[self] = "Notified"
                             THEN /\ IF nm[self] \in {"sendb", "sendt"}
                                        THEN /\ pc' = [pc EXCEPT ![self] = "S6"]
                                        ELSE /\ pc' = [pc EXCEPT ![self] = "S1"]
                             ELSE /\ pc' = [pc EXCEPT ![self] = "SWait"]
                       /\ out' = out
            /\ UNCHANGED << cap, full, prog, head, tail, slot, val, cell, rxw, 
                            q, list, lock, node, nwk, txn, made, woken, tok, 
                            own, got, S, cur, stack, tl0, st0, h, u, bits, wk, 
                            old, mine, wt, kw, k, nm, ref, refop, lt, lh >>

SWait(self) == /\ pc[self] = "SWait"
               /\ \/ /\ woken[self]
                     /\ pc' = [pc EXCEPT ![self] = "SPoll"]
                     /\ tok' = tok
                  \/ /\ nm[self] = "sendm" /\ tok[self] < 1
                     /\ tok' = [tok EXCEPT ![self] = tok[self] + 1]
                     /\ pc' = [pc EXCEPT ![self] = "SPoll"]
                  \/ /\ nm[self] = "sendc"
                     /\ pc' = [pc EXCEPT ![self] = "Cancel"]
                     /\ tok' = tok
                  \/ /\ nm[self] = "sendt"
                     /\ pc' = [pc EXCEPT ![self] = "Expire"]
                     /\ tok' = tok
               /\ UNCHANGED << cap, full, prog, head, tail, slot, val, cell, 
                               rxw, q, list, lock, node, nwk, txn, made, woken, 
                               out, own, got, S, cur, stack, tl0, st0, h, u, 
                               bits, wk, old, mine, wt, kw, k, nm, ref, refop, 
                               lt, lh >>

SPoll(self) == /\ pc[self] = "SPoll"
               /\ woken' = [woken EXCEPT ![self] = FALSE]
               /\ stack' = [stack EXCEPT ![self] = << [ procedure |->  "conttx",
                                                        pc        |->  "S5" ] >>
                                                    \o stack[self]]
               /\ pc' = [pc EXCEPT ![self] = "C1"]
               /\ UNCHANGED << cap, full, prog, head, tail, slot, val, cell, 
                               rxw, q, list, lock, node, nwk, txn, made, tok, 
                               out, own, got, S, cur, tl0, st0, h, u, bits, wk, 
                               old, mine, wt, kw, k, nm, ref, refop, lt, lh >>

S5(self) == /\ pc[self] = "S5"
            /\ IF out[self] = "Closed"
                  THEN /\ out' = [out EXCEPT ![self] = "closed"]
                       /\ pc' = [pc EXCEPT ![self] = "Return"]
                  ELSE /\ IF out[self] = "Wait"
                             THEN /\ pc' = [pc EXCEPT ![self] = "SWait"]
                             ELSE /\ pc' = [pc EXCEPT ![self] = "S6"]
                       /\ out' = out
            /\ UNCHANGED << cap, full, prog, head, tail, slot, val, cell, rxw, 
                            q, list, lock, node, nwk, txn, made, woken, tok, 
                            own, got, S, cur, stack, tl0, st0, h, u, bits, wk, 
                            old, mine, wt, kw, k, nm, ref, refop, lt, lh >>

S6(self) == /\ pc[self] = "S6"
            /\ stack' = [stack EXCEPT ![self] = << [ procedure |->  "push",
                                                     pc        |->  "S7",
                                                     tl0       |->  tl0[self],
                                                     st0       |->  st0[self] ] >>
                                                 \o stack[self]]
            /\ tl0' = [tl0 EXCEPT ![self] = 0]
            /\ st0' = [st0 EXCEPT ![self] = 0]
            /\ pc' = [pc EXCEPT ![self] = "P1"]
            /\ UNCHANGED << cap, full, prog, head, tail, slot, val, cell, rxw, 
                            q, list, lock, node, nwk, txn, made, woken, tok, 
                            out, own, got, S, cur, h, u, bits, wk, old, mine, 
                            wt, kw, k, nm, ref, refop, lt, lh >>

S7(self) == /\ pc[self] = "S7"
            /\ IF out[self] = "full"
                  THEN /\ IF nm[self] \notin {"sendb", "sendt"}
                             THEN /\ pc' = [pc EXCEPT ![self] = "S1"]
                                  /\ UNCHANGED << out, stack >>
                             ELSE /\ \/ /\ nm[self] = "sendt"
                                        /\ out' = [out EXCEPT ![self] = "timeout"]
                                        /\ pc' = [pc EXCEPT ![self] = "Return"]
                                        /\ stack' = stack
                                     \/ /\ stack' = [stack EXCEPT ![self] = << [ procedure |->  "starttx",
                                                                                 pc        |->  "S3" ] >>
                                                                             \o stack[self]]
                                        /\ pc' = [pc EXCEPT ![self] = "Q1"]
                                        /\ out' = out
                  ELSE /\ pc' = [pc EXCEPT ![self] = "Pushed"]
                       /\ UNCHANGED << out, stack >>
            /\ UNCHANGED << cap, full, prog, head, tail, slot, val, cell, rxw, 
                            q, list, lock, node, nwk, txn, made, woken, tok, 
                            own, got, S, cur, tl0, st0, h, u, bits, wk, old, 
                            mine, wt, kw, k, nm, ref, refop, lt, lh >>

Pushed(self) == /\ pc[self] = "Pushed"
                /\ IF out[self] # "ok"
                      THEN /\ pc' = [pc EXCEPT ![self] = "Return"]
                           /\ UNCHANGED << val, ref, refop >>
                      ELSE /\ IF nm[self] \in {"tryr", "sendr"}
                                 THEN /\ ref' = [ref EXCEPT ![self] = own[self]]
                                      /\ refop' = [refop EXCEPT ![self] = cur[self]]
                                      /\ pc' = [pc EXCEPT ![self] = "Return"]
                                      /\ val' = val
                                 ELSE /\ val' = [val EXCEPT ![IdxOf(own[self])] = cur[self]]
                                      /\ pc' = [pc EXCEPT ![self] = "PPub"]
                                      /\ UNCHANGED << ref, refop >>
                /\ UNCHANGED << cap, full, prog, head, tail, slot, cell, rxw, 
                                q, list, lock, node, nwk, txn, made, woken, 
                                tok, out, own, got, S, cur, stack, tl0, st0, h, 
                                u, bits, wk, old, mine, wt, kw, k, nm, lt, lh >>

PPub(self) == /\ pc[self] = "PPub"
              /\ slot' = [slot EXCEPT ![IdxOf(own[self])] = own[self] + 1]
              /\ /\ bits' = [bits EXCEPT ![self] = {}]
                 /\ stack' = [stack EXCEPT ![self] = << [ procedure |->  "notifyrx",
                                                          pc        |->  "PDone",
                                                          wk        |->  wk[self],
                                                          bits      |->  bits[self] ] >>
                                                      \o stack[self]]
              /\ wk' = [wk EXCEPT ![self] = 0]
              /\ pc' = [pc EXCEPT ![self] = "N1"]
              /\ UNCHANGED << cap, full, prog, head, tail, val, cell, rxw, q, 
                              list, lock, node, nwk, txn, made, woken, tok, 
                              out, own, got, S, cur, tl0, st0, h, u, old, mine, 
                              wt, kw, k, nm, ref, refop, lt, lh >>

PDone(self) == /\ pc[self] = "PDone"
               /\ out' = [out EXCEPT ![self] = "ok"]
               /\ IF nm[self] = "relp"
                     THEN /\ refop' = [refop EXCEPT ![self] = 0]
                     ELSE /\ TRUE
                          /\ refop' = refop
               /\ pc' = [pc EXCEPT ![self] = "Return"]
               /\ UNCHANGED << cap, full, prog, head, tail, slot, val, cell, 
                               rxw, q, list, lock, node, nwk, txn, made, woken, 
                               tok, own, got, S, cur, stack, tl0, st0, h, u, 
                               bits, wk, old, mine, wt, kw, k, nm, ref, lt, lh >>

Cancel(self) == /\ pc[self] = "Cancel"
                /\ S' = Dropped(S, cur[self])
                /\ stack' = [stack EXCEPT ![self] = << [ procedure |->  "removetx",
                                                         pc        |->  "PassOn" ] >>
                                                     \o stack[self]]
                /\ pc' = [pc EXCEPT ![self] = "R1"]
                /\ UNCHANGED << cap, full, prog, head, tail, slot, val, cell, 
                                rxw, q, list, lock, node, nwk, txn, made, 
                                woken, tok, out, own, got, cur, tl0, st0, h, u, 
                                bits, wk, old, mine, wt, kw, k, nm, ref, refop, 
                                lt, lh >>

PassOn(self) == /\ pc[self] = "PassOn"
                /\ IF out[self] = "notified"
                      THEN /\ stack' = [stack EXCEPT ![self] = << [ procedure |->  "notifytx",
                                                                    pc        |->  "Cancelled",
                                                                    wt        |->  wt[self] ] >>
                                                                \o stack[self]]
                           /\ wt' = [wt EXCEPT ![self] = 0]
                           /\ pc' = [pc EXCEPT ![self] = "T1"]
                      ELSE /\ pc' = [pc EXCEPT ![self] = "Cancelled"]
                           /\ UNCHANGED << stack, wt >>
                /\ UNCHANGED << cap, full, prog, head, tail, slot, val, cell, 
                                rxw, q, list, lock, node, nwk, txn, made, 
                                woken, tok, out, own, got, S, cur, tl0, st0, h, 
                                u, bits, wk, old, mine, kw, k, nm, ref, refop, 
                                lt, lh >>

Cancelled(self) == /\ pc[self] = "Cancelled"
                   /\ cur' = [cur EXCEPT ![self] = 0]
                   /\ k' = [k EXCEPT ![self] = k[self] + 1]
                   /\ pc' = [pc EXCEPT ![self] = "Fetch"]
                   /\ UNCHANGED << cap, full, prog, head, tail, slot, val, 
                                   cell, rxw, q, list, lock, node, nwk, txn, 
                                   made, woken, tok, out, own, got, S, stack, 
                                   tl0, st0, h, u, bits, wk, old, mine, wt, kw, 
                                   nm, ref, refop, lt, lh >>

Expire(self) == /\ pc[self] = "Expire"
                /\ stack' = [stack EXCEPT ![self] = << [ procedure |->  "removetx",
                                                         pc        |->  "Expired" ] >>
                                                     \o stack[self]]
                /\ pc' = [pc EXCEPT ![self] = "R1"]
                /\ UNCHANGED << cap, full, prog, head, tail, slot, val, cell, 
                                rxw, q, list, lock, node, nwk, txn, made, 
                                woken, tok, out, own, got, S, cur, tl0, st0, h, 
                                u, bits, wk, old, mine, wt, kw, k, nm, ref, 
                                refop, lt, lh >>

Expired(self) == /\ pc[self] = "Expired"
                 /\ IF out[self] = "removed"
                       THEN /\ out' = [out EXCEPT ![self] = "timeout"]
                            /\ pc' = [pc EXCEPT ![self] = "Return"]
                            /\ UNCHANGED << stack, tl0, st0 >>
                       ELSE /\ stack' = [stack EXCEPT ![self] = << [ procedure |->  "push",
                                                                     pc        |->  "LastChance",
                                                                     tl0       |->  tl0[self],
                                                                     st0       |->  st0[self] ] >>
                                                                 \o stack[self]]
                            /\ tl0' = [tl0 EXCEPT ![self] = 0]
                            /\ st0' = [st0 EXCEPT ![self] = 0]
                            /\ pc' = [pc EXCEPT ![self] = "P1"]
                            /\ out' = out
                 /\ UNCHANGED << cap, full, prog, head, tail, slot, val, cell, 
                                 rxw, q, list, lock, node, nwk, txn, made, 
                                 woken, tok, own, got, S, cur, h, u, bits, wk, 
                                 old, mine, wt, kw, k, nm, ref, refop, lt, lh >>

LastChance(self) == /\ pc[self] = "LastChance"
                    /\ IF out[self] = "full"
                          THEN /\ out' = [out EXCEPT ![self] = "timeout"]
                               /\ pc' = [pc EXCEPT ![self] = "Return"]
                          ELSE /\ pc' = [pc EXCEPT ![self] = "Pushed"]
                               /\ out' = out
                    /\ UNCHANGED << cap, full, prog, head, tail, slot, val, 
                                    cell, rxw, q, list, lock, node, nwk, txn, 
                                    made, woken, tok, own, got, S, cur, stack, 
                                    tl0, st0, h, u, bits, wk, old, mine, wt, 
                                    kw, k, nm, ref, refop, lt, lh >>

RLoop(self) == /\ pc[self] = "RLoop"
               /\ stack' = [stack EXCEPT ![self] = << [ procedure |->  "pop",
                                                        pc        |->  "R21",
                                                        h         |->  h[self],
                                                        u         |->  u[self] ] >>
                                                    \o stack[self]]
               /\ h' = [h EXCEPT ![self] = 0]
               /\ u' = [u EXCEPT ![self] = 0]
               /\ pc' = [pc EXCEPT ![self] = "O1"]
               /\ UNCHANGED << cap, full, prog, head, tail, slot, val, cell, 
                               rxw, q, list, lock, node, nwk, txn, made, woken, 
                               tok, out, own, got, S, cur, tl0, st0, bits, wk, 
                               old, mine, wt, kw, k, nm, ref, refop, lt, lh >>

R21(self) == /\ pc[self] = "R21"
             /\ IF out[self] # "empty"
                   THEN /\ pc' = [pc EXCEPT ![self] = "Popped"]
                        /\ UNCHANGED << stack, old, mine >>
                   ELSE /\ stack' = [stack EXCEPT ![self] = << [ procedure |->  "waitrx",
                                                                 pc        |->  "R22",
                                                                 old       |->  old[self],
                                                                 mine      |->  mine[self] ] >>
                                                             \o stack[self]]
                        /\ old' = [old EXCEPT ![self] = 0]
                        /\ mine' = [mine EXCEPT ![self] = 0]
                        /\ pc' = [pc EXCEPT ![self] = "W1"]
             /\ UNCHANGED << cap, full, prog, head, tail, slot, val, cell, rxw, 
                             q, list, lock, node, nwk, txn, made, woken, tok, 
                             out, own, got, S, cur, tl0, st0, h, u, bits, wk, 
                             wt, kw, k, nm, ref, refop, lt, lh >>

R22(self) == /\ pc[self] = "R22"
             /\ IF out[self] = "Notified"
                   THEN /\ pc' = [pc EXCEPT ![self] = "RLoop"]
                        /\ UNCHANGED << stack, h, u >>
                   ELSE /\ IF out[self] = "Closed"
                              THEN /\ stack' = [stack EXCEPT ![self] = << [ procedure |->  "pop",
                                                                            pc        |->  "R24",
                                                                            h         |->  h[self],
                                                                            u         |->  u[self] ] >>
                                                                        \o stack[self]]
                                   /\ h' = [h EXCEPT ![self] = 0]
                                   /\ u' = [u EXCEPT ![self] = 0]
                                   /\ pc' = [pc EXCEPT ![self] = "O1"]
                              ELSE /\ stack' = [stack EXCEPT ![self] = << [ procedure |->  "pop",
                                                                            pc        |->  "R23",
                                                                            h         |->  h[self],
                                                                            u         |->  u[self] ] >>
                                                                        \o stack[self]]
                                   /\ h' = [h EXCEPT ![self] = 0]
                                   /\ u' = [u EXCEPT ![self] = 0]
                                   /\ pc' = [pc EXCEPT ![self] = "O1"]
             /\ UNCHANGED << cap, full, prog, head, tail, slot, val, cell, rxw, 
                             q, list, lock, node, nwk, txn, made, woken, tok, 
                             out, own, got, S, cur, tl0, st0, bits, wk, old, 
                             mine, wt, kw, k, nm, ref, refop, lt, lh >>

R23(self) == /\ pc[self] = "R23"
             /\ IF out[self] # "empty"
                   THEN /\ pc' = [pc EXCEPT ![self] = "Popped"]
                   ELSE /\ pc' = [pc EXCEPT ![self] = "RWait"]
             /\ UNCHANGED << cap, full, prog, head, tail, slot, val, cell, rxw, 
                             q, list, lock, node, nwk, txn, made, woken, tok, 
                             out, own, got, S, cur, stack, tl0, st0, h, u, 
                             bits, wk, old, mine, wt, kw, k, nm, ref, refop, 
                             lt, lh >>

RWait(self) == /\ pc[self] = "RWait"
               /\ \/ /\ woken[self]
                     /\ woken' = [woken EXCEPT ![self] = FALSE]
                     /\ pc' = [pc EXCEPT ![self] = "RLoop"]
                     /\ UNCHANGED <<tok, out, S>>
                  \/ /\ nm[self] = "recvm" /\ tok[self] < 1
                     /\ tok' = [tok EXCEPT ![self] = tok[self] + 1]
                     /\ woken' = [woken EXCEPT ![self] = FALSE]
                     /\ pc' = [pc EXCEPT ![self] = "RLoop"]
                     /\ UNCHANGED <<out, S>>
                  \/ /\ nm[self] = "recvc"
                     /\ S' = Dropped(S, cur[self])
                     /\ pc' = [pc EXCEPT ![self] = "Cancelled"]
                     /\ UNCHANGED <<woken, tok, out>>
                  \/ /\ nm[self] = "recvt"
                     /\ out' = [out EXCEPT ![self] = "timeout"]
                     /\ pc' = [pc EXCEPT ![self] = "Return"]
                     /\ UNCHANGED <<woken, tok, S>>
               /\ UNCHANGED << cap, full, prog, head, tail, slot, val, cell, 
                               rxw, q, list, lock, node, nwk, txn, made, own, 
                               got, cur, stack, tl0, st0, h, u, bits, wk, old, 
                               mine, wt, kw, k, nm, ref, refop, lt, lh >>

R24(self) == /\ pc[self] = "R24"
             /\ IF out[self] # "ok"
                   THEN /\ out' = [out EXCEPT ![self] = "closed"]
                   ELSE /\ TRUE
                        /\ out' = out
             /\ pc' = [pc EXCEPT ![self] = "Popped"]
             /\ UNCHANGED << cap, full, prog, head, tail, slot, val, cell, rxw, 
                             q, list, lock, node, nwk, txn, made, woken, tok, 
                             own, got, S, cur, stack, tl0, st0, h, u, bits, wk, 
                             old, mine, wt, kw, k, nm, ref, refop, lt, lh >>

Popped(self) == /\ pc[self] = "Popped"
                /\ got' = [got EXCEPT ![self] = IF out[self] = "ok" THEN val[IdxOf(own[self])] ELSE 0]
                /\ IF out[self] # "ok"
                      THEN /\ pc' = [pc EXCEPT ![self] = "Return"]
                           /\ UNCHANGED << ref, refop >>
                      ELSE /\ IF nm[self] \in {"getr", "recvr"}
                                 THEN /\ ref' = [ref EXCEPT ![self] = own[self]]
                                      /\ refop' = [refop EXCEPT ![self] = cur[self]]
                                      /\ pc' = [pc EXCEPT ![self] = "Return"]
                                 ELSE /\ pc' = [pc EXCEPT ![self] = "Free"]
                                      /\ UNCHANGED << ref, refop >>
                /\ UNCHANGED << cap, full, prog, head, tail, slot, val, cell, 
                                rxw, q, list, lock, node, nwk, txn, made, 
                                woken, tok, out, own, S, cur, stack, tl0, st0, 
                                h, u, bits, wk, old, mine, wt, kw, k, nm, lt, 
                                lh >>

Free(self) == /\ pc[self] = "Free"
              /\ slot' = [slot EXCEPT ![IdxOf(own[self])] = own[self] + G]
              /\ stack' = [stack EXCEPT ![self] = << [ procedure |->  "notifytx",
                                                       pc        |->  "Freed",
                                                       wt        |->  wt[self] ] >>
                                                   \o stack[self]]
              /\ wt' = [wt EXCEPT ![self] = 0]
              /\ pc' = [pc EXCEPT ![self] = "T1"]
              /\ UNCHANGED << cap, full, prog, head, tail, val, cell, rxw, q, 
                              list, lock, node, nwk, txn, made, woken, tok, 
                              out, own, got, S, cur, tl0, st0, h, u, bits, wk, 
                              old, mine, kw, k, nm, ref, refop, lt, lh >>

Freed(self) == /\ pc[self] = "Freed"
               /\ out' = [out EXCEPT ![self] = "ok"]
               /\ IF nm[self] = "relc"
                     THEN /\ refop' = [refop EXCEPT ![self] = 0]
                     ELSE /\ TRUE
                          /\ refop' = refop
               /\ pc' = [pc EXCEPT ![self] = "Return"]
               /\ UNCHANGED << cap, full, prog, head, tail, slot, val, cell, 
                               rxw, q, list, lock, node, nwk, txn, made, woken, 
                               tok, own, got, S, cur, stack, tl0, st0, h, u, 
                               bits, wk, old, mine, wt, kw, k, nm, ref, lt, lh >>

D1(self) == /\ pc[self] = "D1"
            /\ txn' = txn - 1
            /\ IF txn' > 0
                  THEN /\ out' = [out EXCEPT ![self] = "ok"]
                       /\ pc' = [pc EXCEPT ![self] = "Return"]
                  ELSE /\ pc' = [pc EXCEPT ![self] = "D2"]
                       /\ out' = out
            /\ UNCHANGED << cap, full, prog, head, tail, slot, val, cell, rxw, 
                            q, list, lock, node, nwk, made, woken, tok, own, 
                            got, S, cur, stack, tl0, st0, h, u, bits, wk, old, 
                            mine, wt, kw, k, nm, ref, refop, lt, lh >>

D2(self) == /\ pc[self] = "D2"
            /\ tail' = [tail EXCEPT !.c = TRUE]
            /\ /\ bits' = [bits EXCEPT ![self] = {"C"}]
               /\ stack' = [stack EXCEPT ![self] = << [ procedure |->  "notifyrx",
                                                        pc        |->  "D3",
                                                        wk        |->  wk[self],
                                                        bits      |->  bits[self] ] >>
                                                    \o stack[self]]
            /\ wk' = [wk EXCEPT ![self] = 0]
            /\ pc' = [pc EXCEPT ![self] = "N1"]
            /\ UNCHANGED << cap, full, prog, head, slot, val, cell, rxw, q, 
                            list, lock, node, nwk, txn, made, woken, tok, out, 
                            own, got, S, cur, tl0, st0, h, u, old, mine, wt, 
                            kw, k, nm, ref, refop, lt, lh >>

D3(self) == /\ pc[self] = "D3"
            /\ out' = [out EXCEPT ![self] = "ok"]
            /\ pc' = [pc EXCEPT ![self] = "Return"]
            /\ UNCHANGED << cap, full, prog, head, tail, slot, val, cell, rxw, 
                            q, list, lock, node, nwk, txn, made, woken, tok, 
                            own, got, S, cur, stack, tl0, st0, h, u, bits, wk, 
                            old, mine, wt, kw, k, nm, ref, refop, lt, lh >>

E1(self) == /\ pc[self] = "E1"
            /\ IF tail.c
                  THEN /\ out' = [out EXCEPT ![self] = "ok"]
                       /\ pc' = [pc EXCEPT ![self] = "Return"]
                       /\ tail' = tail
                  ELSE /\ tail' = [tail EXCEPT !.c = TRUE]
                       /\ pc' = [pc EXCEPT ![self] = "E2"]
                       /\ out' = out
            /\ UNCHANGED << cap, full, prog, head, slot, val, cell, rxw, q, 
                            list, lock, node, nwk, txn, made, woken, tok, own, 
                            got, S, cur, stack, tl0, st0, h, u, bits, wk, old, 
                            mine, wt, kw, k, nm, ref, refop, lt, lh >>

E2(self) == /\ pc[self] = "E2"
            /\ stack' = [stack EXCEPT ![self] = << [ procedure |->  "closetx",
                                                     pc        |->  "E3",
                                                     kw        |->  kw[self] ] >>
                                                 \o stack[self]]
            /\ kw' = [kw EXCEPT ![self] = 0]
            /\ pc' = [pc EXCEPT ![self] = "K1"]
            /\ UNCHANGED << cap, full, prog, head, tail, slot, val, cell, rxw, 
                            q, list, lock, node, nwk, txn, made, woken, tok, 
                            out, own, got, S, cur, tl0, st0, h, u, bits, wk, 
                            old, mine, wt, k, nm, ref, refop, lt, lh >>

E3(self) == /\ pc[self] = "E3"
            /\ out' = [out EXCEPT ![self] = "ok"]
            /\ pc' = [pc EXCEPT ![self] = "Return"]
            /\ UNCHANGED << cap, full, prog, head, tail, slot, val, cell, rxw, 
                            q, list, lock, node, nwk, txn, made, woken, tok, 
                            own, got, S, cur, stack, tl0, st0, h, u, bits, wk, 
                            old, mine, wt, kw, k, nm, ref, refop, lt, lh >>

Return(self) == /\ pc[self] = "Return"
                /\ S' = Returned(S, cur[self], out[self],
                          out[self] = "ok" /\ nm[self] \in {"get", "recv", "getr", "recvr", "recvt", "recvc", "recvm", "len", "isc"}, got[self])
                /\ cur' = [cur EXCEPT ![self] = 0]
                /\ k' = [k EXCEPT ![self] = k[self] + 1]
                /\ pc' = [pc EXCEPT ![self] = "Fetch"]
                /\ UNCHANGED << cap, full, prog, head, tail, slot, val, cell, 
                                rxw, q, list, lock, node, nwk, txn, made, 
                                woken, tok, out, own, got, stack, tl0, st0, h, 
                                u, bits, wk, old, mine, wt, kw, nm, ref, refop, 
                                lt, lh >>

T(self) == Fetch(self) \/ Go(self) \/ Bad(self) \/ L1(self) \/ L2(self)
              \/ L3(self) \/ Seen(self) \/ SStart(self) \/ S1(self)
              \/ S2(self) \/ S3(self) \/ SWait(self) \/ SPoll(self)
              \/ S5(self) \/ S6(self) \/ S7(self) \/ Pushed(self)
              \/ PPub(self) \/ PDone(self) \/ Cancel(self) \/ PassOn(self)
              \/ Cancelled(self) \/ Expire(self) \/ Expired(self)
              \/ LastChance(self) \/ RLoop(self) \/ R21(self) \/ R22(self)
              \/ R23(self) \/ RWait(self) \/ R24(self) \/ Popped(self)
              \/ Free(self) \/ Freed(self) \/ D1(self) \/ D2(self)
              \/ D3(self) \/ E1(self) \/ E2(self) \/ E3(self)
              \/ Return(self)

(* Allow infinite stuttering to prevent deadlock on termination. *)
Terminating == /\ \A self \in ProcSet: pc[self] = "Done"
               /\ UNCHANGED vars

Next == (\E self \in ProcSet:  \/ push(self) \/ pop(self) \/ notifyrx(self)
                               \/ waitrx(self) \/ starttx(self)
                               \/ conttx(self) \/ notifytx(self)
                               \/ closetx(self) \/ removetx(self))
           \/ (\E self \in Threads: T(self))
           \/ Terminating

Spec == Init /\ [][Next]_vars

Termination == <>(\A self \in ProcSet: pc[self] = "Done")

\* END TRANSLATION
==============================================================================
