---------------------------- MODULE CyamlClient ----------------------------
(***************************************************************************)
(* A client that makes any calls it likes, in any order: loads of several  *)
(* documents with several schemas (some of which fail, some refused by a   *)
(* callback), copies of what it has and copies of those, saves, frees.     *)
(* Every history up to a length is explored; the invariants say that no    *)
(* call's result depends on those before it, and that no call touches what *)
(* the client got from the others.  The histories are printed, to be made  *)
(* with the real library.                                                  *)
(***************************************************************************)
EXTENDS Meaning, Json, IOUtils

VARIABLES hist,      \* the calls so far, the one being made last
          slots      \* what the client has: [has, ty, id, cnt, v]

FromFile == ndJsonDeserialize(IOEnv.SCN)
ClientScn == FromFile
S == Scn[sid]
(* libyaml's events of the document being read, then errors for ever *)
ClientEvents(n) == LET d == Scn[n.env[1]].docs[n.env[2]]
                   IN {IF n.pos < Len(d) THEN d[n.pos + 1] ELSE [k |-> "ERR", v |-> <<>>, a |-> <<>>, l |-> 1, c |-> 1]}

None == [has |-> FALSE, ty |-> 1, id |-> 0, cnt |-> 0, v |-> Nothing]
Slots == 1..S.slots
Room == {i \in Slots : ~slots[i].has}
To == CHOOSE i \in Room : \A j \in Room : i <= j
Idle == m.pc = "call"
May == Idle /\ Len(hist) < S.len
Call(op, n) == m' = n /\ hist' = Append(hist, op) /\ UNCHANGED <<sid, slots>>
Load == May /\ Room # {} /\ \E i \in 1..Len(S.calls) :
  LET c == S.calls[i] IN
  Call([k |-> "LOAD", a |-> <<c.ty, To, c.doc - 1, c.rej>>], StartLoad([m EXCEPT !.env = <<sid, c.doc>>], c.ty, c.rej, -1))
Count(i) == LET t == T(slots[i].ty) IN IF t.t = "SEQUENCE_FIXED" THEN t.smax ELSE slots[i].cnt
Given(i) == slots[i].id # 0 /\ (T(slots[i].ty).t = "SEQUENCE" => slots[i].cnt # 0)
Full == {i \in Slots : slots[i].has}
Save == May /\ \E i \in Full : Given(i) /\ Call([k |-> "SAVE", a |-> <<i>>], StartSave(m, slots[i].ty, slots[i].id, Count(i)))
Copy == May /\ Room # {} /\ \E i \in Full : Given(i) /\
  Call([k |-> "COPY", a |-> <<i, To>>], StartCopy(m, slots[i].ty, slots[i].id, Count(i), -1))
Free == May /\ \E i \in Full : Call([k |-> "FREE", a |-> <<i>>], StartFree(m, slots[i].ty, slots[i].id, slots[i].cnt))
Run == m.pc \notin {"call", "ret"} /\ Library /\ UNCHANGED <<sid, hist, slots>>

Op == hist[Len(hist)]
AtSlot(s) == At([m EXCEPT !.h[1] = Block(24, PtrBytes \o Zeros(16), IF s.id = 0 THEN NoPtr ELSE (0 :> s.id), FALSE)], s.ty, Root, s.cnt)
After ==
  CASE Op.k = "LOAD" /\ m.err = "OK" ->
         LET s == [has |-> TRUE, ty |-> Op.a[1], id |-> Ptr(m, Root), cnt |-> IF T(Op.a[1]).t = "SEQUENCE" THEN CountAt(m, RootCnt, 4) ELSE 0, v |-> Nothing]
         IN [slots EXCEPT ![Op.a[2]] = [s EXCEPT !.v = AtSlot(s)]]
    [] Op.k = "COPY" /\ m.err = "OK" -> [slots EXCEPT ![Op.a[2]] = [slots[Op.a[1]] EXCEPT !.id = Ptr(m, CopyDst)]]
    [] Op.k = "FREE" -> [slots EXCEPT ![Op.a[1]] = None]
    [] OTHER -> slots
Return == /\ m.pc = "ret" /\ slots' = After
          /\ m' = [m EXCEPT !.pc = "call", !.cb = <<>>, !.bt = <<>>, !.em = <<>>, !.doc = <<>>, !.rej = 0,
                            !.rd = [anc |-> <<>>, rec |-> <<>>, q |-> <<>>]]
          /\ (Len(hist) = S.len => PrintT(<<"HIST", sid, ToJson(hist)>>))
          /\ UNCHANGED <<sid, hist>>
End == Idle /\ Len(hist) = S.len /\ UNCHANGED <<sid, m, hist, slots>>
Init == /\ sid \in 1..Len(Scn) /\ m = InitM(Scn[sid].statics, TRUE)
        /\ hist = <<>> /\ slots = [i \in 1..Scn[sid].slots |-> None]
Next == Load \/ Save \/ Copy \/ Free \/ Run \/ Return \/ End
Spec == Init /\ [][Next]_<<sid, m, hist, slots>>

-----------------------------------------------------------------------------
Done == m.pc = "ret"
Blocks(id) == Reach(m, {id} \ {0})
Safe == MemorySafe
(* the client has what it had, and nothing else is left, whatever the call and its result *)
Kept == Idle => \A i \in Full : AtSlot(slots[i]) = slots[i].v
Apart == Idle => /\ Live(m) = UNION {Blocks(slots[i].id) : i \in Full}
                 /\ \A i, j \in Full : i # j => Blocks(slots[i].id) \cap Blocks(slots[j].id) = {}
(* a load means what its document does, always *)
Alone == Done /\ Op.k = "LOAD" => LET r == Stream(m.doc, Op.a[1]) IN
  /\ m.err = r.e
  /\ r.e = "OK" => At(m, Op.a[1], Root, CountAt(m, RootCnt, 4)) = r.v
  /\ [i \in 1..Len(m.cb) |-> <<m.cb[i].ty, m.cb[i].k>>] = r.cb
(* a save writes what its data is *)
Saved == Done /\ Op.k = "SAVE" => LET s == slots[Op.a[1]]  w == Image(s.ty, s.v, FALSE) IN
  /\ m.err = (IF IsNo(w) THEN w.x ELSE "OK")
  /\ m.err = "OK" => Plain(Written(m.em)) = w
Copied == Done /\ Op.k = "COPY" => m.err = "OK"
DefaultsKept == \A i \in 1..Len(S.statics) : m.h[i + 2].b = S.statics[i].b
=============================================================================
