------------------------------ MODULE CyamlMC ------------------------------
(***************************************************************************)
(* Bounded model checking of the machine of Cyaml.tla: for each scenario   *)
(* (a schema, and the words its documents may be made of) every document   *)
(* up to a number of events, every refusal by the client's callbacks and   *)
(* every refusal by the client's allocator; what loads is saved, copied    *)
(* and freed.  The invariants say that the machine is right, in terms that *)
(* are not its own (Meaning.tla).  The documents met are printed, to be    *)
(* given to the real library.                                              *)
(***************************************************************************)
EXTENDS Meaning, Json, IOUtils

VARIABLES ph, keptv      \* the call being made; what has been loaded [v, id, cnt]

FromFile == ndJsonDeserialize(IOEnv.SCN)
MCScn == FromFile
S == Scn[sid]
Has(b) == b \in {S.do[i] : i \in 1..Len(S.do)}

-----------------------------------------------------------------------------
(* The environment: the documents.  Where are we, after these events?      *)
(* A stack of <<"Q" or "M", key wanted?>>, innermost first.                *)
RECURSIVE Nest(_, _, _)
Nest(d, i, st) ==
  IF i > Len(d) THEN st
  ELSE LET e == d[i]
           flip(s) == IF s # <<>> /\ Head(s)[1] = "M" THEN <<<<"M", ~Head(s)[2]>>>> \o Tail(s) ELSE s
       IN CASE e.k \in {"SC", "AL"} -> Nest(d, i + 1, flip(st))
            [] e.k = "QS" -> Nest(d, i + 1, <<<<"Q", FALSE>>>> \o flip(st))
            [] e.k = "MS" -> Nest(d, i + 1, <<<<"M", TRUE>>>> \o flip(st))
            [] e.k \in {"QE", "ME"} -> Nest(d, i + 1, Tail(st))
            [] OTHER -> Nest(d, i + 1, st)
E(k, w, a, n) == [k |-> k, v |-> w, a |-> a, l |-> n, c |-> 1, f |-> [ok |-> FALSE]]
Set(s) == {s[i] : i \in 1..Len(s)}
Words(ws, l) == {[k |-> "SC", v |-> w.v, a |-> w.a, l |-> l, c |-> 1, f |-> w.f] : w \in Set(ws)}
Failed(d) == d # <<>> /\ d[Len(d)].k = "ERR"
MCEvents(n) ==
  LET d == n.doc
      l == Len(d) + 1
      st == Nest(d, 1, <<>>)
      room == S.max - Len(d) - Len(st)      \* what may still be added, with what is open closed
      key == st # <<>> /\ st[1][1] = "M" /\ st[1][2]
      val == st # <<>> /\ st[1][1] = "M" /\ ~st[1][2]
      err == IF S.errs THEN {E("ERR", <<>>, <<>>, l)} ELSE {}
      scalars == IF key THEN Words(S.keys, l) ELSE Words(S.vals, l)
      aliases == {E("AL", <<>>, a, l) : a \in Set(S.als)}
      starts == IF Len(st) >= S.deep \/ (key /\ ~S.oddkeys) THEN {}
                ELSE {E("QS", <<>>, a, l) : a \in Set(S.ancs)} \cup {E("MS", <<>>, a, l) : a \in Set(S.ancs)}
      ends == IF st = <<>> \/ val THEN {} ELSE {E(IF st[1][1] = "Q" THEN "QE" ELSE "ME", <<>>, <<>>, l)}
  IN IF Failed(d) THEN {E("ERR", <<>>, <<>>, l)}
     ELSE IF Len(d) = 0 THEN {E("SS", <<>>, <<>>, l)} \cup err
     ELSE IF Len(d) = 1 THEN {E("DS", <<>>, <<>>, l), E("SE", <<>>, <<>>, l)} \cup err
     ELSE IF d[Len(d)].k \in {"DE", "SE"} THEN {E("SE", <<>>, <<>>, l)} \cup err \cup (IF S.errs THEN {E("DS", <<>>, <<>>, l)} ELSE {})
     ELSE IF Len(d) > 2 /\ st = <<>> THEN {E("DE", <<>>, <<>>, l)} \cup err
     ELSE (IF room > 0 THEN scalars \cup aliases ELSE {})
          \cup (IF room > 1 THEN starts ELSE {}) \cup ends \cup err
(* (a mapping's key needs room for its value) *)
RawMC(n) == LET d == n.doc  st == Nest(d, 1, <<>>)
                key == st # <<>> /\ st[1][1] = "M" /\ st[1][2]
                room == S.max - Len(d) - Len(st)
            IN IF key /\ room < 2 THEN {e \in MCEvents(n) : e.k \in {"ME", "ERR"}} ELSE MCEvents(n)

-----------------------------------------------------------------------------
(* The calls *)
NoVal == [v |-> Nothing, id |-> 0, cnt |-> 0, cp |-> 0]
Init == /\ sid \in 1..Len(Scn)
        /\ m = InitM(Scn[sid].statics, TRUE)
        /\ ph = "begin" /\ keptv = NoVal
Begin == ph = "begin" /\ ph' = "load"
         /\ \E rej \in Set(S.rejs), bud \in Set(S.buds) :
              (rej = 0 \/ bud = -1) /\ m' = StartLoad(m, S.root, rej, bud)
         /\ UNCHANGED <<sid, keptv>>
Loaded == [v |-> At(m, S.root, Root, CountAt(m, RootCnt, 4)), id |-> Ptr(m, Root), cnt |-> CountAt(m, RootCnt, 4), cp |-> 0]
Idle(n) == [n EXCEPT !.pc = "call", !.cb = <<>>, !.bt = <<>>, !.em = <<>>, !.rej = 0,
                     !.rd = [anc |-> <<>>, rec |-> <<>>, q |-> <<>>]]
Count(c) == IF T(S.root).t = "SEQUENCE" THEN c ELSE IF T(S.root).t = "SEQUENCE_FIXED" THEN T(S.root).smax ELSE 0
(* the real document, for replay: the events as they came *)
Show == PrintT(<<"DOC", sid, m.rej, ToJson([i \in 1..Len(m.doc) |-> <<m.doc[i].k, m.doc[i].v, m.doc[i].a>>])>>)
AfterLoad ==
  /\ ph = "load" /\ m.pc = "ret"
  /\ (m.bud = -1 => Show)
  /\ IF m.err = "OK" THEN ph' = "loaded" /\ keptv' = Loaded ELSE ph' = "end" /\ keptv' = NoVal
  /\ m' = Idle([m EXCEPT !.doc = <<>>]) /\ UNCHANGED sid
Empty == keptv.id = 0 \/ (T(S.root).t = "SEQUENCE" /\ keptv.cnt = 0)
Save == ph = "loaded" /\ Has("save") /\ ~Empty /\ ph' = "save" /\ m' = StartSave([m EXCEPT !.bud = -1], S.root, keptv.id, Count(keptv.cnt))
        /\ UNCHANGED <<sid, keptv>>
AfterSave == ph = "save" /\ m.pc = "ret" /\ ph' = "saved" /\ m' = Idle(m) /\ UNCHANGED <<sid, keptv>>
Copy == /\ ph = (IF Has("save") THEN "saved" ELSE "loaded") /\ Has("copy") /\ ~Empty
        /\ ph' = "copy" /\ \E b \in Set(S.cbuds) : m' = StartCopy(m, S.root, keptv.id, Count(keptv.cnt), b)
        /\ UNCHANGED <<sid, keptv>>
AfterCopy == ph = "copy" /\ m.pc = "ret" /\ ph' = "copied" /\ m' = Idle(m)
             /\ keptv' = [keptv EXCEPT !.cp = IF m.err = "OK" THEN Ptr(m, CopyDst) ELSE 0] /\ UNCHANGED sid
(* the original first, then the copy *)
Free == /\ \/ ph = "copied" \/ (ph = "saved" /\ ~Has("copy")) \/ (ph = "loaded" /\ (Empty \/ (~Has("save") /\ ~Has("copy"))))
        /\ ph' = "free" /\ m' = StartFree(m, S.root, keptv.id, Count(keptv.cnt)) /\ UNCHANGED <<sid, keptv>>
AfterFree == ph = "free" /\ m.pc = "ret" /\ ph' = (IF keptv.cp # 0 THEN "freed" ELSE "end") /\ m' = Idle(m) /\ UNCHANGED <<sid, keptv>>
FreeCopy == ph = "freed" /\ ph' = "free2" /\ m' = StartFree(m, S.root, keptv.cp, Count(keptv.cnt)) /\ UNCHANGED <<sid, keptv>>
AfterFree2 == ph = "free2" /\ m.pc = "ret" /\ ph' = "end" /\ m' = Idle(m) /\ UNCHANGED <<sid, keptv>>
Run == m.pc \notin {"call", "ret"} /\ Library /\ UNCHANGED <<sid, ph, keptv>>
Ended == ph = "end" /\ UNCHANGED <<sid, m, ph, keptv>>
Next == Ended \/ Begin \/ Run \/ AfterLoad \/ Save \/ AfterSave \/ Copy \/ AfterCopy \/ Free \/ AfterFree \/ FreeCopy \/ AfterFree2
Spec == Init /\ [][Next]_<<sid, m, ph, keptv>>

-----------------------------------------------------------------------------
(* The invariants.                                                         *)
Ret(p) == ph = p /\ m.pc = "ret"
Done(p) == Ret(p) /\ m.err = "OK"
RootId == Ptr(m, Root)
RootCount == CountAt(m, RootCnt, 4)
Blocks(id) == Reach(m, {id} \ {0})
Meant == Stream(m.doc, S.root)

(* C02 C07: no access outside of the memory given, none after its release, no second release *)
Safe == MemorySafe
(* C01 C03: nothing is left of a load that fails *)
CleanFailure == Ret("load") /\ m.err # "OK" => Live(m) = {}
(* C04 C05 C06 C08 C09 C10 C11 C13 C17 C24: the result is the document's meaning *)
LoadMeans == Ret("load") /\ m.err # "OOM" => m.err = Meant.e
LoadGives == Done("load") => At(m, S.root, Root, RootCount) = Meant.v
(* C02: one owner each, and nothing else *)
Owned(id) == \A i \in Blocks(id) : Owners(m, Blocks(id), i) = (IF i = id THEN 0 ELSE 1)
LoadOwned == Done("load") => Live(m) = Blocks(RootId) /\ Owned(RootId)
(* C07: values are in the places given, and elsewhere there is nothing *)
HeldBy(id) == Held([m EXCEPT !.h[1] = Block(24, PtrBytes \o Zeros(16), IF id = 0 THEN NoPtr ELSE (0 :> id), FALSE)], S.root, Root, RootCount)
ZeroElsewhere(id) ==
  LET held == HeldBy(id) IN
  \A i \in Blocks(id) : \A o \in 0..(m.h[i].n - 1) : <<i, o>> \in held \/ m.h[i].b[o + 1] = 0
LoadPlaced == Done("load") /\ RootId # 0 => ZeroElsewhere(RootId)
(* C12: the callbacks made are those the meaning calls for, in order; a refusal is an invalid value *)
LoadAsks == Ret("load") /\ m.err # "OOM" =>
  /\ [i \in 1..Len(m.cb) |-> <<m.cb[i].ty, m.cb[i].k>>] = Meant.cb
  /\ (m.rej \in 1..Len(m.cb) => m.err = "INVALID_VALUE" /\ m.rej = Len(m.cb))
(* C03: a refused allocation is reported as such; otherwise nothing is *)
OomTrue == m.pc = "ret" /\ m.bud = -1 => m.err # "OOM"
(* C20: the backtrace is the way to the error *)
LoadTraced == Ret("load") /\ m.err \notin {"OK", "OOM"} => [i \in 1..Len(m.bt) |-> [k |-> m.bt[i].k, n |-> m.bt[i].n, i |-> m.bt[i].i]] = Meant.way
(* C26: a failure of the document's own making is explained, and nothing else is; the *)
(* client is warned of every key passed over, where it asks for that, and of no other *)
Faults == {"INVALID_KEY", "MAPPING_FIELD_MISSING", "INVALID_ALIAS", "STRING_LENGTH_MIN", "STRING_LENGTH_MAX",
           "SEQUENCE_ENTRIES_MIN", "SEQUENCE_ENTRIES_MAX", "LIBYAML_PARSER"}
Explained == Ret("load") => (m.err \in {"OK", "OOM"} => m.why = <<>>) /\ (m.err \in Faults => m.why # <<>>)
Names(s) == SelectSeq(s, LAMBDA k : k # <<>>)
LoadWarned == Done("load") =>
  Names(m.wn) = (IF Cfg.warn /\ m.doc[2].k = "DS" THEN PassedOver(S.root, Resolve(Tree(m.doc, 3).n, <<>>).t) ELSE <<>>)
(* C14: what is written is the image of the data, or says why not *)
Value == Image(S.root, keptv.v, FALSE)
SaveMeans == Ret("save") => m.err = (IF IsNo(Value) THEN Value.x ELSE "OK")
SaveGives == Done("save") => Plain(Written(m.em)) = Value
(* C15: and means the data again *)
LegalNow == Legal(WritePtr([m EXCEPT !.h[1] = Locals], Root, keptv.id), S.root, Root, keptv.cnt)
SaveReads == Done("save") /\ LegalNow => LET r == Read(S.root, Written(m.em), <<>>, FALSE) IN r.e = "OK" /\ r.v = keptv.v
(* C16: a copy is equal and apart; the source is as it was; or there is none *)
AtId(id, cnt) == At([m EXCEPT !.h[1] = Block(24, PtrBytes \o Zeros(16), (0 :> id), FALSE)], S.root, Root, cnt)
CopyGives == Done("copy") =>
  LET c == Ptr(m, CopyDst) IN
  /\ AtId(keptv.id, keptv.cnt) = keptv.v
  /\ AtId(c, keptv.cnt) = keptv.v
  /\ Blocks(c) \cap Blocks(keptv.id) = {}
  /\ Live(m) = Blocks(c) \cup Blocks(keptv.id)
  /\ Owned(c) /\ Owned(keptv.id)
CopyFailsClean == Ret("copy") /\ m.err # "OK" =>
  /\ Live(m) = Blocks(keptv.id) /\ AtId(keptv.id, keptv.cnt) = keptv.v
CopySucceeds == Ret("copy") /\ m.err # "OK" => m.err = "OOM"
(* C02: after free nothing is left; a copy outlives what it was made of *)
FreeAll == Ret("free") => Live(m) = (IF keptv.cp = 0 THEN {} ELSE Blocks(keptv.cp))
                          /\ (keptv.cp # 0 => AtId(keptv.cp, keptv.cnt) = keptv.v)
FreeAll2 == Ret("free2") => Live(m) = {}
(* C21: the client's defaults are never written, and every history ends *)
DefaultsKept == \A i \in 1..Len(S.statics) : m.h[i + 2].b = S.statics[i].b
=============================================================================
