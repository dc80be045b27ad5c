----------------------------- MODULE CyamlTrace -----------------------------
(***************************************************************************)
(* Validates recorded histories of the real library against the machine of *)
(* Cyaml.tla.  A scenario is a list of calls with what a client could      *)
(* observe of each: the result, its outputs, its whole heap, the callbacks *)
(* made, the messages, the text written (as libyaml's events).             *)
(*                                                                         *)
(* Each call is made on the machine, which runs to its return; what was    *)
(* observed must then be what the machine gives.  Names (classes) say what *)
(* differs; the first call that differs ends a scenario.                   *)
(***************************************************************************)
EXTENDS Cyaml, Json, IOUtils

VARIABLES opi, slots, verdict, step

(* (two definitions: TLC keeps the value of the first, and not that of one substituted for a constant) *)
FromFile == ndJsonDeserialize(IOEnv.TRACE)
TraceScn == FromFile
(* libyaml's events for the document being read, then errors for ever *)
TraceEvents(n) == LET d == Scn[n.env[1]].docs[n.env[2]]
                  IN {IF n.pos < Len(d) THEN d[n.pos + 1] ELSE [k |-> "ERR", v |-> <<>>, a |-> <<>>, l |-> 1, c |-> 1]}

NSlots == 16
NoSlot == [has |-> FALSE, ty |-> 1, id |-> 0, cnt |-> 0]
Ops == Scn[sid].ops
Op == Ops[opi]
Obs == Op.o

-----------------------------------------------------------------------------
(* The client's heap, as observed: a sequence of blocks [b, p].            *)
H == IF Obs.h = 0 THEN <<>> ELSE Scn[sid].heaps[Obs.h]
Target(blk, o) == IF \E i \in 1..Len(blk.p) : blk.p[i][1] = o
                  THEN blk.p[CHOOSE i \in 1..Len(blk.p) : blk.p[i][1] = o][2] ELSE 0
SameBlock(n, pr) ==
  /\ pr[2] \in 1..Len(H)
  /\ LET s == n.h[pr[1]]  o == H[pr[2]] IN
     /\ s.live
     /\ Len(o.b) >= s.n
     /\ SubSeq(o.b, 1, s.n) = s.b
     /\ {q[1] : q \in {o.p[i] : i \in 1..Len(o.p)}} = DOMAIN s.p
Children(n, pr) == {<<n.h[pr[1]].p[o], Target(H[pr[2]], o)>> : o \in DOMAIN n.h[pr[1]].p}
RECURSIVE Close(_, _, _)
Close(n, seen, front) ==       \* all pairs, or {} if some pair of blocks differs
  IF front = {} THEN seen
  ELSE IF \E pr \in front : ~SameBlock(n, pr) THEN {}
  ELSE LET next == UNION {Children(n, pr) : pr \in front} IN Close(n, seen \cup front, next \ (seen \cup front))
SameHeap(n, sl) ==
  LET roots == {<<sl[i].id, Obs.sl[i]>> : i \in {j \in 1..NSlots : sl[j].has /\ (sl[j].id # 0 \/ Obs.sl[j] # 0)}}
      seen == Close(n, {}, roots)
  IN /\ roots # {} => seen # {}
     /\ Cardinality({pr[1] : pr \in seen}) = Cardinality(seen)
     /\ Cardinality({pr[2] : pr \in seen}) = Cardinality(seen)
     /\ Cardinality(seen) = Len(H)                 \* nothing else is allocated
     /\ {pr[1] : pr \in seen} = Live(n)

(* Are two values on the machine's heap equal? *)
RECURSIVE Equal(_, _, _)
Equal(n, a, b) ==
  \/ a = 0 /\ b = 0
  \/ /\ a # 0 /\ b # 0 /\ a # b
     /\ n.h[a].b = n.h[b].b
     /\ DOMAIN n.h[a].p = DOMAIN n.h[b].p
     /\ \A o \in DOMAIN n.h[a].p : Equal(n, n.h[a].p[o], n.h[b].p[o])

-----------------------------------------------------------------------------
(* The text saved, as libyaml's events, against the events emitted.        *)
SameScalar(e, o) ==
  CASE e.x = "str" -> o.v = e.v
    [] e.x = "int" -> ParseS(o.v).ok /\ ParseS(o.v).v = e.v
    [] e.x = "uint" -> ParseU(o.v).ok /\ ParseU(o.v).v = e.v
    [] e.x = "f4" -> o.f.ok /\ o.f.f4 = e.v
    [] e.x = "f8" -> o.f.ok /\ o.f.d8 = e.v
    [] e.x = "true" -> ~IsFalse(o.v)
    [] e.x = "false" -> IsFalse(o.v)
SameEvents(em, ob) ==
  /\ Len(em) = Len(ob)
  /\ \A i \in 1..Len(em) :
       /\ em[i].k = ob[i].k
       /\ ob[i].a = NoAnchor /\ ~ob[i].tg
       /\ em[i].k = "SC" => SameScalar(em[i], ob[i])

(* Styles.  Within a flow collection everything is flow; an empty          *)
(* collection has no block form.  Scalar styles give way to others where   *)
(* libyaml finds the text unfit for them; text of letters and digits is    *)
(* fit for all but literal and folded, which need block context and are    *)
(* double quoted elsewhere.                                                *)
WantedStyle(e, flow, empty, key) ==
  IF e.k # "SC" THEN (IF flow \/ empty \/ e.s = "flow" THEN "flow" ELSE "block")
  ELSE IF e.s = "any" THEN "plain"
  ELSE IF e.s \in {"literal", "folded"} /\ (flow \/ key) THEN "double"
  ELSE e.s
RECURSIVE Styles(_, _, _, _)
(* ctx: one <<flow, mapping?, key next?>> for each open collection *)
Styles(em, ob, i, ctx) ==
  IF i > Len(em) THEN TRUE
  ELSE LET e == em[i]  o == ob[i]
           top == IF ctx = <<>> THEN <<FALSE, FALSE, FALSE>> ELSE ctx[Len(ctx)]
           key == top[2] /\ top[3]
           flip == IF ctx = <<>> THEN ctx ELSE [ctx EXCEPT ![Len(ctx)] = <<@[1], @[2], ~@[3]>>]
           want == WantedStyle(e, top[1], i < Len(em) /\ IsEnd(em[i + 1]), key)
       IN IF IsStart(e)
          THEN o.st = want /\ Styles(em, ob, i + 1, Append(flip, <<want = "flow", e.k = "MS", TRUE>>))
          ELSE IF IsEnd(e) THEN Styles(em, ob, i + 1, SubSeq(ctx, 1, Len(ctx) - 1))
          ELSE IF e.k = "SC"
          THEN /\ (SimpleText(o.v) \/ e.s = "double") => o.st = want
               /\ Styles(em, ob, i + 1, flip)
          ELSE Styles(em, ob, i + 1, ctx)
(* a text that ends in line breaks may need an explicit document end *)
OpenEnded(ob) == \E i \in 1..Len(ob) : ob[i].k = "SC" /\ ob[i].v # <<>> /\ ob[i].v[Len(ob[i].v)] \in {10, 13}
Markers(ob) == \A i \in 1..Len(ob) :
  /\ ob[i].k = "DS" => ob[i].im = ~Cfg.delim
  /\ ob[i].k = "DE" => (ob[i].im = ~Cfg.delim \/ OpenEnded(ob))

-----------------------------------------------------------------------------
Logs == Scn[sid].logs
Common(n, o) ==
  (IF o.mem # "" THEN {"mem"} ELSE {}) \cup
  (IF o.leak # 0 THEN {"leak"} ELSE {}) \cup
  (IF o.badlog THEN {"log"} ELSE {}) \cup
  (IF ~Logs /\ o.nlog # 0 THEN {"log"} ELSE {}) \cup
  (IF ~o.ro THEN {"ro"} ELSE {})
C(bad, class) == IF bad THEN {class} ELSE {}
(* A call that succeeds reports no error, and one that refuses a document  *)
(* says why, naming what is to blame.  What is passed over is warned of,   *)
(* in turn, by name.                                                       *)
Within(k, s) == k = <<>> \/ Len(k) > 1000 \/ \E i \in 0..(Len(s) - Len(k)) : SubSeq(s, i + 1, i + Len(k)) = k
Said(o) == C(o.e = "OK" /\ o.errs # <<>>, "say")
SaidLoad(n, o) ==
  Said(o) \cup
  C(Logs /\ o.e # "OK" /\ o.e = n.err /\ n.why # <<>> /\ ~\E i \in 1..Len(o.errs) : Within(n.why[1], o.errs[i]), "say") \cup
  C(Scn[sid].warns /\ o.e = n.err /\
      ~(Len(o.warn) = Len(n.wn) /\ \A i \in 1..Len(n.wn) : Within(n.wn[i], o.warn[i])), "say")
TraceSame(n) == IF Logs THEN Obs.bt = n.bt ELSE Obs.bt = <<>>

LegalSlot(n, i) == Legal(WritePtr([n EXCEPT !.h[1] = Locals], Root, slots[i].id), slots[i].ty, Root, slots[i].cnt)
AfterLoad(n) == IF n.err = "OK" THEN [slots EXCEPT ![Op.slot] = [has |-> TRUE, ty |-> Op.ty, id |-> Ptr(n, Root),
                                                  cnt |-> IF T(Op.ty).t = "SEQUENCE" THEN CountAt(n, RootCnt, 4) ELSE 0]]
                ELSE slots
CheckLoad(n) ==
  LET sl == AfterLoad(n) IN
  Common(n, Obs) \cup SaidLoad(n, Obs) \cup
  C(Obs.e # n.err, "err") \cup
  C(n.err = "OK" /\ Obs.e = "OK" /\ (Obs.out # "set" \/ Obs.c # sl[Op.slot].cnt), "out") \cup
  C(Obs.e # "OK" /\ Obs.out # "same", "out") \cup
  C(Obs.e = n.err /\ ~SameHeap(n, sl), IF n.err = "OK" THEN "heap" ELSE "heaperr") \cup
  C(Obs.e # "OK" /\ n.err = "OK" /\ ~SameHeap([n EXCEPT !.h = [i \in 1..Len(n.h) |->
        IF i \in Reach(n, {sl[Op.slot].id} \ {0}) THEN [n.h[i] EXCEPT !.live = FALSE] ELSE n.h[i]]], slots), "heaperr") \cup
  C(Obs.e = n.err /\ Obs.cb # n.cb, "cb") \cup
  C(Obs.e = n.err /\ ~TraceSame(n), "bt") \cup
  C(~Obs.inn, "ro") \cup
  C(Op.iso # 0 /\ Obs.e # "OK" /\ LegalSlot(n, Op.iso), "iso") \cup
  C(Op.iso # 0 /\ n.err # "OK" /\ LegalSlot(n, Op.iso), "iso") \cup
  C(Op.iso # 0 /\ n.err = "OK" /\ LegalSlot(n, Op.iso) /\ ~(Equal(n, sl[Op.slot].id, slots[Op.iso].id) /\ sl[Op.slot].cnt = slots[Op.iso].cnt), "iso")
AfterFree == [slots EXCEPT ![Op.slot] = NoSlot]
CheckFree(n) ==
  Common(n, Obs) \cup Said(Obs) \cup C(Obs.e # "OK", "err") \cup C(~SameHeap(n, AfterFree), "heap") \cup C(Obs.bt # <<>>, "bt")
AfterCopy(n) == IF n.err = "OK" THEN [slots EXCEPT ![Op.to] = [slots[Op.slot] EXCEPT !.id = Ptr(n, CopyDst)]] ELSE slots
CheckCopy(n) ==
  Common(n, Obs) \cup Said(Obs) \cup C(Obs.e # n.err, "err") \cup
  C(Obs.e # "OK" /\ Obs.out # "same", "out") \cup
  C(Obs.e = n.err /\ ~SameHeap(n, AfterCopy(n)), IF n.err = "OK" THEN "heap" ELSE "heaperr") \cup
  C(Obs.e = n.err /\ ~TraceSame(n), "bt") \cup C(Obs.cb # <<>>, "cb")
EqualSlots(n, i, j) == slots[i].has /\ slots[j].has /\ slots[i].cnt = slots[j].cnt /\ Equal(n, slots[i].id, slots[j].id)
CheckSave(n) ==
  Common(n, Obs) \cup Said(Obs) \cup C(Obs.e # n.err, "err") \cup
  C(Obs.e # "OK" /\ Obs.out # "same", "out") \cup
  C(Obs.e = "OK" /\ (Obs.out # "set" \/ ~Obs.own), "out") \cup
  C(~SameHeap(n, slots), "heap") \cup C(Obs.cb # <<>>, "cb") \cup
  C(Obs.e = n.err /\ ~TraceSame(n), "bt") \cup
  (IF Obs.e # "OK" \/ n.err # "OK" THEN {}
   ELSE C(~SameEvents(n.em, Obs.em), "em") \cup
        C(Len(n.em) = Len(Obs.em) /\ ~Styles(n.em, Obs.em, 1, <<>>), "style") \cup
        C(~Markers(Obs.em), "style") \cup
        C(Op.same # 0 /\ Obs.prev = 0 /\ EqualSlots(n, Op.same, Op.slot), "text"))
(* save to a file: kind 1 a good one, 2 a full one, 3 one limited in size, 4 one that can't be opened *)
CheckSaveFile(n) ==
  Common(n, Obs) \cup
  C(Obs.me # n.err, "err") \cup C(~SameHeap(n, slots), "heap") \cup
  C(Op.kind = 1 /\ Obs.e # Obs.me, "io") \cup
  C(Op.kind = 1 /\ Obs.e = "OK" /\ ~Obs.fsame, "io") \cup
  C(Op.kind = 2 /\ Obs.e = "OK", "io") \cup
  C(Op.kind = 3 /\ Obs.e = "OK" /\ ~Obs.fsame, "io") \cup
  C(Op.kind = 3 /\ Obs.at >= Obs.mlen /\ Obs.e # Obs.me, "io") \cup
  C(Op.kind = 4 /\ Obs.e # "FILE_OPEN", "io")
CheckBuild(n) == C(~SameHeap(n, slots), "heap") \cup C(Obs.mem # "", "mem")
(* refused allocations (or libyaml failing): the error that is due, and everything as it was *)
CheckOom ==
  UNION {LET r == Obs.n[i] IN
         C(r.f /\ r.e # r.want, "oom") \cup C(r.f /\ ~r.same, "oom") \cup C(r.f /\ ~r.heap, "oomheap")
         \cup C(r.mem # "", "mem") \cup C(r.leak # 0, "leak") \cup C(~r.f /\ Op.want # "" /\ r.e # Op.want, "oom") : i \in 1..Len(Obs.n)}
  \cup C(~Obs.ro, "ro")

ParamErr(api, bits, t) ==
  LET has(b) == (bits \div b) % 2 = 1 IN
  CASE has(64) -> "FILE_OPEN"
    [] has(1) -> "BAD_PARAM_NULL_CONFIG"
    [] has(2) -> "BAD_CONFIG_NULL_MEMFN"
    [] has(4) -> "BAD_PARAM_NULL_SCHEMA"
    [] api # 5 /\ has(8) -> "BAD_PARAM_SEQ_COUNT"
    [] api \in {0, 1, 3, 4} /\ ~t.fl.ptr -> "TOP_LEVEL_NON_PTR"
    [] api # 5 /\ has(16) -> "BAD_PARAM_NULL_DATA"
    [] api = 2 /\ has(32) -> "DATA_TARGET_NON_NULL"
    [] OTHER -> "OK"
CheckParam ==
  Common(m, Obs) \cup
  C(Obs.e # ParamErr(Op.api, Op.bits, T(Op.ty)), "param") \cup
  C(Obs.out # "same" \/ ~Obs.heapsame \/ Obs.calls # 0 \/ Obs.ncb # 0, "param") \cup C(Obs.bt # <<>>, "bt")
CheckPath == Common(m, Obs) \cup C(IF Op.kind = 0 THEN Obs.e # "FILE_OPEN" ELSE Obs.e = "OK", "io") \cup C(Obs.out # "same", "out")
             \cup C(~SameHeap(m, slots), "heap")

-----------------------------------------------------------------------------
(* Making the calls *)
Returned(n, e) == [n EXCEPT !.pc = "ret", !.err = e, !.cb = <<>>, !.bt = <<>>, !.em = <<>>, !.wn = <<>>, !.why = <<>>]
CallLoad == Op.k \in {"LOAD", "RELOAD"} /\ m' = StartLoad([m EXCEPT !.env = <<sid, Op.doc>>], Op.ty, Op.rej, -1)
CallFree == Op.k = "FREE" /\ m' = StartFree(m, slots[Op.slot].ty, slots[Op.slot].id, slots[Op.slot].cnt)
CallCopy == Op.k = "COPY" /\ LET s == slots[Op.slot]  t == T(s.ty) IN
  m' = IF t.t = "SEQUENCE" /\ s.cnt = 0 THEN Returned(m, "BAD_PARAM_SEQ_COUNT")
       ELSE StartCopy(m, s.ty, s.id, IF t.t = "SEQUENCE_FIXED" THEN t.smax ELSE s.cnt, -1)
CallSave == Op.k \in {"SAVE", "SAVEF"} /\ LET s == slots[Op.slot]  t == T(s.ty) IN
  m' = IF t.t = "SEQUENCE" /\ s.cnt = 0 THEN Returned(m, "BAD_PARAM_SEQ_COUNT")
       ELSE IF s.id = 0 THEN Returned(m, "BAD_PARAM_NULL_DATA")
       ELSE StartSave([m EXCEPT !.bud = -1], s.ty, s.id, s.cnt)
(* the client makes data of its own *)
CallBuild == Op.k = "BUILD" /\
  LET base == Len(m.h)  bl == Op.blocks IN
  /\ m' = [Returned(m, "OK") EXCEPT !.h = @ \o [i \in 1..Len(bl) |->
             Block(Len(bl[i].b), bl[i].b,
                   [o \in {bl[i].p[j][1] : j \in 1..Len(bl[i].p)} |->
                      base + (CHOOSE q \in {bl[i].p[j] : j \in 1..Len(bl[i].p)} : q[1] = o)[2]], FALSE)]]
  /\ slots' = [slots EXCEPT ![Op.slot] = [has |-> TRUE, ty |-> Op.ty, id |-> IF bl = <<>> THEN 0 ELSE base + 1, cnt |-> Op.cnt]]
Other == Op.k \in {"OOML", "OOMC", "OOMS", "PARAM", "BADPATH"} /\ m' = Returned(m, "OK")
Call == /\ m.pc = "call" /\ opi <= Len(Ops) /\ verdict = {}
        /\ \/ (CallLoad \/ CallFree \/ CallCopy \/ CallSave \/ Other) /\ UNCHANGED slots
           \/ CallBuild
        /\ UNCHANGED <<sid, opi, verdict>>

Run == m.pc \notin {"call", "ret"} /\ Library /\ UNCHANGED <<sid, opi, slots, verdict>>

Check(n) ==
  IF n.flt # {} THEN {"model"}
  ELSE CASE Op.k \in {"LOAD", "RELOAD"} -> CheckLoad(n)
    [] Op.k = "FREE" -> CheckFree(n)
    [] Op.k = "COPY" -> CheckCopy(n)
    [] Op.k = "SAVE" -> CheckSave(n)
    [] Op.k = "SAVEF" -> CheckSaveFile(n)
    [] Op.k = "BUILD" -> CheckBuild(n)
    [] Op.k \in {"OOML", "OOMC", "OOMS"} -> CheckOom
    [] Op.k = "PARAM" -> CheckParam
    [] Op.k = "BADPATH" -> CheckPath
After(n) == CASE Op.k \in {"LOAD", "RELOAD"} -> AfterLoad(n) [] Op.k = "FREE" -> AfterFree
              [] Op.k = "COPY" -> AfterCopy(n) [] OTHER -> slots
Return ==
  /\ m.pc = "ret" /\ verdict = {}
  /\ LET bad == Check(m) IN
     /\ verdict' = bad
     /\ (bad # {}) => PrintT(<<"MISMATCH", Scn[sid].id, opi, bad, m.err, m.flt>>)
     /\ (opi = Len(Ops) /\ bad = {}) => PrintT(<<"ACCEPTED", Scn[sid].id>>)
     /\ IF bad # {} THEN UNCHANGED <<m, slots, opi>>
        ELSE /\ m' = [m EXCEPT !.pc = "call", !.cb = <<>>, !.bt = <<>>, !.em = <<>>, !.wn = <<>>, !.why = <<>>, !.doc = <<>>,
                               !.rd = [anc |-> <<>>, rec |-> <<>>, q |-> <<>>]]
             /\ slots' = After(m)
             /\ opi' = opi + 1
  /\ UNCHANGED sid

TraceInit ==
  /\ sid \in 1..Len(Scn)
  /\ m = InitM(Scn[sid].statics, FALSE)
  /\ opi = 1 /\ slots = [i \in 1..NSlots |-> NoSlot] /\ verdict = {} /\ step = 0
TraceNext == (Call \/ Run \/ Return) /\ step' = step + 1
TraceSpec == TraceInit /\ [][TraceNext]_<<sid, m, opi, slots, verdict, step>>
(* There is one behaviour for each scenario, so its number and the step tell the state. *)
TraceView == <<sid, step>>
=============================================================================
