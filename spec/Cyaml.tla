------------------------------- MODULE Cyaml -------------------------------
(***************************************************************************)
(* libcyaml as a state machine.                                            *)
(*                                                                         *)
(* A scenario gives a table of schema types, a configuration and default   *)
(* values.  The state is                                                   *)
(*   sid    which scenario                                                 *)
(*   m      the machine: the client's heap, the state stacks of load, copy *)
(*          and save, the reader (anchors, recordings, replay), the        *)
(*          events emitted, the callbacks made, the outcome.               *)
(* The heap is byte accurate: a block has bytes, and pointers with their   *)
(* targets, so that ownership, placement, padding and counts of any size   *)
(* are part of the model.  Blocks are never re-used: a reallocation makes  *)
(* a new block and kills the old, so every stale pointer is visible.       *)
(*                                                                         *)
(* The environment is libyaml's event stream: RawEvents(m) is the set of   *)
(* events that may come next (one, when checking a trace).                 *)
(***************************************************************************)
EXTENDS Text, TLC, FiniteSets

CONSTANTS Scn,          \* sequence of scenarios
          RawEvents(_)  \* the environment: possible next libyaml events

VARIABLES sid, m

T(i) == Scn[sid].types[i]
Cfg == Scn[sid].cfg

IsSeq(t) == t.t \in {"SEQUENCE", "SEQUENCE_FIXED"}
NumericTypes == {"INT", "UINT", "BOOL", "ENUM", "FLAGS", "FLOAT", "BITFIELD"}

-----------------------------------------------------------------------------
(* Outcomes *)
Err(n, e) == [n EXCEPT !.err = e]
Fault(n, f) == [n EXCEPT !.flt = @ \cup {f}]
Ok(n) == n.err = "OK"
(* An error that is explained to the client's log, in a message with text v in it. *)
Because(n, e, v) == [n EXCEPT !.err = e, !.why = <<v>>]

-----------------------------------------------------------------------------
(* Heap.  An address is <<block, offset>>.                                 *)
NoPtr == <<>>
Block(n, b, p, st) == [n |-> n, b |-> b, p |-> p, live |-> TRUE, st |-> st]

InRange(n, a, len) == a[1] \in 1..Len(n.h) /\ a[2] >= 0 /\ a[2] + len <= n.h[a[1]].n
Chk(n, a, len) ==
  IF a[1] \notin 1..Len(n.h) THEN Fault(n, "wild access")
  ELSE IF ~n.h[a[1]].live THEN Fault(n, "use after free")
  ELSE IF ~InRange(n, a, len) THEN Fault(n, "out of bounds")
  ELSE n
Accessible(n, a, len) == InRange(n, a, len) /\ n.h[a[1]].live

Bytes(n, a, len) == IF len = 0 THEN <<>>
                    ELSE IF Accessible(n, a, len) THEN SubSeq(n.h[a[1]].b, a[2] + 1, a[2] + len)
                    ELSE Zeros(len)
Ptr(n, a) == IF a[1] \in 1..Len(n.h) /\ a[2] \in DOMAIN n.h[a[1]].p THEN n.h[a[1]].p[a[2]] ELSE 0
Add(a, o) == <<a[1], a[2] + o>>

Write(n, a, bs) ==
  IF bs = <<>> THEN n
  ELSE IF ~Accessible(n, a, Len(bs)) THEN Chk(n, a, Len(bs))
  ELSE IF n.h[a[1]].st THEN Fault(n, "write to default")
  ELSE LET k == a[1]  o == a[2]  blk == n.h[k]  e == o + Len(bs)
           keep == {x \in DOMAIN blk.p : x + 8 <= o \/ x >= e}
       IN [n EXCEPT !.h[k].b = SubSeq(@, 1, o) \o bs \o SubSeq(@, e + 1, blk.n),
                    !.h[k].p = IF keep = DOMAIN @ THEN @ ELSE [x \in keep |-> @[x]]]
PtrBytes == <<255, 255, 255, 255, 255, 255, 255, 255>>
WritePtr(n, a, id) ==
  IF id = 0 THEN Write(n, a, Zero8)
  ELSE LET w == Write(n, a, PtrBytes)
       IN IF w.flt # n.flt THEN w
          ELSE [w EXCEPT !.h[a[1]].p = (a[2] :> id) @@ @]
(* copy memory, pointers included *)
Move(n, from, to, len) ==
  LET w == Write(n, to, Bytes(n, from, len))
      src == n.h[from[1]].p
      ps == {x \in DOMAIN src : x >= from[2] /\ x + 8 <= from[2] + len}
      np == [x \in {y - from[2] + to[2] : y \in ps} |-> src[x - to[2] + from[2]]]
  IN IF ps = {} THEN w ELSE [w EXCEPT !.h[to[1]].p = np @@ @]

(* Every use of the client's allocator may fail; bud counts down to it. *)
Tick(n) == IF n.bud = 0 THEN Err(n, "OOM")
           ELSE IF n.bud < 0 THEN n ELSE [n EXCEPT !.bud = @ - 1]
New(n, size) == LET k == Tick(n)
                IN IF Ok(k) THEN [k EXCEPT !.h = Append(@, Block(size, Zeros(size), NoPtr, FALSE))] ELSE k
Last(n) == Len(n.h)
Release(n, id) ==
  IF id \notin 1..Len(n.h) THEN Fault(n, "wild free")
  ELSE IF ~n.h[id].live THEN Fault(n, "double free")
  ELSE IF n.h[id].st \/ id <= 2 THEN Fault(n, "free of foreign memory")
  ELSE [n EXCEPT !.h[id] = [@ EXCEPT !.live = FALSE, !.b = <<>>, !.p = NoPtr, !.n = 0]]
(* grow block id (or none, for 0) to size; the result is the last block *)
Resize(n, id, size) ==
  IF id = 0 THEN New(n, size)
  ELSE LET k == Tick(n)  o == n.h[id]
       IN IF ~Ok(k) THEN k
          ELSE LET g == [k EXCEPT !.h = Append(@, Block(size, o.b \o Zeros(size - o.n), o.p, FALSE))]
               IN Release(g, id)

(* a C string *)
StrLen(b, i) == LET z == {j \in i..Len(b) : b[j] = 0} IN IF z = {} THEN -1 ELSE (CHOOSE j \in z : \A k \in z : j <= k) - 1
CStrAt(n, a) == LET blk == n.h[a[1]]  rest == SubSeq(blk.b, a[2] + 1, blk.n)  k == StrLen(rest, 1)
                IN SubSeq(rest, 1, k)
CStrOk(n, a) == /\ Accessible(n, a, 1)
                /\ StrLen(SubSeq(n.h[a[1]].b, a[2] + 1, n.h[a[1]].n), 1) >= 0

(* the client's pointers of an entry *)
EntrySize(e) == IF e.fl.ptr THEN 8
                ELSE IF e.t = "SEQUENCE_FIXED" THEN e.sz * e.smax ELSE e.sz
GoodSize(s) == s \in 1..8
Number(n, a, size) == ZeroExt(Bytes(n, a, size))
CountAt(n, a, size) == ToInt(Number(n, a, size))

-----------------------------------------------------------------------------
(* Freeing, directed by the schema *)
Bare(t) == ~t.fl.ptr /\ t.t \in NumericTypes \cup {"STRING"}
RECURSIVE FreeValue(_, _, _, _), FreeFields(_, _, _, _), FreeEntries(_, _, _, _, _)
FreeValue(n0, ty, a, cnt) ==
  LET t == T(ty)
      n == IF t.fl.ptr THEN Chk(n0, a, 8) ELSE n0
      id == IF t.fl.ptr THEN Ptr(n, a) ELSE 0
      at == IF t.fl.ptr THEN <<id, 0>> ELSE a
      inner == CASE t.t = "MAPPING" -> FreeFields(n, t.fields, at, 1)
                 [] t.t = "SEQUENCE" -> FreeEntries(n, t.ent, at, 1, cnt)
                 [] t.t = "SEQUENCE_FIXED" -> FreeEntries(n, t.ent, at, 1, t.smax)
                 [] OTHER -> n
  IN IF t.fl.ptr
     THEN IF id = 0 THEN n
          ELSE IF ~n.h[id].live THEN Fault(n, "double free")
          ELSE Release(inner, id)
     ELSE inner
FreeFields(n, fs, a, i) ==
  IF i > Len(fs) THEN n
  ELSE LET f == fs[i]
           cnt == IF T(f.ty).t = "SEQUENCE" /\ GoodSize(f.csz) THEN CountAt(n, Add(a, f.coff), f.csz) ELSE 0
       IN FreeFields(FreeValue(n, f.ty, Add(a, f.off), cnt), fs, a, i + 1)
FreeEntries(n, ety, a, i, cnt) ==
  IF i > cnt \/ n.flt # {} THEN n
  ELSE IF Bare(T(ety)) THEN IF cnt > 10000000 THEN Fault(n, "out of bounds") ELSE Chk(n, a, cnt * EntrySize(T(ety)))      \* nothing to free in them
  ELSE LET stride == EntrySize(T(ety))
           c == Chk(n, Add(a, (i - 1) * stride), stride)
       IN FreeEntries(FreeValue(c, ety, Add(a, (i - 1) * stride), 0), ety, a, i + 1, cnt)

-----------------------------------------------------------------------------
(* Validation callbacks.  Call number m.rej is refused.                    *)
Callback(n, ty, v, k) ==
  IF T(ty).cb = 0 THEN n
  ELSE LET c == [n EXCEPT !.cb = Append(@, [ty |-> T(ty).cb, v |-> v, k |-> k])]
       IN IF Len(c.cb) = c.rej THEN Err(c, "INVALID_VALUE") ELSE c

-----------------------------------------------------------------------------
(* Storing scalars *)
StoreInt(n, ty, a, v, validate) ==
  LET t == T(ty) IN
  IF ~GoodSize(t.sz) THEN Err(n, "INVALID_DATA_SIZE")
  ELSE IF ~FitsS(v, t.sz) THEN Because(n, "INVALID_VALUE", <<>>)
  ELSE LET c == IF ~validate THEN n
                ELSE IF t.t = "INT" /\ t.rng /\ (LtS(v, t.min) \/ LtS(t.max, v)) THEN Because(n, "INVALID_VALUE", <<>>)
                ELSE Callback(n, ty, v, 0)
       IN IF Ok(c) THEN Write(c, a, SubSeq(v, 1, t.sz)) ELSE c
StoreUint(n, ty, a, v, validate) ==
  LET t == T(ty) IN
  IF ~GoodSize(t.sz) THEN Err(n, "INVALID_DATA_SIZE")
  ELSE IF ~FitsU(v, t.sz) THEN Because(n, "INVALID_VALUE", <<>>)
  ELSE LET c == IF ~validate THEN n
                ELSE IF t.t = "UINT" /\ t.rng /\ (LtU(v, t.min) \/ LtU(t.max, v)) THEN Because(n, "INVALID_VALUE", <<>>)
                ELSE Callback(n, ty, v, 0)
       IN IF Ok(c) THEN Write(c, a, SubSeq(v, 1, t.sz)) ELSE c
StoreBool(n, ty, a, v) ==
  IF ~GoodSize(T(ty).sz) THEN Err(n, "INVALID_DATA_SIZE")
  ELSE Write(n, a, [i \in 1..T(ty).sz |-> IF i = 1 /\ v THEN 1 ELSE 0])
(* f is what the floating point environment makes of the text:             *)
(*  ok all of it is a number; rng out of range; d8/f4 the double and float *)
(*  nearest; f4d the float as a double; over/sub: not within the range of  *)
(*  normal floats                                                          *)
StoreFloat(n, ty, a, f) ==
  LET t == T(ty) IN
  CASE t.sz = 4 ->
         IF t.fl.strict /\ (f.over \/ f.sub) THEN Err(n, "INVALID_VALUE")
         ELSE LET c == Callback(n, ty, f.f4d, 0) IN IF Ok(c) THEN Write(c, a, f.f4) ELSE c
    [] t.sz = 8 -> LET c == Callback(n, ty, f.d8, 0) IN IF Ok(c) THEN Write(c, a, f.d8) ELSE c
    [] OTHER -> Err(n, "INVALID_DATA_SIZE")
StoreString(n, ty, a, s) ==
  LET t == T(ty) IN
  IF t.smin > t.smax THEN Err(n, "BAD_MIN_MAX_SCHEMA")
  ELSE IF Len(s) < t.smin THEN Because(n, "STRING_LENGTH_MIN", s)
  ELSE IF Len(s) > t.smax THEN Because(n, "STRING_LENGTH_MAX", s)
  ELSE LET c == Callback(n, ty, s, 0) IN IF Ok(c) THEN Write(c, a, s \o <<0>>) ELSE c

Insensitive(t) == t.fl.ci \/ (~t.fl.cs /\ Cfg.ci)
FirstMatch(t, list, s) ==
  LET hits == {i \in 1..Len(list) : NameEq(list[i].n, s, Insensitive(t))}
  IN IF hits = {} THEN 0 ELSE CHOOSE i \in hits : \A j \in hits : i <= j

ReadInt(n, ty, a, s) ==
  LET p == ParseS(s) IN IF p.ok THEN StoreInt(n, ty, a, p.v, TRUE) ELSE Because(n, "INVALID_VALUE", s)
ReadUint(n, ty, a, s) ==
  LET p == ParseU(s) IN IF p.ok THEN StoreUint(n, ty, a, p.v, TRUE) ELSE Because(n, "INVALID_VALUE", s)
ReadEnum(n, ty, a, s) ==
  LET t == T(ty)  i == FirstMatch(t, t.strs, s) IN
  IF i # 0 THEN StoreInt(n, ty, a, t.strs[i].v, TRUE)
  ELSE IF t.fl.strict THEN Because(n, "INVALID_VALUE", s)
  ELSE LET r == ReadInt(n, ty, a, s) IN IF Ok(r) THEN r ELSE Because(r, "INVALID_VALUE", s)
ReadFloat(n, ty, a, f, s) ==
  IF ~f.ok \/ (f.rng /\ T(ty).fl.strict) THEN Because(n, "INVALID_VALUE", s) ELSE StoreFloat(n, ty, a, f)
ReadScalar(n, ty, a, ev) ==
  CASE T(ty).t = "INT"    -> ReadInt(n, ty, a, ev.v)
    [] T(ty).t = "UINT"   -> ReadUint(n, ty, a, ev.v)
    [] T(ty).t = "BOOL"   -> StoreBool(n, ty, a, ~IsFalse(ev.v))
    [] T(ty).t = "ENUM"   -> ReadEnum(n, ty, a, ev.v)
    [] T(ty).t = "FLOAT"  -> ReadFloat(n, ty, a, ev.f, ev.v)
    [] T(ty).t = "STRING" -> StoreString(n, ty, a, ev.v)

-----------------------------------------------------------------------------
(* Copying.  n.cs is copy's state stack; block 2 holds its local variables: *)
(* the source pointer, the copy's pointer and the top-level count.          *)
CopySrc == <<2, 0>>
CopyDst == <<2, 8>>
CopyCnt == <<2, 16>>

PushCopy(n, f) == LET k == Tick(n) IN IF Ok(k) THEN [k EXCEPT !.cs = Append(@, f)] ELSE k
TopCopy(n) == n.cs[Len(n.cs)]
SetTopCopy(n, f) == [n EXCEPT !.cs[Len(n.cs)] = f]
PopCopy(n) == [n EXCEPT !.cs = SubSeq(@, 1, Len(@) - 1)]

CloneLeaf(n, ty, s, d) ==
  IF T(ty).t = "STRING"
  THEN IF CStrOk(n, s) THEN Write(n, d, CStrAt(n, s) \o <<0>>) ELSE Fault(n, "unterminated string")
  ELSE Write(Chk(n, s, T(ty).sz), d, Bytes(n, s, T(ty).sz))
CloneSeq(n, ty, sa, cnt, da) ==
  LET t == T(ty)
      top == TopCopy(n)
      f == T(top.ty).fields[top.cur]
      ca == IF top.k = "cmap" THEN Add(top.d, f.coff) ELSE CopyCnt
      cz == IF top.k = "cmap" THEN f.csz ELSE 4
      k == PushCopy(n, [k |-> "cseq", ty |-> ty, s |-> sa, d |-> da, e |-> 0, cnt |-> cnt])
      fresh == t.fl.ptr /\ ~(t.t = "SEQUENCE" /\ cnt = 0)    \* an empty sequence's copy is NULL
      al == IF fresh THEN New(k, t.sz * (IF t.t = "SEQUENCE" THEN cnt ELSE t.smax)) ELSE k
      wp == IF fresh THEN WritePtr(al, da, Last(al)) ELSE al
      wc == IF t.t = "SEQUENCE" THEN Write(wp, ca, SubSeq(FromInt(cnt), 1, cz)) ELSE wp
  IN IF t.t = "SEQUENCE" /\ top.k = "cseq" THEN Err(n, "SEQUENCE_IN_SEQUENCE")
     ELSE IF ~Ok(k) THEN k
     ELSE IF ~Ok(al) THEN al
     ELSE IF fresh THEN SetTopCopy(wc, [TopCopy(wc) EXCEPT !.s = <<Ptr(n, sa), 0>>, !.d = <<Last(al), 0>>])
     ELSE wc
CloneValue(n0, ty, sa, cnt, da) ==
  LET t == T(ty)
      n == IF t.fl.ptr THEN Chk(n0, sa, 8) ELSE n0
      src == Ptr(n, sa)
      s == IF t.fl.ptr THEN <<src, 0>> ELSE sa
      size == IF t.t = "STRING" THEN Len(CStrAt(n, s)) + 1 ELSE t.sz
      al == IF t.fl.ptr THEN New(n, size) ELSE n
      wp == IF t.fl.ptr THEN WritePtr(al, da, Last(al)) ELSE n
      d == IF t.fl.ptr THEN <<Last(al), 0>> ELSE da
  IN IF t.t = "SEQUENCE_FIXED" /\ t.smin # t.smax THEN Err(n, "SEQUENCE_FIXED_COUNT")
     ELSE IF t.fl.ptr /\ src = 0
     THEN IF t.fl.nul \/ (IsSeq(t) /\ cnt = 0) THEN n ELSE Err(n, "BAD_PARAM_NULL_DATA")
     ELSE IF IsSeq(t) THEN CloneSeq(n, ty, sa, cnt, da)
     ELSE IF ~Ok(al) THEN al
     ELSE CASE t.t = "MAPPING" -> PushCopy(wp, [k |-> "cmap", ty |-> ty, s |-> s, d |-> d, cur |-> 0])
            [] t.t = "IGNORE" -> Err(wp, "BAD_TYPE_IN_SCHEMA")
            [] OTHER -> CloneLeaf(wp, ty, s, d)

CopyField(n) ==
  LET top == TopCopy(n)  i == top.cur + 1 IN
  IF i > Len(T(top.ty).fields) THEN PopCopy(n)
  ELSE LET f == T(top.ty).fields[i]
           t == T(f.ty)
           a == SetTopCopy(n, [top EXCEPT !.cur = i])
           cnt == IF t.t = "SEQUENCE" THEN CountAt(n, Add(top.s, f.coff), f.csz)
                  ELSE IF t.t = "SEQUENCE_FIXED" THEN t.smin ELSE 0
           r == CloneValue(a, f.ty, Add(top.s, f.off), cnt, Add(top.d, f.off))
       IN IF t.t = "IGNORE" THEN a
          ELSE IF t.t = "SEQUENCE" /\ ~GoodSize(f.csz) THEN Err(a, "INVALID_DATA_SIZE")
          ELSE IF r.err = "BAD_PARAM_NULL_DATA"
          THEN IF t.fl.opt THEN Err(r, "OK") ELSE Err(r, "MAPPING_FIELD_MISSING")
          ELSE r
CopyEntry(n) ==
  LET top == TopCopy(n) IN
  IF top.e >= top.cnt THEN PopCopy(n)
  ELSE LET ety == T(top.ty).ent  e == T(ety)  o == EntrySize(e) * top.e
           a == SetTopCopy(n, [top EXCEPT !.e = @ + 1])
       IN CloneValue(Chk(a, Add(top.s, o), EntrySize(e)), ety, Add(top.s, o),
                     IF e.t = "SEQUENCE_FIXED" THEN e.smax ELSE 0, Add(top.d, o))
CopyStep(n) == IF TopCopy(n).k = "cmap" THEN CopyField(n) ELSE CopyEntry(n)

RECURSIVE RunCopy(_)
RunCopy(n) == IF ~Ok(n) \/ Len(n.cs) <= 1 THEN n ELSE RunCopy(CopyStep(n))

DataLen(ty, cnt) ==
  LET t == T(ty) IN
  CASE t.t = "SEQUENCE" -> EntrySize(T(t.ent)) * cnt
    [] t.t = "SEQUENCE_FIXED" -> EntrySize(T(t.ent)) * t.smax
    [] OTHER -> t.sz
Frame0 == [k |-> "cstart", ty |-> 1, s |-> <<0, 0>>, d |-> <<0, 0>>, cur |-> 1]
Locals == Block(24, Zeros(24), NoPtr, FALSE)

(* Start: the source is in block src (or at address srca, not a pointer).  *)
BeginCopy(n0, ty, srca, cnt) ==
  LET t == T(ty)
      n == [n0 EXCEPT !.h[2] = Locals, !.cs = <<>>]
      tmp == New(n, DataLen(ty, cnt))
      k == PushCopy(IF t.fl.ptr THEN WritePtr(n, CopySrc, srca[1]) ELSE tmp, Frame0)
      dst == IF t.fl.ptr THEN CopyDst ELSE <<Last(tmp), 0>>
  IN IF ~t.fl.ptr /\ ~Ok(tmp) THEN tmp
     ELSE IF ~Ok(k) THEN IF t.fl.ptr THEN k ELSE Release(k, dst[1])
     ELSE CloneValue([k EXCEPT !.cdst = dst], ty, IF t.fl.ptr THEN CopySrc ELSE srca, cnt, dst)
CopyTrace(n) ==
  [i \in 1..(IF Len(n.cs) = 0 THEN 0 ELSE Len(n.cs) - 1) |->
    LET f == n.cs[Len(n.cs) + 1 - i] IN
    IF f.k = "cseq" THEN [k |-> "entry", n |-> <<>>, i |-> f.e, l |-> 0, c |-> 0]
    ELSE IF f.cur = 0 THEN [k |-> "map", n |-> <<>>, i |-> 0, l |-> 0, c |-> 0]
    ELSE [k |-> "field", n |-> T(f.ty).fields[f.cur].key, i |-> 0, l |-> 0, c |-> 0]]
(* Failure: release what was copied *)
UndoCopy(n, ty, cnt) ==
  IF Len(n.cs) = 0 THEN n    \* nothing was started
  ELSE LET f == FreeValue([n EXCEPT !.bt = @ \o CopyTrace(n)], ty, n.cdst, cnt)
           g == IF T(ty).fl.ptr THEN f ELSE Release(f, n.cdst[1])
       IN [g EXCEPT !.cs = <<>>]

(* The whole of a nested copy, into address da: deep default values *)
CopyDefault(n, ty, cnt, da) ==
  LET t == T(ty)
      r == RunCopy(BeginCopy(n, ty, <<t.mb, 0>>, cnt))
  IN IF IsSeq(t) # (cnt # 0) THEN Err(n, "BAD_PARAM_SEQ_COUNT")
     ELSE IF ~Ok(r) THEN UndoCopy(r, ty, cnt)
     ELSE IF t.fl.ptr THEN [WritePtr(r, da, Ptr(r, CopyDst)) EXCEPT !.cs = <<>>]
     ELSE LET len == DataLen(ty, cnt)
          IN [Release(Move(r, r.cdst, da, len), r.cdst[1]) EXCEPT !.cs = <<>>]

-----------------------------------------------------------------------------
(* The reader: anchors and aliases.                                        *)
(*   rd.anc   completed anchors, in order of completion: [n, evs]          *)
(*   rd.rec   recordings in progress: [n, d, evs], innermost last          *)
(*   rd.q     events still to be replayed                                  *)
IsStart(ev) == ev.k \in {"QS", "MS"}
IsEnd(ev)   == ev.k \in {"QE", "ME"}
NoAnchor == <<>>

Record(rd, ev) ==
  LET d == IF IsStart(ev) THEN 1 ELSE IF IsEnd(ev) THEN -1 ELSE 0
      all == [i \in 1..Len(rd.rec) |-> [rd.rec[i] EXCEPT !.d = @ + d, !.evs = Append(@, ev)]]
      lastdone == Len(all) > 0 /\ all[Len(all)].d = 0
  IN IF lastdone
     THEN [rd EXCEPT !.rec = SubSeq(all, 1, Len(all) - 1),
                     !.anc = Append(@, [n |-> all[Len(all)].n, evs |-> all[Len(all)].evs])]
     ELSE [rd EXCEPT !.rec = all]
RecordFresh(rd, ev) ==
  LET anchored == ev.k \in {"SC", "QS", "MS"} /\ ev.a # NoAnchor
      r == IF anchored /\ IsStart(ev) THEN [rd EXCEPT !.rec = Append(@, [n |-> ev.a, d |-> 0, evs |-> <<>>])]
           ELSE rd
      s == Record(r, ev)
  IN IF anchored /\ ev.k = "SC"
     THEN [s EXCEPT !.anc = Append(@, [n |-> ev.a, evs |-> <<ev>>])] ELSE s

(* libyaml gives raw event ev: the machine after taking it, and the event  *)
(* it then handles *)
NoEv == [k |-> "NONE", v |-> <<>>, a |-> <<>>, l |-> 0, c |-> 0]
Replay(n) == LET ev == Head(n.rd.q) IN
  [m |-> [n EXCEPT !.rd = Record([@ EXCEPT !.q = Tail(@)], ev)], ev |-> ev]
Fresh(n0, ev) ==
  LET n == [n0 EXCEPT !.pos = @ + 1, !.doc = IF n0.keep THEN Append(@, ev) ELSE @] IN
  IF ev.k = "ERR" THEN [m |-> Because(n, "LIBYAML_PARSER", <<>>), ev |-> NoEv]
  ELSE IF ev.k = "AL"
  THEN LET hits == {i \in 1..Len(n.rd.anc) : n.rd.anc[i].n = ev.a}
       IN IF Cfg.noalias THEN [m |-> Err(n, "ALIAS"), ev |-> NoEv]
          ELSE IF hits = {} THEN [m |-> Because(n, "INVALID_ALIAS", ev.a), ev |-> NoEv]
          ELSE Replay([n EXCEPT !.rd.q = n.rd.anc[CHOOSE i \in hits : \A j \in hits : j <= i].evs])
  ELSE IF Cfg.noalias THEN [m |-> n, ev |-> ev]
  ELSE LET k == IF (ev.k \in {"SC", "QS", "MS"} /\ ev.a # NoAnchor) \/ n.rd.rec # <<>> THEN Tick(n) ELSE n
       IN [m |-> [k EXCEPT !.rd = RecordFresh(@, ev)], ev |-> ev]
Arrivals(n) == IF n.rd.q # <<>> THEN {Replay(n)} ELSE {Fresh(n, ev) : ev \in RawEvents(n)}

-----------------------------------------------------------------------------
(* Loading.  n.st is load's state stack; block 1 holds its local           *)
(* variables: the root pointer and the top-level entry count.              *)
Root == <<1, 0>>
RootCnt == <<1, 8>>

Top(n) == n.st[Len(n.st)]
SetTop(n, f) == [n EXCEPT !.st[Len(n.st)] = f]
Pop(n) == [n EXCEPT !.st = SubSeq(@, 1, Len(@) - 1)]
Push(n, f) == LET k == Tick(n) IN IF Ok(k) THEN [k EXCEPT !.st = Append(@, f)] ELSE k

NullText(t, s) == \/ t.fl.nul /\ s = <<>>
                  \/ t.fl.nls /\ s \in NullWords
EvKind(t) == CASE t.t \in {"INT", "UINT", "BOOL", "ENUM", "FLOAT", "STRING"} -> "SC"
               [] t.t \in {"FLAGS", "SEQUENCE", "SEQUENCE_FIXED"} -> "QS"
               [] t.t \in {"MAPPING", "BITFIELD"} -> "MS"

PushMap(n, ty, a, ev) ==
  LET k == IF Len(T(ty).fields) > 0 THEN Tick(n) ELSE n
  IN IF ~Ok(k) THEN k
     ELSE Push(k, [k |-> "map", ty |-> ty, a |-> a, fi |-> 0, set |-> {}, val |-> FALSE, l |-> ev.l, c |-> ev.c])
PushSeq(n, ty, a, ev) ==
  LET t == T(ty)
      top == Top(n)
      f == T(top.ty).fields[top.fi]
      ca == IF top.k = "map" THEN Add(top.a, f.coff) ELSE RootCnt
      cz == IF top.k = "map" THEN f.csz ELSE 4
      fixed == t.t = "SEQUENCE_FIXED"
  IN IF ~Ok(Tick(n)) THEN Tick(n)
     ELSE IF fixed /\ t.smin # t.smax THEN Err(n, "SEQUENCE_FIXED_COUNT")
     ELSE IF ~fixed /\ top.k = "seq" THEN Err(n, "SEQUENCE_IN_SEQUENCE")
     ELSE Push(n, [k |-> "seq", ty |-> ty, a |-> a, d |-> 0, cnt |-> 0, l |-> ev.l, c |-> ev.c,
                   ca |-> IF fixed THEN <<0, 0>> ELSE ca, cz |-> IF fixed THEN 0 ELSE cz])

ReadValue(n, ty, a, ev) ==
  LET t == T(ty)
      alloc == t.fl.ptr /\ ~IsSeq(t)
      al == IF alloc THEN New(n, IF t.t = "STRING" THEN Len(ev.v) + 1 ELSE t.sz) ELSE n
      r == IF alloc THEN WritePtr(al, a, Last(al)) ELSE n
      at == IF alloc THEN <<Last(al), 0>> ELSE a
  IN IF ev.k = "SC" /\ NullText(t, ev.v) THEN n
     ELSE IF t.t # "IGNORE" /\ ev.k # EvKind(t) THEN Because(n, "INVALID_VALUE", <<>>)
     ELSE IF ~Ok(al) THEN al
     ELSE CASE t.t = "MAPPING" -> PushMap(r, ty, at, ev)
            [] IsSeq(t) -> PushSeq(r, ty, at, ev)
            [] t.t = "FLAGS" -> IF t.sz = 0 THEN Err(r, "INVALID_DATA_SIZE")
                                ELSE [r EXCEPT !.st = Append(@, [k |-> "flags", ty |-> ty, a |-> at, acc |-> Zero8])]
            [] t.t = "BITFIELD" -> [r EXCEPT !.st = Append(@, [k |-> "bits", ty |-> ty, a |-> at, acc |-> Zero8, bi |-> 0])]
            [] t.t = "IGNORE" -> IF ev.k = "SC" THEN r ELSE [r EXCEPT !.st = Append(@, [k |-> "skip", lv |-> 1])]
            [] OTHER -> ReadScalar(r, ty, at, ev)

(* The default of an absent optional field *)
ScalarDefault(n, ty, a) ==
  LET t == T(ty)
      none == IF t.t = "STRING" THEN ~t.hasm ELSE IF t.t = "FLOAT" THEN t.fm.z ELSE IsZero(t.miss)
      al == IF t.fl.ptr THEN New(n, IF t.t = "STRING" THEN Len(t.sm) + 1 ELSE t.sz) ELSE n
      r == IF t.fl.ptr THEN WritePtr(al, a, Last(al)) ELSE n
      at == IF t.fl.ptr THEN <<Last(al), 0>> ELSE a
  IN IF none THEN n
     ELSE IF ~Ok(al) THEN al
     ELSE CASE t.t \in {"INT", "ENUM"} -> StoreInt(r, ty, at, t.miss, FALSE)
            [] t.t \in {"UINT", "FLAGS", "BITFIELD"} -> StoreUint(r, ty, at, t.miss, FALSE)
            [] t.t = "BOOL" -> StoreBool(r, ty, at, TRUE)
            [] t.t = "FLOAT" -> StoreFloat(r, ty, at, t.fm)
            [] t.t = "STRING" -> StoreString(r, ty, at, t.sm)
FieldDefault(n, f, base) ==
  LET t == T(f.ty)
      cnt == CASE t.t = "SEQUENCE" -> t.mc [] t.t = "SEQUENCE_FIXED" -> t.smax [] OTHER -> 0
      r == CopyDefault(n, f.ty, cnt, Add(base, f.off))
  IN CASE t.t = "IGNORE" -> n
       [] t.t = "MAPPING" \/ IsSeq(t) ->
            IF t.mb = 0 THEN n
            ELSE IF Ok(r) /\ t.t = "SEQUENCE"
            THEN IF GoodSize(f.csz) THEN Write(r, Add(base, f.coff), SubSeq(FromInt(cnt), 1, f.csz))
                 ELSE Err(r, "INVALID_DATA_SIZE")
            ELSE r
       [] OTHER -> ScalarDefault(n, f.ty, Add(base, f.off))
RECURSIVE Complete(_, _, _)
Complete(n, fr, i) ==
  IF ~Ok(n) \/ i > Len(T(fr.ty).fields) THEN n
  ELSE LET f == T(fr.ty).fields[i] IN
       IF i \in fr.set THEN Complete(n, fr, i + 1)
       ELSE IF T(f.ty).fl.opt THEN Complete(FieldDefault(n, f, fr.a), fr, i + 1)
       ELSE Because(n, "MAPPING_FIELD_MISSING", f.key)

LoadTrace(n) ==
  LET fs == SelectSeq(n.st, LAMBDA f : f.k \in {"map", "seq"}) IN
  [i \in 1..Len(fs) |->
    LET f == fs[Len(fs) + 1 - i] IN
    IF f.k = "seq" THEN [k |-> "entry", n |-> <<>>, i |-> f.cnt, l |-> f.l, c |-> f.c]
    ELSE IF f.fi = 0 THEN [k |-> "map", n |-> <<>>, i |-> 0, l |-> f.l, c |-> f.c]
    ELSE [k |-> "field", n |-> T(f.ty).fields[f.fi].key, i |-> 0, l |-> f.l, c |-> f.c]]

(* Any error: release the partial data, forget the stacks *)
UnwindLoad(n) ==
  LET f == FreeValue([n EXCEPT !.bt = @ \o LoadTrace(n)], n.ty, Root, CountAt(n, RootCnt, 4))
  IN [f EXCEPT !.st = <<>>, !.pc = "ret"]
Step(n) == m' = IF Ok(n) THEN n ELSE UnwindLoad(n)

(* Each of the following is one cell of load's (state, event) table.       *)
StreamStart(n, ev) == Top(n).k = "start" /\ ev.k = "SS" /\ Step(Push(n, [k |-> "stream", docs |-> 0]))
(* Warnings, of what is passed over: keys, and (as <<>>) all documents after the first. *)
Warn(n, key) == IF Cfg.warn THEN [n EXCEPT !.wn = Append(@, key)] ELSE n
DocStart(n, ev) == Top(n).k = "stream" /\ ev.k = "DS" /\
  IF Top(n).docs = 1 THEN Step([Pop(n) EXCEPT !.wn = Append(@, <<>>)])       \* only the first document
  ELSE Step(Push(SetTop(n, [Top(n) EXCEPT !.docs = 1]), [k |-> "doc"]))
StreamEnd(n, ev) == Top(n).k = "stream" /\ ev.k = "SE" /\ Step(Pop(n))
DocRoot(n, ev) == Top(n).k = "doc" /\ ev.k \in {"SC", "QS", "MS"} /\ Step(ReadValue(n, n.ty, Root, ev))
DocEnd(n, ev) == Top(n).k = "doc" /\ ev.k = "DE" /\ Step(Pop(n))

MapKey(n, ev) == Top(n).k = "map" /\ ~Top(n).val /\ ev.k = "SC" /\
  LET top == Top(n)  t == T(top.ty)
      hits == {i \in 1..Len(t.fields) : NameEq(t.fields[i].key, ev.v, Insensitive(t))}
      i == IF hits = {} THEN 0 ELSE CHOOSE x \in hits : \A y \in hits : x <= y
      k == SetTop(n, [top EXCEPT !.fi = i])
  IN IF i = 0
     THEN IF Cfg.iuk THEN Step(Warn([k EXCEPT !.st = Append(@, [k |-> "skip", lv |-> 0])], ev.v))
          ELSE Step(Because(k, "INVALID_KEY", ev.v))
     ELSE IF T(t.fields[i].ty).t # "IGNORE" /\ i \in top.set THEN Step(Because(k, "UNEXPECTED_EVENT", t.fields[i].key))
     ELSE LET w == IF T(t.fields[i].ty).t = "IGNORE" THEN Warn(k, t.fields[i].key) ELSE k
          IN Step(SetTop(w, [top EXCEPT !.fi = i, !.set = @ \cup {i}, !.val = TRUE, !.l = ev.l, !.c = ev.c]))
MapValue(n, ev) == Top(n).k = "map" /\ Top(n).val /\ ev.k \in {"SC", "QS", "MS"} /\
  LET top == Top(n)  f == T(top.ty).fields[top.fi]
  IN Step(ReadValue(SetTop(n, [top EXCEPT !.val = FALSE, !.l = ev.l, !.c = ev.c]), f.ty, Add(top.a, f.off), ev))
MapEnd(n, ev) == Top(n).k = "map" /\ ~Top(n).val /\ ev.k = "ME" /\
  LET top == Top(n)
      d == Complete(n, top, 1)
      c == IF Ok(d) THEN Callback(d, top.ty, Bytes(d, top.a, T(top.ty).sz), 0) ELSE d
  IN Step(IF Ok(c) THEN Pop(c) ELSE c)

SeqEntry(n0, ev) == Top(n0).k = "seq" /\ ev.k \in {"SC", "QS", "MS"} /\
  LET n == SetTop(n0, [Top(n0) EXCEPT !.l = ev.l, !.c = ev.c])
      top == Top(n)  t == T(top.ty)  cnt == top.cnt + 1
      fixed == t.t = "SEQUENCE_FIXED"
      grow == t.fl.ptr /\ (~fixed \/ top.d = 0)
      al == IF ~grow THEN n ELSE IF fixed THEN New(n, t.sz * t.smax) ELSE Resize(n, top.d, t.sz * cnt)
      d == IF grow THEN Last(al) ELSE top.d
      wp == IF grow THEN WritePtr(al, top.a, d) ELSE al
      up == SetTop(wp, [top EXCEPT !.d = d, !.cnt = cnt])
      wc == IF fixed THEN up
            ELSE IF ~GoodSize(top.cz) THEN Err(up, "INVALID_DATA_SIZE")
            ELSE Write(up, top.ca, SubSeq(FromInt(cnt), 1, top.cz))
      base == IF t.fl.ptr THEN <<d, 0>> ELSE top.a
  IN IF cnt > t.smax \/ (~fixed /\ top.cz \in 1..3 /\ cnt >= 256 ^ top.cz)
     THEN Step(Because(n, "SEQUENCE_ENTRIES_MAX", <<>>))
     ELSE IF ~Ok(al) THEN Step(al)
     ELSE IF ~Ok(wc) THEN Step(wc)
     ELSE Step(ReadValue(wc, t.ent, Add(base, t.sz * (cnt - 1)), ev))
SeqEnd(n, ev) == Top(n).k = "seq" /\ ev.k = "QE" /\
  LET top == Top(n)  t == T(top.ty)
      base == IF t.fl.ptr THEN <<top.d, 0>> ELSE top.a
      c == Callback(n, top.ty, Bytes(n, base, t.sz * top.cnt), top.cnt)
  IN IF top.cnt < t.smin THEN Step(Because(n, "SEQUENCE_ENTRIES_MIN", <<>>))
     ELSE Step(IF Ok(c) THEN Pop(c) ELSE c)

FlagsEntry(n, ev) == Top(n).k = "flags" /\ ev.k = "SC" /\
  LET top == Top(n)  t == T(top.ty)  i == FirstMatch(t, t.strs, ev.v)  p == ParseU(ev.v)
  IN IF i # 0 THEN Step(SetTop(n, [top EXCEPT !.acc = OrB(@, t.strs[i].v)]))
     ELSE IF ~t.fl.strict /\ p.ok /\ FitsU(p.v, t.sz) THEN Step(SetTop(n, [top EXCEPT !.acc = OrB(@, p.v)]))
     ELSE Step(Because(n, "INVALID_VALUE", ev.v))
FlagsEnd(n, ev) == Top(n).k = "flags" /\ ev.k = "QE" /\
  Step(StoreUint(Pop(n), Top(n).ty, Top(n).a, Top(n).acc, TRUE))

BadBit(t, i) == t.bits[i].o + t.bits[i].w > t.sz * 8
BitsName(n, ev) == Top(n).k = "bits" /\ Top(n).bi = 0 /\ ev.k = "SC" /\
  LET top == Top(n)  t == T(top.ty)  i == FirstMatch(t, t.bits, ev.v)
      upto == IF i = 0 THEN Len(t.bits) ELSE i
  IN IF \E j \in 1..upto : BadBit(t, j) THEN Step(Err(n, "BAD_BITVAL_IN_SCHEMA"))
     ELSE IF i = 0 THEN Step(Because(n, "INVALID_VALUE", ev.v))
     ELSE Step(SetTop(n, [top EXCEPT !.bi = i]))
BitsNumber(n, ev) == Top(n).k = "bits" /\ Top(n).bi # 0 /\ ev.k = "SC" /\
  LET top == Top(n)  b == T(top.ty).bits[top.bi]  p == ParseU(ev.v)
  IN IF ~p.ok \/ ~IsZero(IF b.w = 64 THEN Zero8 ELSE Shr(p.v, b.w))
     THEN Step(Because(n, "INVALID_VALUE", IF p.ok THEN b.n ELSE ev.v))
     ELSE Step(SetTop(n, [top EXCEPT !.bi = 0, !.acc = OrB(@, Shl(p.v, b.o))]))
BitsEnd(n, ev) == Top(n).k = "bits" /\ Top(n).bi = 0 /\ ev.k = "ME" /\
  Step(StoreUint(Pop(n), Top(n).ty, Top(n).a, Top(n).acc, TRUE))

Skip(n, ev) == Top(n).k = "skip" /\
  LET lv == Top(n).lv + (IF IsStart(ev) THEN 1 ELSE IF IsEnd(ev) THEN -1 ELSE 0)
  IN IF lv = 0 THEN Step(Pop(n)) ELSE Step(SetTop(n, [k |-> "skip", lv |-> lv]))

Handled == { <<"start", "SS">>, <<"stream", "DS">>, <<"stream", "SE">>,
             <<"doc", "SC">>, <<"doc", "QS">>, <<"doc", "MS">>, <<"doc", "DE">>,
             <<"key", "SC">>, <<"key", "ME">>, <<"val", "SC">>, <<"val", "QS">>, <<"val", "MS">>,
             <<"seq", "SC">>, <<"seq", "QS">>, <<"seq", "MS">>, <<"seq", "QE">>,
             <<"flags", "SC">>, <<"flags", "QE">>, <<"bits", "SC">>, <<"bits", "ME">>, <<"bitval", "SC">> }
Cell(n, ev) == LET f == Top(n) IN
  << CASE f.k = "map" -> (IF f.val THEN "val" ELSE "key")
       [] f.k = "bits" -> (IF f.bi = 0 THEN "bits" ELSE "bitval")
       [] OTHER -> f.k, ev.k >>
Unexpected(n, ev) == Top(n).k # "skip" /\ Cell(n, ev) \notin Handled /\
  Step(Err(n, IF Top(n).k \in {"flags", "bits"} THEN "UNEXPECTED_EVENT" ELSE "INTERNAL_ERROR"))

ReaderFails(n) == ~Ok(n) /\ Step(n)
LoadDone == m.pc = "load" /\ m.st # <<>> /\ Top(m).k = "start" /\ m.pos > 0
            /\ m' = [m EXCEPT !.pc = "ret", !.st = <<>>]
LoadEvent ==
  /\ m.pc = "load" /\ m.st # <<>> /\ ~(Top(m).k = "start" /\ m.pos > 0)
  /\ \E arr \in Arrivals(m) :
       LET n == arr.m  ev == arr.ev IN
       \/ ReaderFails(n)
       \/ Ok(n) /\ \/ StreamStart(n, ev) \/ DocStart(n, ev) \/ StreamEnd(n, ev)
                   \/ DocRoot(n, ev) \/ DocEnd(n, ev)
                   \/ MapKey(n, ev) \/ MapValue(n, ev) \/ MapEnd(n, ev)
                   \/ SeqEntry(n, ev) \/ SeqEnd(n, ev)
                   \/ FlagsEntry(n, ev) \/ FlagsEnd(n, ev)
                   \/ BitsName(n, ev) \/ BitsNumber(n, ev) \/ BitsEnd(n, ev)
                   \/ Skip(n, ev)
                   \/ Unexpected(n, ev)

StartLoad(n, ty, rej, bud) ==
  LET k == [n EXCEPT !.pc = "load", !.err = "OK", !.ty = ty, !.rej = rej, !.bud = bud, !.pos = 0, !.doc = <<>>,
                     !.cb = <<>>, !.bt = <<>>, !.em = <<>>, !.wn = <<>>, !.why = <<>>, !.st = <<>>, !.h[1] = Locals,
                     !.rd = [anc |-> <<>>, rec |-> <<>>, q |-> <<>>]]
      p == Push(k, [k |-> "start"])
  IN IF Ok(p) THEN p ELSE [p EXCEPT !.pc = "ret"]

-----------------------------------------------------------------------------
(* Saving.  n.ss is save's state stack, n.em the events emitted.           *)
TopSave(n) == n.ss[Len(n.ss)]
SetTopSave(n, f) == [n EXCEPT !.ss[Len(n.ss)] = f]
PushSave(n, f) == LET k == Tick(n) IN IF Ok(k) THEN [k EXCEPT !.ss = Append(@, f)] ELSE k
Emit(n, e) == [n EXCEPT !.em = Append(@, e)]
Ev(k) == [k |-> k, x |-> "", v |-> <<>>, s |-> "any"]

Style(t) == CASE t.fl.blk -> "block" [] t.fl.flw -> "flow"
              [] Cfg.block -> "block" [] Cfg.flow -> "flow" [] OTHER -> "any"
ScalarStyle(t) == CASE t.fl.dq -> "double" [] t.fl.sq -> "single" [] t.fl.lit -> "literal"
                    [] t.fl.fold -> "folded" [] t.fl.plain -> "plain" [] OTHER -> "any"
Scalar(n, t, x, v) == Emit(n, [k |-> "SC", x |-> x, v |-> v, s |-> ScalarStyle(t)])

(* well-formed UTF-8, as libyaml requires of strings *)
(* (each byte that starts a character is followed by its others, and no other byte is of their kind) *)
Utf8Width(c) == CASE c < 128 -> 1 [] c \in 192..223 -> 2 [] c \in 224..239 -> 3 [] c \in 240..247 -> 4 [] OTHER -> 0
Utf8Ok(s, first) ==
  \A i \in first..Len(s) :
    LET w == Utf8Width(s[i]) IN
    IF s[i] \in 128..191
    THEN \E k \in 1..3 : i - k >= first /\ Utf8Width(s[i - k]) > k /\ \A j \in 1..(k - 1) : s[i - j] \in 128..191
    ELSE w > 0 /\ i + w - 1 <= Len(s) /\ \A j \in 1..(w - 1) : s[i + j] \in 128..191

RECURSIVE SaveFlags(_, _, _, _, _), SaveBits(_, _, _, _)
SaveFlags(n, t, i, all, left) ==
  IF i > Len(t.strs)
  THEN IF IsZero(left) THEN Emit(n, Ev("QE"))
       ELSE IF t.fl.strict THEN Err(n, "INVALID_VALUE")
       ELSE Emit(Scalar(n, t, "uint", left), Ev("QE"))
  ELSE LET f == t.strs[i].v IN
       IF ~IsZero(AndB(left, f)) /\ AndB(all, f) = f
       THEN SaveFlags(Scalar(n, t, "str", t.strs[i].n), t, i + 1, all, AndB(left, NotB(f)))
       ELSE SaveFlags(n, t, i + 1, all, left)
SaveBits(n, t, i, v) ==
  IF i > Len(t.bits) THEN Emit(n, Ev("ME"))
  ELSE IF BadBit(t, i) THEN Err(n, "BAD_BITVAL_IN_SCHEMA")
  ELSE LET b == t.bits[i]  x == AndB(Shr(v, b.o), Mask(b.w)) IN
       SaveBits(IF IsZero(x) THEN n ELSE Scalar(Scalar(n, t, "str", b.n), t, "uint", x), t, i + 1, v)

SaveEnum(n, t, raw) ==
  LET sv == SignExt(SubSeq(raw, 1, t.sz))
      hits == {i \in 1..Len(t.strs) : t.strs[i].v = sv \/ t.strs[i].v = raw}
  IN IF hits # {} THEN Scalar(n, t, "str", t.strs[CHOOSE i \in hits : \A j \in hits : i <= j].n)
     ELSE IF t.fl.strict THEN Err(n, "INVALID_VALUE")
     ELSE Scalar(n, t, "int", sv)

SaveLeaf(n0, ty, a) ==
  LET t == T(ty)
      n == IF t.t = "STRING" THEN n0 ELSE Chk(n0, a, t.sz)
      raw == Number(n, a, t.sz)
  IN CASE t.t = "STRING" ->
            IF ~CStrOk(n, a) THEN Fault(n, "unterminated string")
            ELSE IF ~Utf8Ok(CStrAt(n, a), 1) THEN Err(n, "LIBYAML_EVENT_INIT")
            ELSE Scalar(n, t, "str", CStrAt(n, a))
       [] t.t = "FLOAT" -> IF t.sz = 4 THEN Scalar(n, t, "f4", Bytes(n, a, 4))
                           ELSE IF t.sz = 8 THEN Scalar(n, t, "f8", Bytes(n, a, 8))
                           ELSE Err(n, "INVALID_DATA_SIZE")
       [] t.t \in {"INT", "UINT", "BOOL", "ENUM", "FLAGS", "BITFIELD"} /\ ~GoodSize(t.sz) -> Err(n, "INVALID_DATA_SIZE")
       [] t.t = "INT" -> Scalar(n, t, "int", SignExt(Bytes(n, a, t.sz)))
       [] t.t = "UINT" -> Scalar(n, t, "uint", raw)
       [] t.t = "BOOL" -> Scalar(n, t, IF IsZero(raw) THEN "false" ELSE "true", <<>>)
       [] t.t = "ENUM" -> SaveEnum(n, t, raw)
       [] t.t = "FLAGS" -> SaveFlags(Emit(n, Ev("QS")), t, 1, raw, raw)
       [] t.t = "BITFIELD" -> SaveBits(Emit(n, [Ev("MS") EXCEPT !.s = Style(t)]), t, 1, raw)
       [] t.t = "IGNORE" -> Err(n, "BAD_TYPE_IN_SCHEMA")
SaveValue(n0, ty, a, cnt) ==
  LET t == T(ty)
      n == IF t.fl.ptr THEN Chk(n0, a, 8) ELSE n0
      id == Ptr(n, a)
      at == IF t.fl.ptr THEN <<id, 0>> ELSE a
  IN IF t.fl.ptr /\ id = 0 /\ t.fl.nls THEN Scalar(n, t, "str", <<110, 117, 108, 108>>)
     ELSE IF t.fl.ptr /\ id = 0 /\ t.fl.nul THEN Scalar(n, t, "str", <<>>)
     ELSE IF t.fl.ptr /\ id = 0 /\ ~(IsSeq(t) /\ cnt = 0) THEN Err(n, "INVALID_VALUE")
     ELSE CASE t.t = "MAPPING" ->
                 PushSave(Emit(n, [Ev("MS") EXCEPT !.s = Style(t)]), [k |-> "smap", ty |-> ty, a |-> at, fi |-> 0, cur |-> 0])
            [] t.t = "SEQUENCE_FIXED" /\ t.smin # t.smax -> Err(n, "SEQUENCE_FIXED_COUNT")
            [] IsSeq(t) ->
                 PushSave(Emit(n, [Ev("QS") EXCEPT !.s = Style(t)]), [k |-> "sseq", ty |-> ty, a |-> at, e |-> 0, cnt |-> cnt])
            [] OTHER -> SaveLeaf(n, ty, at)

SaveField(n) ==
  LET top == TopSave(n)  i == top.fi + 1 IN
  IF i > Len(T(top.ty).fields) THEN [Emit(n, Ev("ME")) EXCEPT !.ss = SubSeq(@, 1, Len(@) - 1)]
  ELSE LET f == T(top.ty).fields[i]  t == T(f.ty)
           skipped == t.t = "IGNORE" \/ (t.fl.opt /\ t.fl.ptr /\ Ptr(n, Add(top.a, f.off)) = 0)
           a == SetTopSave(n, [top EXCEPT !.fi = i, !.cur = i])
           keyed == Scalar(a, T(top.ty), "str", f.key)
           cnt == IF t.t = "SEQUENCE" THEN CountAt(n, Add(top.a, f.coff), f.csz)
                  ELSE IF t.t = "SEQUENCE_FIXED" THEN t.smin ELSE 0
       IN IF skipped THEN SetTopSave(n, [top EXCEPT !.fi = i])
          ELSE IF t.t = "SEQUENCE" /\ ~GoodSize(f.csz) THEN Err(keyed, "INVALID_DATA_SIZE")
          ELSE SaveValue(keyed, f.ty, Add(top.a, f.off), cnt)
SaveEntry(n) ==
  LET top == TopSave(n) IN
  IF top.e >= top.cnt THEN [Emit(n, Ev("QE")) EXCEPT !.ss = SubSeq(@, 1, Len(@) - 1)]
  ELSE LET ety == T(top.ty).ent  e == T(ety)
           o == EntrySize(e) * top.e
       IN IF e.t = "SEQUENCE" THEN Err(n, "SEQUENCE_IN_SEQUENCE")
          ELSE SaveValue(SetTopSave(n, [top EXCEPT !.e = @ + 1]), ety, Add(top.a, o),
                         IF e.t = "SEQUENCE_FIXED" THEN e.smax ELSE 0)
SaveTrace(n) ==
  [i \in 1..Len(n.ss) |->
    LET f == n.ss[Len(n.ss) + 1 - i] IN
    IF f.k = "sseq" THEN [k |-> "entry", n |-> <<>>, i |-> f.e, l |-> 0, c |-> 0]
    ELSE IF f.cur = 0 THEN [k |-> "map", n |-> <<>>, i |-> 0, l |-> 0, c |-> 0]
    ELSE [k |-> "field", n |-> T(f.ty).fields[f.cur].key, i |-> 0, l |-> 0, c |-> 0]]
UnwindSave(n) == [n EXCEPT !.bt = SaveTrace(n), !.ss = <<>>, !.pc = "ret"]
StepSave(n) == m' = IF Ok(n) THEN n ELSE UnwindSave(n)
SaveStep ==
  /\ m.pc = "save" /\ m.ss # <<>>
  /\ StepSave(IF TopSave(m).k = "smap" THEN SaveField(m) ELSE SaveEntry(m))
SaveDone == m.pc = "save" /\ m.ss = <<>>
            /\ m' = [Emit(Emit(m, Ev("DE")), Ev("SE")) EXCEPT !.pc = "ret"]
StartSave(n, ty, id, cnt) ==
  LET k == [n EXCEPT !.pc = "save", !.err = "OK", !.ty = ty, !.cb = <<>>, !.bt = <<>>, !.ss = <<>>,
                     !.wn = <<>>, !.why = <<>>, !.em = <<Ev("SS"), Ev("DS")>>, !.h[1] = Locals]
      r == SaveValue(WritePtr(k, Root, id), ty, Root, IF T(ty).t = "SEQUENCE_FIXED" THEN T(ty).smax ELSE cnt)
  IN IF Ok(r) THEN r ELSE UnwindSave(r)

-----------------------------------------------------------------------------
(* Is the value at a one that a document can give?  Absent optional fields *)
(* are left zero, and defaults are not checked, so a client can be handed  *)
(* data outside of the limits set for what is loaded; null words and the   *)
(* like are read as NULL.  Such data doesn't come back as it was.          *)
NoDefault(t) == CASE t.t = "STRING" -> ~t.hasm [] t.t = "FLOAT" -> t.fm.z
                  [] t.t = "MAPPING" \/ IsSeq(t) -> t.mb = 0 [] OTHER -> IsZero(t.miss)
RECURSIVE Legal(_, _, _, _)
Legal(n, ty, a, cnt) ==
  LET t == T(ty)
      id == Ptr(n, a)
      at == IF t.fl.ptr THEN <<id, 0>> ELSE a
      raw == Number(n, at, t.sz)
      num == CountAt(n, at, t.sz)
      str == CStrAt(n, at)
      ents == IF t.t = "SEQUENCE" THEN cnt ELSE t.smax
      stride == EntrySize(T(t.ent))
      named == LET f[i \in 0..Len(t.bits)] == IF i = 0 THEN Zero8 ELSE OrB(f[i-1], Shl(Mask(t.bits[i].w), t.bits[i].o)) IN f[Len(t.bits)]
  IN IF t.fl.ptr /\ id = 0 THEN TRUE
     ELSE CASE t.t = "INT" -> ~t.rng \/ (LeS(t.min, SignExt(Bytes(n, at, t.sz))) /\ LeS(SignExt(Bytes(n, at, t.sz)), t.max))
            [] t.t = "UINT" -> ~t.rng \/ (LeU(t.min, raw) /\ LeU(raw, t.max))
            [] t.t = "STRING" -> Len(str) \in t.smin..t.smax /\ ~NullText(t, str)
            [] t.t = "BOOL" -> IsZero(raw) \/ raw = FromInt(1)
            [] t.t = "ENUM" -> \A i \in 1..Len(t.strs) : t.strs[i].v = raw => FitsS(raw, t.sz)    \* a value its type has no room for
            [] t.t = "BITFIELD" -> IsZero(AndB(raw, NotB(named)))
            [] t.t = "MAPPING" -> \A i \in 1..Len(t.fields) :
                 LET f == t.fields[i]  u == T(f.ty) IN
                 /\ u.t # "IGNORE"
                 /\ (u.fl.opt /\ u.fl.ptr /\ Ptr(n, Add(at, f.off)) = 0) => NoDefault(u)
                 /\ Legal(n, f.ty, Add(at, f.off), IF u.t = "SEQUENCE" THEN CountAt(n, Add(at, f.coff), f.csz) ELSE 0)
            [] t.t = "SEQUENCE" /\ (cnt < t.smin \/ cnt > t.smax) -> FALSE
            [] IsSeq(t) -> \A i \in 1..ents : Legal(n, t.ent, Add(at, (i - 1) * stride), 0)
            [] OTHER -> TRUE

-----------------------------------------------------------------------------
(* The public copy, step by step *)
StartCopy(n, ty, id, cnt, bud) ==
  LET k == [n EXCEPT !.pc = "copy", !.err = "OK", !.ty = ty, !.cb = <<>>, !.bt = <<>>, !.em = <<>>, !.wn = <<>>, !.why = <<>>, !.bud = bud, !.ccnt = cnt]
  IN BeginCopy(k, ty, <<id, 0>>, cnt)
CopyAct == m.pc = "copy" /\ Ok(m) /\ Len(m.cs) > 1 /\ m' = CopyStep(m)
CopyFails == m.pc = "copy" /\ ~Ok(m) /\ m' = [UndoCopy(m, m.ty, m.ccnt) EXCEPT !.pc = "ret"]
CopyDone == m.pc = "copy" /\ Ok(m) /\ Len(m.cs) <= 1 /\ m' = [m EXCEPT !.pc = "ret", !.cs = <<>>]

StartFree(n, ty, id, cnt) ==
  LET k == [n EXCEPT !.err = "OK", !.ty = ty, !.cb = <<>>, !.bt = <<>>, !.em = <<>>, !.wn = <<>>, !.why = <<>>, !.h[1] = Locals]
  IN [FreeValue(WritePtr(k, Root, id), ty, Root, cnt) EXCEPT !.pc = "ret"]

-----------------------------------------------------------------------------
InitM(statics, keep) ==
  [pc |-> "call", err |-> "OK", flt |-> {}, ty |-> 1, rej |-> 0, bud |-> -1, pos |-> 0, doc |-> <<>>, keep |-> keep, env |-> <<0, 0>>,
   h |-> <<Locals, Locals>> \o [i \in 1..Len(statics) |->
            LET s == statics[i]
            IN Block(Len(s.b), s.b, [o \in {s.p[j][1] : j \in 1..Len(s.p)} |->
                 (CHOOSE q \in {s.p[j] : j \in 1..Len(s.p)} : q[1] = o)[2]], TRUE)],
   st |-> <<>>, cs |-> <<>>, ss |-> <<>>, cdst |-> <<0, 0>>, ccnt |-> 0,
   rd |-> [anc |-> <<>>, rec |-> <<>>, q |-> <<>>], cb |-> <<>>, bt |-> <<>>, em |-> <<>>, wn |-> <<>>, why |-> <<>>]

Library == LoadEvent \/ LoadDone \/ SaveStep \/ SaveDone \/ CopyAct \/ CopyFails \/ CopyDone

(* Memory is used properly in every state *)
MemorySafe == m.flt = {}
(* The client's blocks *)
Live(n) == {i \in 3..Len(n.h) : n.h[i].live /\ ~n.h[i].st}
RECURSIVE Reach(_, _)
Reach(n, ids) == LET next == ids \cup UNION {{n.h[i].p[o] : o \in DOMAIN n.h[i].p} : i \in ids}
                 IN IF next = ids THEN ids ELSE Reach(n, next)
(* how many pointers to block i there are in the blocks of ids *)
Owners(n, ids, i) == Cardinality({<<b, o>> \in UNION {{<<b, o>> : o \in DOMAIN n.h[b].p} : b \in ids} : n.h[b].p[o] = i})
=============================================================================
