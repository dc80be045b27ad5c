------------------------------ MODULE Meaning ------------------------------
(***************************************************************************)
(* What a document means.                                                  *)
(*                                                                         *)
(* Cyaml.tla says how the library goes about its work: events, stacks and  *)
(* bytes.  This module says what the work is, without any of those: a      *)
(* document is a tree, a schema maps a tree to a value (or to the first    *)
(* error in reading order), memory holds a value, and a value has an image *)
(* as a tree.  CyamlMC.tla checks that the machine does just this.         *)
(*                                                                         *)
(* Values: <<"null">>, <<"b", bytes>> (anything held as plain bytes),      *)
(* <<"s", text>>, <<"m", values of the fields>>, <<"q", entries>>, and     *)
(* <<"-">> for what is ignored.                                            *)
(***************************************************************************)
EXTENDS Cyaml

Null == <<"null">>
Nothing == <<"-">>

-----------------------------------------------------------------------------
(* Trees.  k: S scalar, Q sequence, M mapping (kids alternate), A alias,   *)
(* E the end of what could be parsed, X an alias of nothing.               *)
Leaf(k, ev) == [k |-> k, ev |-> ev, kids |-> <<>>, an |-> ev.a]
RECURSIVE Tree(_, _), Kids(_, _, _)
(* the node that starts at event i, and the place after it *)
Tree(evs, i) ==
  IF i > Len(evs) THEN [n |-> Leaf("E", NoEv), at |-> i]
  ELSE LET ev == evs[i] IN
       CASE ev.k = "SC" -> [n |-> Leaf("S", ev), at |-> i + 1]
         [] ev.k = "AL" -> [n |-> Leaf("A", ev), at |-> i + 1]
         [] ev.k \in {"QS", "MS"} ->
              LET r == Kids(evs, i + 1, <<>>)
              IN [n |-> [k |-> IF ev.k = "QS" THEN "Q" ELSE "M", ev |-> ev, kids |-> r.ks, an |-> ev.a], at |-> r.at]
         [] OTHER -> [n |-> Leaf("E", NoEv), at |-> Len(evs) + 1]
Kids(evs, i, ks) ==
  IF i <= Len(evs) /\ evs[i].k \in {"QE", "ME"} THEN [ks |-> ks, at |-> i + 1]
  ELSE LET r == Tree(evs, i) IN
       IF r.n.k = "E" THEN [ks |-> Append(ks, r.n), at |-> r.at]
       ELSE Kids(evs, r.at, Append(ks, r.n))

(* Aliases stand for the latest value completed before them of that name.  *)
RECURSIVE Resolve(_, _), ResolveKids(_, _, _, _)
Resolve(n, env) ==    \* env: anchors in order of completion, <<name, tree>>
  LET hits == {i \in 1..Len(env) : env[i][1] = n.ev.a}
      r == ResolveKids(n.kids, 1, <<>>, env)
      t == [n EXCEPT !.kids = r.ks]
      bind(e) == IF n.an = NoAnchor THEN e ELSE Append(e, <<n.an, t>>)
  IN CASE n.k = "A" -> IF Cfg.noalias \/ hits = {} THEN [t |-> Leaf("X", n.ev), env |-> env]
                       ELSE [t |-> [env[CHOOSE i \in hits : \A j \in hits : j <= i][2] EXCEPT !.an = NoAnchor], env |-> env]
       [] n.k \in {"Q", "M"} -> [t |-> t, env |-> bind(r.env)]
       [] n.k = "S" -> [t |-> n, env |-> bind(env)]
       [] OTHER -> [t |-> n, env |-> env]
ResolveKids(ks, i, done, env) ==
  IF i > Len(ks) THEN [ks |-> done, env |-> env]
  ELSE LET r == Resolve(ks[i], env) IN ResolveKids(ks, i + 1, Append(done, r.t), r.env)
BadAlias == IF Cfg.noalias THEN "ALIAS" ELSE "INVALID_ALIAS"

(* the first thing wrong with a tree that nobody reads *)
RECURSIVE Flaw(_), FlawIn(_, _)
Flaw(n) == CASE n.k = "E" -> "LIBYAML_PARSER" [] n.k = "X" -> BadAlias [] OTHER -> FlawIn(n.kids, 1)
FlawIn(ks, i) == IF i > Len(ks) THEN "OK" ELSE LET f == Flaw(ks[i]) IN IF f # "OK" THEN f ELSE FlawIn(ks, i + 1)

-----------------------------------------------------------------------------
(* What memory holds *)
RECURSIVE At(_, _, _, _)
At(n, ty, a, cnt) ==
  LET t == T(ty)
      id == Ptr(n, a)
      at == IF t.fl.ptr THEN <<id, 0>> ELSE a
      stride == EntrySize(T(t.ent))
      num == IF t.t = "SEQUENCE" THEN cnt ELSE t.smax
  IN IF t.t = "IGNORE" THEN Nothing
     ELSE IF t.fl.ptr /\ id = 0 THEN Null
     ELSE CASE t.t = "STRING" -> <<"s", CStrAt(n, at)>>
            [] t.t = "MAPPING" -> <<"m", [i \in 1..Len(t.fields) |->
                 LET f == t.fields[i] IN
                 At(n, f.ty, Add(at, f.off), IF T(f.ty).t = "SEQUENCE" THEN CountAt(n, Add(at, f.coff), f.csz) ELSE 0)]>>
            [] IsSeq(t) -> <<"q", [i \in 1..num |-> At(n, t.ent, Add(at, (i - 1) * stride), 0)]>>
            [] OTHER -> <<"b", Bytes(n, at, t.sz)>>

(* which bytes it holds it in *)
RECURSIVE Held(_, _, _, _)
Span(a, len) == {<<a[1], a[2] + i>> : i \in 0..(len - 1)}
Held(n, ty, a, cnt) ==
  LET t == T(ty)
      id == Ptr(n, a)
      at == IF t.fl.ptr THEN <<id, 0>> ELSE a
      stride == EntrySize(T(t.ent))
      num == IF t.t = "SEQUENCE" THEN cnt ELSE t.smax
      inner ==
        CASE t.t = "IGNORE" -> {}
          [] t.t = "STRING" -> Span(at, Len(CStrAt(n, at)) + 1)
          [] t.t = "MAPPING" -> UNION {
               LET f == t.fields[i]
                   sq == T(f.ty).t = "SEQUENCE"
               IN Held(n, f.ty, Add(at, f.off), IF sq THEN CountAt(n, Add(at, f.coff), f.csz) ELSE 0)
                  \cup (IF sq THEN Span(Add(at, f.coff), f.csz) ELSE {}) : i \in 1..Len(t.fields)}
          [] IsSeq(t) -> UNION {Held(n, t.ent, Add(at, (i - 1) * stride), 0) : i \in 1..num}
          [] OTHER -> Span(at, t.sz)
  IN (IF t.fl.ptr THEN Span(a, 8) ELSE {}) \cup (IF t.fl.ptr /\ id = 0 THEN {} ELSE inner)

-----------------------------------------------------------------------------
(* What a tree means to a schema: the value v or the first error e, the    *)
(* callbacks cb made on the way, and on error the way to it, innermost     *)
(* first.  A reading carries these along.                                  *)
R(e, v, cb) == [e |-> e, v |-> v, cb |-> cb, way |-> <<>>]
Good(v, cb) == R("OK", v, cb)
Bad(e, cb) == R(e, Nothing, cb)
Within(r, step) == IF r.e = "OK" THEN r ELSE [r EXCEPT !.way = Append(@, step)]
FieldStep(key) == [k |-> "field", n |-> key, i |-> 0]
EntryStep(i) == [k |-> "entry", n |-> <<>>, i |-> i]
MapStep == [k |-> "map", n |-> <<>>, i |-> 0]

(* the client's callback: number m.rej is refused *)
Asked(ty, r, k) ==
  IF r.e # "OK" \/ T(ty).cb = 0 THEN r
  ELSE LET cb == Append(r.cb, <<T(ty).cb, k>>)
       IN IF Len(cb) = m.rej THEN Bad("INVALID_VALUE", cb) ELSE [r EXCEPT !.cb = cb]

Wrong(e) == <<"!", e>>
IsWrong(v) == v[1] = "!"
NoSuch == Wrong("INVALID_VALUE")
Sized(ty, v) == IF GoodSize(T(ty).sz) THEN v ELSE Wrong("INVALID_DATA_SIZE")
IntVal(ty, v) == LET t == T(ty) IN Sized(ty,
  IF FitsS(v, t.sz) /\ (t.t = "INT" /\ t.rng => LeS(t.min, v) /\ LeS(v, t.max))
  THEN <<"b", SubSeq(v, 1, t.sz)>> ELSE NoSuch)
UintVal(ty, v) == LET t == T(ty) IN Sized(ty,
  IF FitsU(v, t.sz) /\ (t.t = "UINT" /\ t.rng => LeU(t.min, v) /\ LeU(v, t.max))
  THEN <<"b", SubSeq(v, 1, t.sz)>> ELSE NoSuch)
Only(v, e) == IF IsWrong(v) THEN Wrong(e) ELSE v
Text(t, s) == CASE t.smin > t.smax -> Wrong("BAD_MIN_MAX_SCHEMA") [] Len(s) < t.smin -> Wrong("STRING_LENGTH_MIN")
                [] Len(s) > t.smax -> Wrong("STRING_LENGTH_MAX") [] OTHER -> <<"s", s>>
Real(t, f) == CASE t.sz = 4 -> IF t.fl.strict /\ (f.over \/ f.sub) THEN NoSuch ELSE <<"b", f.f4>>
                [] t.sz = 8 -> <<"b", f.d8>> [] OTHER -> Wrong("INVALID_DATA_SIZE")
Truth(ty, b) == Sized(ty, <<"b", [i \in 1..T(ty).sz |-> IF i = 1 /\ b THEN 1 ELSE 0]>>)
(* which scalars say NULL, and whose names may be spelt in any case *)
InLower(s) == [i \in 1..Len(s) |-> IF s[i] \in 65..90 THEN s[i] + 32 ELSE s[i]]
SpellsNull(t, s) == (t.fl.nul /\ Len(s) = 0) \/ (t.fl.nls /\ (s = <<126>> \/
  (InLower(s) = <<110, 117, 108, 108>> /\ (Tail(s) = Tail(InLower(s)) \/ s = <<78, 85, 76, 76>>))))
AnyCase(t) == CASE t.fl.ci -> TRUE [] t.fl.cs -> FALSE [] OTHER -> Cfg.ci
(* a scalar has text v, or is known by what it was written for (x) *)
Signed(ev) == IF "x" \in DOMAIN ev /\ ev.x = "int" THEN [ok |-> TRUE, v |-> ev.v] ELSE ParseS(ev.v)
Unsigned(ev) == IF "x" \in DOMAIN ev /\ ev.x = "uint" THEN [ok |-> TRUE, v |-> ev.v] ELSE ParseU(ev.v)
ScalarVal(ty, ev) ==
  LET t == T(ty)
      x == IF "x" \in DOMAIN ev THEN ev.x ELSE "str"
      hits == {i \in 1..Len(t.strs) : NameEq(t.strs[i].n, ev.v, AnyCase(t))}
  IN CASE t.t = "INT" -> IF Signed(ev).ok THEN IntVal(ty, Signed(ev).v) ELSE NoSuch
       [] t.t = "UINT" -> IF Unsigned(ev).ok THEN UintVal(ty, Unsigned(ev).v) ELSE NoSuch
       [] t.t = "BOOL" -> Truth(ty, IF x = "false" THEN FALSE ELSE IF x = "true" THEN TRUE ELSE ~IsFalse(ev.v))
       [] t.t = "ENUM" -> IF x = "str" /\ hits # {} THEN IntVal(ty, t.strs[CHOOSE i \in hits : \A j \in hits : i <= j].v)
                          ELSE IF t.fl.strict \/ ~Signed(ev).ok THEN NoSuch ELSE Only(IntVal(ty, Signed(ev).v), "INVALID_VALUE")
       [] t.t = "FLOAT" -> IF x \in {"f4", "f8"} THEN <<"b", ev.v>>
                           ELSE IF ~ev.f.ok \/ (t.fl.strict /\ ev.f.rng) THEN NoSuch ELSE Real(t, ev.f)
       [] t.t = "STRING" -> Text(t, ev.v)

(* a field nobody gave *)
RECURSIVE Blank(_)
Blank(ty) ==
  LET t == T(ty) IN
  CASE t.t = "IGNORE" -> Nothing
    [] t.fl.ptr -> Null
    [] t.t = "STRING" -> <<"s", <<>>>>
    [] t.t = "MAPPING" -> <<"m", [i \in 1..Len(t.fields) |-> Blank(t.fields[i].ty)]>>
    [] t.t = "SEQUENCE" -> <<"q", <<>>>>
    [] t.t = "SEQUENCE_FIXED" -> <<"q", [i \in 1..t.smax |-> Blank(t.ent)]>>
    [] OTHER -> <<"b", Zeros(t.sz)>>
Deep(t) == t.t = "MAPPING" \/ IsSeq(t)
(* the value of a deep default is what the schema's own memory holds *)
DefaultAt(ty) == LET t == T(ty) IN
  At(IF t.fl.ptr THEN [m EXCEPT !.h[1] = Block(24, PtrBytes \o Zeros(16), (0 :> t.mb), FALSE)] ELSE m, ty,
     IF t.fl.ptr THEN <<1, 0>> ELSE <<t.mb, 0>>, t.mc)
Absent(ty, cb) ==
  LET t == T(ty)
      w(v) == IF IsWrong(v) THEN Bad(v[2], cb) ELSE Good(v, cb)
      sv == Sized(ty, IF FitsS(t.miss, t.sz) THEN <<"b", SubSeq(t.miss, 1, t.sz)>> ELSE NoSuch)
      uv == Sized(ty, IF FitsU(t.miss, t.sz) THEN <<"b", SubSeq(t.miss, 1, t.sz)>> ELSE NoSuch)
  IN IF t.t = "IGNORE" \/ NoDefault(t) THEN Good(Blank(ty), cb)
     ELSE CASE Deep(t) -> Good(DefaultAt(ty), cb)
            [] t.t \in {"INT", "ENUM"} -> w(sv)
            [] t.t \in {"UINT", "FLAGS", "BITFIELD"} -> w(uv)
            [] t.t = "BOOL" -> w(Truth(ty, TRUE))
            [] t.t = "STRING" -> Asked(ty, w(Text(t, t.sm)), 0)
            [] t.t = "FLOAT" -> Asked(ty, w(Real(t, t.fm)), 0)

RECURSIVE Read(_, _, _, _), Pairs(_, _, _, _, _, _), Entries(_, _, _, _, _), Rest(_, _, _, _, _), Union(_, _, _, _, _), Bits(_, _, _, _, _)
Read(ty, n, cb, inseq) ==
  LET t == T(ty) IN
  CASE n.k = "E" -> Bad("LIBYAML_PARSER", cb)
    [] n.k = "X" -> Bad(BadAlias, cb)
    [] n.k = "S" /\ SpellsNull(t, n.ev.v) -> Good(IF t.t = "IGNORE" THEN Nothing ELSE Null, cb)
    [] t.t = "IGNORE" -> IF Flaw(n) = "OK" THEN Good(Nothing, cb) ELSE Bad(Flaw(n), cb)
    [] n.k # (CASE EvKind(t) = "SC" -> "S" [] EvKind(t) = "QS" -> "Q" [] OTHER -> "M") -> Bad("INVALID_VALUE", cb)
    [] n.k = "S" -> LET v == ScalarVal(ty, n.ev) IN
                    IF IsWrong(v) THEN Bad(v[2], cb)
                    ELSE IF t.t = "BOOL" THEN Good(v, cb) ELSE Asked(ty, Good(v, cb), 0)
    [] t.t = "MAPPING" -> Pairs(ty, n.kids, 1, [i \in 1..Len(t.fields) |-> Nothing], {}, [cb |-> cb, last |-> MapStep])
    [] t.t = "SEQUENCE" /\ inseq -> Bad("SEQUENCE_IN_SEQUENCE", cb)
    [] t.t = "SEQUENCE_FIXED" /\ t.smin # t.smax -> Bad("SEQUENCE_FIXED_COUNT", cb)
    [] IsSeq(t) -> Entries(ty, n.kids, 1, <<>>, cb)
    [] t.t = "FLAGS" /\ t.sz = 0 -> Bad("INVALID_DATA_SIZE", cb)
    [] t.t = "FLAGS" -> Union(ty, n.kids, 1, Zero8, cb)
    [] t.t = "BITFIELD" -> Bits(ty, n.kids, 1, Zero8, cb)
Pairs(ty, ks, i, vals, set, c) ==      \* c: callbacks, and the step of the last key
  LET t == T(ty) IN
  IF i > Len(ks) THEN
    LET r == Rest(ty, 1, vals, set, c.cb)
    IN Within(Asked(ty, r, 0), c.last)
  ELSE LET key == ks[i]
           hits == {j \in 1..Len(t.fields) : NameEq(t.fields[j].key, key.ev.v, AnyCase(t))}
           j == IF hits = {} THEN 0 ELSE CHOOSE x \in hits : \A y \in hits : x <= y
           f == t.fields[j]
           flaw == IF i < Len(ks) THEN Flaw(ks[i + 1]) ELSE "LIBYAML_PARSER"
           step == FieldStep(f.key)
           r == Read(f.ty, ks[i + 1], c.cb, FALSE)
       IN CASE key.k \in {"E", "X"} -> Within(Bad(Flaw(key), c.cb), c.last)
            [] key.k # "S" -> Within(Bad("INTERNAL_ERROR", c.cb), c.last)
            [] j = 0 /\ ~Cfg.iuk -> Within(Bad("INVALID_KEY", c.cb), MapStep)
            [] j = 0 -> IF flaw # "OK" THEN Within(Bad(flaw, c.cb), MapStep)
                        ELSE Pairs(ty, ks, i + 2, vals, set, [c EXCEPT !.last = MapStep])
            [] j \in set /\ T(f.ty).t # "IGNORE" -> Within(Bad("UNEXPECTED_EVENT", c.cb), step)
            [] OTHER -> IF r.e # "OK" THEN Within(r, step)
                        ELSE Pairs(ty, ks, i + 2, [vals EXCEPT ![j] = r.v], set \cup {j}, [cb |-> r.cb, last |-> step])
Rest(ty, i, vals, set, cb) ==      \* the fields not given
  LET t == T(ty)  f == t.fields[i] IN
  IF i > Len(t.fields) THEN Good(<<"m", vals>>, cb)
  ELSE IF i \in set THEN Rest(ty, i + 1, vals, set, cb)
  ELSE IF ~T(f.ty).fl.opt THEN Bad("MAPPING_FIELD_MISSING", cb)
  ELSE LET r == Absent(f.ty, cb) IN
       IF r.e # "OK" THEN r ELSE Rest(ty, i + 1, [vals EXCEPT ![i] = r.v], set, r.cb)
Entries(ty, ks, i, vals, cb) ==
  LET t == T(ty)
      v == IF t.fl.ptr /\ vals = <<>> THEN Null ELSE <<"q", vals>>
  IN IF i > Len(ks)
     THEN IF Len(vals) < t.smin THEN Within(Bad("SEQUENCE_ENTRIES_MIN", cb), EntryStep(Len(vals)))
          ELSE Within(Asked(ty, Good(v, cb), Len(vals)), EntryStep(Len(vals)))
     ELSE IF ks[i].k \in {"E", "X"} THEN Within(Bad(Flaw(ks[i]), cb), EntryStep(Len(vals)))
     ELSE IF i > t.smax THEN Within(Bad("SEQUENCE_ENTRIES_MAX", cb), EntryStep(Len(vals)))
     ELSE LET r == Read(t.ent, ks[i], cb, TRUE) IN
          IF r.e # "OK" THEN Within(r, EntryStep(i)) ELSE Entries(ty, ks, i + 1, Append(vals, r.v), r.cb)
Union(ty, ks, i, acc, cb) ==
  LET t == T(ty)
      ev == ks[i].ev
      known == ~("x" \in DOMAIN ev /\ ev.x # "str")
      hits == {j \in 1..Len(t.strs) : NameEq(t.strs[j].n, ev.v, AnyCase(t))}
      p == Unsigned(ev)
  IN IF i > Len(ks)
     THEN LET v == UintVal(ty, acc) IN IF IsWrong(v) THEN Bad(v[2], cb) ELSE Asked(ty, Good(v, cb), 0)
     ELSE IF ks[i].k \in {"E", "X"} THEN Bad(Flaw(ks[i]), cb)
     ELSE IF ks[i].k # "S" THEN Bad("UNEXPECTED_EVENT", cb)
     ELSE IF known /\ hits # {} THEN Union(ty, ks, i + 1, OrB(acc, t.strs[CHOOSE x \in hits : \A y \in hits : x <= y].v), cb)
     ELSE IF ~t.fl.strict /\ p.ok /\ FitsU(p.v, t.sz) THEN Union(ty, ks, i + 1, OrB(acc, p.v), cb)
     ELSE Bad("INVALID_VALUE", cb)
Bits(ty, ks, i, acc, cb) ==
  LET t == T(ty)
      hits == {j \in 1..Len(t.bits) : NameEq(t.bits[j].n, ks[i].ev.v, AnyCase(t))}
      j == CHOOSE x \in hits : \A y \in hits : x <= y
      b == t.bits[j]
      num == ks[i + 1]
      p == Unsigned(num.ev)
  IN IF i > Len(ks)
     THEN LET v == UintVal(ty, acc) IN IF IsWrong(v) THEN Bad(v[2], cb) ELSE Asked(ty, Good(v, cb), 0)
     ELSE IF ks[i].k \in {"E", "X"} THEN Bad(Flaw(ks[i]), cb)
     ELSE IF ks[i].k # "S" THEN Bad("UNEXPECTED_EVENT", cb)
     ELSE IF \E x \in 1..(IF hits = {} THEN Len(t.bits) ELSE j) : BadBit(t, x) THEN Bad("BAD_BITVAL_IN_SCHEMA", cb)
     ELSE IF hits = {} THEN Bad("INVALID_VALUE", cb)
     ELSE IF num.k \in {"E", "X"} THEN Bad(Flaw(num), cb)
     ELSE IF num.k # "S" THEN Bad("UNEXPECTED_EVENT", cb)
     ELSE IF ~p.ok \/ ~(\A x \in 1..64 : x > b.w => IsZero(AndB(p.v, Shl(Mask(1), x - 1)))) THEN Bad("INVALID_VALUE", cb)
     ELSE Bits(ty, ks, i + 2, OrB(acc, Shl(p.v, b.o)), cb)

(* The keys passed over: those of no field, where that is allowed, and     *)
(* those of fields to be ignored.                                          *)
RECURSIVE PassedOver(_, _), Concat(_)
Concat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Concat(Tail(ss))
PassedOver(ty, n) ==
  LET t == T(ty)
      pair(i) ==
        LET hits == {j \in 1..Len(t.fields) : NameEq(t.fields[j].key, n.kids[i].ev.v, AnyCase(t))}
            f == t.fields[CHOOSE x \in hits : \A y \in hits : x <= y]
        IN CASE hits = {} -> <<n.kids[i].ev.v>>
             [] T(f.ty).t = "IGNORE" -> <<f.key>>
             [] OTHER -> PassedOver(f.ty, n.kids[i + 1])
  IN IF n.k = "M" /\ t.t = "MAPPING" THEN Concat([i \in 1..(Len(n.kids) \div 2) |-> pair(2 * i - 1)])
     ELSE IF n.k = "Q" /\ IsSeq(t) THEN Concat([i \in 1..Len(n.kids) |-> PassedOver(t.ent, n.kids[i])])
     ELSE <<>>

(* A whole stream: its events as they come.                                *)
Stream(evs, ty) ==
  LET r == Tree(evs, 3)
      tree == Resolve(r.n, <<>>).t
      v == Read(ty, tree, <<>>, FALSE)
  IN IF Len(evs) < 2 \/ evs[2].k = "ERR" THEN Bad("LIBYAML_PARSER", <<>>)
     ELSE IF evs[2].k = "SE" THEN Good(Null, <<>>)
     ELSE IF v.e # "OK" THEN v
     ELSE IF r.at > Len(evs) \/ evs[r.at].k = "ERR" THEN Bad("LIBYAML_PARSER", v.cb)
     ELSE IF r.at + 1 <= Len(evs) /\ evs[r.at + 1].k = "ERR" THEN Bad("LIBYAML_PARSER", v.cb)
     ELSE v

-----------------------------------------------------------------------------
(* The image of a value: what must be written for it.                      *)
Sc(x, v) == [k |-> "S", x |-> x, v |-> v, kids |-> <<>>]
No(e) == [k |-> "E", x |-> e, v |-> <<>>, kids |-> <<>>]
IsNo(n) == n.k = "E"
Node(k, kids) == LET bad == {i \in 1..Len(kids) : IsNo(kids[i])} IN
  IF bad = {} THEN [k |-> k, x |-> "", v |-> <<>>, kids |-> kids]
  ELSE kids[CHOOSE i \in bad : \A j \in bad : i <= j]
RECURSIVE FlagsOf(_, _, _), BitsOf(_, _, _), Image(_, _, _), FieldsOf(_, _, _)
(* those listed that are wholly there and not yet all covered; then the rest as a number *)
FlagsOf(t, i, v) ==      \* v: <<all, what is left>>
  IF i > Len(t.strs) THEN (IF IsZero(v[2]) THEN <<>> ELSE IF t.fl.strict THEN <<No("INVALID_VALUE")>> ELSE <<Sc("uint", v[2])>>)
  ELSE LET f == t.strs[i].v IN
       IF AndB(v[1], f) = f /\ ~IsZero(AndB(v[2], f))
       THEN <<Sc("str", t.strs[i].n)>> \o FlagsOf(t, i + 1, <<v[1], AndB(v[2], NotB(f))>>) ELSE FlagsOf(t, i + 1, v)
BitsOf(t, i, v) ==
  IF i > Len(t.bits) THEN <<>>
  ELSE LET b == t.bits[i]  x == AndB(Shr(v, b.o), Mask(b.w)) IN
       IF BadBit(t, i) THEN <<No("BAD_BITVAL_IN_SCHEMA")>>
       ELSE (IF IsZero(x) THEN <<>> ELSE <<Sc("str", b.n), Sc("uint", x)>>) \o BitsOf(t, i + 1, v)
Image(ty, v, inseq) ==
  LET t == T(ty) IN
  CASE v = Null -> IF t.fl.nls THEN Sc("str", <<110, 117, 108, 108>>) ELSE IF t.fl.nul THEN Sc("str", <<>>)
                   ELSE IF t.t = "SEQUENCE" THEN (IF inseq THEN No("SEQUENCE_IN_SEQUENCE") ELSE Node("Q", <<>>))
                   ELSE No("INVALID_VALUE")
    [] t.t = "IGNORE" -> No("BAD_TYPE_IN_SCHEMA")
    [] t.t = "STRING" -> IF v[2] # <<>> /\ ~Utf8Ok(v[2], 1) THEN No("LIBYAML_EVENT_INIT") ELSE Sc("str", v[2])
    [] t.t = "INT" -> Sc("int", SignExt(v[2]))
    [] t.t = "UINT" -> Sc("uint", ZeroExt(v[2]))
    [] t.t = "BOOL" -> Sc(IF IsZero(v[2]) THEN "false" ELSE "true", <<>>)
    [] t.t = "FLOAT" -> Sc(IF t.sz = 4 THEN "f4" ELSE "f8", v[2])
    [] t.t = "ENUM" ->
         LET hits == {i \in 1..Len(t.strs) : FitsS(t.strs[i].v, t.sz) /\ SubSeq(t.strs[i].v, 1, t.sz) = v[2]}
         IN IF hits # {} THEN Sc("str", t.strs[CHOOSE i \in hits : \A j \in hits : i <= j].n)
            ELSE IF t.fl.strict THEN No("INVALID_VALUE") ELSE Sc("int", SignExt(v[2]))
    [] t.t = "FLAGS" -> Node("Q", FlagsOf(t, 1, <<ZeroExt(v[2]), ZeroExt(v[2])>>))
    [] t.t = "BITFIELD" -> Node("M", BitsOf(t, 1, ZeroExt(v[2])))
    [] t.t = "SEQUENCE" /\ inseq -> No("SEQUENCE_IN_SEQUENCE")
    [] IsSeq(t) -> Node("Q", [i \in 1..Len(v[2]) |-> Image(t.ent, v[2][i], TRUE)])
    [] t.t = "MAPPING" -> Node("M", FieldsOf(t, 1, v[2]))
FieldsOf(t, i, vs) ==
  IF i > Len(t.fields) THEN <<>>
  ELSE LET f == t.fields[i]  u == T(f.ty) IN
       (IF u.t = "IGNORE" \/ (vs[i] = Null /\ u.fl.opt) THEN <<>> ELSE <<Sc("str", f.key), Image(f.ty, vs[i], FALSE)>>)
       \o FieldsOf(t, i + 1, vs)
(* the tree of what was written *)
RECURSIVE Plain(_)
Plain(n) == IF n.k = "S" THEN Sc(n.ev.x, n.ev.v) ELSE Node(n.k, [i \in 1..Len(n.kids) |-> Plain(n.kids[i])])
Written(em) == Tree([i \in 1..Len(em) |-> [k |-> em[i].k, x |-> em[i].x, v |-> em[i].v, a |-> NoAnchor]], 3).n
=============================================================================
