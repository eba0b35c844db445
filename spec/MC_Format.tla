----------------------------- MODULE MC_Format ------------------------------
(***************************************************************************)
(* Checks of the format specification itself, so that the oracle of the    *)
(* codec checks is consistent: layouts without holes and overlaps, decoding *)
(* and encoding inverse on well-formed objects, every byte of an object    *)
(* observed by some field, texts and calendar invertible.                  *)
(* Parts: "object", "text", "day".                                         *)
(***************************************************************************)
EXTENDS BlfFormat, BlfCalendar, FiniteSets, TLC
CONSTANTS Parts, LastDay, Values, Extra
VARIABLES kind, cls, a, b, c
vars == <<kind, cls, a, b, c>>

HeaderEnd(x) == LET f == FieldsOf[x][1] IN f[3]
\* ---- layouts
Tight(x) ==
  \A i \in 1..NFixed[x] :
    /\ FieldsOf[x][i][4] > 0
    /\ IF i = 1 THEN FieldsOf[x][i][3] = 0
       ELSE FieldsOf[x][i][3] = FieldsOf[x][i - 1][3] + FieldsOf[x][i - 1][4]
OneName(x) == \A i, j \in 1..Len(FieldsOf[x]) : i # j => FieldsOf[x][i][1] # FieldsOf[x][j][1]
OneCode == \A e \in {"ObjType", "AppId", "Compression"} \cup ClosedEnums \cup FlagEnums :
  \A i, j \in 1..Len(SymbolTable(e)) : i # j => SymbolTable(e)[i][1] # SymbolTable(e)[j][1] /\ SymbolTable(e)[i][2] # SymbolTable(e)[j][2]
EveryClassUsed == \A x \in ObjectClasses : CodesFor(x) # {}

\* ---- objects: a base object of class x with n more bytes, one byte changed
Closed(f) == f[5] \in ClosedEnums
Sets(x) == [i \in 1..NFixed[x] |-> IF Closed(FieldsOf[x][i]) THEN Bytes(CHOOSE k \in Codes(FieldsOf[x][i][5]) : TRUE, FieldsOf[x][i][4])
                                   ELSE Zeros(FieldsOf[x][i][4])]
Plain(x, n) ==
  LET f == Concat(Sets(x)) \o Zeros(n) IN
  IF x \in ObjectClasses
  THEN Overlay(f, 0, ObjSignature \o <<32, 0, 1, 0>> \o Bytes(Len(f), 4) \o Bytes(CHOOSE k \in CodesFor(x) : TRUE, 4))
  ELSE IF x \in {"ObjectHeaderBase", "ObjectHeader", "VarObjectHeader"} THEN Overlay(f, 12, <<1>>)
  ELSE f
Changed(x, n, at, v) == Overlay(Plain(x, n), at, <<v>>)

ObjectOk ==
  kind = "object" =>
    LET o == Changed(cls, c, a, b) IN
    WellFormed(cls, o) =>
      LET d == Decode(cls, o) IN
      /\ Len(d) = Len(FieldsOf[cls])
      /\ \A i \in 1..Len(d) : Fits(FieldsOf[cls][i], d[i])
      /\ Encode(cls, d) = o
      \* a byte that is covered by the fixed part is seen by exactly one fixed field
      /\ LET p == Plain(cls, c) IN
         (o # p /\ WellFormed(cls, p) /\ a < FixedEnd[cls] /\ ~(TailKind(cls) = "raw" /\ a >= 12)) =>
           Cardinality({i \in 1..NFixed[cls] : d[i] # Decode(cls, p)[i]}) = 1

\* ---- texts
TextOk ==
  kind = "text" =>
    IF b = 0 THEN /\ (a < 256 /\ Cp1252[a + 1] # -1) => WEncode(WDecode(<<a, 65>>)) = <<a, 65>>
                  /\ WEncodable(<<a>>) <=> \E i \in 1..256 : Cp1252[i] = a
    ELSE U8Encodable(<<a>>) => U8Decodable(U8One(a)) /\ U8Decode(U8Encode(<<a, 65, a>>)) = <<a, 65, a>>

\* ---- calendar
DayOk ==
  kind = "day" =>
    LET d == DateOf(a)  e == DateOf(a + 1) IN
    /\ ValidDate(d[1], d[2], d[3]) /\ DayNumber(d[1], d[2], d[3]) = a
    /\ Weekday(e[1], e[2], e[3]) = (Weekday(d[1], d[2], d[3]) + 1) % 7
    /\ \/ e = <<d[1], d[2], d[3] + 1>>
       \/ d[3] = DaysIn(d[1], d[2]) /\ e = <<d[1], d[2] + 1, 1>>
       \/ d[2] = 12 /\ d[3] = 31 /\ e = <<d[1] + 1, 1, 1>>
Anchors == /\ DayNumber(1, 1, 1) = 1 /\ Weekday(1970, 1, 1) = 4 /\ Weekday(2000, 2, 29) = 2
           /\ DayNumber(2000, 1, 1) - Epoch = 10957 /\ DateOf(Epoch + 19782) = <<2024, 2, 29>>

ASSUME \A x \in Classes : Tight(x) /\ OneName(x)
ASSUME OneCode /\ EveryClassUsed /\ Anchors

Init ==
  \/ /\ "object" \in Parts /\ kind = "object" /\ cls \in Classes /\ a = 0 /\ b = 0
     /\ c \in (IF cls \in ObjectClasses /\ TailKind(cls) # "none" THEN Extra ELSE {0})
  \/ "text" \in Parts /\ kind = "text" /\ cls = "" /\ a = 0 /\ b \in 0..1 /\ c = 0
  \/ "day" \in Parts /\ kind = "day" /\ cls = "" /\ a = 1 /\ b = 0 /\ c = 0
Jump(n) == IF n < 4200 \/ n \in 55200..57400 \/ n \in 65400..65700 THEN n + 1 ELSE n + 97
Next ==
  /\ UNCHANGED <<kind, cls, c>>
  /\ \/ kind = "object" /\ b = 0 /\ b' \in Values \ {0} /\ a' \in 0..(FixedEnd[cls] + c - 1)
     \/ kind = "text" /\ Jump(a) <= 1114111 /\ a' = Jump(a) /\ UNCHANGED b
     \/ kind = "day" /\ a < LastDay /\ a' = a + 1 /\ UNCHANGED b
Spec == Init /\ [][Next]_vars
=============================================================================
