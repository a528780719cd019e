------------------------------- MODULE Coerce -------------------------------
(* What the fields of each type store (vrml/fieldtypes.py).  C04 and C05.    *)
(*                                                                          *)
(* A value is a record with a tag t:                                         *)
(*   num    w "int" "float" "bool", n in units (see Chars)                   *)
(*   huge   an integer too large for 32 bits; over one too large for a float *)
(*   text   s                                                                *)
(*   bytes  s                                                                *)
(*   seq    how "list" "tuple" "map" "range" "zip", items                    *)
(*   arr    dtype, shape, nums in row order (lay: how it lies in memory)     *)
(*   none, node                                                              *)
(* What is stored is a record with a tag k: int/float n; str s; strs items;  *)
(* arr code, shape, nums; and bad if the value is rejected, any if nothing   *)
(* is said about it.                                                         *)
EXTENDS Chars, CssColors, PyList

Bad == [k |-> "bad"]
Unsaid == [k |-> "any"]
Arr(code, shape, nums) == [k |-> "arr", code |-> code, shape |-> shape, nums |-> nums]

HUGE == 1000000000
IntTypes == {"SFInt32", "SFUInt32"}
FloatTypes == {"SFFloat", "SFTime"}
IntLists == [T \in {"MFInt32", "MFUInt32", "SFImage"} |-> IF T = "MFInt32" THEN "i" ELSE "I"]
FloatLists == [T \in {"MFFloat", "MFTime", "MFFloat32"} |-> IF T = "MFFloat32" THEN "f" ELSE "d"]
Vectors == [T \in {"SFVec2f", "SFVec3f", "SFVec4f", "SFRotation", "SFColor", "SFVec2d", "SFVec3d", "SFVec4d"} |->
    [dim |-> CASE T \in {"SFVec2f", "SFVec2d"} -> 2 [] T \in {"SFVec3f", "SFVec3d", "SFColor"} -> 3 [] OTHER -> 4,
     code |-> IF T \in {"SFVec2d", "SFVec3d", "SFVec4d"} THEN "d" ELSE "f"]]
Rows == [T \in {"MFVec2f", "MFVec3f", "MFVec4f", "MFColor", "MFRotation", "MFVec2d", "MFVec3d", "MFVec4d",
                "MFMatrix3f", "MFMatrix4f", "MFMatrix3d", "MFMatrix4d"} |->
    [dim |-> CASE T \in {"MFVec2f", "MFVec2d"} -> <<2>> [] T \in {"MFVec3f", "MFVec3d", "MFColor"} -> <<3>>
               [] T \in {"MFMatrix3f", "MFMatrix3d"} -> <<3, 3>> [] T \in {"MFMatrix4f", "MFMatrix4d"} -> <<4, 4>>
               [] OTHER -> <<4>>,
     code |-> IF T \in {"MFRotation", "MFVec2d", "MFVec3d", "MFVec4d", "MFMatrix3d", "MFMatrix4d"} THEN "d" ELSE "f"]]
Arrays == [T \in {"SFArray", "SFArray32"} |-> IF T = "SFArray" THEN "d" ELSE "f"]
ScalarSeq == <<"SFBool", "SFInt32", "SFUInt32", "SFFloat", "SFTime", "SFString", "MFString", "MFInt32", "MFUInt32",
               "SFImage", "MFFloat", "MFTime", "MFFloat32">>
VectorSeq == <<"SFVec2f", "SFVec3f", "SFVec4f", "SFRotation", "SFColor", "SFVec2d", "SFVec3d", "SFVec4d", "MFVec2f",
               "MFVec3f", "MFVec4f", "MFColor", "MFRotation", "MFVec2d", "MFVec3d", "MFVec4d", "MFMatrix3f",
               "MFMatrix4f", "MFMatrix3d", "MFMatrix4d", "SFArray", "SFArray32">>
Types == RangeOf(ScalarSeq) \cup RangeOf(VectorSeq)

RECURSIVE Product(_), Flat(_)
Product(shape) == IF shape = <<>> THEN 1 ELSE shape[1] * Product(Tail(shape))
Flat(ss) == IF ss = <<>> THEN <<>> ELSE ss[1] \o Flat(Tail(ss))

\* ------------------------------------------------------------ single numbers
\* <<>> is not a number, <<n>> is one; words in the form of a number count
AsFloat(v) == CASE v.t = "num" -> <<v.n>>
                [] v.t = "huge" -> <<HUGE>>
                [] v.t = "text" -> LET w == Words(v.s) IN
                    IF Len(w) # 1 THEN <<>> ELSE LET p == Number(w[1]) IN IF p.ok THEN <<p.n>> ELSE <<>>
                [] OTHER -> <<>>
AsInt(v) == CASE v.t = "num" -> <<Trunc(v.n)>>
              [] v.t \in {"huge", "over"} -> <<HUGE>>
              [] v.t = "text" -> LET w == Words(v.s) IN
                    IF Len(w) # 1 THEN <<>> ELSE LET p == Number(w[1]) IN IF p.ok /\ p.whole THEN <<p.n>> ELSE <<>>
              [] OTHER -> <<>>
\* the numbers of words, <<FALSE>> if one is none
RECURSIVE WordNums(_, _)
WordNums(ws, whole) ==
    IF ws = <<>> THEN <<TRUE, <<>>>>
    ELSE LET p == Number(ws[1])
             r == WordNums(Tail(ws), whole)
         IN IF ~p.ok \/ (whole /\ ~p.whole) \/ ~r[1] THEN <<FALSE>> ELSE <<TRUE, <<p.n>> \o r[2]>>

Iterable(v) == v.t = "seq"
Plain(v) == v.t = "seq" /\ v.how \in {"list", "tuple"}

\* ------------------------------------------------------------ scalars
SFBool(v) ==
    LET one(b) == [k |-> "int", n |-> IF b THEN Unit ELSE 0]
    IN CASE v.t = "num" -> one(v.n # 0)
         [] v.t \in {"huge", "over", "node"} -> one(TRUE)
         [] v.t = "none" -> one(FALSE)
         [] Plain(v) -> one(v.items # <<>>)
         [] v.t = "text" -> LET i == AsInt(v) IN
              CASE i # <<>> -> one(i[1] # 0)
                [] Lower(v.s) = "true" -> one(TRUE)
                [] Lower(v.s) = "false" \/ v.s = "" -> one(FALSE)
                [] AsFloat(v) # <<>> \/ Words(v.s) = <<>> -> Unsaid
                [] OTHER -> one(TRUE)
         [] OTHER -> Unsaid

SFInt(v, unsigned) ==
    CASE v.t \in {"arr", "bytes"} -> IF v.t = "arr" /\ v.shape = <<>> THEN [k |-> "int", n |-> Trunc(v.nums[1])] ELSE Unsaid
      [] v.t = "over" -> [k |-> "over"]
      [] OTHER -> LET i == AsInt(v) IN
            IF i = <<>> THEN Bad ELSE IF unsigned /\ i[1] < 0 THEN Unsaid ELSE [k |-> "int", n |-> i[1]]

SFFloat(v) ==
    CASE v.t \in {"arr", "bytes"} -> IF v.t = "arr" /\ v.shape = <<>> THEN [k |-> "float", n |-> v.nums[1]] ELSE Unsaid
      [] OTHER -> LET i == AsFloat(v) IN IF i = <<>> THEN Bad ELSE [k |-> "float", n |-> i[1]]

RECURSIVE Digit(_)
Digit(n) == IF n < 10 THEN DigitSeq[n + 1] ELSE Digit(n \div 10) \o DigitSeq[(n % 10) + 1]
Show(n) == IF n < 0 THEN "-" \o Digit(0 - n) ELSE Digit(n)
RECURSIVE Concat(_)
Concat(items) == IF items = <<>> THEN "" ELSE items[1].s \o Concat(Tail(items))

Simple1(v) == CASE v.t \in {"text", "bytes"} -> [k |-> "str", s |-> v.s]
                [] v.t = "num" /\ v.w = "int" -> [k |-> "str", s |-> Show(v.n \div Unit)]
                [] OTHER -> Unsaid
SFString(v) ==
    IF Plain(v)
    THEN CASE v.items = <<>> -> [k |-> "str", s |-> ""]
           [] Len(v.items) = 1 -> IF v.items[1].t = "bytes" THEN Unsaid ELSE Simple1(v.items[1])
           [] \A i \in 1..Len(v.items) : v.items[i].t = "text" -> [k |-> "str", s |-> Concat(v.items)]
           [] OTHER -> Bad
    ELSE Simple1(v)

RECURSIVE Strings(_)
Strings(items) ==
    IF items = <<>> THEN [k |-> "strs", items |-> <<>>]
    ELSE LET a == SFString(items[1])
             b == Strings(Tail(items))
         IN IF a.k = "any" \/ b.k = "any" THEN Unsaid
            ELSE IF a.k = "bad" \/ b.k = "bad" THEN Bad
            ELSE [k |-> "strs", items |-> <<a.s>> \o b.items]
MFString(v) ==
    CASE v.t = "text" -> [k |-> "strs", items |-> <<v.s>>]
      [] v.t = "seq" -> Strings(v.items)
      [] v.t \in {"num", "none", "huge", "over", "node"} -> Bad
      [] OTHER -> Unsaid

\* ------------------------------------------------------------ flat lists
Limited(nums, code) ==
    IF \E i \in 1..Len(nums) : nums[i] = HUGE THEN Bad
    ELSE IF code = "I" /\ \E i \in 1..Len(nums) : nums[i] < 0 THEN Bad
    ELSE Arr(code, <<Len(nums)>>, nums)
TruncAll(nums) == [i \in 1..Len(nums) |-> Trunc(nums[i])]
IntList(v, code) ==
    CASE v.t = "text" -> LET r == WordNums(CommaWords(v.s), TRUE) IN IF r[1] THEN Limited(r[2], code) ELSE Bad
      [] v.t \in {"num", "huge", "over"} -> Limited(AsInt(v), code)
      [] v.t = "arr" -> IF code = "I" /\ \E i \in 1..Len(v.nums) : v.nums[i] < 0 THEN Unsaid
                        ELSE Arr(code, <<Len(v.nums)>>, TruncAll(v.nums))
      [] v.t = "seq" -> IF \E i \in 1..Len(v.items) : v.items[i].t \in {"arr", "bytes"} THEN Unsaid
                        ELSE IF \E i \in 1..Len(v.items) : AsInt(v.items[i]) = <<>> THEN Bad
                        ELSE Limited([i \in 1..Len(v.items) |-> AsInt(v.items[i])[1]], code)
      [] v.t = "none" -> Arr(code, <<0>>, <<>>)
      [] v.t = "node" -> Bad
      [] OTHER -> Unsaid

\* nested lists, but only lists, are taken apart
RECURSIVE Collapsed(_)
Collapsed(items) ==
    IF items = <<>> THEN <<>>
    ELSE (IF items[1].t = "seq" /\ items[1].how = "list" THEN Collapsed(items[1].items) ELSE <<items[1]>>)
         \o Collapsed(Tail(items))
Unclear(items) == \E i \in 1..Len(items) : items[i].t \in {"arr", "bytes", "seq"}
\* <<verdict, numbers>> of a sequence of items
FloatItems(v) ==
    LET c == Collapsed(v.items)
    IN IF Unclear(c) THEN <<"any">>
       ELSE IF \E i \in 1..Len(c) : AsFloat(c[i]) = <<>> THEN <<"bad">>
       ELSE <<"ok", [i \in 1..Len(c) |-> AsFloat(c[i])[1]]>>
FloatList(v, code) ==
    CASE v.t = "text" -> LET r == WordNums(CommaWords(v.s), FALSE) IN IF r[1] THEN Arr(code, <<Len(r[2])>>, r[2]) ELSE Bad
      [] v.t \in {"num", "huge"} -> Arr(code, <<1>>, AsFloat(v))
      [] v.t = "over" -> Bad
      [] v.t = "arr" -> Arr(code, <<Len(v.nums)>>, v.nums)
      [] v.t = "seq" -> LET r == FloatItems(v) IN
            IF r[1] = "any" THEN Unsaid ELSE IF r[1] = "bad" THEN Bad ELSE Arr(code, <<Len(r[2])>>, r[2])
      [] v.t = "none" -> Arr(code, <<0>>, <<>>)
      [] v.t = "node" -> Bad
      [] OTHER -> Unsaid

\* ------------------------------------------------------------ vectors
Sized(nums, code, dim) == IF Len(nums) = dim THEN Arr(code, <<dim>>, nums) ELSE Bad
SFVec(v, code, dim) ==
    CASE v.t = "text" -> LET r == WordNums(CommaWords(v.s), FALSE) IN IF r[1] THEN Sized(r[2], code, dim) ELSE Bad
      [] v.t \in {"num", "huge"} -> Arr(code, <<dim>>, [i \in 1..dim |-> AsFloat(v)[1]])
      [] v.t = "arr" -> Sized(v.nums, code, dim)
      [] v.t = "seq" -> LET r == FloatItems(v) IN
            IF r[1] = "any" THEN Unsaid ELSE IF r[1] = "bad" THEN Bad ELSE Sized(r[2], code, dim)
      [] v.t = "bytes" -> Unsaid
      [] OTHER -> Bad

\* the shape of regularly nested numbers, <<-1>> if they are not, <<-2>> if unclear
RECURSIVE ShapeOf(_), NumsOf(_)
ShapeOf(v) ==
    CASE v.t \in {"num", "huge"} -> <<>>
      [] v.t = "over" -> <<-1>>
      [] v.t = "arr" -> v.shape
      [] v.t = "text" -> IF AsFloat(v) = <<>> THEN <<-1>> ELSE <<-2>>
      [] v.t = "seq" ->
            LET all == [i \in 1..Len(v.items) |-> ShapeOf(v.items[i])]
                lazy == {i \in 1..Len(v.items) : v.items[i].t = "seq" /\ ~Plain(v.items[i])}
            IN IF lazy # {} \/ \E i \in 1..Len(all) : all[i] = <<-2>> THEN <<-2>>
               ELSE IF all = <<>> THEN <<0>>
               ELSE IF \E i \in 1..Len(all) : all[i] # all[1] \/ all[i] = <<-1>> THEN <<-1>>
               ELSE <<Len(all)>> \o all[1]
      [] v.t = "none" -> <<-2>>
      [] OTHER -> <<-1>>
NumsOf(v) == CASE v.t \in {"num", "huge"} -> AsFloat(v)
               [] v.t = "arr" -> v.nums
               [] OTHER -> Flat([i \in 1..Len(v.items) |-> NumsOf(v.items[i])])

Rowed(nums, code, dim) ==
    IF Len(nums) % Product(dim) # 0 THEN Bad
    ELSE Arr(code, <<Len(nums) \div Product(dim)>> \o dim, nums)
\* <<verdict, shape, numbers>>
ArrayLike(v) ==
    CASE v.t = "text" -> LET r == WordNums(ListWords(v.s), FALSE) IN IF r[1] THEN <<"ok", <<Len(r[2])>>, r[2]>> ELSE <<"bad">>
      [] v.t \in {"num", "huge"} -> <<"ok", <<1>>, AsFloat(v)>>
      [] v.t = "arr" -> <<"ok", v.shape, v.nums>>
      [] v.t = "seq" -> LET s == ShapeOf(v) IN
            IF s = <<-2>> THEN <<"any">> ELSE IF s = <<-1>> THEN <<"bad">> ELSE <<"ok", s, NumsOf(v)>>
      [] v.t \in {"over", "node"} -> <<"bad">>
      [] OTHER -> <<"any">>
MFVec(v, code, dim) ==
    IF v.t = "none" THEN Bad
    ELSE LET r == ArrayLike(v) IN
        IF r[1] = "any" THEN Unsaid ELSE IF r[1] = "bad" THEN Bad
        ELSE IF v.t # "arr" /\ 0 \in RangeOf(r[2]) /\ r[2] # <<0>> THEN Unsaid ELSE Rowed(r[3], code, dim)
SFArray(v, code) ==
    LET r == ArrayLike(v) IN
    IF r[1] = "any" THEN Unsaid ELSE IF r[1] = "bad" THEN Bad ELSE Arr(code, r[2], r[3])

\* ------------------------------------------------------------ colours
Clamp(n) == IF n < 0 THEN 0 ELSE IF n > Unit THEN Unit ELSE n
Clamped(r) == IF r.k = "arr" THEN [r EXCEPT !.nums = [i \in DOMAIN @ |-> Clamp(@[i])]] ELSE r
\* <<verdict, components>> of a colour given in words
Hex6(s) == <<"ok", <<4 * HexAt(s, 1), 4 * HexAt(s, 3), 4 * HexAt(s, 5)>>>>
ColorText(s) ==
    LET low == Lower(s) IN
    IF low \in CssNames THEN Hex6(Css[low])
    ELSE IF At(s, 1) # "#" THEN (IF Words(low) # <<>> /\ Len(Words(low)) = 1 /\ Words(low)[1] \in CssNames THEN <<"any">> ELSE <<"bad">>)
    ELSE IF Len(s) # 7 THEN <<"any">>
    ELSE IF IsHex(SubSeq(s, 2, 7)) THEN Hex6(SubSeq(s, 2, 7))
    ELSE IF Has(s, "-") \/ Has(s, "+") \/ Has(s, "_") \/ Has(s, "x") \/ Has(s, "X") \/ Has(s, " ") THEN <<"any">> ELSE <<"bad">>
SFColor(v) ==
    IF v.t = "text"
    THEN LET r == ColorText(v.s) IN
         IF r[1] = "ok" THEN Arr("f", <<3>>, r[2]) ELSE IF r[1] = "bad" THEN Bad ELSE Unsaid
    ELSE Clamped(SFVec(v, "f", 3))

\* numbers in threes and colours in words, one after the other
RECURSIVE Mixed(_, _)
Mixed(items, part) ==
    IF items = <<>> THEN (IF part = <<>> THEN <<"ok", <<>>>> ELSE <<"bad">>)
    ELSE LET v == items[1]
             head == IF v.t = "text" THEN (IF part # <<>> THEN <<"bad">> ELSE ColorText(v.s))
                     ELSE IF v.t = "huge" \/ v.t = "num" THEN <<"ok", <<>>>> ELSE <<"any">>
             now == IF v.t = "text" THEN <<>> ELSE IF v.t \in {"num", "huge"} THEN Append(part, AsFloat(v)[1]) ELSE <<>>
             full == Len(now) = 3
             rest == Mixed(Tail(items), IF full THEN <<>> ELSE now)
         IN IF head[1] = "any" \/ rest[1] = "any" THEN <<"any">>
            ELSE IF head[1] = "bad" \/ rest[1] = "bad" THEN <<"bad">>
            ELSE <<"ok", head[2] \o (IF full THEN now ELSE <<>>) \o rest[2]>>
WordsIn(v) == v.t = "seq" /\ \E i \in 1..Len(v.items) : v.items[i].t = "text"
MFColor(v) ==
    IF v.t = "none" THEN Bad
    ELSE IF WordsIn(v)
    THEN IF \E i \in 1..Len(v.items) : v.items[i].t = "text" /\ AsFloat(v.items[i]) # <<>> THEN Unsaid
         ELSE LET r == Mixed(v.items, <<>>) IN
              IF r[1] = "ok" THEN Clamped(Rowed(r[2], "f", <<3>>)) ELSE IF r[1] = "bad" THEN Bad ELSE Unsaid
    ELSE Clamped(MFVec(v, "f", <<3>>))

\* ------------------------------------------------------------ all of them
Coerced(T, v) ==
    CASE T = "SFBool" -> SFBool(v)
      [] T \in IntTypes -> SFInt(v, T = "SFUInt32")
      [] T \in FloatTypes -> SFFloat(v)
      [] T = "SFString" -> SFString(v)
      [] T = "MFString" -> MFString(v)
      [] T \in DOMAIN IntLists -> IntList(v, IntLists[T])
      [] T \in DOMAIN FloatLists -> FloatList(v, FloatLists[T])
      [] T = "SFColor" -> SFColor(v)
      [] T = "MFColor" -> MFColor(v)
      [] T \in DOMAIN Vectors -> SFVec(v, Vectors[T].code, Vectors[T].dim)
      [] T \in DOMAIN Rows -> MFVec(v, Rows[T].code, Rows[T].dim)
      [] T \in DOMAIN Arrays -> SFArray(v, Arrays[T])

\* ------------------------------------------------------------ labels
ShowUnits(n) == IF n = HUGE THEN "huge" ELSE Show(n)
RECURSIVE ShowAll(_)
ShowAll(nums) == IF nums = <<>> THEN "" ELSE " " \o ShowUnits(nums[1]) \o ShowAll(Tail(nums))
RECURSIVE ShowShape(_)
ShowShape(shape) == IF shape = <<>> THEN "" ELSE Show(shape[1]) \o "," \o ShowShape(Tail(shape))
Label(r) == CASE r.k = "bad" -> "ValueError"
              [] r.k = "int" -> "int " \o (IF r.n = HUGE THEN "huge" ELSE Show(r.n \div Unit))
              [] r.k = "float" -> "float " \o ShowUnits(r.n)
              [] r.k = "over" -> "int over"
              [] r.k = "str" -> "str '" \o r.s \o "'"
              [] r.k = "strs" -> "strs [" \o Join([i \in 1..Len(r.items) |-> "'" \o r.items[i] \o "'"], " ") \o "]"
              [] r.k = "arr" -> r.code \o "[" \o ShowShape(r.shape) \o "]" \o ShowAll(r.nums)
              [] OTHER -> "any"

\* the stored value, as a value to be stored
AsValue(r) == CASE r.k = "over" -> [t |-> "over"]
                [] r.k = "int" -> IF r.n = HUGE THEN [t |-> "huge"] ELSE [t |-> "num", w |-> "int", n |-> r.n]
                [] r.k = "float" -> IF r.n = HUGE THEN [t |-> "huge"] ELSE [t |-> "num", w |-> "float", n |-> r.n]
                [] r.k = "str" -> [t |-> "text", s |-> r.s]
                [] r.k = "strs" -> [t |-> "seq", how |-> "list", items |-> [i \in 1..Len(r.items) |-> [t |-> "text", s |-> r.items[i]]]]
                [] r.k = "arr" -> [t |-> "arr", dtype |-> r.code, shape |-> r.shape, nums |-> r.nums, lay |-> "C"]

\* ------------------------------------------------------------ histories
\* type: what type the field has; val: label of what is stored, "default" if nothing is, "any" if that is not said
Step0(params) == [type |-> "-", val |-> "default"]
Enabled(st, op) == IF op.k = "type" THEN st.type = "-" ELSE st.type # "-"
Sees(v) == [now |-> v, again |-> v, kept |-> v]
Step(st, op) ==
    IF op.k = "type" THEN [st |-> [st EXCEPT !.type = op.type], obs |-> [ret |-> "ok"]]
    ELSE LET r == Coerced(st.type, op.v)
         IN CASE r.k = "any" -> [st |-> [st EXCEPT !.val = "any"], obs |-> [done |-> "yes"]]
              [] r.k = "bad" -> [st |-> st, obs |-> IF st.val = "any" THEN [ret |-> "ValueError"]
                                                    ELSE [ret |-> "ValueError"] @@ Sees(st.val)]
              [] OTHER -> [st |-> [st EXCEPT !.val = Label(r)], obs |-> [ret |-> Label(r)] @@ Sees(Label(r))]
TypeOK(st) == st.type \in Types \cup {"-"}
=============================================================================
