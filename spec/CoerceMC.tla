----------------------------- MODULE CoerceMC -----------------------------
EXTENDS Coerce, Emit
CONSTANTS Mode, SimDepth, TypeSeq, Large
VARIABLES st, hist, last
vars == <<st, hist, last>>

Num(w, n) == [t |-> "num", w |-> w, n |-> n]
Text(s) == [t |-> "text", s |-> s]
Seq1(how, items) == [t |-> "seq", how |-> how, items |-> items]

Scalars == {Num("int", 0), Num("int", 1020), Num("int", -3060), Num("int", 12240), Num("float", 0), Num("float", 765),
            Num("float", 2550), Num("float", -765), Num("float", 102), Num("float", 4080), Num("bool", 0), Num("bool", 1020),
            [t |-> "huge"], [t |-> "over"], [t |-> "none"], [t |-> "node"]}
PlainTexts == {"", " ", "0", "1", "-3", "+4", "007", "1.5", ".5", "5.", "-.25", "1e2", "15e-1", "2E+1", "1.5.2", "1e", "-", ".", "abc",
               "TRUE", "true", "False", "FALSE", "no", " 12 ", "1 2", "1,2", "1, 2", "1 2 3", "1,2,3", "1 , 2\t3", "1\n2\n3", "1 x 3",
               "1 2 3 4", "1.5 2.5", "0.5,0.25,2", "[1 2 3]", "[1 2, 3 4]", "[ ]", "[1 2 3, 4 5 6]", "1 2 3 4 5 6", "1;2", "3,",
               ",", "0 1 2 3 4 5 6 7 8", "0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15", "say \"hi\"", "back\\slash", "a b"}
ColorTexts == {"red", "RED", "Blue", "nocolor", "#ff8000", "#FF8000", "#0a0B0c", "#gg0000", "", "#", "1 0 0", "0.5"}
               \cup (IF Large THEN CssNames ELSE {})
\* patterns of numbers
Pat(p, i) == CASE p = 1 -> Num("int", 1020 * i)
               [] p = 2 -> IF i % 2 = 0 THEN Num("float", 255 * i) ELSE Num("int", 1020 * (5 - i))
               [] p = 3 -> Num("float", 102 * i)
               [] p = 4 -> IF i % 3 = 2 THEN Text("7") ELSE Num("int", 1020 * i)
               [] p = 5 -> IF i % 4 = 3 THEN Text("2.5") ELSE Num("float", 510 * i)
Counts == 0..9 \cup {12, 15, 16, 17, 18, 32}
Flats == {Seq1(how, [i \in 1..c |-> Pat(p, i)]) : how \in {"list", "tuple", "map"}, c \in (IF Large THEN Counts ELSE 0..6 \cup {9, 16}), p \in 1..5}
         \cup {Seq1("range", [i \in 1..c |-> Num("int", 1020 * (i - 1))]) : c \in Counts}
Grid(out, inn, r, c, p) == Seq1(out, [i \in 1..r |-> Seq1(inn, [j \in 1..c |-> Pat(p, c * (i - 1) + j)])])
Grids == {Grid(out, inn, r, c, p) : out \in {"list", "tuple", "map"}, inn \in {"list", "tuple"}, r \in 1..3, c \in 1..4, p \in (IF Large THEN 1..3 ELSE {2})}
         \cup {Grid("zip", "tuple", r, c, 2) : r \in 1..3, c \in 1..4}
         \cup {Seq1("list", [k \in 1..n |-> Grid("list", inn, d, d, 2)]) : n \in 1..2, d \in {2, 3, 4}, inn \in {"list", "tuple"}}
Ragged == {Seq1("list", <<Seq1(inn, <<Pat(1, 1), Pat(1, 2)>>), Seq1(inn, <<Pat(1, 3)>>)>>) : inn \in {"list", "tuple"}}
          \cup {Seq1("list", <<Pat(1, 1), Seq1(inn, <<Pat(1, 2), Pat(1, 3)>>)>>) : inn \in {"list", "tuple"}}
          \cup {Seq1("list", <<Seq1("list", <<Pat(1, 1)>>), Seq1("list", <<Seq1("list", <<Pat(1, 2), Pat(1, 3)>>)>>)>>)}
Odd == {Seq1(how, <<Num("int", 1020), x>>) : how \in {"list", "tuple"}, x \in {[t |-> "none"], [t |-> "node"], [t |-> "huge"], [t |-> "over"], Text("x"), Text("1 2"), Text(""), Num("bool", 1020)}}
       \cup {Seq1("list", <<x>>) : x \in Scalars \cup {Text("ab"), Text("5"), [t |-> "bytes", s |-> "by"]}}
       \cup {Seq1("tuple", <<Text("a"), Text("b c")>>), Seq1("list", <<Text("a"), Seq1("list", <<Text("x"), Text("y")>>)>>),
             Seq1("map", <<Text("a"), Text("b")>>), Seq1("list", <<Text("a"), [t |-> "bytes", s |-> "by"]>>), [t |-> "bytes", s |-> "by"]}
Arr1(d, shape, lay, p) == [t |-> "arr", dtype |-> d, shape |-> shape, lay |-> lay,
    nums |-> [i \in 1..Product(shape) |-> IF d \in {"f", "d"} THEN Pat(p, i).n
                                          ELSE IF d \in {"I", "B"} THEN 1020 * i ELSE 1020 * (5 - i)]]
Shapes == {<<>>, <<0>>, <<1>>, <<2>>, <<3>>, <<4>>, <<5>>, <<6>>, <<9>>, <<16>>, <<2, 2>>, <<2, 3>>, <<1, 3>>, <<3, 3>>, <<2, 4>>, <<4, 4>>, <<2, 3, 3>>, <<2, 4, 4>>}
Arrs == {Arr1(d, s, lay, 2) : d \in (IF Large THEN {"f", "d", "i", "I", "l", "h", "B"} ELSE {"f", "d", "i", "I"}),
                              s \in Shapes, lay \in (IF Large THEN {"C", "T", "step", "back"} ELSE {"C", "T", "step"})}
Rowlists == {Seq1(how, [k \in 1..r |-> Arr1("d", <<c>>, "C", 2)]) : how \in {"list", "tuple"}, r \in 1..2, c \in 2..4}
Cw == {Text("red"), Text("#00ff80"), Num("int", 1020), Num("float", 510)}
Colors == {Seq1(how, s) : how \in {"list", "map"}, s \in UNION {[1..c -> Cw] : c \in 1..(IF Large THEN 5 ELSE 4)}}
          \cup {Seq1("list", <<Text(x)>>) : x \in ColorTexts}
          \cup {Seq1("tuple", <<Text(x), Num("int", 2040), Num("int", -1020), Num("float", 255)>>) : x \in {"pink", "#102030", "zzz"}}
Common == Scalars \cup {Text(s) : s \in PlainTexts} \cup Flats \cup Grids \cup Ragged \cup Odd \cup Arrs \cup Rowlists
Values(T) == CASE T = "SFColor" -> Common \cup {Text(s) : s \in ColorTexts \cup CssNames}
               [] T = "MFColor" -> Common \cup Colors \cup {Text(s) : s \in ColorTexts}
               [] OTHER -> Common
Scalar == ScalarSeq
Vector == VectorSeq

Init == st = Step0(0) /\ hist = <<>> /\ last = [op |-> [k |-> "-"], obs |-> [ret |-> ""]]
Do(op) == /\ Enabled(st, op)
          /\ LET r == Step(st, op)
             IN /\ st' = r.st
                /\ last' = [op |-> op, obs |-> r.obs]
                /\ hist' = Extend(Mode, hist, op, r.obs)
                /\ EmitHist(Mode, SimDepth, hist')
Choose == \E T \in RangeOf(TypeSeq) : Do([k |-> "type", type |-> T])
Store == /\ last.op.k = "type"
         /\ \E v \in Values(st.type) : Do([k |-> "store", v |-> v])
Next == Choose \/ Store
Spec == Init /\ [][Next]_vars
View == st
TypeInv == TypeOK(st)
Stored == last'.op.k = "store"
R == Coerced(st.type, last'.op.v)
\* what is stored can be stored again and is the same then
Canonical == [][Stored /\ R.k \notin {"bad", "any"} => Coerced(st.type, AsValue(R)) = R]_vars
\* C05: the shape is that of the type, whatever was given; colours are in range
InShape == [][Stored /\ R.k = "arr" =>
    LET T == st.type IN
    /\ Product(R.shape) = Len(R.nums)
    /\ T \in DOMAIN Vectors => R.shape = <<Vectors[T].dim>>
    /\ T \in DOMAIN Rows => Tail(R.shape) = Rows[T].dim
    /\ T \in DOMAIN IntLists \cup DOMAIN FloatLists => Len(R.shape) = 1
    /\ T \in {"SFColor", "MFColor"} => \A i \in 1..Len(R.nums) : R.nums[i] \in 0..Unit]_vars
\* C04, C05: how the same numbers are given makes no difference
Same(v) == LET s == ShapeOf(v)
           IN IF v.t = "seq" /\ s # <<-1>> /\ s # <<-2>> /\ 0 \notin RangeOf(s)
              THEN [t |-> "arr", dtype |-> "d", shape |-> s, nums |-> NumsOf(v), lay |-> "C"] ELSE v
Alike == [][Stored /\ st.type # "SFBool" => LET other == Coerced(st.type, Same(last'.op.v))
    IN R.k \notin {"any", "bad"} /\ other.k \notin {"any", "bad"} => other = R]_vars
=============================================================================
