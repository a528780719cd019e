------------------------------ MODULE PyList ------------------------------
(* Python's list semantics over TLA+ sequences: indices are 0-based and may *)
(* be negative; NONE stands for an omitted slice bound.                      *)
EXTENDS Naturals, Integers, Sequences, FiniteSets

NONE == 99

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b

RangeOf(s) == {s[k] : k \in 1..Len(s)}
Count(s, x) == Cardinality({k \in 1..Len(s) : s[k] = x})

\* the 1-based position of index i, 0 if there is none
Pos(n, i) == IF i >= 0 /\ i < n THEN i + 1
             ELSE IF i < 0 /\ i + n >= 0 THEN i + n + 1 ELSE 0

Low(n, i) == IF i = NONE THEN 0 ELSE IF i < 0 THEN Max2(i + n, 0) ELSE Min2(i, n)
High(n, j) == IF j = NONE THEN n ELSE IF j < 0 THEN Max2(j + n, 0) ELSE Min2(j, n)
RLow(n, i) == IF i = NONE THEN n - 1 ELSE IF i < 0 THEN Max2(i + n, -1) ELSE Min2(i, n - 1)
RHigh(n, j) == IF j = NONE THEN -1 ELSE IF j < 0 THEN Max2(j + n, -1) ELSE Min2(j, n - 1)

RECURSIVE Up(_, _, _), Down(_, _, _)
Up(a, b, step) == IF a >= b THEN <<>> ELSE <<a + 1>> \o Up(a + step, b, step)
Down(a, b, step) == IF a <= b THEN <<>> ELSE <<a + 1>> \o Down(a + step, b, step)

\* the 1-based positions a slice selects, in order
SlicePos(n, i, j, k) ==
    IF k = 0 THEN <<>>
    ELSE IF k = NONE \/ k > 0
    THEN Up(Low(n, i), High(n, j), IF k = NONE THEN 1 ELSE k)
    ELSE Down(RLow(n, i), RHigh(n, j), k)

Pick(s, pos) == [k \in 1..Len(pos) |-> s[pos[k]]]
Slice(s, i, j, k) == Pick(s, SlicePos(Len(s), i, j, k))

RECURSIVE Without(_, _, _)
Without(s, pos, k) ==
    IF k > Len(s) THEN <<>>
    ELSE (IF k \in pos THEN <<>> ELSE <<s[k]>>) \o Without(s, pos, k + 1)
Drop(s, pos) == Without(s, RangeOf(pos), 1)
DropAt(s, p) == Without(s, {p}, 1)

InsertAt(s, p, x) == SubSeq(s, 1, p) \o <<x>> \o SubSeq(s, p + 1, Len(s))
PyInsert(s, i, x) == InsertAt(s, Low(Len(s), i), x)

Simple(k) == k = NONE \/ k = 1
\* whether vals can be assigned to the slice
Fits(s, i, j, k, vals) == Simple(k) \/ Len(SlicePos(Len(s), i, j, k)) = Len(vals)
PutSlice(s, i, j, k, vals) ==
    IF Simple(k)
    THEN LET a == Low(Len(s), i) b == Max2(a, High(Len(s), j))
         IN SubSeq(s, 1, a) \o vals \o SubSeq(s, b + 1, Len(s))
    ELSE LET pos == SlicePos(Len(s), i, j, k)
         IN [q \in 1..Len(s) |-> IF \E m \in 1..Len(pos) : pos[m] = q
                                 THEN vals[CHOOSE m \in 1..Len(pos) : pos[m] = q]
                                 ELSE s[q]]

FirstPos(s, x) == IF \E k \in 1..Len(s) : s[k] = x
                  THEN CHOOSE k \in 1..Len(s) : s[k] = x /\ \A m \in 1..k-1 : s[m] # x
                  ELSE 0

Reversed(s) == [k \in 1..Len(s) |-> s[Len(s) + 1 - k]]

RECURSIVE Repeat(_, _), Join(_, _)
Repeat(s, n) == IF n <= 0 THEN <<>> ELSE s \o Repeat(s, n - 1)
Join(s, sep) == IF s = <<>> THEN "" ELSE IF Len(s) = 1 THEN s[1] ELSE s[1] \o sep \o Join(Tail(s), sep)

\* the sorted sequence, by rank
RECURSIVE SortBy(_, _)
SortBy(s, rank) ==
    IF s = <<>> THEN <<>>
    ELSE LET m == CHOOSE k \in 1..Len(s) :
                    \A q \in 1..Len(s) : rank[s[k]] < rank[s[q]] \/ (rank[s[k]] = rank[s[q]] /\ k <= q)
         IN <<s[m]>> \o SortBy(DropAt(s, m), rank)

\* the elements of s which remain when one of each in t is taken away
RECURSIVE Minus(_, _)
Minus(s, t) == IF t = <<>> THEN s
               ELSE LET p == FirstPos(s, t[1])
                    IN Minus(IF p = 0 THEN s ELSE DropAt(s, p), Tail(t))
RECURSIVE Keep(_, _)
Keep(s, set) == IF s = <<>> THEN <<>>
                ELSE (IF s[1] \in set THEN <<s[1]>> ELSE <<>>) \o Keep(Tail(s), set)
SortBag(s, names) == LET rank == [x \in RangeOf(names) |-> FirstPos(names, x)] IN SortBy(s, rank)
=============================================================================
