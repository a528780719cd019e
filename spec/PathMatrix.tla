----------------------------- MODULE PathMatrix -----------------------------
(* Matrices of scenegraph paths (vrml/vrml97/nodepath.py, basenodes.py       *)
(* Transform.localMatrices, vrml/cache.py).  Property C11.                   *)
(* State: the label of every stored transform field, or "-"; whether the paths *)
(* hold their nodes weakly, and the transforms which died; and, for the        *)
(* generation of behaviours, the last query and what changed since.           *)
EXTENDS Matrix, PyList

CONSTANTS TransSeq, Paths   \* a record of sequences of transforms ("g": a node which is not one)

Ts == RangeOf(TransSeq)
Fld == {"translation", "center", "rotation", "scale", "so"}
Default == [translation |-> "zero", center |-> "zero", rotation |-> "none", scale |-> "one", so |-> "none"]
Init0 == [val |-> [t \in Ts |-> [f \in Fld |-> "-"]], q |-> "-", dirty |-> {}, weak |-> 0, gone |-> {}]
\* the path's nodes which are there
NodesOn(st, p) == LET Alive(n) == n \notin st.gone IN SelectSeq(Paths[p], Alive)

Effective(st, t) == [f \in Fld |-> IF st.val[t][f] = "-" THEN Default[f] ELSE st.val[t][f]]

\* only some kinds of components: a part of the transform which is left out
Part(f, tr, sc, ro) ==
    [translation |-> IF tr THEN f.translation ELSE "zero",
     center |-> IF sc \/ ro THEN f.center ELSE "zero",
     rotation |-> IF ro THEN f.rotation ELSE "none",
     scale |-> IF sc THEN f.scale ELSE "one",
     so |-> IF sc THEN f.so ELSE "none"]

RECURSIVE PathForward(_, _, _, _, _), PathInverse(_, _, _, _, _)
\* from the last node to the root
PathForward(st, p, tr, sc, ro) ==
    IF p = <<>> THEN Id
    ELSE LET rest == PathForward(st, Tail(p), tr, sc, ro)
         IN IF p[1] = "g" THEN rest ELSE Mul(rest, Forward(Part(Effective(st, p[1]), tr, sc, ro)))
PathInverse(st, p, tr, sc, ro) ==
    IF p = <<>> THEN Id
    ELSE LET rest == PathInverse(st, Tail(p), tr, sc, ro)
         IN IF p[1] = "g" THEN rest ELSE Mul(Inverse(Part(Effective(st, p[1]), tr, sc, ro)), rest)

Res(st, ret, m) == [st |-> st, obs |-> [ret |-> ret, m |-> m]]
Changed(st, t, f, v) ==
    [st EXCEPT !.val[t][f] = v, !.dirty = IF st.q = "-" THEN {} ELSE @ \cup {<<t, f>>}]

\* localMatrices of a transform alone
Local(st, op) ==
    LET f == Part(Effective(st, op.t), op.tr = 1, op.sc = 1, op.ro = 1)
    IN Show(IF op.inv = 1 THEN Inverse(f) ELSE Forward(f))

Step(st, op) ==
    CASE op.k = "set" -> Res(Changed(st, op.t, op.f, op.v), "ok", <<>>)
      [] op.k = "bad" -> Res(st, "ValueError", <<>>)
      [] op.k = "read" ->
            Res([st EXCEPT !.val[op.t][op.f] = IF @ = "-" THEN Default[op.f] ELSE @],
                Effective(st, op.t)[op.f], <<>>)
      [] op.k = "del" -> IF st.val[op.t][op.f] = "-" THEN Res(st, "AttributeError", <<>>)
                         ELSE Res(Changed(st, op.t, op.f, "-"), "ok", <<>>)
      [] op.k = "query" ->
            Res([st EXCEPT !.q = op.p \o ToString(<<op.tr, op.sc, op.ro, op.inv>>), !.dirty = {}], "ok",
                Show(IF op.inv = 1 THEN PathInverse(st, NodesOn(st, op.p), op.tr = 1, op.sc = 1, op.ro = 1)
                     ELSE PathForward(st, NodesOn(st, op.p), op.tr = 1, op.sc = 1, op.ro = 1)))
      [] op.k = "local" -> Res([st EXCEPT !.q = op.t \o ToString(<<op.tr, op.sc, op.ro, op.inv>>), !.dirty = {}], "ok", Local(st, op))
      \* a transform which only weak paths hold dies, and is no longer on them
      [] op.k = "die" -> Res([Changed(st, op.t, "translation", "-") EXCEPT
                                !.gone = @ \cup {op.t}, !.val[op.t] = [f \in Fld |-> "-"]], "ok", <<>>)
      \* new paths, and new transforms for those which died
      [] op.k = "build" -> Res([st EXCEPT !.weak = op.weak, !.gone = {}, !.q = "-", !.dirty = {}], "ok", <<>>)

Step0(params) == Init0
Enabled(st, op) ==
    CASE op.k = "die" -> st.weak = 1 /\ op.t \notin st.gone
      [] op.k \in {"set", "read", "del", "local", "bad"} -> op.t \notin st.gone
      [] OTHER -> TRUE
TypeOK(st) == TRUE
=============================================================================
