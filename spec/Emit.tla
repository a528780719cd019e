------------------------------- MODULE Emit -------------------------------
(* Printing of behaviours for the conformance harness.  A line starting     *)
(* with "@@" is read by harness/tlc.py.                                      *)
EXTENDS Naturals, Sequences, TLC, Json

\* Mode: "mc"  explore only (no history is kept)
\*       "gen" print the shortest behaviour to and through every transition
\*       "sim" print the behaviour when it has SimDepth steps (-simulate)
Extend(mode, hist, op, obs) ==
    IF mode = "mc" THEN <<>> ELSE Append(hist, <<op, obs>>)

EmitHist(mode, depth, hist) ==
    CASE mode = "gen" -> PrintT("@@" \o ToJson(hist))
      [] mode = "sim" -> IF Len(hist) = depth THEN PrintT("@@" \o ToJson(hist)) ELSE TRUE
      [] OTHER -> TRUE
=============================================================================
