---------------------------- MODULE TraceCheck ----------------------------
(* Checks recorded executions of the implementation against a              *)
(* specification given as a function:  SpecInit(params) is the initial state   *)
(* of an execution and SpecStep(s, op) the record [st |-> next state,           *)
(* obs |-> what must be observed].  Every recorded execution is checked to  *)
(* its end; each clause (field of obs) which differs is printed, so the     *)
(* verdict is total.  The traces are a JSON file, a list of                 *)
(* {params, steps: [[op, obs], ...]} .                                      *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils

\* the specification's operators, bound by the configuration file
CONSTANTS SpecInit(_), SpecStep(_, _), SpecEnabled(_, _), SpecInv(_)

VARIABLES tc_t, tc_i, tc_s, tc_bad

Traces == JsonDeserialize(IOEnv.TRACE_FILE)

TCInit == /\ tc_t = 1 /\ tc_i = 0 /\ tc_bad = 0
          /\ tc_s = SpecInit(Traces[1].params)

Differs(exp, got) == {c \in DOMAIN exp : c \notin DOMAIN got \/ exp[c] # got[c]}

TCStep ==
    /\ tc_t <= Len(Traces)
    /\ tc_i < Len(Traces[tc_t].steps)
    /\ LET e == Traces[tc_t].steps[tc_i+1]
       IN IF ~SpecEnabled(tc_s, e[1])
          THEN /\ PrintT("@@" \o ToJson([t |-> tc_t, i |-> tc_i+1, clause |-> "not-enabled",
                                          expected |-> "", got |-> ""]))
               /\ tc_bad' = tc_bad + 1 /\ tc_s' = tc_s /\ tc_t' = tc_t /\ tc_i' = Len(Traces[tc_t].steps)
          ELSE LET r == SpecStep(tc_s, e[1])
                   d == Differs(r.obs, e[2])
               IN /\ \A c \in d :
                        PrintT("@@" \o ToJson([t |-> tc_t, i |-> tc_i+1, clause |-> c,
                               expected |-> r.obs[c],
                               got |-> IF c \in DOMAIN e[2] THEN e[2][c] ELSE "missing"]))
                  /\ IF SpecInv(r.st) THEN TRUE
                     ELSE PrintT("@@" \o ToJson([t |-> tc_t, i |-> tc_i+1, clause |-> "invariant",
                                                 expected |-> "", got |-> ""]))
                  /\ tc_s' = r.st /\ tc_i' = tc_i + 1 /\ tc_t' = tc_t
                  /\ tc_bad' = tc_bad + (IF d = {} THEN 0 ELSE 1)

TCNext == \/ TCStep
          \/ /\ tc_t < Len(Traces) /\ tc_i = Len(Traces[tc_t].steps)
             /\ tc_t' = tc_t + 1 /\ tc_i' = 0 /\ tc_s' = SpecInit(Traces[tc_t+1].params) /\ UNCHANGED tc_bad
          \/ /\ tc_t = Len(Traces) /\ tc_i = Len(Traces[tc_t].steps)
             /\ PrintT("@@" \o ToJson([done |-> tc_t, bad |-> tc_bad]))
             /\ tc_t' = tc_t + 1 /\ UNCHANGED <<tc_i, tc_s, tc_bad>>

TCSpec == TCInit /\ [][TCNext]_<<tc_t, tc_i, tc_s, tc_bad>>
=============================================================================
