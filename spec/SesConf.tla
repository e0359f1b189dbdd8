------------------------------ MODULE SesConf ------------------------------
(***************************************************************************)
(* Conformance of sessions: sequences of commands run by the real program  *)
(* in a directory of their own (C20).                                      *)
(*                                                                         *)
(* A session has its first files, init, as pairs <<path, id>> (equal ids,  *)
(* equal bytes), the kinds of the possibly broken ones, world, and steps   *)
(* [c (the command), code, fs (all files afterwards, as init)].            *)
(* Each action consumes one step; kind carries what the specification says *)
(* every path holds.                                                       *)
(***************************************************************************)
EXTENDS CliDefs, Json, IOUtils

Chains == 64
Trace == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Trace)

VARIABLES chain, l, t, kind
vars == <<chain, l, t, kind>>

Ids(list) == [p \in {list[n][1] : n \in 1..Len(list)} |->
                LET n == CHOOSE n \in 1..Len(list) : list[n][1] = p IN list[n][2]]

Kinds(n) ==
  IF n > N THEN <<>>
  ELSE ("bad.png" :> Trace[n].world[1]) @@ ("bad.dds" :> Trace[n].world[2])
       @@ ("fake.jpg" :> Trace[n].world[3]) @@ [p \in DOMAIN Start |-> Start[p].kind]

Holds(p) == C(IF p \in DOMAIN kind THEN kind[p] ELSE IF p \in Dirs THEN "dir" ELSE "absent", <<>>)

\* clauses the step breaks.  a, b: files before and after
Broken(s, a, b) ==
  LET ok == Succeeds(s.c, Holds(s.c.in))
      made == s.code = 0 /\ ~Answers(s.c)
      to == Target(s.c)
  IN  (IF ok /\ s.code # 0 THEN {"fails"} ELSE {})
      \cup (IF ~ok /\ s.code = 0 THEN {"succeeds"} ELSE {})
      \cup (IF s.code # 0 /\ a # b THEN {"failure-changes"} ELSE {})
      \cup (IF Answers(s.c) /\ a # b THEN {"answer-changes"} ELSE {})
      \cup (IF made /\ ~(/\ DOMAIN b \subseteq DOMAIN a \cup {to}
                               /\ DOMAIN a \subseteq DOMAIN b
                               /\ \A p \in DOMAIN a \ {to} : a[p] = b[p]) THEN {"other-file"} ELSE {})
      \cup (IF made /\ to \notin DOMAIN b THEN {"no-output"} ELSE {})

Before(r, n) == IF n = 1 THEN Ids(r.init) ELSE Ids(r.steps[n - 1].fs)

Init == chain \in 1..Chains /\ l = chain /\ t = 0 /\ kind = Kinds(chain)

NextSession == l' = l + Chains /\ t' = 0 /\ kind' = Kinds(l + Chains)

Step ==
  /\ l <= N /\ t < Len(Trace[l].steps)
  /\ LET r == Trace[l]
         s == r.steps[t + 1]
         b == Broken(s, Before(r, t + 1), Ids(s.fs))
     IN  IF b # {}
         THEN (IF r.x = 1 THEN TRUE ELSE PrintT(<<"BROKEN", l, b>>)) /\ NextSession
         ELSE IF r.x = 1 /\ t + 1 = Len(r.steps)
         THEN PrintT(<<"CANARY-ACCEPTED", l>>) /\ NextSession
         ELSE /\ t' = t + 1
              /\ kind' = IF s.code # 0 \/ Answers(s.c) THEN kind
                         ELSE (Target(s.c) :> Produces(s.c, Holds(s.c.in)).kind) @@ kind
              /\ UNCHANGED l
  /\ UNCHANGED chain

Over == /\ l <= N /\ t = Len(Trace[l].steps)
        /\ NextSession
        /\ UNCHANGED chain

Next == Step \/ Over
Spec == Init /\ [][Next]_vars

Sessions == {n \in 1..N : Trace[n].x = 0}
Canaries == {n \in 1..N : Trace[n].x = 1}
RECURSIVE Steps(_)
Steps(n) == IF n = 0 THEN 0 ELSE Steps(n - 1) + IF n \in Sessions THEN Len(Trace[n].steps) + 1 ELSE 0

\* one state per step of a session, plus one for its start; corrupted sessions end where
\* the corruption is, at their first step
Accepted ==
  LET want == Steps(N) + Chains + Cardinality(Canaries)
      got == TLCGet("stats").distinct
  IN  PrintT(<<"CONSUMED", IF got = want THEN N ELSE 0, N>>) /\ got = want
=============================================================================
