-------------------------------- MODULE Cli --------------------------------
(***************************************************************************)
(* The texpresso command as a state machine over a file system (C20, and   *)
(* the file-level parts of C17 and C18).                                   *)
(*                                                                         *)
(* The command as the program runs it, phase by phase: parse, read,        *)
(* encode, create, write, exit; any phase may fail.  TLC checks that every *)
(* command, run in phases after any history, has exactly the effect        *)
(* CliDefs states.                                                         *)
(***************************************************************************)
EXTENDS CliDefs, Json

CONSTANTS Depth,         \* commands per history
          Mut,           \* "none", or a program that breaks the properties:
                         \*   early    creates the file before encoding
                         \*   append   does not truncate an existing file
                         \*   swallow  succeeds although the input is refused
                         \*   keep     leaves an output file that exists
                         \*   sized    replaces the contents, not the header, of such a file
                         \*   beside   puts the output beside the input, not where it was called
                         \*   temp     encodes into a temporary file, which it removes
                         \*   residue  leaves the temporary file when the output cannot be made
                         \*   consume  removes the input
                         \*   memo     takes what it read before under the same name
                         \*   sniff    believes the contents and not the extension
                         \*   fallback writes elsewhere when the output cannot be made
                         \*   chatty   answers a request for help and goes on
          Wide           \* TRUE: the full command set, for histories; FALSE: for exhaustion

\* a mix in which about half the commands can succeed
AllCmds == {Cmd("compress", i, o, f, g, "none") : i \in {"a.png", "d/a.png", "b.jpg", "d/B.JPG", "d/C.PNG", "c.png", "m.png"},
                                                o \in Outs, f \in {1, 4}, g \in {0, 1}}
        \cup {Cmd("compress", i, o, 2, 0, "none") : i \in Ins, o \in {"", "o.bin", "c.png", "nodir/x.dds"}}
        \cup {Cmd("compress", i, "", 3, 1, x) : i \in {"a.png", "b.jpg", "a.dds"}, x \in Faults}
        \cup {Cmd("decompress", i, o, 0, 0, "none") : i \in Ins, o \in Outs}
        \cup {Cmd("decompress", i, o, 0, 0, "none") : i \in {"c.dds", "a.dds", "B.dds", "noext", "d/o.dds"}, o \in Outs}
        \* the fields f and g mean nothing here: they make these more frequent
        \cup {Cmd("decompress", "bad.dds", o, f, 0, "none") : o \in Outs, f \in 1..12}
        \cup {Cmd("compress", i, o, f, 0, "none") : i \in {"bad.png", "fake.jpg"}, o \in Outs, f \in {3, 5}}
        \cup {Cmd("decompress", i, "", 0, 0, x) : i \in {"c.dds", "a.dds"}, x \in {"flag", "extra", "noinput", "badop"}}
        \cup {Cmd(op, i, o, 1, 0, x) : op \in {"compress", "decompress"}, i \in {"a.png", "c.dds"}, o \in {"", "o.bin"}, x \in Asks}

\* one command of every kind of outcome, on interfering paths
FewCmds == {Cmd("compress", "d/a.png", "", 1, 0, "none"), Cmd("compress", "a.png", "a.png", 1, 0, "none"),
            Cmd("compress", "m.txt", "", 1, 0, "none")} \cup
           {Cmd("compress", i, o, 1, g, "none") : i \in {"a.png", "bad.png", "fake.jpg", "c.png"},
                                                   o \in {"", "o.bin", "c.png"}, g \in {0, 1}}
           \cup {Cmd("compress", "b.jpg", "d", 2, 1, "none"), Cmd("compress", "noext", "", 2, 1, "none")}
           \cup {Cmd("compress", "a.png", "", 1, 1, x) : x \in {"weights2", "format", "help"}}
           \cup {Cmd("decompress", i, o, 0, 0, "none") : i \in {"c.dds", "a.dds", "bad.dds", "o.bin", Gone},
                                                         o \in {"", "a.png", "nodir/x.dds"}}
Cmds == IF Wide THEN AllCmds ELSE FewCmds

---------------------------------------------------------------------------
\* the command in phases

VARIABLES fs,       \* path -> content, on the whole path set plus default outputs
          pc,       \* phase of the running command, or "idle"
          cmd, buf, \* the running command; what it has read or encoded
          before,   \* fs when it started
          code,     \* exit status of the last command: 0 or 1
          hist,     \* the history: commands and their outcomes
          world,    \* what the possibly broken files held at first
          memo      \* what an earlier command read, and where (used by a mutant)
vars == <<fs, pc, cmd, buf, before, code, hist, world, memo>>

At(p) == IF p \in DOMAIN fs THEN fs[p] ELSE IF p \in Dirs THEN C("dir", <<>>) ELSE Absent

NoCmd == Cmd("none", "", "", 0, 0, "none")

Init ==
  /\ \E x \in BadPng, y \in BadDds, z \in BadJpg :
       /\ fs = ("bad.png" :> x) @@ ("bad.dds" :> y) @@ ("fake.jpg" :> z) @@ Start
       /\ world = <<x.kind, y.kind, z.kind>>
  /\ pc = "idle" /\ cmd = NoCmd /\ buf = Absent /\ before = fs /\ code = 0 /\ hist = <<>>
  /\ memo = <<"", Absent>>

\* where the program puts its result, and what it may use on the way
Place == IF Mut = "beside" /\ cmd.out = "" /\ cmd.in \in {"d/a.png", "d/C.PNG", "d/B.JPG"} THEN "d/o.dds"
         ELSE Target(cmd)
Temp == "o.bin"
CanMake == Writable(Target(cmd))

Exit(status) ==
  /\ pc' = "idle" /\ code' = status
  /\ hist' = Append(hist, [c |-> cmd, code |-> status])

Begin ==
  /\ pc = "idle" /\ Len(hist) < Depth
  /\ cmd' \in Cmds /\ pc' = "parse" /\ before' = fs /\ buf' = Absent
  /\ UNCHANGED <<fs, code, hist, world, memo>>

Parse ==
  /\ pc = "parse"
  /\ IF cmd.fault = "none" THEN pc' = (IF Mut = "early" THEN "create" ELSE "read") /\ UNCHANGED <<code, hist>>
     ELSE IF Mut = "chatty" /\ Answers(cmd) THEN pc' = "read" /\ UNCHANGED <<code, hist>>
     ELSE Exit(IF Answers(cmd) THEN 0 ELSE 1)
  /\ UNCHANGED <<fs, cmd, buf, before, world, memo>>

\* opening, recognising and decoding the input
Content == IF Mut = "memo" /\ memo[1] = cmd.in THEN memo[2] ELSE At(cmd.in)
Understood ==
  IF Mut = "sniff" /\ cmd.op = "compress" THEN Content.kind \in {"png", "jpg"} ELSE Accepts(cmd, Content)
Read ==
  /\ pc = "read"
  /\ IF Understood
     THEN /\ pc' = "encode" /\ buf' = Content /\ UNCHANGED <<code, hist>>
          /\ memo' = IF Mut = "memo" THEN <<cmd.in, Content>> ELSE memo
     ELSE Exit(IF Mut = "swallow" THEN 0 ELSE 1) /\ UNCHANGED <<buf, memo>>
  /\ UNCHANGED <<fs, cmd, before, world>>

Encode ==
  /\ pc = "encode"
  /\ buf' = Produces(cmd, buf) /\ pc' = (IF Mut = "early" THEN "write" ELSE "create")
  /\ fs' = IF Mut \in {"temp", "residue"} THEN (Temp :> C("temp", <<>>)) @@ fs ELSE fs
  /\ UNCHANGED <<cmd, before, code, hist, world, memo>>

Create ==
  /\ pc = "create"
  /\ LET was == At(Place) IN
     IF Mut = "keep" /\ was.kind \notin {"absent", "dir"} THEN Exit(0) /\ UNCHANGED fs
     ELSE IF ~CanMake /\ Mut = "fallback"
     THEN fs' = (Temp :> C("empty", <<>>)) @@ fs /\ Exit(0)
     ELSE IF ~CanMake
     THEN Exit(1) /\ fs' = IF Mut = "temp" THEN (Temp :> Absent) @@ fs ELSE fs
     ELSE /\ fs' = (Place :> (IF Mut = "append" \/ (Mut = "sized" /\ was.kind = buf.kind) THEN was
                              ELSE C("empty", <<>>))) @@ fs
          /\ pc' = (IF Mut = "early" THEN "read" ELSE "write")
          /\ UNCHANGED <<code, hist>>
  /\ UNCHANGED <<cmd, buf, before, world, memo>>

Write ==
  /\ pc = "write"
  /\ LET old == At(Place)
         new == IF old.kind \in {"empty", "absent"} THEN buf ELSE C("mixed", <<buf.id, old.id>>)
         gone == (IF Mut \in {"temp", "residue"} /\ Place # Temp THEN {Temp} ELSE {})
                 \cup (IF Mut = "consume" /\ cmd.in # Place THEN {cmd.in} ELSE {})
     IN  fs' = [p \in gone |-> Absent] @@ (Place :> new) @@ fs
  /\ Exit(0)
  /\ UNCHANGED <<cmd, buf, before, world, memo>>

Next == Begin \/ Parse \/ Read \/ Encode \/ Create \/ Write
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
\* Finished: a command has just ended

Finished == pc = "idle" /\ cmd # NoCmd
Was(p) == IF p \in DOMAIN before THEN before[p] ELSE IF p \in Dirs THEN C("dir", <<>>) ELSE Absent

\* C20
FailureChangesNothing == Finished /\ code # 0 => fs = before
SuccessChangesOnlyOutput ==
  Finished /\ code = 0 => \A p \in DOMAIN fs : (p # Target(cmd) \/ Answers(cmd)) => fs[p] = Was(p)
\* the outcome is a function of the command and of the file it reads, whatever came before
Functional ==
  Finished => /\ code = (IF Succeeds(cmd, Was(cmd.in)) THEN 0 ELSE 1)
              /\ code = 0 /\ ~Answers(cmd) => At(Target(cmd)) = Produces(cmd, Was(cmd.in))
\* files are only ever touched between Create and exit
NoEarlyEffect == pc \in {"parse", "read", "encode", "create"} => fs = before

---------------------------------------------------------------------------
\* histories for the real program

Emit == (Finished /\ Len(hist) = Depth)
          => PrintT(<<"HIST", ToJson([world |-> world, steps |-> hist])>>)

\* states without the history's details
View == <<fs, pc, cmd, buf, before, code, Len(hist), memo>>
=============================================================================
