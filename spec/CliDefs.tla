------------------------------ MODULE CliDefs ------------------------------
(***************************************************************************)
(* What a texpresso command owes its caller: Succeeds, Target and          *)
(* Produces, functions of the command and of the file it reads.  Cli.tla   *)
(* shows that the program's phases add up to this after every history;     *)
(* SesConf.tla judges sessions of the real program by it.                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

\* paths: directory, stem, extension
Paths == {"a.png", "b.jpg", "c.dds", "m.txt", "noext", "d/a.png", "d/B.JPG", "d/C.PNG",
          "bad.png", "bad.dds", "fake.jpg",
          "a.dds", "b.dds", "B.dds", "C.dds", "c.png", "m.png", "o.bin", "d/o.dds"}
Dirs == {"d"}
Gone == "missing.png"                      \* never exists

Stem(p) == CASE p \in {"a.png", "d/a.png", "a.dds"} -> "a"
             [] p \in {"b.jpg", "b.dds"} -> "b"
             [] p \in {"d/B.JPG", "B.dds"} -> "B"
             [] p \in {"d/C.PNG", "C.dds"} -> "C"
             [] p \in {"c.dds", "c.png"} -> "c"
             [] p \in {"m.txt", "m.png"} -> "m"
             [] p = "noext" -> "noext"
             [] p \in {"bad.png", "bad.dds"} -> "bad"
             [] p = "fake.jpg" -> "fake"
             [] p \in {"o.bin", "d/o.dds"} -> "o"
             [] p = Gone -> "missing"
             [] p = "d" -> "d"
\* the type an extension stands for, whatever its case
Reader(p) == CASE p \in {"a.png", "d/a.png", "d/C.PNG", "bad.png", "c.png", "m.png", Gone} -> "png"
               [] p \in {"b.jpg", "d/B.JPG", "fake.jpg"} -> "jpg"
               [] OTHER -> "none"

\* contents: a kind and what identifies the bytes
C(kind, id) == [kind |-> kind, id |-> id]
Absent == C("absent", <<>>)

\* kinds a reader or 'decompress' can make sense of; all others are refused:
\*   junk (no image), cut (a truncated image), short (DDS with too little payload),
\*   bomb (a PNG of impossible size), few (a PNG with too few rows), huge (a DDS whose size
\*   does not fit the machine), plain (uncompressed DDS), fmt (unsupported DDS format), dim (not a 2D texture), zero (DDS of zero width or height),
\*   cmyk (a JPEG of an unsupported kind), cutjpg (a truncated JPEG), crc (a PNG with a damaged chunk)
Good == {"png", "jpg", "dds"}

Start ==
  ("a.png" :> C("png", <<"A">>)) @@ ("d/a.png" :> C("png", <<"A2">>)) @@ ("b.jpg" :> C("jpg", <<"B">>))
  @@ ("d/B.JPG" :> C("jpg", <<"B2">>)) @@ ("d/C.PNG" :> C("png", <<"C2">>))
  @@ ("c.dds" :> C("dds", <<"D">>)) @@ ("m.txt" :> C("png", <<"A">>)) @@ ("noext" :> C("dds", <<"D2">>))
  @@ [p \in Paths |-> Absent]

\* what the files that may be broken in one way or another can hold
BadPng == {C("junk", <<"J">>), C("cut", <<"T">>), C("dds", <<"D">>), C("empty", <<>>),
           C("bomb", <<"X">>), C("few", <<"W">>), C("crc", <<"Q">>)}
BadDds == {C("short", <<"S">>), C("fmt", <<"F">>), C("dim", <<"V">>), C("zero", <<"Z">>),
           C("png", <<"A">>), C("cutdds", <<"H">>), C("huge", <<"G">>), C("plain", <<"P">>)}
BadJpg == {C("png", <<"A">>), C("cmyk", <<"K">>), C("junk", <<"J">>), C("cutjpg", <<"U">>)}

Ins == {"a.png", "d/a.png", "b.jpg", "d/B.JPG", "d/C.PNG", "c.dds", "a.dds", "B.dds", "C.dds", "c.png",
        "m.txt", "noext", "bad.png", "bad.dds", "fake.jpg", "o.bin", "d/o.dds", "d", Gone}
Outs == {"", "a.dds", "o.bin", "d/o.dds", "c.png", "a.png", "nodir/x.dds", "d"}
Faults == {"none", "weights1", "weights2", "weights4", "word", "format", "profile", "noformat", "flag",
           "extra", "noinput", "badop"}
\* asking for help or the version, whatever else the command says: an answer and no effect
Asks == {"help", "helpcmd", "version"}

Cmd(op, in, out, f, g, fault) == [op |-> op, in |-> in, out |-> out, f |-> f, g |-> g, fault |-> fault]
OutExt(c) == IF c.op = "compress" THEN ".dds" ELSE ".png"
Target(c) == IF c.out = "" THEN Stem(c.in) \o OutExt(c) ELSE c.out
Writable(p) == p \notin Dirs /\ p # "nodir/x.dds"

---------------------------------------------------------------------------
\* what a command owes; content is what its input path holds

Accepts(c, content) ==
  IF c.op = "compress" THEN Reader(c.in) # "none" /\ content.kind = Reader(c.in)
  ELSE content.kind = "dds"

Answers(c) == c.fault \in Asks
Makes(c, content) == c.fault = "none" /\ Accepts(c, content) /\ Writable(Target(c))
Succeeds(c, content) == Answers(c) \/ Makes(c, content)

Produces(c, content) ==
  IF c.op = "compress" THEN C("dds", <<"c", c.f, c.g, content.id>>) ELSE C("png", <<"d", content.id>>)
=============================================================================
