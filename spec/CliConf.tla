------------------------------ MODULE CliConf ------------------------------
(***************************************************************************)
(* Conformance of single CLI commands (C17, C18, C19): see Conf.tla for    *)
(* how traces are consumed and for the meaning of x and p.                 *)
(*                                                                         *)
(* Every record has code (exit status), stem/out (input name without       *)
(* extension, -o argument or "") and changed (names of the files created   *)
(* or changed by the command, relative to its working directory).          *)
(***************************************************************************)
EXTENDS Dds, Png, Json, IOUtils

Prop == IOEnv.PROP
Chains == 64
Trace == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Trace)

VARIABLES chain, l
vars == <<chain, l>>

Target(r, ext) == IF r.out = "" THEN r.stem \o ext ELSE r.out

\* C17, C19: compress.  f g aw: options; w h px: the image; hd: first 148 bytes of the output,
\* data: the rest; lib: the library's compression of px with these options
CompressClauses(r) ==
  <<<<"exit", r.code = 0>>,
    <<"files", r.changed = <<Target(r, ".dds")>>>>,
    <<"header", r.code = 0 => HeaderOf(r.hd, r.f, r.w, r.h)>>,
    <<"payload", r.code = 0 => /\ r.data = r.lib
                               /\ Len(r.data) = CompressedSize(r.f, r.w, r.h)>>>>

\* the options' meaning
Algorithm(profile) == CASE profile \in {"", "balanced"} -> 1 [] profile = "speed" -> 0
                        [] profile = "quality" -> 2
Spellings(digit) == {b \o c \o digit : b \in {"b", "B"}, c \in {"c", "C"}}      \* in any letter case
FormatArg(s) == CHOOSE f \in 1..5 : s \in Spellings(ToString(f))
OptionsClauses(r) ==       \* the recorder asked the library for the same thing
  <<<<"recorder", /\ r.f = FormatArg(r.farg)
                  /\ r.g = Algorithm(r.profile)
                  /\ r.lw = IF r.wargs = <<>> THEN <<"0.2126", "0.7152", "0.0722">> ELSE r.wargs
                  /\ r.aw = r.flag
                  /\ Len(r.px) = 4 * r.w * r.h>>>>

\* C18: decompress.  hd: the input's header, data: its payload; the output PNG's IHDR fields
\* (pw, ph, depth, ctype, interlace) and its pixels (o)
DecompressClauses(r) ==
  LET f == FileFormat(r.hd) IN
  <<<<"recorder", f # 0 /\ Is32(r.hd, WidthOff, r.w) /\ Is32(r.hd, HeightOff, r.h)
                  /\ Len(r.data) >= CompressedSize(f, r.w, r.h)>>,
    <<"exit", r.code = 0>>,
    <<"files", r.changed = <<Target(r, ".png")>>>>,
    <<"png", r.code = 0 => /\ r.pw = r.w /\ r.ph = r.h /\ r.depth = 8 /\ r.ctype = 6>>,
    <<"texels", r.code = 0 =>
        Decompressed([f |-> f, w |-> r.w, h |-> r.h, data |-> r.data, out |-> r.o])>>>>

Clauses(r) ==
  CASE r.k = "compress" -> OptionsClauses(r) \o CompressClauses(r)
    [] r.k = "readpng" -> <<<<"recorder", r.bd \in LegalDepths(r.ct) /\ ReadsAs(r)>>>>
                          \o CompressClauses(r)
    [] r.k = "readjpeg" -> <<<<"recorder", JpegAs(r)>>>> \o CompressClauses(r)
    [] r.k = "decompress" -> DecompressClauses(r)

Broken(r) == LET c == Clauses(r) IN {c[n][1] : n \in {m \in 1..Len(c) : ~c[m][2]}}

Judge(n) ==
  LET b == Broken(Trace[n])
  IN  IF Trace[n].x = 1
      THEN IF b = {} THEN PrintT(<<"CANARY-ACCEPTED", n>>) ELSE TRUE
      ELSE IF b # {} THEN PrintT(<<"BROKEN", n, b>>) ELSE TRUE

Init == chain \in 1..Chains /\ l = chain

Consume == /\ l <= N
           /\ Judge(l)
           /\ l' = l + Chains
           /\ UNCHANGED chain

Spec == Init /\ [][Consume]_vars

Accepted == PrintT(<<"CONSUMED", TLCGet("stats").distinct - Chains, N>>)
            /\ TLCGet("stats").distinct = N + Chains
=============================================================================
