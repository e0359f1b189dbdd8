-------------------------------- MODULE Dds --------------------------------
(***************************************************************************)
(* DDS containers as far as texpresso reads and writes them.               *)
(*                                                                         *)
(* A header is the sequence of the file's first bytes: 4 magic, 124 header *)
(* and, if the pixel format is DX10, 20 more.  Offsets are 0-based.        *)
(***************************************************************************)
EXTENDS Image

\* bytes off..off+3 are the little-endian number n (n < 2^31)
Is32(h, off, n) ==
  /\ h[off + 1] = n % 256
  /\ h[off + 2] = (n \div 256) % 256
  /\ h[off + 3] = (n \div 65536) % 256
  /\ h[off + 4] = n \div 16777216

\* bit k of the 32-bit field at off
Bit(h, off, k) == (h[off + 1 + k \div 8] \div Pow2[1 + (k % 8)]) % 2 = 1

Magic == <<68, 68, 83, 32>>                       \* "DDS "
DX10  == <<68, 88, 49, 48>>
FourCC(n) == <<68, 88, 84, 48 + n>>               \* "DXTn"

FlagsOff == 8      HeightOff == 12   WidthOff == 16   DepthOff == 24
MipsOff == 28      PfOff == 76       PfFlagsOff == 80 FourCCOff == 84
CapsOff == 108     Caps2Off == 112
DxgiOff == 128     DimOff == 132     MiscOff == 136   ArrayOff == 140
AlphaOff == 144    PitchOff == 20

HeaderLen(four) == IF four = DX10 THEN 148 ELSE 128

\* DXGI numbers of the formats texpresso writes: sRGB for colour, UNORM for channels
Dxgi(f) == <<72, 75, 78, 80, 83>>[f]

\* formats by DXGI number; 0 if unsupported
FromDxgi(n) == IF \E f \in Formats : Dxgi(f) = n THEN CHOOSE f \in Formats : Dxgi(f) = n ELSE 0

\* formats by legacy four-character code; 0 if unsupported
FromFourCC(c) == CASE c = FourCC(1) -> 1 [] c = FourCC(3) -> 2 [] c = FourCC(5) -> 3 [] OTHER -> 0

\* a header a reader takes for one plain 2D texture of format f, size w x h
HeaderOf(hd, f, w, h) ==
  /\ Len(hd) = 148
  /\ Bytes(hd, 0, 4) = Magic
  /\ Is32(hd, 4, 124)
  /\ Bit(hd, FlagsOff, 0) /\ Bit(hd, FlagsOff, 1) /\ Bit(hd, FlagsOff, 2) /\ Bit(hd, FlagsOff, 12)
  /\ Is32(hd, HeightOff, h)
  /\ Is32(hd, WidthOff, w)
  /\ ~Bit(hd, FlagsOff, 23) \/ Is32(hd, DepthOff, 1)                 \* no volume
  /\ ~Bit(hd, FlagsOff, 17) \/ Is32(hd, MipsOff, 1) \/ Is32(hd, MipsOff, 0)
  /\ Is32(hd, PfOff, 32)
  /\ Bit(hd, PfFlagsOff, 2)
  /\ Bytes(hd, FourCCOff, 4) = DX10
  /\ Bit(hd, CapsOff, 12)
  /\ ~Bit(hd, Caps2Off, 9) /\ ~Bit(hd, Caps2Off, 21)                 \* no cube, no volume
  /\ Is32(hd, DxgiOff, Dxgi(f))
  /\ Is32(hd, DimOff, 3)
  /\ ~Bit(hd, MiscOff, 2)
  /\ Is32(hd, ArrayOff, 1)
  \* the transparent texels of BC1 are black: premultiplied; the others have alpha of their own
  /\ Is32(hd, AlphaOff, IF f = 1 THEN 2 ELSE 1)
  \* the size, if it is given, is that of the payload
  /\ ~Bit(hd, FlagsOff, 19) \/ Is32(hd, PitchOff, CompressedSize(f, w, h))

\* what a reader finds in a file: format (0: not supported)
FileFormat(hd) ==
  IF Bytes(hd, FourCCOff, 4) = DX10
  THEN LET n == CHOOSE n \in 0..255 : Is32(hd, DxgiOff, n) IN
       IF Is32(hd, DimOff, 3) THEN FromDxgi(n) ELSE 0
  ELSE FromFourCC(Bytes(hd, FourCCOff, 4))
=============================================================================
