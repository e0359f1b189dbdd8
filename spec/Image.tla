------------------------------- MODULE Image -------------------------------
(***************************************************************************)
(* Images: how blocks tile them, and what the image-level calls owe.       *)
(***************************************************************************)
EXTENDS Enc

BlocksWide(w) == CeilDiv4(w)
NumBlocks(w, h) == CeilDiv4(w) * CeilDiv4(h)
CompressedSize(f, w, h) == NumBlocks(w, h) * BlockSize(f)

\* pixel (x, y) of an RGBA buffer, 0-based byte offset
PixOff(w, x, y) == 4 * (y * w + x)

\* block number of block (x, y), and byte offset of its encoding
BlockNo(w, x, y) == y * BlocksWide(w) + x
BlockOff(f, w, x, y) == BlockNo(w, x, y) * BlockSize(f)

\* mask of the pixels of block (x, y) inside the image
TileMask(w, h, x, y) ==
  SumOver({i \in Pix : 4*x + (i % 4) < w /\ 4*y + (i \div 4) < h}, LAMBDA i : Pow2[i + 1])

Bytes(s, off, n) == [k \in 1..n |-> s[off + k]]

---------------------------------------------------------------------------
\* C02: r = [f, w, h, data, out (4wh bytes), tail (excess output), fill]

Decompressed(r) ==
  LET bs == BlockSize(r.f)
      bw == BlocksWide(r.w)
      D == TLCEval([n \in 0..(NumBlocks(r.w, r.h) - 1) |->
                    LET d == Decode(r.f, Bytes(r.data, n * bs, bs))
                    IN  TLCEval([i \in Pix |-> TLCEval(d[i])])])
  IN  /\ Len(r.out) = 4 * r.w * r.h
      /\ \A y \in 0..(r.h - 1) : \A x \in 0..(r.w - 1) :
           LET t == D[BlockNo(r.w, x \div 4, y \div 4)][(x % 4) + 4 * (y % 4)]
               o == PixOff(r.w, x, y)
           IN  \A k \in 1..4 : r.out[o + k] = t[k]

Untouched(s, fill) == \A k \in 1..Len(s) : s[k] = fill

---------------------------------------------------------------------------
\* C03: r = [f, w, h, px (4wh), out, tail, fill, blk], blk the library's own encodings of
\* the single blocks in row order: [m, px (64), b]

TileOk(r, t, x, y) ==            \* t really is block (x, y) of the image
  /\ t.m = TileMask(r.w, r.h, x, y)
  /\ \A i \in Pix : (t.m \div Pow2[i + 1]) % 2 = 1 =>
        \A k \in 1..4 : t.px[4*i + k] = r.px[PixOff(r.w, 4*x + (i % 4), 4*y + (i \div 4)) + k]

ComposedOfBlocks(r) ==
  LET bs == BlockSize(r.f) IN
  /\ Len(r.out) = CompressedSize(r.f, r.w, r.h)
  /\ \A y \in 0..(CeilDiv4(r.h) - 1) : \A x \in 0..(CeilDiv4(r.w) - 1) :
       LET t == r.blk[BlockNo(r.w, x, y) + 1] IN
       Bytes(r.out, BlockOff(r.f, r.w, x, y), bs) = t.b

TilesWellFormed(r) ==            \* obligation on the recorder, not on the library
  /\ Len(r.blk) = NumBlocks(r.w, r.h)
  /\ Len(r.px) = 4 * r.w * r.h
  /\ \A y \in 0..(CeilDiv4(r.h) - 1) : \A x \in 0..(CeilDiv4(r.w) - 1) :
       TileOk(r, r.blk[BlockNo(r.w, x, y) + 1], x, y)

---------------------------------------------------------------------------
\* Large images, by sample.  Pixels follow a formula both sides know; A is its parameters.

\* cells of A[6] x A[6] pixels are alike; the pattern repeats after A[7] columns and A[8] rows;
\* alphas of A[9] and more are 255

Formula(A, x0, y0, k) ==
  LET x == ((x0 % A[7]) \div A[6]) * A[6]
      y == ((y0 % A[8]) \div A[6]) * A[6]
      v == (((x * A[1] + y * A[2] + k * A[3] + (x \div 4) * (y \div 4) * A[4]) % 251)
              + A[5] * ((x + y) % 4)) % 256
  IN  IF k = 3 /\ v >= A[9] THEN 255 ELSE v

\* one sampled block of a compressed large image: bytes found at the block's offset,
\* and the same block encoded on its own
LargeTile(r) ==
  /\ r.off = BlockOff(r.f, r.w, r.bx, r.by)
  /\ r.m = TileMask(r.w, r.h, r.bx, r.by)
  /\ \A i \in Pix : (r.m \div Pow2[i + 1]) % 2 = 1 =>
       \A k \in 1..4 : r.px[4*i + k] = Formula(r.a, 4*r.bx + (i % 4), 4*r.by + (i \div 4), k - 1)

\* the same for an image whose pixels follow no formula
LargeSpot(r) == r.off = BlockOff(r.f, r.w, r.bx, r.by) /\ r.m = TileMask(r.w, r.h, r.bx, r.by)

\* one sampled pixel row segment of a decompressed large image: the block's bytes and the
\* visible part of its texels as found in the output
LargeTexels(r) ==
  LET d == Decode(r.f, r.b)
  IN  /\ r.off = BlockOff(r.f, r.w, r.bx, r.by)
      /\ \A i \in Pix :
           LET x == 4*r.bx + (i % 4)  y == 4*r.by + (i \div 4) IN
           (x < r.w /\ y < r.h) => \A k \in 1..4 : r.o[4*i + k] = d[i][k]

=============================================================================
