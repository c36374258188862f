---------------------------- MODULE UnboundedInt ----------------------------
(***************************************************************************)
(* The laws of Scalar for ALL integers, checked symbolically by Apalache   *)
(* (every state is an initial state; the invariants are the laws).  Only   *)
(* the lattice fineness S and the tile size are fixed per run.             *)
(***************************************************************************)
EXTENDS Scalar

CONSTANTS
  \* @type: Int;
  S,
  \* @type: Int;
  TILE

VARIABLES
  \* @type: Int;
  px,
  \* @type: Int;
  qx,
  \* @type: Int;
  lx,
  \* @type: Int;
  hx

CInit24 == S = 4 /\ TILE = 3
CInit21 == S = 2 /\ TILE = 1
CInit85 == S = 8 /\ TILE = 5
CInit100 == S = 4 /\ TILE = 100

Init == px \in Int /\ qx \in Int /\ lx \in Int /\ hx \in Int /\ lx <= hx
Next == UNCHANGED <<px, qx, lx, hx>>

\* A point is in the cell whose centre is nearest; both cells at a border
\* touch it; a centre is in its own cell only; moving by whole cells moves the cell.
NearLaw == /\ Nearest1(px, S) # {}
           /\ \A c \in Nearest1(px, S) : 2 * Abs(c * S - px) <= S
           /\ 2 * Abs(qx * S - px) < S => Nearest1(px, S) = {qx}
           /\ 2 * Abs(qx * S - px) = S => qx \in Nearest1(px, S)
           /\ Nearest1(qx * S, S) = {qx}
           /\ \A c \in Nearest1(px, S) : c + qx \in Nearest1(px + qx * S, S)

\* Rounding a box outwards: contains, aligned, smallest, idempotent.
DiscLaw == /\ DiscLo(px, S) <= px /\ px <= DiscHi(px, S, FALSE)
           /\ DiscLo(px, S) % S = 0 /\ DiscHi(px, S, TRUE) % S = 0
           /\ px - DiscLo(px, S) < S /\ DiscHi(px, S, FALSE) - px < S
           /\ DiscLo(DiscLo(px, S), S) = DiscLo(px, S)
           /\ DiscHi(DiscHi(px, S, FALSE), S, FALSE) = DiscHi(px, S, FALSE)
           /\ DiscHi(px, S, TRUE) - DiscHi(px, S, FALSE) = (IF px % S = 0 THEN S ELSE 0)
           /\ DiscLo(-px, S) = -DiscHi(px, S, FALSE)
           /\ px <= qx => DiscLo(px, S) <= DiscLo(qx, S) /\ DiscHi(px, S, FALSE) <= DiscHi(qx, S, FALSE)
TileLaw == /\ TileDown(px, TILE) <= px /\ px <= TileUp(px, TILE)
           /\ TileDown(px, TILE) % TILE = 0 /\ TileUp(px, TILE) % TILE = 0
           /\ px - TileDown(px, TILE) < TILE /\ TileUp(px, TILE) - px < TILE
           /\ TileDown(TileDown(px, TILE), TILE) = TileDown(px, TILE)
           /\ TileUp(TileUp(px, TILE), TILE) = TileUp(px, TILE)
           /\ px <= qx => TileDown(px, TILE) <= TileDown(qx, TILE)

\* What the code computes for tiles: a remainder that truncates towards zero.
\* @type: (Int, Int) => Int;
Rem(a, b) == IF a >= 0 THEN a % b ELSE -((-a) % b)
CodeTileDown(c) == LET r == Abs(Rem(c, TILE))
                   IN IF r = 0 THEN c ELSE IF c < 0 THEN c - (TILE - r) ELSE c - r
CodeTileUp(c) == LET r == Abs(Rem(c, TILE))
                 IN IF r = 0 THEN c ELSE IF c < 0 THEN c + r ELSE c + (TILE - r)
CodeLaw == CodeTileDown(px) = TileDown(px, TILE) /\ CodeTileUp(px) = TileUp(px, TILE)

\* Growth by the region px..qx (px <= qx) of a map that covers cells lx..hx-1: the
\* extents the specification admits, and the ones the code computes (round to
\* whole cells, then once more with one extra cell, enclose, round to tiles).
Grown(l, h) ==
  /\ l <= lx /\ hx <= h
  /\ \E c \in Nearest1(px, S) : l <= c
  /\ \E c \in Nearest1(qx, S) : c < h
  /\ l % TILE = 0 /\ h % TILE = 0
GrowLaw == px <= qx =>
  \A l \in LoCands(lx, px, S, TILE, FALSE), h \in HiCands(hx, qx, S, TILE, FALSE) : Grown(l, h)
CodeGrowLo == TileDown(Min2(lx, FloorDiv(DiscLo(px, S), S)), TILE)
CodeGrowHi == TileUp(Max2(hx, FloorDiv(DiscHi(DiscHi(qx, S, FALSE), S, TRUE), S)), TILE)
CodeGrowLaw == px <= qx => /\ CodeGrowLo \in LoCands(lx, px, S, TILE, FALSE)
                         /\ CodeGrowHi \in HiCands(hx, qx, S, TILE, FALSE)
                         /\ Grown(CodeGrowLo, CodeGrowHi)

\* Box algebra on one axis, for intervals px..qx and lx..hx.
UnionLaw == px <= qx => /\ Min2(px, lx) <= px /\ Min2(px, lx) <= lx /\ Max2(qx, hx) >= qx /\ Max2(qx, hx) >= hx
                      /\ Min2(px, lx) \in {px, lx} /\ Max2(qx, hx) \in {qx, hx}
Laws == NearLaw /\ DiscLaw /\ TileLaw /\ CodeLaw /\ GrowLaw /\ CodeGrowLaw /\ UnionLaw
=============================================================================
