-------------------------------- MODULE Grid --------------------------------
(***************************************************************************)
(* Geometry of the disparity graph. g is a record with fields w, h, D:     *)
(* width and height of the images and number of disparity levels.          *)
(* A pixel <<x, y>> of the right image has the number 1 + x + w*y, so the  *)
(* numbering does not follow any layout used by the implementation.        *)
(* Neighbors: 0 right, 1 left, 2 down (y+1), 3 up (y-1).                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Neighbors == 0..3
Opposite(k) == <<1, 0, 3, 2>>[k + 1]

Pixels(g) == 1..(g.w * g.h)
PixelOf(g, x, y) == 1 + x + g.w * y
XOf(g, p) == (p - 1) % g.w
YOf(g, p) == (p - 1) \div g.w

NeighborExists(g, p, k) ==
    CASE k = 0 -> XOf(g, p) + 1 < g.w
      [] k = 1 -> XOf(g, p) > 0
      [] k = 2 -> YOf(g, p) + 1 < g.h
      [] k = 3 -> YOf(g, p) > 0

\* Number of the neighbor pixel, 0 if there is none.
NeighborOf(g, p, k) ==
    IF NeighborExists(g, p, k) THEN p + <<1, -1, g.w, -g.w>>[k + 1] ELSE 0

\* Disparities of the nodes of a pixel: the matched column p.x + d of the
\* left image must exist.
Disparities(g, p) == {d \in 0..(g.D - 1) : XOf(g, p) + d < g.w}

NodeExists(g, x, y, d) ==
    x \in 0..(g.w - 1) /\ y \in 0..(g.h - 1) /\ d \in 0..(g.D - 1) /\ x + d < g.w

\* Ordering constraint between the disparities of a left and a right pixel.
Ordered(dl, dr) == dl <= dr + 1

EdgeExists(g, p, k, d, e) ==
    /\ NeighborExists(g, p, k)
    /\ d \in Disparities(g, p)
    /\ e \in Disparities(g, NeighborOf(g, p, k))
    /\ k = 0 => Ordered(d, e)
    /\ k = 1 => Ordered(e, d)

\* Tables over the grid, used to keep evaluation fast.
NeighborTable(g) == [p \in Pixels(g) |-> [k \in 1..4 |-> NeighborOf(g, p, k - 1)]]

\* Number of the neighbor between two pixels given by coordinates (4: none).
NeighborNumber(x, y, u, v) ==
    CASE u = x + 1 /\ v = y -> 0
      [] x = u + 1 /\ v = y -> 1
      [] u = x /\ v = y + 1 -> 2
      [] u = x /\ y = v + 1 -> 3
      [] OTHER -> 4
=============================================================================
