------------------------------ MODULE Vectors ------------------------------
(***************************************************************************)
(* Plane vectors and scalar helpers, in real arithmetic (doubles).         *)
(***************************************************************************)
EXTENDS Float64, Integers, Sequences

DAdd(p, q) == <<p[1] ++ q[1], p[2] ++ q[2]>>
DSub(p, q) == <<p[1] -- q[1], p[2] -- q[2]>>
DScl(p, k) == <<p[1] ** k, p[2] ** k>>
DDot(p, q) == (p[1] ** q[1]) ++ (p[2] ** q[2])
DCross(p, q) == (p[1] ** q[2]) -- (p[2] ** q[1])
DLen(p) == FSqrt(DDot(p, p))
DPolar(angle, len) == <<FCos(angle) ** len, FSin(angle) ** len>>
DTurn(p, angle) == <<(p[1] ** FCos(angle)) -- (p[2] ** FSin(angle)), (p[1] ** FSin(angle)) ++ (p[2] ** FCos(angle))>>
(* Vectors too short to have a direction stay as they are.                 *)
DUnit(p) == IF DDot(p, p) \prec D("0.00001") THEN p ELSE DScl(p, One // DLen(p))
DMid(p, q) == DScl(DAdd(p, q), Half)
DLerp(p, q, t) == <<Lerp(p[1], q[1], t), Lerp(p[2], q[2], t)>>
(* Cosine of the angle at o between the directions of p and q.             *)
CosAt(o, p, q) == DDot(DSub(p, o), DSub(q, o)) // (DLen(DSub(p, o)) ** DLen(DSub(q, o)))
Doubled(p, q, r) == FAbs(DCross(DSub(q, p), DSub(r, p)))   \* twice the area of the triangle

IMin(a, b) == IF a < b THEN a ELSE b
IMax(a, b) == IF a > b THEN a ELSE b
=============================================================================
