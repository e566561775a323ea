----------------------------- MODULE RealTables -----------------------------
(* The tables of the published coding legend (README, key sheets).         *)
EXTENDS Integers, Sequences
RealN == 26
\* The letters A to P, space, R to Y, switch table.
RealCT1 == <<65,66,67,68,69,70,71,72,73,74,75,76,77,78,79,80,
             32,82,83,84,85,86,87,88,89,-1>>
\* 0-9 ? - A-ring A-umlaut O-umlaut . Q , Z : + / binary case key switch
RealCT2 == <<48,49,50,51,52,53,54,55,56,57,63,45,197,196,214,46,
             81,44,90,58,43,47,-2,-3,-4,-1>>
\* A toy alphabet for exhaustive checking.
ToyN == 6
ToyCT1 == <<65, 66, 32, 67, 196, -1>>
ToyCT2 == <<49, 63, -2, -3, -4, -1>>
=============================================================================
