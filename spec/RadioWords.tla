----------------------------- MODULE RadioWords -----------------------------
(* Pieces of radiograms. *)
SmallCalls == {<<83,65>>, <<98,47,49>>}
SmallWords == {<<65,43>>, <<68,69>>, <<75>>, <<233,61,66>>}
SmallDtgs == {<<48,49,50,51,52,53>>, <<48,49,48,48,48,48,90,68,69,67,50,50>>}
SmallSeps == {<<32>>, <<13,10>>, <<44,32>>}
SmallEnds == {<<>>, <<32,61,32,75>>, <<32,43>>}
AllCalls == {<<83,65>>, <<98,47,49>>, <<65,65>>, <<83,65,54,77,87,65>>, <<99,99,47,112>>, <<55,83,48,88>>, <<75>>, <<65,82>>}
AllWords == {<<72,69,76,76,79>>, <<119,111,114,108,100>>, <<68,69>>, <<75>>, <<43>>, <<65,43>>, <<53,43,53>>, <<233>>, <<120,61,49>>, <<197,115,97>>, <<74,65,78>>, <<91,65,82,93>>, <<98>>, <<81,83,76>>, <<49,50>>, <<49,50,51,52,53,54>>, <<48,49,50,51,52,53,122>>, <<67,79,76>>, <<65,82>>, <<123,124,125>>, <<128512>>, <<83,65,54,77,87,65>>, <<97,44,98>>}
AllDtgs == {<<48,49,50,51,52,53>>, <<51,49,50,51,53,57>>, <<48,49,48,48,48,48,90,68,69,67,50,50>>, <<50,57,48,50,48,51,122,110,111,118>>, <<49,53,49,50,48,48,65>>, <<49,53,49,50,48,48,89,74,65,78,50,55>>, <<48,50,48,51,48,52,109,102,101,98,50,52>>, <<48,49,48,48,48,49,74,77,65,82,48,48>>}
AllSeps == {<<32>>, <<32,32>>, <<13,10>>, <<10>>, <<44,32>>, <<44>>, <<32,44,32,32>>, <<13>>, <<10,10>>, <<32,10,32>>, <<8232>>, <<11>>}
AllEnds == {<<>>, <<32,61,32,75>>, <<32,75>>, <<32,43>>, <<61,75>>, <<32,61,32,65,82>>, <<32,91,65,82,93>>, <<32,61,32,107,10>>, <<32,61,10,43,32>>, <<10,61,32,75>>, <<61,97,114>>, <<32,107,32>>, <<91,97,114,93>>}
=============================================================================
