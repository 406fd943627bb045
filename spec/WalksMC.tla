------------------------------ MODULE WalksMC ------------------------------
EXTENDS Walks
MCTrees == {<<>>, <<0>>, <<0, 0>>, <<0, 1>>, <<0, 1, 2>>, <<0, 1, 1, 0>>, <<0, 1, 2, 1, 0>>}
=============================================================================
