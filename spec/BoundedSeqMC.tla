---------------------------- MODULE BoundedSeqMC ----------------------------
EXTENDS BoundedSeq
McCaps == <<2, 3>>
McCapsT == <<2, 2, 3>>
=============================================================================
