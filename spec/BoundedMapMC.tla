---------------------------- MODULE BoundedMapMC ----------------------------
EXTENDS BoundedMap
McCaps == <<2, 3>>
McSg == <<1, -1>>
McCapsT == <<2, 2, 3>>
McSgT == <<1, 1, -1>>
=============================================================================
