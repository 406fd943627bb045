------------------------------ MODULE CachesMC ------------------------------
EXTENDS Caches
MCKeys == {<<>>, <<1>>, <<1, 2>>, <<2>>}
MCTimes == {<<49, 90>>, <<50, 90>>, <<50, 46, 48, 90>>, <<50, 46, 49, 90>>, <<50, 46, 49, 50, 90>>}
MCPrefixes == {<<>>, <<1>>, <<1, 2>>, <<3>>}
=============================================================================
