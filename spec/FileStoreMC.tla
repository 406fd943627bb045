---------------------------- MODULE FileStoreMC ----------------------------
EXTENDS FileStore
MCPlace == <<0, 0, 1>>
MCDatas == {<<>>, <<<<97, 2>>>>, <<<<97, 1>>, <<10, 1>>>>, <<<<10, 2>>, <<97, 1>>, <<10, 1>>, <<0, 1>>>>}
=============================================================================
