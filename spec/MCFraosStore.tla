---------------------------- MODULE MCFraosStore ----------------------------
EXTENDS FraosStore
B1 == {<<1>>, <<3>>, <<2, 3>>, <<1, 1, 1>>, <<5>>}
B2 == {<<1>>, <<4>>, <<1, 1>>}
B3 == {<<2>>, <<1, 1>>}
\* the files and the maps without the identity of the histories that led there
=============================================================================
