-------------------------------- MODULE RaMC --------------------------------
EXTENDS Ra
C == {<<>>, <<1>>, <<2, 3>>, <<0>>}
=============================================================================
