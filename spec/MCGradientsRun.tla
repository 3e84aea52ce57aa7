--------------------------- MODULE MCGradientsRun ---------------------------
EXTENDS MCGradients
GV == {-1, 2}
GK == {<<"lin">>, <<"sq">>, <<"gate">>, <<"lin", "sq">>, <<"sq", "lin">>, <<"sq", "sq">>, <<"lin", "gate">>, <<"gate", "sq">>, <<"sq", "gate", "lin">>, <<"sq", "sq", "gate">>}
=============================================================================
