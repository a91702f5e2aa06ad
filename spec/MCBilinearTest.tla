--------------------------- MODULE MCBilinearTest ---------------------------
EXTENDS BilinearTest
FirstOne == { <<1, 0>> }
FirstAll == Vals \X Vals
=============================================================================
