----------------------------- MODULE MCGeoTest -----------------------------
EXTENDS GeoTest
NoVec == {}
FixOne == { <<1, 0, 0>>, <<0, 0, 0>> }
FixAll == Vals \X Vals \X Vals
=============================================================================
