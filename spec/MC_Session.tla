----------------------------- MODULE MC_Session -----------------------------
(* Explores sessions of a few threads and writes the complete histories, which *)
(* are replayed into the library.                                              *)
EXTENDS Session, Json, IOUtils, TLC, TLCExt
\* the texts differ, one has the length of the other and one of them is longer
T2 == {<<"x", "y">>, <<"y", "y">>}
TwoOne == <<2, 1>>
OneOneOne == <<1, 1, 1>>
TwoTwo == <<2, 2>>
Three == <<3>>
ASSUME TLCSet(1, <<>>)
Collect == Complete => TLCSet(1, Append(TLCGet(1), h))
Write == JsonSerialize(IOEnv.OUT, TLCGet(1))
\* the same states without their histories
NoHistory == <<buf, want, at, fn, pos, acc, half, miss, left, lib, bad>>
=============================================================================
