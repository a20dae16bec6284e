-------------------------------- MODULE Emit --------------------------------
(* Carrying behaviours out of TLC: one line of JSON per emitted value.      *)
EXTENDS TLC, Json, Sequences
Emit(v) == PrintT("@@" \o ToJson(v))
=============================================================================
