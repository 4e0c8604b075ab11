-------------------------------- MODULE Emit --------------------------------
(* How a specification talks to the conformance harness.                     *)
(*   Scenarios   the scenarios / recorded traces of this run (one JSON       *)
(*               document per line)                                          *)
(*   Emit        writes one JSON document                                    *)
(*   EmitLine    appends one short JSON document as a line                   *)
(* All three only read the environment or write; none influences a state.    *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils, CSV

OutDir == IOEnv.OUT
Scenarios == ndJsonDeserialize(IOEnv.IN)
Emit(name, rec) == JsonSerialize(OutDir \o "/" \o name \o ".json", rec)
EmitLine(name, rec) ==
    CSVWrite("%1$s", <<ToJson(rec)>>, OutDir \o "/" \o name \o ".ndjson")
=============================================================================
