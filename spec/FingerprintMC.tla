--------------------------- MODULE FingerprintMC ---------------------------
(* The hash against an independent implementation: the vectors of the standard, of the RFC, and random *)
(* ones of every length over the block boundaries.                                                     *)
EXTENDS Fingerprint, TLC, Json, IOUtils
CONSTANT Design
Vectors == ndJsonDeserialize(IOEnv.TRACES)
VARIABLE v
Init == v \in 1..Len(Vectors)
Next == UNCHANGED v
Spec == Init /\ [][Next]_v
Data(x) == IF Design = "name first" THEN x.b \o x.a ELSE x.a \o x.b
Agrees == Hash(Data(Vectors[v]), Len(Vectors[v].hash)) = Vectors[v].hash
=============================================================================
