-------------------------- MODULE FingerprintTrace --------------------------
EXTENDS Fingerprint, TLC, Json, IOUtils
VARIABLES tr, i
Traces == ndJsonDeserialize(IOEnv.TRACES)
T == Traces[tr]
Ev == T.ev
\* asked again, the same answer
Judge(e) == e.ok = (IF PrintOf(e.policy, e.name) # <<>> THEN "yes" ELSE "no") /\ e.print = PrintOf(e.policy, e.name)
TInit == tr \in 1..Len(Traces) /\ i = 1
TNext == /\ i <= Len(Ev) /\ Judge(Ev[i]) = TRUE
         /\ i' = i + 1 /\ tr' = tr
         /\ (i' > Len(Ev) => PrintT(<<"ACCEPT", tr>>))
         /\ (Len(Traces) = 1 => PrintT(<<"AT", i>>))
TSpec == TInit /\ [][TNext]_<<tr, i>>
=============================================================================
