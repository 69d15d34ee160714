--------------------------- MODULE LedgerFormTrace ---------------------------
EXTENDS LedgerForm, TLC, Json, IOUtils
VARIABLES tr, i
Traces == ndJsonDeserialize(IOEnv.TRACES)
Ev == Traces[tr].ev
TInit == tr \in 1..Len(Traces) /\ i = 1
TNext == /\ i <= Len(Ev) /\ JudgeForm(Ev[i]) = TRUE /\ i' = i + 1 /\ UNCHANGED tr
         /\ (i' > Len(Ev) => PrintT(<<"ACCEPT", tr>>))
         /\ (Len(Traces) = 1 => PrintT(<<"AT", i>>))
TSpec == TInit /\ [][TNext]_<<tr, i>>
TView == <<tr, i>>
=============================================================================
