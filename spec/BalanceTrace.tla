---------------------------- MODULE BalanceTrace ----------------------------
EXTENDS Balance, TLC, Json, IOUtils
VARIABLES tr, i
Traces == ndJsonDeserialize(IOEnv.TRACES)
Ev == Traces[tr].ev
TInit == tr \in 1..Len(Traces) /\ i = 1 /\ BInit(Traces[tr].n)
TNext == /\ i <= Len(Ev) /\ Do(Ev[i]) /\ i' = i + 1 /\ tr' = tr
         /\ (i' > Len(Ev) => PrintT(<<"ACCEPT", tr>>))
         /\ (Len(Traces) = 1 => PrintT(<<"AT", i>>))
TSpec == TInit /\ [][TNext]_<<tr, i, reg>>
TView == <<tr, i>>
=============================================================================
