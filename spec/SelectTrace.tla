----------------------------- MODULE SelectTrace -----------------------------
EXTENDS Select, TLC, Json, IOUtils
VARIABLES tr, i
Traces == ndJsonDeserialize(IOEnv.TRACES)
T == Traces[tr]
Ev == T.ev
TInit == tr \in 1..Len(Traces) /\ i = 1 /\ ut = T.ut /\ nt = T.nt /\ est = T.est /\ avail = ToSet(T.pool)
TNext == /\ i <= Len(Ev) /\ Judge(T.judge, Ev[i]) = TRUE
         /\ avail' = After(Ev[i]) /\ i' = i + 1 /\ UNCHANGED <<tr, ut, nt, est>>
         /\ (i' > Len(Ev) => PrintT(<<"ACCEPT", tr>>))
         /\ (Len(Traces) = 1 => PrintT(<<"AT", i>>))
TSpec == TInit /\ [][TNext]_<<tr, i, ut, nt, est, avail>>
TView == <<tr, i>>
=============================================================================
