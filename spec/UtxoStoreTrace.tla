---------------------------- MODULE UtxoStoreTrace ----------------------------
EXTENDS UtxoStore, TLC, Json, IOUtils
VARIABLES tr, i
Traces == ndJsonDeserialize(IOEnv.TRACES)
Ev == Traces[tr].ev
TInit == tr \in 1..Len(Traces) /\ i = 1 /\ SInit(Traces[tr].utxos)
TNext == /\ i <= Len(Ev) /\ Do(Ev[i], Traces[tr].judge, i) /\ i' = i + 1 /\ tr' = tr
         /\ (i' > Len(Ev) => PrintT(<<"ACCEPT", tr>>))
         /\ (Len(Traces) = 1 => PrintT(<<"AT", i>>))
TSpec == TInit /\ [][TNext]_<<tr, i, svars>>
TView == <<tr, i>>
=============================================================================
