--------------------------- MODULE MultiverseGen ---------------------------
(* The design of the multiverse, as its code keeps it: the variants with their children and a weak     *)
(* reference to the key of their parent, the sets of tips and roots, the keys by block number, and a   *)
(* store. A weak reference can be followed as long as somebody holds the key: the multiverse itself,   *)
(* or a user it was handed out to. Checked: what a user sees (Multiverse.tla), and that no assertion   *)
(* of the code fails. Also generates one history for every transition.                                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS TreeId, MaxVer, MaxLoad, Holds, Variant, Emit
Trees == <<
  \* two forks of one root, of equal length
  <<[p |-> 0, n |-> 0], [p |-> 1, n |-> 1], [p |-> 1, n |-> 1], [p |-> 2, n |-> 2], [p |-> 3, n |-> 2]>>,
  \* a chain with a gap, and a second root
  <<[p |-> 0, n |-> 1], [p |-> 1, n |-> 3], [p |-> 2, n |-> 4], [p |-> 0, n |-> 3], [p |-> 4, n |-> 5]>>,
  \* a bush
  <<[p |-> 0, n |-> 0], [p |-> 1, n |-> 1], [p |-> 1, n |-> 1], [p |-> 1, n |-> 1], [p |-> 2, n |-> 2]>>,
  \* a chain
  <<[p |-> 0, n |-> 0], [p |-> 1, n |-> 1], [p |-> 2, n |-> 2], [p |-> 3, n |-> 3]>> >>
Tree == Trees[TreeId]
B == 1..Len(Tree)
Par(b) == Tree[b].p
Num(b) == Tree[b].n
VARIABLES all,    \* variant -> version of its key while present, 0 when absent
          ver,    \* variant -> version of the key last made for it
          up,     \* variant -> version of the parent's key it refers to, 0 when none
          kids, tips, roots,
          held,   \* set of <<variant, version>> a user holds
          db, from, loads, bad, hist
vars == <<all, ver, up, kids, tips, roots, held, db, from, loads, bad, hist>>
Zero == [b \in B |-> 0]
None == [b \in B |-> {}]
GInit == /\ all = Zero /\ ver = Zero /\ up = Zero /\ kids = None /\ tips = {} /\ roots = {} /\ held = {} /\ db = {}
         /\ from \in {0, 2} /\ (MaxLoad = 0 => from = 0) /\ loads = 0 /\ bad = "no" /\ hist = <<[op |-> "from", b |-> from]>>
Rec(o, b) == hist' = Append(hist, [op |-> o, b |-> b]) /\ (Emit => PrintT(<<"HIST", ToJson(hist')>>))
Pres == {b \in B : all[b] # 0}
\* following the weak reference of b
Alive(b) == up[b] # 0 /\ (all[Par(b)] = up[b] \/ <<Par(b), up[b]>> \in held)

Ins(b) ==
  /\ ver[b] < MaxVer
  /\ all[b] = 0 /\ \A c \in Pres : Par(c) # b
  /\ LET v == ver[b] + 1 p == Par(b) has == p # 0 /\ all[p] # 0 IN
     /\ ver' = [ver EXCEPT ![b] = v] /\ all' = [all EXCEPT ![b] = v]
     /\ up' = [up EXCEPT ![b] = IF has THEN all[p] ELSE 0]
     /\ kids' = [x \in B |-> IF x = b THEN {} ELSE IF has /\ x = p THEN kids[x] \cup {b} ELSE kids[x]]
     /\ tips' = (tips \cup {b}) \ (IF has /\ Variant # "tip_stays" THEN {p} ELSE {})
     /\ roots' = IF has THEN roots ELSE roots \cup {b}
     /\ bad' = IF ~has /\ b \in roots THEN "assert: root" ELSE bad
     /\ db' = IF Num(b) >= from THEN db \cup {b} ELSE db
  /\ UNCHANGED <<held, from, loads>> /\ Rec("insert", b)

Rem(b) ==
  /\ all[b] # 0
  /\ LET p == Par(b)
         linked == p # 0 /\ Alive(b) /\ all[p] # 0
         orphans == IF b \in roots THEN kids[b] ELSE {} IN
     /\ all' = [all EXCEPT ![b] = 0]
     \* the children no longer refer to it
     /\ up' = [c \in B |-> IF c = b \/ (Variant # "weak" /\ c \in kids[b]) THEN 0 ELSE up[c]]
     /\ kids' = [x \in B |-> IF x = b THEN {} ELSE IF linked /\ x = p THEN kids[x] \ {b} ELSE kids[x]]
     /\ roots' = (roots \ {b}) \cup orphans
     /\ tips' = ((IF linked /\ kids[p] \subseteq {b} THEN tips \cup {p} ELSE tips) \ {b})
     /\ bad' = IF orphans \cap roots # {} THEN "assert: orphan"
               ELSE IF linked /\ b \notin kids[p] THEN "assert: child"
               ELSE IF linked /\ kids[p] \subseteq {b} /\ p \in tips THEN "assert: tip" ELSE bad
     /\ db' = IF Variant = "stays_in_db" THEN db ELSE db \ {b}
  /\ UNCHANGED <<ver, held, from, loads>> /\ Rec("remove", b)

Hold(b) == /\ Holds /\ all[b] # 0 /\ <<b, all[b]>> \notin held /\ Cardinality(held) < 2
           /\ held' = held \cup {<<b, all[b]>>} /\ UNCHANGED <<all, ver, up, kids, tips, roots, db, from, loads, bad>> /\ Rec("hold", b)
Release == /\ held # {} /\ held' = {} /\ UNCHANGED <<all, ver, up, kids, tips, roots, db, from, loads, bad>> /\ Rec("release", 0)
Reload ==
  /\ loads < MaxLoad /\ loads' = loads + 1
  /\ ver' = [b \in B |-> ver[b] + 1] /\ all' = [b \in B |-> IF b \in db THEN ver[b] + 1 ELSE 0]
  /\ up' = [b \in B |-> IF b \in db /\ Par(b) \in db THEN ver[Par(b)] + 1 ELSE 0]
  /\ kids' = [b \in B |-> {c \in db : b \in db /\ Par(c) = b}]
  /\ tips' = {b \in db : ~\E c \in db : Par(c) = b}
  /\ roots' = {b \in db : Par(b) \notin db}
  /\ UNCHANGED <<held, db, from, bad>> /\ Rec("reload", 0)
Clear == /\ loads < MaxLoad /\ Pres # {} /\ loads' = loads + 1
         /\ all' = Zero /\ up' = Zero /\ kids' = None /\ tips' = {} /\ roots' = {} /\ db' = {}
         /\ UNCHANGED <<ver, held, from, bad>> /\ Rec("clear", 0)
GNext == \/ \E b \in B : Ins(b) \/ Rem(b) \/ Hold(b)
         \/ Release \/ Reload \/ Clear
GSpec == GInit /\ [][GNext]_vars
GView == <<Pres, {b \in B : Alive(b)}, {b \in B : ver[b] = MaxVer}, tips, roots, held, db, from, loads, bad>>
----------------------------------------------------------------------------
NoAssert == bad = "no"
Children(b) == {c \in Pres : Par(c) = b}
TipsOk == tips = {b \in Pres : Children(b) = {}}
KidsOk == \A b \in Pres : kids[b] = Children(b)
\* walking up by the weak references is walking up the present variants
RECURSIVE WalkW(_, _), WalkP(_, _)
WalkW(b, d) == IF d = 0 THEN b ELSE IF all[b] = 0 THEN -1 ELSE IF ~Alive(b) THEN 0 ELSE WalkW(Par(b), d - 1)
WalkP(b, d) == IF d = 0 THEN b ELSE IF Par(b) \notin Pres THEN 0 ELSE WalkP(Par(b), d - 1)
WalkOk == \A b \in Pres : \A d \in 0..4 : WalkW(b, d) = WalkP(b, d)
DbOk == db = {b \in Pres : Num(b) >= from}
RootsOk == roots \subseteq {b \in Pres : Par(b) \notin Pres}
=============================================================================
