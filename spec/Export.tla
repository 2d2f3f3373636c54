------------------------------- MODULE Export -------------------------------
(***************************************************************************)
(* The file system as exports see it.  fs maps each path to its content:    *)
(* "none", "other" (something that is no export), or the name of the mesh   *)
(* whose export it holds.                                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Paths, Writable(_), Meshes
VARIABLES fs, last        \* last[p]: what the property says p must hold
fsVars == <<fs, last>>

Contents == Meshes \cup {"none", "other"}
FsInit == fs = [p \in Paths |-> "none"] /\ last = [p \in Paths |-> "none"]

\* a successful export replaces the whole content of one path
ExportOk(p, m) == /\ Writable(p)
                  /\ fs' = [fs EXCEPT ![p] = m]
                  /\ last' = [last EXCEPT ![p] = m]
\* a failed one leaves every other path alone; nothing is promised about p
ExportFails(p, m) == /\ ~Writable(p)
                     /\ \E c \in {fs[p], "none", "other"} : fs' = [fs EXCEPT ![p] = c] /\ last' = [last EXCEPT ![p] = c]
\* one that finds no room for all of the file fails, whatever is in the file
\* then; where there is room for it, it succeeds
ExportShort(p, m) == /\ Writable(p)
                     /\ \E c \in Contents : fs' = [fs EXCEPT ![p] = c] /\ last' = [last EXCEPT ![p] = c]
\* the rest of the world
Plant(p)  == Writable(p) /\ fs' = [fs EXCEPT ![p] = "other"] /\ last' = [last EXCEPT ![p] = "other"]
Delete(p) == Writable(p) /\ fs' = [fs EXCEPT ![p] = "none"] /\ last' = [last EXCEPT ![p] = "none"]
FsNext == \E p \in Paths : Plant(p) \/ Delete(p) \/ \E m \in Meshes : ExportOk(p, m) \/ ExportFails(p, m)

HoldsLast == \A p \in Paths : Writable(p) => fs[p] = last[p]
OnePath == [][Cardinality({p \in Paths : fs'[p] # fs[p]}) <= 1]_fsVars
=============================================================================
