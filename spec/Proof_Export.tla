------------------------------ MODULE Proof_Export ------------------------------
(* The file system under any history of exports over any set of paths and of   *)
(* meshes: a path holds the last thing that was put there, and no step touches  *)
(* two paths.                                                                 *)
EXTENDS Export, TLAPS
Types == fs \in [Paths -> Contents] /\ last \in [Paths -> Contents]
Next == FsNext \/ \E p \in Paths, m \in Meshes : ExportShort(p, m)
Inv == Types /\ fs = last
THEOREM First == FsInit => Inv
  BY DEF FsInit, Inv, Types, Contents
THEOREM Inductive == Inv /\ [Next]_fsVars => Inv'
  BY DEF Inv, Next, FsNext, fsVars, Types, Contents, ExportOk, ExportFails, ExportShort, Plant, Delete
THEOREM Holds == Inv => HoldsLast
  BY DEF Inv, HoldsLast
THEOREM Alone == Inv /\ [Next]_fsVars => \A p, q \in Paths : fs'[p] # fs[p] /\ fs'[q] # fs[q] => p = q
  BY DEF Inv, Next, FsNext, fsVars, Types, Contents, ExportOk, ExportFails, ExportShort, Plant, Delete
THEOREM Replaces == Inv => \A p \in Paths, m \in Meshes : ExportOk(p, m) => fs'[p] = m
  BY DEF Inv, Types, ExportOk
=============================================================================
