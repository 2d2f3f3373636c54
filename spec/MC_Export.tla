----------------------------- MODULE MC_Export -----------------------------
(* All short histories of exports, plants and deletions over a few paths;    *)
(* each is printed and replayed into the real exporter.                      *)
EXTENDS Export, TLC, Json
CONSTANTS Depth, Emit
VARIABLE hist
P == {"a", "b", "bad"}
W(p) == p # "bad"
Ms == {"m1", "m2"}
Ev(act, p, m) == [act |-> act, path |-> p, mesh |-> m]
Init == FsInit /\ hist = <<>>
Next == /\ Len(hist) < Depth
        /\ \E p \in Paths :
             \/ \E m \in Meshes : (ExportOk(p, m) \/ ExportFails(p, m)) /\ hist' = Append(hist, Ev("export", p, m))
             \/ \E m \in Meshes : (ExportOk(p, m) \/ ExportShort(p, m)) /\ hist' = Append(hist, Ev("short", p, m))
             \/ Plant(p) /\ hist' = Append(hist, Ev("plant", p, ""))
             \/ Delete(p) /\ fs[p] # "none" /\ hist' = Append(hist, Ev("delete", p, ""))
\* the content of a path follows from the history alone: its last event
Follows == \A p \in Paths : Writable(p) =>
  LET at == {i \in 1..Len(hist) : hist[i].path = p}
  IN IF at = {} THEN fs[p] = "none"
     ELSE LET e == hist[CHOOSE i \in at : \A j \in at : j <= i]
          IN e.act = "short" \/ fs[p] = (IF e.act = "export" THEN e.mesh ELSE IF e.act = "plant" THEN "other" ELSE "none")
Output == (Emit /\ Len(hist) = Depth) => PrintT("OUT|" \o ToJson([hist |-> hist]))
Spec == Init /\ [][Next]_<<fs, last, hist>>
=============================================================================
