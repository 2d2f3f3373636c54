---------------------------- MODULE Trace_Export ----------------------------
(***************************************************************************)
(* Recorded histories of exports (X02).  After each step the driver read    *)
(* every file there was; contents[k] is one distinct file content, which    *)
(* WhyNotMesh tells to be an export of one of the meshes or not.  A history *)
(* is accepted when every step is an action of Export with that outcome.    *)
(***************************************************************************)
EXTENDS Export, Gltf, TLC, TraceIO
VARIABLES rec, l, names
R == Recs[rec]
\* which of the destinations can be written is told with the record
TGood == TLCEval(UNION {{Recs[i].good[j] : j \in 1..Len(Recs[i].good)} : i \in 1..Len(Recs)})
TBad  == TLCEval(UNION {{Recs[i].bad[j] : j \in 1..Len(Recs[i].bad)} : i \in 1..Len(Recs)})
TPaths == TGood \cup TBad
TWritable(p) == p \in TGood
MeshName(i) == "m" \o ToString(i)
TMeshes == {MeshName(i) : i \in 1..40}
\* abstraction of content number k of record r
Name(r, k) == LET c == Recs[r].contents[k]
                  ms == {i \in 1..Len(Recs[r].meshes) : WhyNotMesh(c, Recs[r].meshes[i]) = {}}
              IN IF ms = {} THEN "other" ELSE MeshName(CHOOSE i \in ms : \A j \in ms : i <= j)
Init == /\ rec \in 1..Len(Recs) /\ l = 0
        /\ names = TLCEval([k \in 1..Len(Recs[rec].contents) |-> Name(rec, k)])
        /\ FsInit
Observed(s) == [p \in Paths |-> LET k == {i \in 1..Len(s.files) : s.files[i][1] = p}
                                IN IF k = {} THEN "none" ELSE names[s.files[CHOOSE i \in k : TRUE][2]]]
Step == /\ l < Len(R.steps)
        /\ LET s == R.steps[l+1]
           IN /\ s.same                                                      \* no mesh was changed
              /\ \A i \in 1..Len(s.files) : s.files[i][1] \in Paths          \* no other file appears
              /\ \/ s.act = "export" /\ s.failed /\ s.short /\ ExportShort(s.path, MeshName(s.mesh))
                 \/ s.act = "export" /\ ~s.failed /\ ExportOk(s.path, MeshName(s.mesh))
                 \/ s.act = "export" /\ s.failed /\ ExportFails(s.path, MeshName(s.mesh))
                 \/ s.act = "plant" /\ Plant(s.path)
                 \/ s.act = "delete" /\ Delete(s.path)
              /\ fs' = Observed(s)
              /\ l' = l + 1 /\ UNCHANGED <<rec, names>>
Spec == Init /\ [][Step]_<<fs, last, rec, l, names>>
\* exporting the same mesh again gives the same bytes
SameBytes == \A i, j \in 1..Len(names) : (names[i] = names[j] /\ names[i] # "other") => i = j
Explained == (R.status = "ok" /\ l = Len(R.steps) /\ SameBytes) => PrintT("ACCEPT|" \o ToString(R.id))
=============================================================================
