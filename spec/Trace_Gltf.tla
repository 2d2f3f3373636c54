----------------------------- MODULE Trace_Gltf -----------------------------
(* Exported files against the meshes they were made from (X01).              *)
EXTENDS TraceLoop, Gltf
WhyFile(r) ==
  IF r.status # "ok" THEN {r.status}
  ELSE IF r.failed THEN {"export failed"}
  ELSE WhyNotMesh(r.file, r.mesh) \cup Need("the mesh was changed", r.same)
=============================================================================
