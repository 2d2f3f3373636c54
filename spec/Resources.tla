----------------------------- MODULE Resources -----------------------------
(***************************************************************************)
(* What a process holds of the system's while calls take and give back.     *)
(* A holding tells                                                          *)
(*   open    what its open files are, a sequence in order of names           *)
(*   runs    how many goroutines there are                                   *)
(*   cwd, env, around   its directory, its environment, the files around it  *)
(* A library may keep a fixed amount for itself from its first call on, but  *)
(* what it holds must not depend on how many calls were made; and it has no  *)
(* business with the directory, the environment and files not named to it.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
Gives(before, after) ==
  (IF after.open = before.open THEN {} ELSE {"keeps a file open"})
  \cup (IF after.runs <= before.runs THEN {} ELSE {"leaves a goroutine running"})
Minds(start, after) ==
  (IF after.cwd = start.cwd THEN {} ELSE {"changes the working directory"})
  \cup (IF after.env = start.env THEN {} ELSE {"changes the environment"})
  \cup (IF after.around = start.around THEN {} ELSE {"leaves files behind or takes some away"})
=============================================================================
