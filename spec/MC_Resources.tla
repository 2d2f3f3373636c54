---------------------------- MODULE MC_Resources ----------------------------
(***************************************************************************)
(* A call opens a file, starts a goroutine that reads items from it and      *)
(* hands them over through a channel of some room, and takes Items of them;  *)
(* opening, reading and working on an item may fail, which ends the call.    *)
(* Ways to give back what was taken:                                         *)
(*   deferred   whichever way the call ends, it closes the file and tells    *)
(*              the goroutine to stop                                        *)
(*   inline     no goroutine: the call reads the items itself, and closes    *)
(*              the file whichever way it ends                               *)
(*   last       the file is closed after the last item only                  *)
(*   untold     the goroutine is not told to stop: it ends when it has       *)
(*              handed over everything                                       *)
(*   kept       the file is kept open for the next call                      *)
(***************************************************************************)
EXTENDS Resources, TLC
CONSTANTS Way, Items, Room, Rounds
Threaded == Way \in {"deferred", "untold", "last"}
VARIABLES pc, open, runs, chan, read, taken, told, done, todo
vars == <<pc, open, runs, chan, read, taken, told, done, todo>>
Init == /\ pc = "idle" /\ open = 0 /\ runs = 0 /\ chan = 0 /\ read = 0 /\ taken = 0
        /\ told = FALSE /\ done = FALSE /\ todo = Rounds
Start == /\ pc = "idle" /\ todo > 0 /\ todo' = todo - 1
         /\ \/ pc' = "idle" /\ UNCHANGED <<open, runs, chan, read, taken, told, done>>          \* cannot be opened
            \/ /\ pc' = "take" /\ open' = open + 1 /\ runs' = runs + (IF Threaded THEN 1 ELSE 0)
               /\ chan' = 0 /\ read' = 0 /\ taken' = 0 /\ told' = FALSE /\ done' = ~Threaded
\* the goroutine of the call in progress; one left over by an earlier call stays in `runs`
Read == /\ Threaded /\ ~done /\ pc # "idle" /\ read < Items /\ chan < Room
        /\ read' = read + 1 /\ chan' = chan + 1
        /\ UNCHANGED <<pc, open, runs, taken, told, done, todo>>
Stops == /\ Threaded /\ ~done /\ pc # "idle" /\ (read = Items \/ told)
         /\ done' = TRUE /\ runs' = runs - 1
         /\ UNCHANGED <<pc, open, chan, read, taken, told, todo>>
Take == /\ pc = "take" /\ taken < Items /\ (Threaded => chan > 0)
        /\ taken' = taken + 1 /\ chan' = IF Threaded THEN chan - 1 ELSE chan
        /\ pc' \in {"take", "fail"}
        /\ UNCHANGED <<open, runs, read, told, done, todo>>
Ready == pc = "fail" \/ (pc = "take" /\ taken = Items)
Tell == /\ Ready /\ Way = "deferred" /\ ~told /\ told' = TRUE
        /\ UNCHANGED <<pc, open, runs, chan, read, taken, done, todo>>
Return == /\ Ready
          /\ CASE Way = "deferred" -> told /\ done
               [] Way \in {"untold", "last"} -> pc = "take" => done
               [] OTHER -> TRUE
          /\ open' = CASE Way \in {"deferred", "inline", "untold"} -> open - 1
                       [] Way = "last" -> IF pc = "fail" THEN open ELSE open - 1
                       [] OTHER -> open
          /\ pc' = "idle"
          /\ UNCHANGED <<runs, chan, read, taken, told, done, todo>>
Next == Start \/ Read \/ Stops \/ Take \/ Tell \/ Return
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Holding == [open |-> [i \in 1..open |-> "f"], runs |-> runs]
Clean == pc = "idle" => Gives([open |-> <<>>, runs |-> 0], Holding) = {}
Ends == <>(pc = "idle" /\ todo = 0)
=============================================================================
