----------------------------- MODULE MultiTask -----------------------------
(* Processing the elements of a collection by several tasks.                 *)
(*                                                                           *)
(* A run is a tree of workers: the caller (0) and the tasks that are started *)
(* by it or, for nested collections, by one another.  The guards say what a  *)
(* correct run may do, whatever the division of the elements over the tasks: *)
(* every element is processed once, by a worker that runs, and no worker     *)
(* ends (or returns) before the tasks that it started.                       *)
(*                                                                           *)
(* The model below lets a caller start, feed and join tasks in every         *)
(* division and order and with any set of failing elements, and TLC checks   *)
(* that the outcome is that of doing it sequentially.  Its behaviours are    *)
(* exported as schedules that are replayed with the real code (by a task     *)
(* type that is controlled by them); the recorded histories of these and of  *)
(* other runs are folded over the same guards by Trace (HistOk).             *)
EXTENDS TaskRuns, TLC, Json

-----------------------------------------------------------------------------
CONSTANTS N,        \* elements
          T,        \* tasks
          Export    \* print the schedules?
VARIABLES run,      \* as above
          owner,    \* element -> task
          bad,      \* the failing elements
          slot,     \* element -> its result, 0 as long as there is none
          result,   \* of the whole
          sched     \* who moved
vars == <<run, owner, bad, slot, result, sched>>

Init == /\ run = EmptyRun
        /\ owner \in [1..N -> 1..T]
        /\ bad \in SUBSET (1..N)
        /\ (Export => bad = {} /\ \A i \in 1..(N - 1) : owner[i] <= owner[i + 1])
        /\ slot = [i \in 1..N |-> 0]
        /\ result = <<>>
        /\ sched = <<>>
Do(ev, who) == /\ Allowed(run, ev)
               /\ run' = Effect(run, ev)
               /\ sched' = IF Export THEN Append(sched, who) ELSE sched
               /\ UNCHANGED <<owner, bad>>
Start == /\ Len(run.parent) < T
         /\ Do(<<"start", 0, Len(run.parent) + 1>>, 0)
         /\ UNCHANGED <<slot, result>>
Mine(t) == {i \in 1..N : owner[i] = t /\ i \notin run.done}
Elem(t) == /\ Mine(t) # {}
           /\ LET i == CHOOSE x \in Mine(t) : \A y \in Mine(t) : x <= y IN
              /\ Do(<<"elem", t, i>>, t)
              /\ slot' = [slot EXCEPT ![i] = IF i \in bad THEN N + i ELSE i]
           /\ UNCHANGED result
End(t) == /\ Mine(t) = {}
          /\ Do(<<"end", t>>, t)
          /\ UNCHANGED <<slot, result>>
(* What the caller makes of the slots once all tasks are joined.             *)
Collect(s) == IF \E i \in 1..N : s[i] > N
              THEN <<"failed", CHOOSE i \in 1..N : s[i] > N /\ \A j \in 1..(i - 1) : s[j] <= N>>
              ELSE <<"ok", s>>
Return == /\ Len(run.parent) = T
          /\ Do(<<"return">>, 0)
          /\ result' = Collect(slot)
          /\ UNCHANGED slot
          /\ (Export => PrintT(ToJson(<<"JWSCHED", N, T, sched'>>)))
Next == Start \/ Return \/ \E t \in 1..T : Elem(t) \/ End(t)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(* What sequential processing yields.                                        *)
Sequential == IF bad # {} THEN <<"failed", CHOOSE i \in bad : \A j \in bad : i <= j>>
              ELSE <<"ok", [i \in 1..N |-> i]>>
AsSequential == run.over => result = Sequential
ExactlyOnce == run.over => run.done = 1..N
NothingLeft == run.over => run.ended = 1..T
Terminates == <>run.over
=============================================================================
