------------------------------- MODULE Calls -------------------------------
(* Calls that run at the same time, and what they share.                     *)
(*                                                                           *)
(* What calls share is a cache of looked up functions per fork.  A call looks*)
(* up what is registered for its fork again and again, between which user    *)
(* code runs; a look-up that finds nothing in the cache computes it and only *)
(* later stores it.  The end of a call empties the caches, one after another,*)
(* and so does a registration after it has changed its registry.  In every   *)
(* interleaving a call on a fork that is not registered on sees nothing but  *)
(* what was registered before, and what is left in the caches in the end is  *)
(* what is registered.                                                       *)
(* The behaviours are exported as schedules for the real code: who moves at  *)
(* the points where user code runs.                                          *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS On,       \* the fork that every call uses, e.g. <<1, 1, 2>>
          Regs,     \* the forks on which registrations are made meanwhile
          Lookups,  \* per call
          Export
OnA == <<1, 1, 2>>
RegsA == <<3, 3>>
OnB == <<1, 1, 2, 3>>
RegsB == <<3>>
OnC == <<1, 1>>
RegsC == <<2>>
OnD == <<1, 2>>
RegsD == <<>>
OnE == <<1, 2, 1>>
Calls == 1..Len(On)
Forks == {On[t] : t \in Calls} \cup {Regs[r] : r \in 1..Len(Regs)}
Threads == 1..(Len(On) + Len(Regs))
ForkOf(t) == IF t \in Calls THEN On[t] ELSE Regs[t - Len(On)]
VARIABLES reg,    \* fork -> the version of what is registered
          cache,  \* fork -> the version that is in the cache, 0 if none
          pc, left, tmp, used, toclear, sched
vars == <<reg, cache, pc, left, tmp, used, toclear, sched>>

Init == /\ reg = [f \in Forks |-> 1]
        /\ cache = [f \in Forks |-> 0]
        /\ pc = [t \in Threads |-> IF t \in Calls THEN "look" ELSE "write"]
        /\ left = [t \in Threads |-> Lookups]
        /\ tmp = [t \in Threads |-> 0]
        /\ used = [t \in Threads |-> {}]
        /\ toclear = [t \in Threads |-> Forks]
        /\ sched = <<>>
Moved(t) == sched' = IF Export THEN Append(sched, t) ELSE sched
Got(t, v) == /\ used' = [used EXCEPT ![t] = @ \cup {v}]
             /\ left' = [left EXCEPT ![t] = @ - 1]
             /\ pc' = [pc EXCEPT ![t] = IF left[t] = 1 THEN "clear" ELSE "look"]
Look(t) == /\ pc[t] = "look"
           /\ Moved(t)
           /\ IF cache[On[t]] # 0
              THEN Got(t, cache[On[t]]) /\ UNCHANGED tmp
              ELSE /\ tmp' = [tmp EXCEPT ![t] = reg[On[t]]]
                   /\ pc' = [pc EXCEPT ![t] = "store"]
                   /\ UNCHANGED <<used, left>>
           /\ UNCHANGED <<reg, cache, toclear>>
Store(t) == /\ pc[t] = "store"
            /\ Moved(t)
            /\ cache' = [cache EXCEPT ![On[t]] = tmp[t]]
            /\ Got(t, tmp[t])
            /\ UNCHANGED <<reg, tmp, toclear>>
Write(t) == /\ pc[t] = "write"
            /\ Moved(t)
            /\ reg' = [reg EXCEPT ![ForkOf(t)] = @ + 1]
            /\ pc' = [pc EXCEPT ![t] = "clear"]
            /\ UNCHANGED <<cache, left, tmp, used, toclear>>
Clear(t) == /\ pc[t] = "clear"
            /\ \E f \in toclear[t] :
                 /\ \A g \in toclear[t] : f <= g
                 /\ cache' = [cache EXCEPT ![f] = 0]
                 /\ toclear' = [toclear EXCEPT ![t] = @ \ {f}]
                 /\ pc' = [pc EXCEPT ![t] = IF toclear[t] = {f} THEN "done" ELSE "clear"]
                 /\ (IF Export /\ toclear[t] = {f} THEN Moved(t) ELSE UNCHANGED sched)
                 /\ (IF Export /\ (\A x \in Threads : pc'[x] = "done")
                     THEN PrintT(ToJson(<<"JWSCHED", Len(On), Len(Regs), sched'>>)) ELSE TRUE)
            /\ UNCHANGED <<reg, left, tmp, used>>
Next == \E t \in Threads : Look(t) \/ Store(t) \/ Write(t) \/ Clear(t)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

RegisteredOn(f) == \E r \in 1..Len(Regs) : Regs[r] = f
Undisturbed == \A t \in Calls : ~RegisteredOn(On[t]) => used[t] \subseteq {1}
(* A call never sees anything that was not registered on its own fork.        *)
OwnFork == \A t \in Calls : used[t] \subseteq 1..reg[On[t]]
NothingStale == (\A t \in Threads : pc[t] = "done") => \A f \in Forks : cache[f] = 0
Terminates == <>(\A t \in Threads : pc[t] = "done")
=============================================================================
