----------------------------- MODULE TaskRuns ------------------------------
(* What a run of several tasks may do (see MultiTask).                       *)
EXTENDS Naturals, Sequences, FiniteSets

EmptyRun == [parent |-> <<>>, ended |-> {}, done |-> {}, over |-> FALSE]
Started(r) == {0} \cup (1..Len(r.parent))
Running(r, p) == p \in Started(r) /\ p \notin r.ended /\ ~r.over
ChildrenEnded(r, p) == \A c \in 1..Len(r.parent) : r.parent[c] = p => c \in r.ended

(* Events: <<"start", p, c>>, <<"elem", p, i>>, <<"end", p>>, <<"join", p, c>>,*)
(* <<"return">>                                                              *)
Allowed(r, ev) ==
    CASE ev[1] = "start" -> Running(r, ev[2]) /\ ev[3] = Len(r.parent) + 1
      [] ev[1] = "elem" -> Running(r, ev[2]) /\ ev[3] \notin r.done
      [] ev[1] = "end" -> ev[2] # 0 /\ Running(r, ev[2]) /\ ChildrenEnded(r, ev[2])
      [] ev[1] = "join" -> Running(r, ev[2]) /\ ev[3] \in r.ended
      [] ev[1] = "return" -> ~r.over /\ ChildrenEnded(r, 0)
      [] OTHER -> FALSE
Effect(r, ev) ==
    CASE ev[1] = "start" -> [r EXCEPT !.parent = Append(@, ev[2])]
      [] ev[1] = "elem" -> [r EXCEPT !.done = @ \cup {ev[3]}]
      [] ev[1] = "end" -> [r EXCEPT !.ended = @ \cup {ev[2]}]
      [] ev[1] = "return" -> [r EXCEPT !.over = TRUE]
      [] OTHER -> r
RECURSIVE RunOf(_, _, _)
(* The run after the events from number k on; <<k>> if event k is not allowed *)
RunOf(r, hist, k) ==
    IF k > Len(hist) THEN r
    ELSE IF Allowed(r, hist[k]) THEN RunOf(Effect(r, hist[k]), hist, k + 1) ELSE <<k>>
HistOk(hist) == Len(hist) = 0 \/ LET r == RunOf(EmptyRun, hist, 1) IN ("over" \in DOMAIN r /\ r.over)

=============================================================================
