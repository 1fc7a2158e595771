------------------------------- MODULE Styles --------------------------------
(* The key transformers on every short text.                                 *)
EXTENDS Text, Json
CONSTANTS MaxLen, Export
Alphabet == {"a", "b", "B", "_", "-", "1"}
VARIABLE s
Init == s = ""
Next == /\ Len(s) < MaxLen
        /\ \E c \in Alphabet : s' = s \o c
        /\ (Export => PrintT(ToJson(<<"JWTEXT", s'>>)))
Spec == Init /\ [][Next]_s
Styles_ == {"camel", "snake", "pascal", "lisp"}
Idempotent == \A k \in Styles_ : KT(k, KT(k, s)) = KT(k, s)
(* Names in snake_case: words of lower case letters and digits, that start    *)
(* with a letter, with one underscore in between.                             *)
IsWord(w) == w # "" /\ Ch(w, 1) \in LowerSet /\ \A i \in 1..Len(w) : Ch(w, i) \in LowerSet \cup DigitSet
(* (a digit hides the beginning of the next word)                             *)
EndsInLetter(w) == Ch(w, Len(w)) \in LowerSet
(* (title() starts a new word after a digit)                                  *)
NoLetterAfterDigit(w) == \A i \in 2..Len(w) : ~(Ch(w, i - 1) \in DigitSet /\ Ch(w, i) \in LowerSet)
IsSnake == LET ws == Split(s, "_") IN
           /\ \A i \in 1..Len(ws) : IsWord(ws[i]) /\ NoLetterAfterDigit(ws[i])
           /\ \A i \in 1..(Len(ws) - 1) : EndsInLetter(ws[i])
           /\ \A i \in 2..(Len(ws) - 1) : Len(ws[i]) > 1     \* aBC is no a_b_c
Converts == IsSnake => \A k, l \in Styles_ : KT(k, KT(l, s)) = KT(k, s)
Restores == IsSnake => \A k \in Styles_ : KT("snake", KT(k, s)) = s
(* Only letters change their case, and only _ and - come and go.              *)
RECURSIVE Core(_, _)
Core(t, i) == IF i > Len(t) THEN "" ELSE (IF Ch(t, i) \in {"_", "-"} THEN "" ELSE LowerCh(Ch(t, i))) \o Core(t, i + 1)
KeepsLetters == \A k \in Styles_ : Core(KT(k, s), 1) = Core(s, 1)
=============================================================================
