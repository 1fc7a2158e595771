-------------------------------- MODULE Orders --------------------------------
(* Histories of calls (a menu of dumps and loads, with all kinds of options,  *)
(* some of which fail) with registrations in between.                         *)
(* TLC checks that the outcome of a call is a matter of that call and of the  *)
(* registrations before it, and that a registration matters only to the calls *)
(* in which its types take part.                                              *)
(* The histories are exported and replayed with the real code.                *)
EXTENDS Registry, Json, IOUtils

CONSTANTS Export, MaxLen, MaxRegs
Worlds == ndJsonDeserialize(IOEnv.JW_WORLDS)
S(reg) == [w |-> Worlds[1], f |-> reg, ann |-> EmptyFcn, seen |-> TRUE]
Menu == Worlds[1].menu       \* calls: op, k, v or j, T, and the types that take part in it
C(n) == <<"cls", n>>
Regs == {<<"setser", C("Small")>>, <<"setser", C("Sub")>>, <<"setser", <<"int">>>>, <<"setser", <<"datetime">>>>,
         <<"setdes", C("Small")>>, <<"setdes", C("Sub")>>, <<"setdes", <<"str">>>>, <<"setdes", <<"float">>>>,
         <<"setval", C("Small")>>, <<"setval", <<"int">>>>, <<"setval", <<"list">>>>}

VARIABLES reg, hist, outs
vars == <<reg, hist, outs>>
Out(m, rg) == LET e == Menu[m]  k == KOf(e.k) IN
              IF e.op = "dump" THEN DumpV(S(rg), e.v, e.T, k) ELSE LoadV(S(rg), e.j, e.T, k)
Reg(rg, x) ==
    CASE x[1] = "setser" -> RegSetSer(rg, 1, <<x[2]>>, "s1", TRUE, FALSE)
      [] x[1] = "setdes" -> RegSetDes(rg, 1, <<x[2]>>, "d1", TRUE, FALSE)
      [] x[1] = "setval" -> RegSetVal(rg, 1, <<x[2]>>, "v1")
NRegs == Cardinality({i \in 1..Len(hist) : hist[i][1] = "reg"})
Init == reg = <<NewReg>> /\ hist = <<>> /\ outs = <<>>
Step(h) == /\ hist' = Append(hist, h)
           /\ (Export /\ Len(hist') = MaxLen => PrintT(ToJson(<<"JWHIST", hist'>>)))
Call(m) == /\ Step(<<"call", m>>)
           /\ outs' = IF Export THEN outs ELSE Append(outs, Out(m, reg))
           /\ UNCHANGED reg
Register(x) == /\ NRegs < MaxRegs
               /\ Len(hist) + 1 < MaxLen      \* (a call is the last)
               /\ Step(<<"reg", x>>)
               /\ reg' = Reg(reg, x)
               /\ outs' = IF Export THEN outs ELSE Append(outs, Unspec)
Next == Len(hist) < MaxLen /\ ((\E m \in 1..Len(Menu) : Call(m)) \/ (\E x \in Regs : Register(x)))
Spec == Init /\ [][Next]_vars

RECURSIVE RegsOnly(_, _)
RegsOnly(n, rg) == IF n = 0 THEN rg
                   ELSE IF hist[n][1] = "reg" THEN Reg(RegsOnly(n - 1, rg), hist[n][2]) ELSE RegsOnly(n - 1, rg)
OnlyRegsMatter == \A n \in 1..Len(hist) :
    hist[n][1] = "call" => outs[n] = Out(hist[n][2], RegsOnly(n - 1, <<NewReg>>))
Concerns(x, m) == LET e == Menu[m] IN
    /\ (x[1] = "setser") = (e.op = "dump")
    /\ \E i \in 1..Len(e.inv) : LET T == e.inv[i] IN
          T = x[2] \/ (T[1] = "cls" /\ x[2][1] = "cls" /\ x[2][2] \in MroOf(S(reg), T[2]))
(* Calls that none of the registrations before concerns.                      *)
Unconcerned == \A n \in 1..Len(hist) :
    hist[n][1] = "call" /\ ~(\E i \in 1..(n - 1) : hist[i][1] = "reg" /\ Concerns(hist[i][2], hist[n][2]))
    => outs[n] = Out(hist[n][2], <<NewReg>>)
=============================================================================
