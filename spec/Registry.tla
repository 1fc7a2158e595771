------------------------------ MODULE Registry -------------------------------
(* The state of jsons and how the registration functions change it: per fork *)
(* the registered (de)serializers and validators and the suppressions.       *)
EXTENDS Codec

RECURSIVE PutAll(_, _, _, _)
PutAll(map, Ts, fn, i) == IF i > Len(Ts) THEN map
                          ELSE PutAll((TName(Ts[i]) :> fn) @@ map, Ts, fn, i + 1)
(* Of a sequence of types the last one ends up first.                         *)
RECURSIVE Prepend(_, _, _)
Prepend(hi, Ts, i) == IF i > Len(Ts) THEN hi
                      ELSE Prepend(<<TName(Ts[i])>> \o hi, Ts, i + 1)
(* A low priority registration comes after that of object, which every class *)
(* has for a superclass: it only ever counts for exactly its own class.      *)
Put(r, Ts, fn, high) == [map |-> PutAll(r.map, Ts, fn, 1),
                         hi  |-> IF high THEN Prepend(r.hi, Ts, 1) ELSE r.hi]

RegFork(reg, f) == Append(reg, reg[f])
Target(reg, f, nf) == IF nf THEN Len(reg) + 1 ELSE f
Branch(reg, f, nf) == IF nf THEN RegFork(reg, f) ELSE reg
RegSetSer(reg, f, Ts, fn, high, nf) ==
    [Branch(reg, f, nf) EXCEPT ![Target(reg, f, nf)].ser = Put(@, Ts, fn, high)]
RegSetDes(reg, f, Ts, fn, high, nf) ==
    [Branch(reg, f, nf) EXCEPT ![Target(reg, f, nf)].des = Put(@, Ts, fn, high)]
RegSetVal(reg, f, Ts, fn) ==
    [reg EXCEPT ![f].val = [map |-> PutAll(@.map, Ts, fn, 1),
                            hi |-> @.hi \o [i \in 1..Len(Ts) |-> TName(Ts[i])]]]
RegSuppress(reg, f, b) == [reg EXCEPT ![f].sup = b]
RegSuppressCode(reg, f, c) == [reg EXCEPT ![f].codes = @ \cup {c}]
=============================================================================
