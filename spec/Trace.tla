-------------------------------- MODULE Trace --------------------------------
(* Validates recorded sessions of the real code against the specification.   *)
(*                                                                           *)
(* A session is a sequence of events on one world. The registries and the    *)
(* announced names are the state that the events change; a dump or a load    *)
(* leaves them alone and has the outcome that Codec computes from them.      *)
(* The verdict on an event is total: "" or the name of the clause that the   *)
(* observed outcome violates.                                                *)
EXTENDS Registry, TaskRuns, Json, IOUtils

Worlds   == ndJsonDeserialize(IOEnv.JW_WORLDS)
Sessions == ndJsonDeserialize(IOEnv.JW_TRACE)
PROP     == IOEnv.JW_PROP

VARIABLES i,     \* the session
          l,     \* the next event of that session
          reg,   \* the registries, per fork
          ann,   \* the announced class names
          seen,  \* has anything been dumped yet?
          st     \* "ok", "skip" or the clause that the last event violated

vars == <<i, l, reg, ann, seen, st>>

Opt(e, f, d) == IF f \in DOMAIN e THEN e[f] ELSE d
SOf(sess, e) == [w |-> IF "lo" \in DOMAIN e THEN [Worlds[sess.w] EXCEPT !.localoff = e.lo] ELSE Worlds[sess.w],
                 f |-> reg, ann |-> ann, seen |-> seen]
KIND_PROPS == {"C05", "C06", "C11", "C12", "C13", "C14", "C15", "C18", "C19", "C20", "C21", "C23"}
WARN_PROPS == {"C12", "C15", "C21", "C22", "C23"}

\* -------------------------------------------------------------- verdicts ---
(* exp: what the specification says; o: what was observed.                   *)
Basic(exp, o) ==
    IF o.t = "hang" THEN "no-termination"
    ELSE IF o.t = "harness" THEN "harness-failure"
    ELSE IF exp.t = "unspec" THEN "skip"
    ELSE IF o.t = "err" /\ ~o.jsons THEN "foreign-exception"
    ELSE IF IsErr(exp) THEN (IF o.t = "err" THEN "" ELSE "value-instead-of-error")
    ELSE IF o.t = "err" THEN "error-instead-of-value"
    ELSE IF Match(exp.v, o.v) THEN "" ELSE "wrong-value"
First(a, b) == IF a \notin {"", "skip"} THEN a ELSE IF b \notin {"", "skip"} THEN b
               ELSE IF a = "skip" THEN a ELSE b

(* The kind of the failure, where the property is about it.                  *)
KindOk(exp, o) ==
    IF ~IsErr(exp) \/ o.t # "err" THEN ""
    ELSE IF exp.k \in {"UnfulfilledArgumentError", "SignatureMismatchError"}
         THEN (IF exp.k \notin ToSet(o.fam) THEN "wrong-kind-of-error"
               ELSE IF o.a # exp.a /\ exp.a # "?" THEN "wrong-argument-named" ELSE "")
    ELSE IF exp.k \in {"UnknownClassError", "ValidationError"}
         THEN (IF exp.k \notin ToSet(o.fam) THEN "wrong-kind-of-error"
               ELSE IF exp.k = "ValidationError" /\ exp.m # "?" /\ exp.m # o.m
                    THEN "wrong-message" ELSE "")
    ELSE IF exp.k = "DeserializationError"
         THEN (IF ~o.deser THEN "wrong-kind-of-error"
               ELSE IF ToSet(o.fam) \cap {"UnfulfilledArgumentError", "SignatureMismatchError",
                                          "UnknownClassError"} # {} THEN "wrong-kind-of-error" ELSE "")
    ELSE ""
(* Which element, value and type failed.                                      *)
IsPrefixOf(a, b) == Len(a) <= Len(b) /\ \A x \in 1..Len(a) : a[x] = b[x]
Normal(T) == CASE T = <<"List">> -> <<"list">> [] T = <<"Dict">> -> <<"dict">> [] OTHER -> T
BlameOk(exp, o) ==
    IF ~IsErr(exp) \/ o.t # "err" \/ ~o.deser \/ exp.k \notin DeserFamily THEN ""
    ELSE IF ~IsPrefixOf(exp.i, o.i) THEN "wrong-index-stated"
    ELSE IF exp.s # <<"any*">> /\ o.s[1] # "weird" /\ ~Match(exp.s, o.s) THEN "wrong-source-stated"
    ELSE IF exp.g # <<"any*">> /\ o.g[1] # "other" /\ Normal(exp.g) # Normal(o.g) THEN "wrong-target-stated"
    ELSE ""
CountOf(ws, c) == Cardinality({x \in 1..Len(ws) : ws[x] = c})
(* loose: taking the text of an object (as is done to find the type of the   *)
(* values of a dict) may warn, too, if it is a JsonSerializable.              *)
WarnOk(exp, o, loose) ==
    IF ~IsOk(exp) \/ o.t # "ok" THEN ""
    ELSE IF \A c \in ToSet(exp.w) \cup ToSet(o.w) :
              \/ CountOf(exp.w, c) = CountOf(o.w, c)
              \/ loose /\ CountOf(exp.w, c) < CountOf(o.w, c)
         THEN "" ELSE "wrong-warnings"
HasJsonSer(w) == \E n \in DOMAIN w.c : w.c[n].k = "jsonser"
Loose(S, e, exp) ==
    /\ HasJsonSer(S.w)
    /\ \/ "k" \in DOMAIN e /\ (e.k.strict \/ "class" \in ToSet(e.k.verb))
       \/ IsOk(exp) /\ ~Concrete(exp.v)
More(S, e, exp, o) ==
    First(IF PROP \in KIND_PROPS THEN KindOk(exp, o) ELSE "",
          First(IF PROP \in {"C15", "C21"} THEN BlameOk(exp, o) ELSE "",
                IF PROP \in WARN_PROPS THEN WarnOk(exp, o, Loose(S, e, exp)) ELSE ""))

(* Does the value contain an object with an attribute that its constructor    *)
(* does not take?  Such remaining attributes are set as they are.             *)
RECURSIVE HasExtras(_, _)
HasExtras(S, v) ==
    CASE v[1] \in {"list", "tuple", "set", "fset", "deque", "ulist"} -> \E n \in 1..Len(v[2]) : HasExtras(S, v[2][n])
      [] v[1] \in {"dict", "ddict", "odict"} -> \E n \in 1..Len(v[2]) : HasExtras(S, v[2][n][2])
      [] v[1] = "nt" -> \E n \in 1..Len(v[3]) : HasExtras(S, v[3][n])
      [] v[1] = "obj" -> \E n \in 1..Len(v[3]) :
                           \/ \A m \in 1..Len(Cls(S, v[2]).ps) : Cls(S, v[2]).ps[m][5] # v[3][n][1]
                           \/ HasExtras(S, v[3][n][2])
      [] OTHER -> FALSE
(* What the driver observed besides the outcome.                              *)
Flags(S, e) ==
    IF Opt(e, "mut", FALSE) THEN "argument-modified"
    ELSE IF Opt(e, "shared", FALSE) /\ Opt(e, "noshare", FALSE)
            /\ ~(e.op # "dump" /\ IsOk(e.out) /\ HasExtras(S, e.out.v)) THEN "state-shared-with-argument"
    ELSE IF Opt(e, "stale", FALSE) THEN "state-shared-with-earlier-result"
    ELSE ""
(* The event repeats an earlier one: whatever came out then comes out again. *)
Repeats(sess, e) ==
    IF "sameas" \notin DOMAIN e THEN ""
    ELSE IF "k" \in DOMAIN e /\ "time" \in ToSet(e.k.verb) THEN ""   \* the time of the dump is in there
    ELSE LET o == sess.evs[e.sameas].out IN
         IF o.t # e.out.t THEN "differs-from-earlier-call"
         ELSE IF o.t = "ok" /\ ~Match(o.v, e.out.v) THEN "differs-from-earlier-call"
         ELSE IF o.t = "err" /\ o.k # e.out.k THEN "differs-from-earlier-call" ELSE ""

DumpV_(S, e) == DumpV(S, e.v, e.T, KOf(e.k))
(* The class to load into may be given by its name.                           *)
LoadT(S, j, T, k) ==
    IF T[1] # "name" THEN LoadV(S, j, T, k)
    ELSE IF j = NONE THEN Raise(j, NOT)
    ELSE LET r == ResolveName(S, T[2]) IN
         IF r[1] = "odd" THEN Unspec
         ELSE IF r[1] = "unknown" THEN ErrX("UnknownClassError", "", <<"any*">>, <<"any*">>, <<>>, "")
         ELSE IF r[2] = NatType(j) /\ ~k.strict THEN Unspec
         ELSE LoadV(S, j, r[2], k)
LoadV_(S, e, j) == LoadT(S, j, Opt(e, "T2", e.T), KOf(Opt(e, "k2", e.k)))

VDump(S, e) ==
    LET exp == DumpV_(S, e)
        b == Basic(exp, e.out)
    IN First(First(IF e.out.t = "ok" /\ ~e.native /\ exp.t # "unspec" THEN "not-json-native"
                   ELSE IF PROP = "C21" /\ exp.t = "err" /\ exp.m = "custom failure" /\ e.out.t = "err"
                           /\ ~Opt(e.out, "said", TRUE)
                   THEN "reason-not-stated" ELSE "", b),
             More(S, e, exp, e.out))
(* Missing keys of a loaded defaultdict get a value of the requested type.   *)
Factory(e, exp) ==
    LET T == Opt(e, "T2", e.T) IN
    IF "factory" \notin DOMAIN e \/ ~IsOk(exp) \/ T[1] # "defaultdict" THEN ""
    ELSE IF e.factory = (IF Len(T) = 3 THEN T[3] ELSE NOT) THEN "" ELSE "wrong-default-factory"
VLoad(S, e) ==
    LET exp == LoadV_(S, e, e.j)
    IN First(Basic(exp, e.out), First(More(S, e, exp, e.out), Factory(e, exp)))
VRt(S0, e) ==
    LET S == [S0 EXCEPT !.seen = TRUE]
        d == Basic(DumpV_(S, e), e.d) IN
    IF d # "" \/ e.d.t # "ok"
    THEN (IF d \in {"", "skip"} /\ Opt(e, "strong", FALSE) THEN "not-dumped" ELSE d)
    ELSE LET exp == LoadV_(S, e, e.j) IN
         First(Basic(exp, e.out),
          First(IF IsOk(exp) /\ Concrete(exp.v) /\ e.out.t = "ok" /\ Match(e.v, exp.v) /\ ~Match(e.v, e.out.v)
                THEN "not-restored" ELSE "",
          First(IF Opt(e, "strong", FALSE) /\ (e.out.t # "ok" \/ ~Match(e.v, e.out.v))
                THEN "not-restored" ELSE "",
          First(More(S, e, exp, e.out), Factory(e, exp)))))

\* --- the other ways to dump and load
SameKind(a, b) == a.t = b.t /\ (a.t = "err" => a.k = b.k)
VFrontDump(S, e) ==
    LET d == Basic(DumpV_(S, e), e.d) IN
    IF d # "" THEN d
    ELSE IF e.d.t = "ok" /\ e.text.t # "ok"     \* json.dumps or encode fails: so does the front end
    THEN (IF e.out.t = "err" /\ e.out.k = e.text.k THEN "" ELSE "front-end-disagrees")
    ELSE IF ~SameKind(e.d, e.out) THEN "front-end-disagrees"
    ELSE IF e.d.t = "ok" /\ ~e.same THEN "front-end-disagrees"
    ELSE IF e.d.w # e.out.w THEN "wrong-warnings" ELSE ""
VFrontLoad(S, e) ==
    IF e.bad = "json"      \* the text is no valid JSON
    THEN (IF e.out.t # "err" THEN "value-instead-of-error"
          ELSE IF ~e.out.jsons THEN "foreign-exception"
          ELSE IF "DecodeError" \notin ToSet(e.out.fam) THEN "wrong-kind-of-error"
          ELSE IF ~e.posok THEN "wrong-position-or-source" ELSE "")
    ELSE IF e.bad = "bytes"  \* no bytes, or bytes that cannot be decoded
    THEN (IF e.out.t # "err" THEN "value-instead-of-error"
          ELSE IF ~e.out.jsons THEN "foreign-exception"
          ELSE IF ~e.out.deser THEN "wrong-kind-of-error"
          ELSE IF ~e.posok THEN "wrong-position-or-source" ELSE "")
    ELSE LET exp == LoadV_(S, e, e.j) IN
         First(Basic(exp, e.out),
          First(IF ~SameKind(e.d, e.out) THEN "front-end-disagrees"
                ELSE IF e.d.t = "ok" /\ ~Match(e.d.v, e.out.v) THEN "front-end-disagrees" ELSE "",
                More(S, e, exp, e.out)))
VTransform(S0, e) ==
    LET S == [S0 EXCEPT !.seen = TRUE]
        d == Basic(DumpV_(S, e), e.d) IN
    IF d \notin {"", "skip"} THEN d
    ELSE IF e.d.t # "ok" THEN First(d, IF SameKind(e.d, e.out) THEN "" ELSE "front-end-disagrees")
    ELSE IF ~e.mapped THEN "mapper-got-something-else"
    ELSE IF e.boom THEN (IF e.out.t = "err" /\ e.out.k = "Boom" THEN "" ELSE "error-of-function-lost")
    ELSE LET exp == LoadV_(S, e, e.j) IN First(Basic(exp, e.out), More(S, e, exp, e.out))

\* --- decorated functions
RECURSIVE MapArgs(_, _, _, _, _)
MapOne(S, dir, v, T, k) == IF dir = "loaded" THEN LoadV(S, v, T, KOf(k)) ELSE DumpV(S, v, T, KOf(k))
(* as: <<name, T, value>>; the mapped values or the first failure.  What is   *)
(* no argument (self, cls, a default value) comes as it is.                   *)
MapArgs(S, e, as, n, acc) ==
    IF n > Len(as) THEN Ok(acc)
    ELSE LET r == IF e.pm /\ as[n][2] # <<"asis">> THEN MapOne(S, e.dir, as[n][3], as[n][2], e.k)
                  ELSE Ok(as[n][3]) IN
         IF ~IsOk(r) THEN r ELSE MapArgs(S, e, as, n + 1, Append(acc, <<as[n][1], r.v>>))
DecoExp(S, e) ==      \* <<the arguments that the function gets, the outcome>>
    LET a == MapArgs(S, e, e.args, 1, <<>>) IN
    IF ~IsOk(a) THEN <<a, a>>
    ELSE IF e.body[1] = "boom" THEN <<a, Err("Boom")>>
    ELSE <<a, IF e.rv THEN MapOne(S, Opt(e, "rdir", e.dir), e.body[2], e.ret, Opt(e, "rk", e.k))
              ELSE Ok(e.body[2])>>
VDeco(S, e) ==
    LET x == DecoExp(S, e)
        a == x[1]
    IN IF a.t = "unspec" THEN "skip"
       ELSE IF Opt(e, "arity", FALSE)   \* the function cannot be called like that
       THEN (IF e.called THEN "called-in-spite-of-failure"
             ELSE IF e.out.t = "err" /\ (e.out.k = "TypeError" \/ e.out.jsons) THEN ""
             ELSE "value-instead-of-error")
       ELSE IF IsErr(a) THEN (IF e.called THEN "called-in-spite-of-failure" ELSE Basic(a, e.out))
       ELSE IF ~e.called THEN "not-called"
       ELSE IF Len(a.v) # Len(e.got) THEN "wrong-arguments"
       ELSE IF \E n \in 1..Len(a.v) : a.v[n][1] # e.got[n][1] \/ ~Match(a.v[n][2], e.got[n][2])
       THEN "wrong-arguments"
       ELSE IF e.body[1] = "boom"
       THEN (IF e.out.t = "err" /\ e.out.k = "Boom" THEN "" ELSE "error-of-function-lost")
       ELSE First(Basic(x[2], e.out), More(S, e, x[2], e.out))
VDecoBad(S, e) ==
    IF e.out.t # "err" THEN "value-instead-of-error"
    ELSE IF "InvalidDecorationError" \notin ToSet(e.out.fam) THEN "wrong-kind-of-error"
    ELSE IF e.what \in {"static", "classmethod"} /\ e.out.w # Warned(S, e.k.fork, "decorated-static") THEN "wrong-warnings"
    ELSE ""

\* --- multitasking: as without tasks, every element exactly once
VTasks(S, e) ==
    LET exp == IF e.dir = "dump" THEN DumpV_(S, e) ELSE LoadV_(S, e, e.j)
        \* the warnings of another process do not get here
        Here(o) == IF e.mode = "process" /\ o.t = "ok"
                   THEN [o EXCEPT !.w = SelectSeq(@, LAMBDA c : c = "element-not-deserialized")] ELSE o
    IN First(Basic(exp, e.out),
        First(More(S, e, Here(exp), Here(e.out)),
         First(IF Cardinality(ToSet(e.calls)) # Len(e.calls)
                  \/ (IsOk(exp) /\ e.ncalls >= 0 /\ Len(e.calls) # e.ncalls)
               THEN "not-exactly-once" ELSE "",
               IF ~HistOk(e.hist) THEN "wrong-history" ELSE "")))

VWhich(S, e) ==
    LET g == CASE e.kind = "ser" -> GetSer(S, e.f, e.T, FALSE)
               [] e.kind = "des" -> GetDes(S, e.f, e.T, FALSE)
               [] e.kind = "val" -> [c |-> TRUE, fn |-> GetVal(S, e.f, e.T)]
        fn == IF g.c THEN g.fn ELSE ""
    IN IF e.out.t # "ok" THEN "error-instead-of-value"
       ELSE IF e.out.v = Str(fn) THEN "" ELSE "wrong-function"
VValidate(S, e) ==
    LET exp == Validate(S, e.f, e.v, e.T, Ok(NONE)) IN First(Basic(exp, e.out), KindOk(exp, e.out))

RegOps == {"setser", "setdes", "setval", "fork", "announce", "suppress", "suppresscode"}
(* Calls of several threads at the same time: each as if it were alone.  The  *)
(* registrations among them (which concern other forks) are repeated          *)
(* afterwards as events of the session.                                       *)
RECURSIVE Verdict(_, _), AllOf(_, _, _), AllThreads(_, _, _)
AllOf(S, es, n) == IF n > Len(es) THEN "" ELSE First(Verdict(S, es[n]), AllOf(S, es, n + 1))
AllThreads(S, ts, n) == IF n > Len(ts) THEN "" ELSE First(AllOf(S, ts[n], 1), AllThreads(S, ts, n + 1))
VConc(S, e) == IF e.out.t # "ok" THEN (IF e.out.t = "hang" THEN "no-termination" ELSE "harness-failure")
               ELSE First(AllThreads([S EXCEPT !.seen = TRUE], e.thr, 1),
                          IF ~HistOk(e.hist) THEN "wrong-history" ELSE "")
Verdict(S, e) ==
    CASE e.op = "dump" -> VDump(S, e)
      [] e.op = "load" -> VLoad(S, e)
      [] e.op = "rt" -> VRt(S, e)
      [] e.op = "fdump" -> VFrontDump(S, e)
      [] e.op = "fload" -> VFrontLoad(S, e)
      [] e.op = "transform" -> VTransform(S, e)
      [] e.op = "deco" -> VDeco(S, e)
      [] e.op = "decobad" -> VDecoBad(S, e)
      [] e.op = "tasks" -> VTasks(S, e)
      [] e.op = "which" -> VWhich(S, e)
      [] e.op = "validate" -> VValidate(S, e)
      [] e.op = "kt" -> (IF e.out.t = "ok" /\ e.out.v = Str(KT(e.kt, e.s)) THEN "" ELSE "wrong-key")
      [] e.op = "conc" -> VConc(S, e)
      [] e.op \in RegOps -> IF e.out.t = "ok" THEN "" ELSE "registration-failed"
      [] OTHER -> "unknown-event"

RECURSIVE Describe(_, _)
Describe(S, e) ==
    CASE e.op \in {"dump", "fdump"} \/ (e.op = "tasks" /\ e.dir = "dump") -> DumpV_(S, e)
      [] e.op \in {"load", "tasks"} -> LoadV_(S, e, e.j)
      [] e.op = "fload" -> IF e.bad # "" THEN "-" ELSE LoadV_(S, e, e.j)
      [] e.op \in {"rt", "transform"} ->
           IF e.d.t = "ok" /\ Basic(DumpV_(S, e), e.d) \in {"", "skip"} THEN LoadV_([S EXCEPT !.seen = TRUE], e, e.j)
           ELSE DumpV_(S, e)
      [] e.op = "deco" -> DecoExp(S, e)
      [] e.op = "kt" -> KT(e.kt, e.s)
      [] e.op = "conc" -> [n \in 1..Len(e.thr) |-> [m \in 1..Len(e.thr[n]) |->
                               <<Verdict(S, e.thr[n][m]), Describe(S, e.thr[n][m])>>]]
      [] OTHER -> "-"

\* ------------------------------------------------------------ transitions --
Init == /\ i \in 1..Len(Sessions)
        /\ l = 1
        /\ reg = <<NewReg>>
        /\ ann = EmptyFcn
        /\ seen = FALSE
        /\ st = "ok"

Dumps == {"dump", "rt", "fdump", "transform", "deco", "conc"}

(* The registration functions; the state changes exactly as Registry says.    *)
Register(e) ==
    /\ st' = (IF e.out.t = "ok" THEN "ok" ELSE "registration-failed")
    /\ IF e.out.t = "ok" THEN TRUE ELSE PrintT(ToJson(<<"JWFAIL", i, l, "registration-failed", "-">>))
    /\ reg' = CASE e.op = "setser" -> RegSetSer(reg, e.f, e.Ts, e.fn, e.hi, Opt(e, "nf", FALSE))
                [] e.op = "setdes" -> RegSetDes(reg, e.f, e.Ts, e.fn, e.hi, Opt(e, "nf", FALSE))
                [] e.op = "setval" -> RegSetVal(reg, e.f, e.Ts, e.fn)
                [] e.op = "fork" -> RegFork(reg, e.f)
                [] e.op = "suppress" -> RegSuppress(reg, e.f, e.val)
                [] e.op = "suppresscode" -> RegSuppressCode(reg, e.f, e.code)
                [] OTHER -> reg
    /\ ann' = (IF e.op = "announce"
               THEN (IF e.name = "" THEN QName([w |-> Worlds[Sessions[i].w]], e.T[2]) ELSE e.name) :> e.T @@ ann
               ELSE ann)
    /\ UNCHANGED seen

Call(e) ==
    LET S == SOf(Sessions[i], e)
        v == TLCEval(First(Verdict(S, e), First(Flags(S, e), Repeats(Sessions[i], e))))
    IN /\ st' = (IF v = "" THEN "ok" ELSE v)
       /\ IF v = "" THEN TRUE
          ELSE IF v = "skip" THEN PrintT(ToJson(<<"JWSKIP", i, l>>))
          ELSE PrintT(ToJson(<<"JWFAIL", i, l, v, Describe(S, e)>>))
       /\ seen' = (seen \/ e.op \in Dumps)
       /\ UNCHANGED <<reg, ann>>

Next == /\ l <= Len(Sessions[i].evs)
        /\ st \in {"ok", "skip"}
        /\ l' = l + 1
        /\ UNCHANGED i
        /\ LET e == Sessions[i].evs[l] IN
           IF e.op \in RegOps THEN Register(e) ELSE Call(e)

Spec == Init /\ [][Next]_vars
\* The registries only ever change by registration; every fork that exists stays.
TypeOK == /\ l \in 1..(Len(Sessions[i].evs) + 1) /\ Len(reg) >= 1
=============================================================================
