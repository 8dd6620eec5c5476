---------------------------- MODULE SessionTrace ----------------------------
(***************************************************************************)
(* Recorded histories of the real library against Session.tla.  Values are *)
(* fingerprints of what the harness projects from the live objects.        *)
(*                                                                         *)
(* A case starts with events "ref": the result of a term evaluated alone,  *)
(* in a process that has made no other call.  Then come histories, each    *)
(* opened by "begin"; after every call all objects the user holds are      *)
(* looked at again (seen).                                                 *)
(***************************************************************************)
EXTENDS Session, Json, IOUtils

Cases == JsonDeserialize(IOEnv.SVD_TRACE).cases

VARIABLES c, e, ref, vals, bad
tvars == <<objs, hist, c, e, ref, vals, bad>>

Event == Cases[c].events[e]
More == c <= Len(Cases) /\ e <= Len(Cases[c].events)

TInit == Init /\ c = 1 /\ e = 1 /\ ref = <<>> /\ vals = <<>> /\ bad = 0

Report(v) ==
    /\ \A d \in v : PrintT("BAD|" \o Cases[c].id \o "|" \o ToString(e) \o "|" \o Event.op \o "|" \o d[1] \o "|" \o d[2] \o "|" \o d[3])
    /\ bad' = bad + (IF v = {} THEN 0 ELSE 1)
    /\ e' = e + 1 /\ c' = c

Ref == /\ More /\ Event.op = "ref"
       /\ ref' = (Event.t :> [out |-> Event.out, warn |-> Event.warn, val |-> Event.val]) @@ ref
       /\ Report({})
       /\ UNCHANGED <<objs, hist, vals>>

Begin == /\ More /\ Event.op = "begin"
         /\ objs' = <<Obj("doc", "a", 0), Obj("doc", "b", 0)>> /\ hist' = <<>> /\ vals' = (1 :> Event.a) @@ (2 :> Event.b)
         /\ Report({})
         /\ UNCHANGED ref

\* what the call gave is what its term gives
Result(t) ==
    LET r == ref[t]
    IN IF Event.out # r.out THEN {<<"outcome", t, "out">>}
       ELSE (IF Event.val # r.val THEN {<<"value", t, "object">>} ELSE {})
            \cup (IF Event.warn # r.warn THEN {<<"warnings", t, "warn">>} ELSE {})

\* every object held is what it was; gone and edited ones aside
Held(os, except, vs) ==
    {<<"changed", os[n].t, os[n].k>> :
        n \in {i \in 1..Len(os) : i \in DOMAIN vs /\ i \notin except /\ os[i].k # "gone" /\ Event.seen[i] # vs[i]}}

Replay == /\ More /\ Event.op = "call"
          /\ Call(Event.call, Event.of)
          /\ Report(Result(objs'[Len(objs')].t) \cup Held(objs, {}, vals))
          /\ vals' = IF Event.out = "ok" THEN (Len(objs') :> Event.val) @@ vals ELSE vals
          /\ UNCHANGED ref

\* a call whose source does not exist, since the call that was to make it failed
Skip == /\ More /\ Event.op = "skip"
        /\ \/ Event.call # "e" /\ Call(Event.call, Event.of)
           \/ Event.call = "e" /\ Edit(Event.of)
        /\ Event.of \notin DOMAIN vals
        /\ Report({})
        /\ UNCHANGED <<ref, vals>>

Change == /\ More /\ Event.op = "edit"
          /\ Edit(Event.of)
          /\ Report(Result(objs'[Event.of].t) \cup Held(objs', {Event.of}, vals))
          /\ vals' = (Event.of :> Event.val) @@ vals
          /\ UNCHANGED ref

NextCase == /\ c <= Len(Cases) /\ e > Len(Cases[c].events)
            /\ c' = c + 1 /\ e' = 1 /\ ref' = <<>> /\ vals' = <<>> /\ bad' = bad
            /\ objs' = <<Obj("doc", "a", 0), Obj("doc", "b", 0)>> /\ hist' = <<>>

TNext == Ref \/ Begin \/ Replay \/ Skip \/ Change \/ NextCase
TSpec == TInit /\ [][TNext]_tvars

View == <<c, e, bad>>

RECURSIVE Length(_)
Length(i) == IF i > Len(Cases) THEN 0 ELSE Len(Cases[i].events) + 1 + Length(i + 1)
Consumed == PrintT("CONSUMED|" \o ToString(TLCGet("stats").diameter - 1) \o "|" \o ToString(Length(1)))
=============================================================================
