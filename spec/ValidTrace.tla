----------------------------- MODULE ValidTrace -----------------------------
(***************************************************************************)
(* Recorded validations against SvdSchema: a document is accepted, or      *)
(* rejected in the way asked for, exactly as the schema of the version     *)
(* asked for has it; the version is the latest where none is asked for.    *)
(***************************************************************************)
EXTENDS SvdSchema, IOUtils

Cases == JsonDeserialize(IOEnv.SVD_TRACE).cases

VARIABLES c, e, mem, bad
vars == <<c, e, mem, bad>>

Event == Cases[c].events[e]

(* raising - whether a document that is not valid is to raise *)
ValidateV(ev) ==
    LET ok == Valid(IF ev.version = "" THEN Latest ELSE ev.version, mem[ev.from])
    IN IF ok THEN (IF ev.out = "ok" /\ ev.val = "yes" THEN {} ELSE {<<"outcome", "valid", ev.version>>})
       ELSE IF ev.raising
            THEN (IF ev.out = "DocumentInvalid" THEN {} ELSE {<<"outcome", "not valid", ev.version>>})
            ELSE (IF ev.out = "ok" /\ ev.val = "no" THEN {} ELSE {<<"outcome", "not valid, asked", ev.version>>})

RECURSIVE SaysAll(_)
\* no element is empty of content
SaysAll(n) == (n.c # <<>> \/ ~Blank(n.x)) /\ \A i \in 1..Len(n.c) : SaysAll(n.c[i])

(* what is written for the device of a valid document without empty elements is valid *)
WrittenV(ev) == IF Valid(ev.version, mem[ev.from]) /\ SaysAll(mem[ev.from]) /\ ~Valid(ev.version, ev.val) THEN {<<"written", "not valid", ev.version>>} ELSE {}

VersionsV(ev) == IF ev.val = Published /\ ev.latest = Latest THEN {} ELSE {<<"versions", ev.latest, "versions">>}

Verdict(ev) == CASE ev.op = "validate" -> ValidateV(ev)
                 [] ev.op = "written" -> WrittenV(ev)
                 [] ev.op = "versions" -> VersionsV(ev)
                 [] OTHER -> {}

Init == c = 1 /\ e = 1 /\ mem = <<>> /\ bad = 0

Step(op) ==
    /\ c <= Len(Cases)
    /\ e <= Len(Cases[c].events)
    /\ Event.op = op
    /\ LET v == Verdict(Event)
       IN /\ \A d \in v : PrintT("BAD|" \o Cases[c].id \o "|" \o ToString(e) \o "|" \o op \o "|" \o d[1] \o "|" \o d[2] \o "|" \o d[3])
          /\ bad' = bad + (IF v = {} THEN 0 ELSE 1)
    /\ mem' = IF "to" \in DOMAIN Event THEN (Event.to :> Event.val) @@ mem ELSE mem
    /\ e' = e + 1
    /\ c' = c

Tree == Step("tree")
Validate == Step("validate")
Written == Step("written")
Said == Step("versions")

NextCase ==
    /\ c <= Len(Cases)
    /\ e > Len(Cases[c].events)
    /\ c' = c + 1 /\ e' = 1 /\ mem' = <<>> /\ bad' = bad

Next == Tree \/ Validate \/ Written \/ Said \/ NextCase
Spec == Init /\ [][Next]_vars
View == <<c, e, bad>>

RECURSIVE Length(_)
Length(i) == IF i > Len(Cases) THEN 0 ELSE Len(Cases[i].events) + 1 + Length(i + 1)
Consumed == PrintT("CONSUMED|" \o ToString(TLCGet("stats").diameter - 1) \o "|" \o ToString(Length(1)))
=============================================================================
