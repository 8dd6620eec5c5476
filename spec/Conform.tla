------------------------------ MODULE Conform ------------------------------
(***************************************************************************)
(* Trace specification.  The harness drives the real code through its      *)
(* public interface and records, for every call, the operation, the        *)
(* objects it was given and what came out, projected to the values of the  *)
(* specification.  Every recorded call has to be explained by the action   *)
(* of that name; the verdict of each call is total: a call that is not     *)
(* explained is printed with the clause that fails, and the trace goes on  *)
(* from the recorded value.                                                *)
(*                                                                         *)
(* State: c, e - the next call of the next case; mem - the objects the     *)
(* case has produced so far, by handle; bad - calls not explained.         *)
(***************************************************************************)
EXTENDS SvdConvert, SvdXml, SvdDecode, SvdLog, SvdOrigin, Json, IOUtils

Input == JsonDeserialize(IOEnv.SVD_TRACE)
Cases == Input.cases

VARIABLES c, e, mem, bad
vars == <<c, e, mem, bad>>

-----------------------------------------------------------------------------
(* Differences between two trees, as <<clause, where, key>> *)

Group(kind, key) ==
    CASE key \in RegProps -> "regprops"
      [] key \in {"base_address", "address_offset", "end_address", "end_address_effective", "cluster_size",
                  "peripheral_size", "peripheral_size_effective", "address", "allocated_begin", "allocated_end"} -> "address"
      [] key \in {"lsb", "msb", "bit_offset", "bit_width", "bit_range"} -> "bits"
      [] key \in {"vals", "values", "usage", "header_enum_name"} -> "enums"
      [] key = "address_blocks" -> "blocks"
      [] key = "interrupts" -> "interrupts"
      [] key = "regs" -> "registers"
      [] key \in {"origin", "self"} -> "origin"
      [] key \in {"modified_write_values", "read_action", "write_constraint", "data_type"} -> "behaviour"
      [] key \in {"derived_from", "dim", "dim_increment", "dim_index", "dim_name", "dim_array_index"} -> "reference"
      [] OTHER -> "text"

DiffKeys(a, b) == {k \in DOMAIN a \cup DOMAIN b : ~(k \in DOMAIN a /\ k \in DOMAIN b /\ a[k] = b[k])}
NameOf(n) == IF Has(n.a, "name") THEN n.a.name ELSE ""

RECURSIVE Diff(_, _, _)
Diff(x, y, at) ==
    LET here == at \o "/" \o NameOf(x)
        own == {<<Group(x.k, k), here, k>> : k \in DiffKeys(x.a, y.a)}
        rest == {<<Group(x.k, k), here, k>> :
                    k \in {f \in {"vals", "regs", "fields"} : (f \in DOMAIN x \/ f \in DOMAIN y)
                             /\ ~(f \in DOMAIN x /\ f \in DOMAIN y /\ x[f] = y[f])}}
        xs == IF Has(x, "kids") THEN x.kids ELSE <<>>
        ys == IF Has(y, "kids") THEN y.kids ELSE <<>>
    IN own \cup rest \cup
       IF \/ Len(xs) # Len(ys)
          \/ \E i \in 1..Len(xs) : xs[i].k # ys[i].k \/ NameOf(xs[i]) # NameOf(ys[i])
       THEN {<<"structure", here, "kids">>}
       ELSE UNION {Diff(xs[i], ys[i], here) : i \in 1..Len(xs)}

(* expected and recorded device *)
DevDiff(x, y) ==
    IF x = y THEN {}
    ELSE {<<IF k \in RegProps THEN "regprops" ELSE "device", "", k>> : k \in DiffKeys(x.a, y.a)}
         \cup (IF x.cpu # y.cpu THEN {<<"cpu", "", "cpu">>} ELSE {})
         \cup {d \in Diff([k |-> "device", a |-> [name |-> ""], kids |-> x.kids],
                          [k |-> "device", a |-> [name |-> ""], kids |-> y.kids], "") : TRUE}

-----------------------------------------------------------------------------
(* Verdicts *)

OutcomeBad(why) == {<<"outcome", why, "out">>}

ParsedV(r, fallback, ev) ==
       IF "doubtful" \in r.e THEN (IF ev.out \in {"ok", "ParserException", "NotImplementedError"} THEN {} ELSE OutcomeBad("doubtful"))
       ELSE IF r.e # {} THEN
           IF ("missing" \in r.e /\ ev.out = "ParserException") \/ ("literal" \in r.e /\ ev.out = "NotImplementedError")
           THEN {} ELSE OutcomeBad("rejected")
       ELSE IF ev.out # "ok" THEN OutcomeBad("accepted")
       ELSE DevDiff(r.dev, ev.val)
            \cup (IF ev.warn # r.w + fallback THEN {<<"warnings", ToString(r.w + fallback), "warn">>} ELSE {})
            \cup (IF ev.parents # 0 THEN {<<"parents", "", "parent">>} ELSE {})

ParseV(ev) == ParsedV(ReadDevice(mem[ev.from]), 0, ev)

(* bytes handed to an entry point *)
OpenV(ev) ==
    LET d == Decode(mem[ev.from])
    IN IF d.tree = <<>> THEN (IF ev.out = "XMLSyntaxError" THEN {} ELSE OutcomeBad("no document"))
       ELSE ParsedV(ReadDevice(d.tree[1]), d.w, ev)

ProcessV(ev) ==
    LET r == ProcessDevice(mem[ev.from])
        found == DevDiff(r.dev, ev.val)
            \cup (IF IF r.wres = 0 THEN ev.warn >= r.wlo /\ ev.warn <= r.whi ELSE ev.warn >= r.wres + r.wlo
                  THEN {} ELSE {<<"warnings", ToString(<<r.wres, r.wlo, r.whi>>), "warn">>})
            \cup (IF Has(ev.val.a, "origin") THEN {<<"origin", s[1], s[2] \o " " \o s[3]>> : s \in Strays(r.dev, ev.val)} ELSE {})
    IN IF ev.out \notin {"ok", "ProcessException"} THEN OutcomeBad(IF r.ok THEN "accepted" ELSE r.why)
       ELSE IF ~r.ok THEN (IF ev.out = "ProcessException" \/ OpenResult(mem[ev.from]) THEN {} ELSE OutcomeBad(r.why))
       ELSE IF ev.out # "ok"
            THEN (IF OpenAcceptance(mem[ev.from]) \/ OpenResult(mem[ev.from]) THEN {} ELSE OutcomeBad("accepted"))
       ELSE IF found = {} \/ OpenResult(mem[ev.from]) THEN {} ELSE found

ConvertV(ev) ==
    IF ev.out # "ok" THEN OutcomeBad("accepted")
    ELSE DevDiff(ConvertDevice(mem[ev.from]), ev.val)
         \cup (IF ev.parents # 0 THEN {<<"parents", "", "parent">>} ELSE {})
         \cup (IF ev.warn # 0 THEN {<<"warnings", "0", "warn">>} ELSE {})

MapV(ev) ==
    LET m == MapDevice(mem[ev.from])
        n == ev.val
        Shape(x) == [i \in 1..Len(x) |-> <<x[i].a.name, [j \in 1..Len(x[i].regs) |-> x[i].regs[j].a.name]>>]
    IN IF ev.out # "ok" THEN OutcomeBad("accepted")
       ELSE IF m = n THEN (IF ev.warn # 0 THEN {<<"warnings", "0", "warn">>} ELSE {})
       ELSE IF Shape(m) # Shape(n) THEN {<<"structure", "", "map">>}
       ELSE UNION {{<<Group("map", k), m[i].a.name, k>> : k \in DiffKeys(m[i].a, n[i].a)}
                   \cup UNION {{<<Group("map", k), m[i].a.name \o "/" \o m[i].regs[j].a.name, k>> :
                                    k \in DiffKeys(m[i].regs[j].a, n[i].regs[j].a)}
                               \cup (IF m[i].regs[j].fields # n[i].regs[j].fields
                                     THEN {<<"fields", m[i].a.name \o "/" \o m[i].regs[j].a.name, "fields">>} ELSE {})
                               : j \in 1..Len(m[i].regs)}
                   : i \in 1..Len(m)}

(* the document written for a device says what the device says *)
SerializeV(ev) ==
    LET r == ReadDevice(ev.val)
    IN IF ev.out # "ok" THEN OutcomeBad("accepted")
       ELSE IF mem[ev.from].kids = <<>> THEN {}  \* a device needs a peripheral
       ELSE IF r.e # {} THEN {<<"written", "unreadable", "xml">>}
       ELSE {<<"written", d[2], d[3]>> : d \in DevDiff(mem[ev.from], r.dev)}
            \cup (IF r.w # 0 THEN {<<"written", "repairs", "xml">>} ELSE {})
            \cup (IF ev.warn # 0 THEN {<<"warnings", "0", "warn">>} ELSE {})

(* the object is what it was *)
LookV(ev) == IF ev.val = mem[ev.from] THEN {} ELSE {<<"changed", ev.from, "object">>}

(* two calls of one meaning had the same outcome *)
SameV(ev) ==
    IF ev.out # ev.out2 THEN {<<"differs", "outcome", "out">>}
    ELSE IF ev.out = "ok" /\ mem[ev.from] # mem[ev.from2] THEN {<<"differs", "value", "object">>}
    ELSE IF ev.warn # ev.warn2 THEN {<<"differs", "warnings", "warn">>} ELSE {}

(* another entry point gave what this call, or these calls, gave *)
AgainV(ev) ==
    IF ev.out # ev.out2 THEN {<<"differs", ev.what, "out">>}
    ELSE IF ev.out = "ok" /\ ev.val # mem[ev.from] THEN {<<"differs", ev.what, "object">>}
    ELSE IF ev.warn # ev.warn2 THEN {<<"differs", ev.what, "warn">>} ELSE {}

(* how a call on objects of whatever origin may end *)
Documented == [parse |-> {"ok", "ParserException", "NotImplementedError"},
               process |-> {"ok", "ProcessException"},
               validate |-> {"ok", "DocumentInvalid"},
               serialize |-> {"ok"}, convert |-> {"ok"}, map |-> {"ok"}]
AttemptV(ev) == IF ev.out \in Documented[ev.what] THEN {} ELSE {<<"outcome", ev.what \o " " \o ev.out, "out">>}

(* a document of a model: what becomes of it was told by the model          *)
ReplayV(ev) ==
    IF \/ ev.fate = "open" /\ ev.out \in {"ok", "ProcessException"}
       \/ ev.fate \in {"yes", "maybe"} /\ ev.out = "ok" /\ ev.line = ev.want
       \/ ev.fate \in {"no", "maybe"} /\ ev.out = "ProcessException"
    THEN {} ELSE {<<"replay", ev.fate \o " " \o ev.want, IF ev.out = "ok" THEN ev.line ELSE ev.out>>}

VariedV(ev) ==
    ReplayV(ev) \cup
    (IF ev.fate \in {"yes", "maybe"} /\ ev.out = "ok"
        /\ ~IF ev.wres = 0 THEN ev.warn >= ev.wlo /\ ev.warn <= ev.whi ELSE ev.warn >= ev.wres + ev.wlo
     THEN {<<"warnings", ToString(<<ev.wres, ev.wlo, ev.whi, ev.warn>>), "warn">>} ELSE {})

(* the log of a resolution is there when processing ends *)
LogV(ev) ==
    IF ev.out # "ok" THEN {<<"log", ev.out, "unreadable">>}
    ELSE (IF Accounts(mem[ev.from], ev.val) THEN {} ELSE {<<"log", "", "account">>})
         \cup (IF ev.process = "ok" /\ ~TellsAll(mem[ev.from], ev.val) THEN {<<"log", "", "complete">>} ELSE {})

(* a fact the harness observes directly and the specification requires      *)
FactV(ev) == IF ev.holds THEN {} ELSE {<<"fact", ev.what, "fact">>}

(* warnings are of the kind the operation announces its repairs by *)
Kind == [parse |-> "ParserWarning", open |-> "ParserWarning", process |-> "ProcessWarning"]
KindsV(ev) == IF "kinds" \notin DOMAIN ev \/ ev.op \notin DOMAIN Kind THEN {}
              ELSE {<<"warnings", ev.kinds[i], "kind">> : i \in {j \in 1..Len(ev.kinds) : ev.kinds[j] # Kind[ev.op]}}

ResultV(ev) ==
    CASE ev.op = "parse" -> ParseV(ev)
      [] ev.op = "process" -> ProcessV(ev)
      [] ev.op = "convert" -> ConvertV(ev)
      [] ev.op = "map" -> MapV(ev)
      [] ev.op = "serialize" -> SerializeV(ev)
      [] ev.op = "look" -> LookV(ev)
      [] ev.op = "same" -> SameV(ev)
      [] ev.op = "open" -> OpenV(ev)
      [] ev.op = "again" -> AgainV(ev)
      [] ev.op = "attempt" -> AttemptV(ev)
      [] ev.op = "fact" -> FactV(ev)
      [] ev.op = "replay" -> ReplayV(ev)
      [] ev.op = "varied" -> VariedV(ev)
      [] ev.op = "log" -> LogV(ev)
      [] OTHER -> {}

Verdict(ev) == ResultV(ev) \cup KindsV(ev)

-----------------------------------------------------------------------------

Init == c = 1 /\ e = 1 /\ mem = <<>> /\ bad = 0

Event == Cases[c].events[e]

(* one action for each kind of call; all bind the recorded result *)
Step(op) ==
    /\ c <= Len(Cases)
    /\ e <= Len(Cases[c].events)
    /\ Event.op = op
    /\ LET v == Verdict(Event)
       IN /\ \A d \in v : PrintT("BAD|" \o Cases[c].id \o "|" \o ToString(e) \o "|" \o op \o "|" \o d[1] \o "|" \o d[2] \o "|" \o d[3])
          /\ bad' = bad + (IF v = {} THEN 0 ELSE 1)
    /\ mem' = IF "to" \in DOMAIN Event THEN (Event.to :> Event.val) @@ mem ELSE mem
    /\ e' = e + 1
    /\ c' = c

Document == Step("document")
Given == Step("given")
Parse == Step("parse")
Process == Step("process")
Convert == Step("convert")
Map == Step("map")
Write == Step("serialize")
Look == Step("look")
Same == Step("same")
Fact == Step("fact")
Bytes == Step("bytes")
Open == Step("open")
Again == Step("again")
Attempt == Step("attempt")

Replay == Step("replay")
Varied == Step("varied")
Log == Step("log")

NextCase ==
    /\ c <= Len(Cases)
    /\ e > Len(Cases[c].events)
    /\ c' = c + 1 /\ e' = 1 /\ mem' = <<>> /\ bad' = bad

Next == Document \/ Given \/ Parse \/ Process \/ Convert \/ Map \/ Write \/ Look \/ Same \/ Fact \/ Bytes \/ Open \/ Again \/ Attempt \/ Replay \/ Varied \/ Log \/ NextCase

Spec == Init /\ [][Next]_vars

\* the state is a function of the position in the trace
View == <<c, e, bad>>

RECURSIVE Length(_)
Length(i) == IF i > Len(Cases) THEN 0 ELSE Len(Cases[i].events) + 1 + Length(i + 1)
(* all calls were consumed *)
Consumed == PrintT("CONSUMED|" \o ToString(TLCGet("stats").diameter - 1) \o "|" \o ToString(Length(1)))

=============================================================================
