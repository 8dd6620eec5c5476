-------------------------- MODULE ResolveMachine ---------------------------
(***************************************************************************)
(* Resolution as a machine that binds a path or elaborates an element in   *)
(* any order, on all small documents (Documents).                          *)
(***************************************************************************)
EXTENDS Documents

VARIABLES st, stage  \* stage: "build", "run", "ambiguous"

vars == <<nodes, at, st, stage>>

Begin == Init /\ st = <<>> /\ stage = "build"

Build == stage = "build" /\ Next /\ UNCHANGED <<st, stage>>
Settle == stage = "build" /\ Ready /\ stage' = "run" /\ st' = Start(AsDoc) /\ UNCHANGED doc

CanBind(n) == (Bindable(AsDoc, st, n) /\ Lookup(AsDoc, st, n) # {}) = TRUE
CanElab(n) == Elaborable(AsDoc, st, n) = TRUE

\* a path is bound once all that may stand in the way of its meaning is known
Bind(n) ==
    /\ stage = "run" /\ n <= Len(nodes)
    /\ CanBind(n)
    /\ LET ms == Lookup(AsDoc, st, n)
       IN \/ /\ Cardinality(ms) = 1
             /\ st' = [st EXCEPT !.bound[n] = CHOOSE m \in ms : TRUE]
             /\ UNCHANGED stage
          \/ Cardinality(ms) > 1 /\ stage' = "ambiguous" /\ UNCHANGED st
    /\ UNCHANGED doc

Elab(n) ==
    /\ stage = "run" /\ n <= Len(nodes)
    /\ CanElab(n)
    /\ st' = [st EXCEPT !.el[n] = <<ElaborateIn(AsDoc, st, n)>>]
    /\ UNCHANGED <<doc, stage>>

Step == \E n \in 1..MaxNodes : Bind(n) \/ Elab(n)
Machine == Build \/ Settle \/ Step
Resolution == Begin /\ [][Machine]_vars

Stuck == stage = "ambiguous" \/ (stage = "run" /\ \A n \in 1..Len(nodes) : ~CanBind(n) /\ ~CanElab(n))

\* the elements of one place have names of their own
Named(d, s, n) ==
    UNION {{<<d.nodes[k].k \in {"cluster", "register"}, s.el[k][1].insts[i].name,
             IF Has(s.el[k][1].insts[i], "alternate_group") THEN s.el[k][1].insts[i].alternate_group ELSE "", k, i>> :
            i \in 1..Len(s.el[k][1].insts)} : k \in {Kids(d, s, n)[j] : j \in 1..Len(Kids(d, s, n))}}
Proper(d, s) == \A n \in 0..d.n : \A x, y \in Named(d, s, n) :
    (x[1] = y[1] /\ x[2] = y[2] /\ x[3] = y[3]) => x = y

Accepted(o) == o.ok /\ Proper(AsDoc, o.st)

\* what the rounds arrive at
Rounded == Resolve(AsDoc)
Here == Outcome(AsDoc, st, stage = "ambiguous")

\* every order arrives at the same
Confluent ==
    Stuck => LET here == Here
                 there == Rounded
             IN Accepted(here) = Accepted(there) /\ (Accepted(there) => here.st = there.st)

\* what a path was bound to is what it denotes in the end
Meant == LET r == Rounded IN
         (stage = "run" /\ st = Start(AsDoc) /\ Accepted(r)) =>
            \A n \in 1..Len(nodes) : nodes[n].path # "" => Lookup(AsDoc, r.st, n) = {r.st.bound[n]}

\* nothing is revised
Kept == [][stage = "run" /\ stage' = "run" =>
              \A n \in 1..Len(nodes) : /\ (st.bound[n] # <<>> => st'.bound[n] = st.bound[n])
                                       /\ (st.el[n] # <<>> => st'.el[n] = st.el[n])]_vars
=============================================================================
