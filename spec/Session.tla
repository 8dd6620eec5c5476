------------------------------ MODULE Session ------------------------------
(***************************************************************************)
(* Histories of calls to the library.  The state is the sequence of        *)
(* objects a user holds.  Every object is known by its term: how it was    *)
(* made from the documents of the session, "a" and "b".                    *)
(*                                                                         *)
(*    p(t), s(t), f(t)  the device parsed from a document or from a text   *)
(*          written, handed over as bytes, string, file                    *)
(*    d(t)  the processing of a parsed device                              *)
(*    c(t)  the processed device converted to a parsed one                 *)
(*    m(t)  the register map of a processed device                         *)
(*    w(t), W(t)  the text written for a parsed device, plain and pretty   *)
(*    v(t)  the verdict of the validator on a document or text             *)
(*    r(t)  the parser object of a document, asked for its device at every *)
(*          look                                                           *)
(*    D(t), M(t)  the processing, the map made from a document directly    *)
(*    l(t)  the processing of a parsed device with a log                   *)
(*    F(t)  the file written for a parsed device                           *)
(*    V(t)  the verdict on a file, told as an error                        *)
(*    e(t)  the device t after the user edited it in place                 *)
(*                                                                         *)
(* That the library is pure is to say that the value of an object is a     *)
(* function of its term, and stays it: calls read their source only.       *)
(* The calls are the actions of the machine; hist is the history, which    *)
(* TLC enumerates up to MaxCalls and the harness replays.                  *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC

CONSTANTS MaxCalls, Least,  \* histories have at most so many calls; told are those with at least so many
          Ops  \* the calls that are made

VARIABLES objs, hist

Docs == <<"a", "b">>

\* k: kind; t: term; of: the object it was made from
Obj(k, t, of) == [k |-> k, t |-> t, of |-> of]

\* what a call makes of an object of a kind
Makes(op) ==
    CASE op \in {"p", "ps", "pf"} -> "parsed"   \* from content, string, file
      [] op = "r" -> "parser"
      [] op \in {"d", "D", "l"} -> "processing"
      [] op = "c" -> "parsed"
      [] op \in {"m", "M"} -> "map"
      [] op \in {"w", "W", "F"} -> "text"
      [] op \in {"v", "V"} -> "verdict"
Takes(op) ==
    CASE op \in {"p", "ps", "pf", "r", "D", "M", "v", "V"} -> {"doc", "text"}
      [] op \in {"d", "l", "w", "W", "F"} -> {"parsed"}
      [] op \in {"c", "m"} -> {"processing"}
      [] op = "e" -> {"parsed", "processing"}

Sign(op) == IF op = "ps" THEN "s" ELSE IF op = "pf" THEN "f" ELSE op
Term(op, t) == Sign(op) \o "(" \o t \o ")"

Init == objs = <<Obj("doc", "a", 0), Obj("doc", "b", 0)>> /\ hist = <<>>

Call(op, n) ==
    /\ Len(hist) < MaxCalls
    /\ objs[n].k \in Takes(op)
    /\ hist' = Append(hist, <<op, n>>)
    /\ objs' = Append(objs, Obj(Makes(op), Term(op, objs[n].t), n))

\* the user changes an object he holds; a map shows the processed device it was made from
Edit(n) ==
    /\ Len(hist) < MaxCalls
    /\ objs[n].k \in Takes("e")
    /\ hist' = Append(hist, <<"e", n>>)
    /\ objs' = [i \in 1..Len(objs) |->
                  IF i = n THEN Obj(objs[i].k, Term("e", objs[i].t), objs[i].of)
                  ELSE IF objs[i].k = "map" /\ objs[i].of = n THEN Obj("gone", objs[i].t, n) ELSE objs[i]]

Basic == {"p", "ps", "pf", "d", "c", "m", "w", "W", "v"}
Full == Basic \cup {"r", "D", "M", "l", "F", "V"}
Next == \E n \in 1..Len(objs) : Edit(n) \/ \E op \in Ops : Call(op, n)

Spec == Init /\ [][Next]_<<objs, hist>>

\* every history is told once
Told == Len(hist) < Least \/ PrintT("HIST" \o ToString(hist))

\* an object is what it was made from, by a call that takes it
Sound ==
    \A i \in 3..Len(objs) :
        objs[i].k = "gone" \/ (objs[i].of \in 1..(i - 1) /\ objs[objs[i].of].k \in {"doc", "parsed", "processing", "text"})
\* no call changes an object it did not make, but an edit the one edited (and the maps of it)
Frozen == [][\A i \in 1..Len(objs) : objs'[i] # objs[i] =>
               hist'[Len(hist')][1] = "e" /\ hist'[Len(hist')][2] \in {i, objs[i].of}]_<<objs, hist>>
=============================================================================
