------------------------------- MODULE SvdLog -------------------------------
(***************************************************************************)
(* What the log of a resolution tells.                                     *)
(*                                                                         *)
(* A log: [paths, elements: what was told as resolved and as processed, in *)
(* that order; pictures, rounds: how many; finished, loop: how it ended;   *)
(* waiting, unresolved: elements and paths left in the last picture]       *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

LevelOf(k) == CASE k = "peripheral" -> "Peripheral" [] k = "cluster" -> "Cluster" [] k = "register" -> "Register"
                [] k = "field" -> "Field" [] OTHER -> "Enum"
ToldName(t) == IF "name" \in DOMAIN t.a /\ t.a.name # "" THEN t.a.name ELSE "no name"

RECURSIVE PathsOf(_), ElementsOf(_)
PathsOf(kids) ==
    UNION {PathsOf(kids[i].kids) \cup (IF "derived_from" \in DOMAIN kids[i].a THEN {kids[i].a.derived_from} ELSE {}) :
           i \in 1..Len(kids)}
ElementsOf(kids) == UNION {ElementsOf(kids[i].kids) \cup {<<ToldName(kids[i]), LevelOf(kids[i].k)>>} : i \in 1..Len(kids)}

Told(s) == {s[i] : i \in 1..Len(s)}

(* everything the document derives was resolved, everything it states       *)
(* processed                                                               *)
TellsAll(pd, log) ==
    /\ log.finished /\ ~log.loop
    /\ log.waiting = 0 /\ log.unresolved = 0
    /\ Told(log.paths) = PathsOf(pd.kids)
    /\ ElementsOf(pd.kids) \subseteq Told(log.elements)

(* an account of a resolution of pd, whatever became of it                  *)
Accounts(pd, log) ==
    /\ Told(log.paths) \subseteq PathsOf(pd.kids)
    /\ {x[2] : x \in Told(log.elements)} \subseteq {x[2] : x \in ElementsOf(pd.kids)}
    /\ log.rounds >= 1 /\ log.pictures > log.rounds
    /\ ~(log.finished /\ log.loop)
=============================================================================
