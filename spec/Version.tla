-------------------------------- MODULE Version --------------------------------
(***************************************************************************)
(* A checkout: commits, tags, the working tree; and the version it reports. *)
(* Commits are numbered in the order they are made; par[c] is the set of    *)
(* parents of c.                                                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES par, tags, head, mod, junk
vvars == << par, tags, head, mod, junk >>

Commits == 1 .. Len(par)

RECURSIVE Anc(_)
Anc(c) == {c} \cup UNION {Anc(p) : p \in par[c]}       \* history of c, including c

---------------------------------------------------------------------------
(* the report *)

\* commits since: in the history of HEAD but not in that of the tag
Since(c) == Cardinality(Anc(head) \ Anc(c))
Reachable == {t \in tags : t[2] \in Anc(head)}
Closest == {t \in Reachable : \A u \in Reachable : Since(t[2]) <= Since(u[2])}

\* several tags can be equally close: any of them
Reports ==
    IF Reachable = {} THEN {[tag |-> "", since |-> Cardinality(Anc(head)), rev |-> head, dirty |-> mod]}
    ELSE {[tag |-> t[1], since |-> Since(t[2]), rev |-> head, dirty |-> mod] : t \in Closest}

\* plain: nothing but the tag is shown
Plain(r) == r.tag # "" /\ r.since = 0 /\ ~ r.dirty
Shown(r) == IF Plain(r) THEN [tag |-> r.tag] ELSE r

---------------------------------------------------------------------------
(* transitions *)
VInit == par = << {} >> /\ tags = {} /\ head = 1 /\ mod = FALSE /\ junk = FALSE

Commit == /\ par' = Append(par, {head}) /\ head' = Len(par) + 1 /\ mod' = FALSE
          /\ UNCHANGED << tags, junk >>
Tag(n) == /\ tags' = {t \in tags : t[1] # n} \cup {<< n, head >>}
          /\ UNCHANGED << par, head, mod, junk >>
Untag(n) == /\ \E t \in tags : t[1] = n
            /\ tags' = {t \in tags : t[1] # n}
            /\ UNCHANGED << par, head, mod, junk >>
Modify == /\ mod' = TRUE /\ UNCHANGED << par, tags, head, junk >>
Restore == /\ mod' = FALSE /\ UNCHANGED << par, tags, head, junk >>
Litter == /\ junk' = TRUE /\ UNCHANGED << par, tags, head, mod >>
Checkout(c) == /\ ~ mod /\ c \in Commits /\ c # head /\ head' = c
               /\ UNCHANGED << par, tags, mod, junk >>
Merge(c) == /\ ~ mod /\ c \in Commits /\ c \notin Anc(head) /\ head \notin Anc(c)
            /\ par' = Append(par, {head, c}) /\ head' = Len(par) + 1
            /\ UNCHANGED << tags, mod, junk >>
=============================================================================
