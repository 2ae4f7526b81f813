------------------------------ MODULE Checkouts ------------------------------
(* Bounded histories of a checkout, and the laws of the report. *)
EXTENDS Version, Json

CONSTANTS MaxOps, MaxCommits, Names, Dump
VARIABLE hist
vars == << vvars, hist >>

Rec(x) == hist' = Append(hist, x)
Init == VInit /\ hist = << >>
Next == /\ Len(hist) < MaxOps
        /\ \/ Len(par) < MaxCommits /\ Commit /\ Rec([op |-> "commit"])
           \/ \E n \in Names : Tag(n) /\ tags' # tags /\ Rec([op |-> "tag", n |-> n])
           \/ \E n \in Names : Untag(n) /\ Rec([op |-> "untag", n |-> n])
           \/ ~ mod /\ Modify /\ Rec([op |-> "modify"])
           \/ mod /\ Restore /\ Rec([op |-> "restore"])
           \/ ~ junk /\ Litter /\ Rec([op |-> "litter"])
           \/ \E c \in Commits : Checkout(c) /\ Rec([op |-> "checkout", c |-> c])
           \/ \E c \in Commits : Len(par) < MaxCommits /\ Merge(c) /\ Rec([op |-> "merge", c |-> c])
Spec == Init /\ [][Next]_vars

TypeOK == /\ head \in Commits /\ mod \in BOOLEAN /\ junk \in BOOLEAN
          /\ \A c \in Commits : par[c] \subseteq 1 .. c - 1
          /\ \A t \in tags : t[1] \in Names /\ t[2] \in Commits
          /\ \A t, u \in tags : t[1] = u[1] => t = u
Answers == Reports # {}
\* the clean tag exactly when HEAD carries that tag and the tree is unmodified
CleanTag == \A r \in Reports : Plain(r) <=> ~ mod /\ \E t \in tags : t[2] = head /\ t[1] = r.tag
ExactWins == (\E t \in tags : t[2] = head) => \A r \in Reports : r.since = 0
Untagged == \A r \in Reports : r.tag = "" <=> Anc(head) \cap {t[2] : t \in tags} = {}
\* a report names a tag that is behind HEAD, with nothing closer in between
NothingBetween == \A r \in Reports : r.tag # "" =>
    \E t \in tags : /\ t[1] = r.tag
                    /\ t[2] \in Anc(head)
                    /\ \A u \in tags : (u[2] \in Anc(head) /\ t[2] \in Anc(u[2])) => u[2] = t[2]
\* what is shown identifies commit and modification, given the tags
Identifies == \A r \in Reports :
    IF Plain(r) THEN (\E t \in tags : t[1] = r.tag /\ t[2] = head) /\ ~ mod
    ELSE r.rev = head /\ r.dirty = mod

\* steps
Step(r, x, y) == [r EXCEPT !.since = @ + x, !.rev = y, !.dirty = FALSE]
CommitCounts == [][Commit => Reports' = {Step(r, 1, head') : r \in Reports}]_vars
ModifyMarks == [][Modify => Reports' = {[r EXCEPT !.dirty = TRUE] : r \in Reports}]_vars
RestoreUnmarks == [][Restore => Reports' = {[r EXCEPT !.dirty = FALSE] : r \in Reports}]_vars
LitterIgnored == [][Litter => Reports' = Reports]_vars
TagWins == [][\A n \in Names : Tag(n) => \A r \in Reports' : r.since = 0]_vars
MergeGrows == [][\A c \in Commits : Merge(c) => Cardinality(Anc(head)') > Cardinality(Anc(head))]_vars

DumpHistories == (Dump /\ Len(hist) = MaxOps) => PrintT("HIST " \o ToJson(hist))
=============================================================================
