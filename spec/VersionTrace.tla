----------------------------- MODULE VersionTrace -----------------------------
(***************************************************************************)
(* Trace validation: a real git repository is driven through a history and  *)
(* the code is asked for its version after every step.                      *)
(* Session: ev, ids (revision of commit 1, 2, ...).                          *)
(* Events: commit, tag, untag, modify, restore, litter, checkout, merge, and *)
(*   report: via, vers, full, exc      what this way of asking answers       *)
(*   archive: vers, full, exc          an exported archive of HEAD is asked  *)
(***************************************************************************)
EXTENDS Version, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES sess, l
tvars == << vvars, sess, l >>
Ev(s, k) == Trace[s].ev[k]

HasPlus(t) == \E i \in 1 .. Len(t) : SubSeq(t, i, i) = "+"

\* the texts that state report r, with the revision abbreviated to k characters
Text(r, id, k) ==
    IF Plain(r) THEN r.tag
    ELSE (IF r.tag = "" THEN "0+untagged." ELSE r.tag \o (IF HasPlus(r.tag) THEN "." ELSE "+"))
         \o ToString(r.since) \o ".g" \o SubSeq(id, 1, k) \o (IF r.dirty THEN ".dirty" ELSE "")
Texts(id) == {Text(r, id, k) : r \in Reports, k \in 7 .. 40}

ReportFails(s, e) ==
    LET id == Trace[s].ids[head] IN
    IF e.exc # "" THEN {"answers"}
    ELSE (IF e.vers \in Texts(id) THEN {} ELSE {"version"})
    \cup (IF e.full = "" \/ e.full = id THEN {} ELSE {"revision"})

\* an archive has no history: at a tag it reports (one of) the tags of the commit, its revision is stated anyway
ArchiveFails(s, e) ==
    LET id == Trace[s].ids[head]
        here == {t[1] : t \in {t \in tags : t[2] = head}} IN
    IF e.exc # "" THEN {"answers"}
    ELSE (IF here = {} \/ e.vers \in here THEN {} ELSE {"version"})
    \cup (IF here # {} \/ ~ \E t \in tags : e.vers = t[1] THEN {} ELSE {"version"})
    \cup (IF e.full = id THEN {} ELSE {"revision"})

Fails(s, k) == LET e == Ev(s, k) IN
    CASE e.op = "report" -> ReportFails(s, e)
      [] e.op = "archive" -> ArchiveFails(s, e)
      [] e.op = "driver" -> {"driver"}
      [] OTHER -> {}

Act(e) == CASE e.op = "commit" -> Commit
            [] e.op = "tag" -> Tag(e.n)
            [] e.op = "untag" -> Untag(e.n)
            [] e.op = "modify" -> Modify
            [] e.op = "restore" -> Restore
            [] e.op = "litter" -> Litter
            [] e.op = "checkout" -> Checkout(e.c)
            [] e.op = "merge" -> Merge(e.c)
            [] OTHER -> UNCHANGED vvars

TraceInit == sess \in 1 .. Len(Trace) /\ l = 0 /\ VInit
TraceNext == /\ l < Len(Trace[sess].ev)
             /\ l' = l + 1
             /\ UNCHANGED sess
             /\ Act(Ev(sess, l + 1))
             /\ LET f == TLCEval(Fails(sess, l + 1)) IN
                \A n \in f : PrintT(<< "FAIL", sess, l + 1, n >>)
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
