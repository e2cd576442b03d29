------------------------------ MODULE HooqStore ------------------------------
(***************************************************************************)
(* One process expands items of several projects. Between expansions files *)
(* change and the current project changes. Each expansion sees the         *)
(* hooq.toml of its own project, as first read, and the name under which   *)
(* its own project knows the hooq crate.                                   *)
(*                                                                         *)
(* A history is what is done in one process, with the outcome each         *)
(* expansion must have; histories are written out and played to the real   *)
(* macro.                                                                  *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Projects,    \* directories
          Depth        \* length of the histories written out

Good == {"v1", "v2", "v3"}
Bad == {"syntax", "kind", "empty"}       \* not toml; an unknown target kind; a forbidden flavor name
Contents == Good \cup Bad \cup {"none"}

\* Cargo.toml: absent; hooq as it is; renamed; only hooq-macros; the crate itself
Manifests == {"absent", "plain", "renamed", "macros", "itself"}

\* "." stands for a process that is not told its project: it looks where it runs, and knows no Cargo.toml
CrateName(p, m) == CASE p = "." -> "hooq" [] m = "renamed" -> "hq" [] m = "macros" -> "hooq_macros" [] OTHER -> "hooq"

Kinds == {"default", "mine", "anyhow", "nope", "empty", "rep"}

VARIABLES disk, manifest, cache, cur, hist, firsts

vars == <<disk, manifest, cache, cur, hist, firsts>>
Last == hist[Len(hist)]
View == <<disk, manifest, cache, cur, firsts, Last>>

Init ==
  /\ disk = [p \in Projects |-> "none"]
  /\ manifest = [p \in Projects |-> "absent"]
  /\ cache = [p \in Projects |-> "unread"]
  /\ cur \in Projects
  /\ hist = <<[op |-> "go", p |-> cur, x |-> "", out |-> ""]>>
  \* what each project's good files were, from its first successful read on
  /\ firsts = [p \in Projects |-> <<>>]

Log(op, p, x, out) == hist' = Append(hist, [op |-> op, p |-> p, x |-> x, out |-> out])

Save(p, c) ==
  /\ disk[p] # c
  /\ disk' = [disk EXCEPT ![p] = c]
  /\ Log("toml", p, c, "")
  /\ UNCHANGED <<manifest, cache, cur, firsts>>

Depend(p, m) ==
  /\ manifest[p] # m
  /\ manifest' = [manifest EXCEPT ![p] = m]
  /\ Log("cargo", p, m, "")
  /\ UNCHANGED <<disk, cache, cur, firsts>>

Go(p) ==
  /\ cur # p
  /\ cur' = p
  /\ Log("go", p, "", "")
  /\ UNCHANGED <<disk, manifest, cache, firsts>>

InForce(p) == IF cache[p] # "unread" THEN cache[p] ELSE disk[p]

\* "error", "same" (nothing of the project is in it), or whose method is inserted
Outcome(p, kind) ==
  LET c == InForce(p)
      builtin == "builtin " \o CrateName(p, manifest[p])
  IN
  CASE c \in Bad -> "error"
    [] kind = "nope" -> "error"
    [] kind = "default" -> IF c \in {"v1", "v2"} THEN p \o " " \o c ELSE builtin
    [] kind = "mine" -> IF c \in {"v2", "v3"} THEN p \o " " \o c \o " mine" ELSE "error"
    [] kind = "anyhow" -> IF c = "v3" THEN p \o " v3 anyhow" ELSE builtin
    [] kind \in {"empty", "rep"} -> "same"

Expand(kind) ==
  /\ cache' = [cache EXCEPT ![cur] = IF InForce(cur) \in Good THEN InForce(cur) ELSE @]
  /\ firsts' = [firsts EXCEPT ![cur] = IF @ = <<>> /\ disk[cur] \in Good THEN <<disk[cur]>> ELSE @]
  /\ Log("expand", cur, kind, Outcome(cur, kind))
  /\ UNCHANGED <<disk, manifest, cur>>

Next ==
  \/ \E p \in Projects, c \in Contents : Save(p, c)
  \/ \E p \in Projects, m \in Manifests : Depend(p, m)
  \/ \E p \in Projects : Go(p)
  \/ \E k \in Kinds : Expand(k)

Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* Histories to be played. TLC takes any successor with the same chance, so  *)
(* `weight' makes some steps more frequent: an edit is mostly looked at.    *)
Edited == Last.op \in {"toml", "cargo"}

GenNext ==
  \/ /\ ~Edited
     /\ \/ \E p \in Projects, c \in Contents, weight \in 1..3 : (weight = 1 \/ c \in Good) /\ Save(p, c)
        \/ \E p \in Projects, m \in Manifests : Depend(p, m)
        \/ \E p \in Projects, weight \in 1..5 : Last.op # "go" /\ Go(p)
        \/ \E k \in Kinds, weight \in 1..8 : (weight > 4 => Last.op = "go") /\ Expand(k)
  \/ /\ Edited
     /\ \/ \E weight \in 1..8 : Last.p # cur /\ Go(Last.p)
        \/ \E k \in Kinds : Expand(k)

Written == Len(hist) = Depth => PrintT("HIST " \o ToJson(hist))

-----------------------------------------------------------------------------
(* What a user relies on, said without the cache. *)

\* nothing invalid is ever kept, and what is kept is the first good file read
KeptIsFirst == \A p \in Projects : cache[p] # "unread" => cache[p] \in Good /\ firsts[p] = <<cache[p]>>

\* no expansion shows another project's methods
OwnMethods ==
  (Last.op = "expand" /\ Last.out \notin {"error", "same"}) =>
    \A q \in Projects \ {Last.p} : \A c \in Good, s \in {"", " mine", " anyhow"} : Last.out # q \o " " \o c \o s

\* a good file that has been read outlives whatever is written later; a bad one never does
Repairable ==
  (Last.op = "expand" /\ Last.x = "empty") =>
    (Last.out = "error" <=> (firsts[Last.p] = <<>> /\ disk[Last.p] \in Bad))
=============================================================================
