-------------------------------- MODULE Deps --------------------------------
(***************************************************************************)
(* The dependency output.  The command line is read option by option (one  *)
(* transition each); the final state determines where the rule goes, the   *)
(* text of its target, the files it lists and the phony targets.  The set  *)
(* of opened files comes from a behaviour of Preproc.                      *)
(*   src:   base name of the source file                                   *)
(*   files: [n |-> path, op |-> 1 if opened, sys |-> 1 if it lies in a     *)
(*          standard directory]; the first is the source                   *)
(*   opts:  <<name, argument>> in command-line order                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

Batch == JsonDeserialize(IOEnv.BATCH)
VARIABLES w, i, cfg, st
vars == <<w, i, cfg, st>>
Wd == Batch[w]

Ch(s, k) == SubSeq(s, k, k)
Idx(n) == [k \in 1..n |-> k]
\* quoting for make: $ doubled, # escaped, blanks escaped and the backslashes before them doubled
Quote(s) ==
  FoldLeft(LAMBDA a, k :
     LET c == Ch(s, k) IN
     IF c = "\\" THEN [o |-> a.o \o c, b |-> a.b \o c]
     ELSE IF c \in {" ", "\t"} THEN [o |-> a.o \o a.b \o "\\" \o c, b |-> ""]
     ELSE [o |-> a.o \o (IF c = "$" THEN "$$" ELSE IF c = "#" THEN "\\#" ELSE c), b |-> ""],
   [o |-> "", b |-> ""], Idx(Len(s))).o
\* last component without its extension
Base(s) == LET sl == {k \in 1..Len(s) : Ch(s, k) = "/"}
               a == IF sl = {} THEN 1 ELSE (CHOOSE k \in sl : \A j \in sl : j <= k) + 1
               b == SubSeq(s, a, Len(s))
               dots == {k \in 1..Len(b) : Ch(b, k) = "."}
           IN IF dots = {} THEN b ELSE SubSeq(b, 1, (CHOOSE k \in dots : \A j \in dots : j <= k) - 1)

Init == /\ w \in 1..Len(Batch) /\ i = 1 /\ st = "read"
        /\ cfg = [M |-> FALSE, MD |-> FALSE, user |-> FALSE, MP |-> FALSE, MF |-> "", T |-> <<>>, out |-> ""]
Read ==
  /\ st = "read" /\ i <= Len(Wd.opts)
  /\ LET o == Wd.opts[i][1]  v == Wd.opts[i][2] IN
     cfg' = CASE o = "M" -> [cfg EXCEPT !.M = TRUE]
              [] o = "MD" -> [cfg EXCEPT !.MD = TRUE]
              [] o = "MMD" -> [cfg EXCEPT !.MD = TRUE, !.user = TRUE]
              [] o = "MP" -> [cfg EXCEPT !.MP = TRUE]
              [] o = "MF" -> [cfg EXCEPT !.MF = v]
              [] o = "MT" -> [cfg EXCEPT !.T = Append(@, v)]
              [] o = "MQ" -> [cfg EXCEPT !.T = Append(@, Quote(v))]
              [] o = "o" -> [cfg EXCEPT !.out = v]
              [] OTHER -> cfg
  /\ i' = i + 1 /\ UNCHANGED <<w, st>>
Place == IF cfg.MF # "" THEN cfg.MF
         ELSE IF cfg.MD THEN Base(IF cfg.out # "" THEN cfg.out ELSE Wd.src) \o ".d"
         ELSE IF cfg.out # "" THEN cfg.out ELSE "-"
Target == IF cfg.T = <<>> THEN Quote(Base(Wd.src) \o ".o")
          ELSE FoldLeft(LAMBDA a, k : a \o (IF k > 1 THEN " " ELSE "") \o cfg.T[k], "", Idx(Len(cfg.T)))
Listed == {k \in DOMAIN Wd.files : Wd.files[k].op = 1 /\ ~(cfg.user /\ Wd.files[k].sys = 1)}
Phony == IF cfg.MP THEN Listed \ {1} ELSE {}
Write ==
  /\ st = "read" /\ i > Len(Wd.opts)
  /\ st' = "done"
  /\ PrintT("RES " \o ToJson(<<w, Place, Target, SetToSeq({Wd.files[k].n : k \in Listed}), SetToSeq({Wd.files[k].n : k \in Phony})>>))
  /\ UNCHANGED <<w, i, cfg>>
Next == Read \/ Write
Spec == Init /\ [][Next]_vars
\* the source is always listed, the phony targets are listed prerequisites, and quoting leaves no bare blank
SourceListed == st = "done" => 1 \in Listed /\ Phony \subseteq Listed
NoBareBlank == LET q == Quote(Wd.src) IN \A k \in 1..Len(q) : Ch(q, k) = " " => k > 1 /\ Ch(q, k - 1) = "\\"
=============================================================================
