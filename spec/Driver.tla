------------------------------- MODULE Driver -------------------------------
(***************************************************************************)
(* The driver as a transition system: the inputs are processed in order,   *)
(* each through the stages (cc1, assembler) that the mode asks for, then   *)
(* the linker runs; the first failing stage ends the run.  TLC enumerates  *)
(* every configuration of mode, inputs, -o, -x and failing stages within   *)
(* the bounds and prints for each the final status, the files written, the *)
(* commands run and the standard output.                                   *)
(* An input is <<kind, id>>; kinds:                                        *)
(*   c cbad cmiss cdir cas  C source: good, rejected, missing, a directory,*)
(*                          rejected by the assembler                      *)
(*   s smiss sas            assembly: good, missing, rejected              *)
(*   o a so                 linker inputs                                  *)
(*   l wl                   -lname, -Wl,a,b                                *)
(*   unk                    a C or assembly text whose name has no known   *)
(*                          extension                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Wide,      \* kinds used in sequences of up to MaxWide inputs
          MaxWide,
          Narrow,    \* kinds used in sequences of exactly MaxNarrow inputs
          MaxNarrow
VARIABLES cf, i, ph, files, tmps, ldargs, log, out, status
vars == <<cf, i, ph, files, tmps, ldargs, log, out, status>>

SeqsOf(S, n) == [1..n -> S]
Kinds == (UNION {SeqsOf(Wide, n) : n \in 1..MaxWide}) \cup SeqsOf(Narrow, MaxNarrow)
CKinds == {"c", "cbad", "cmiss", "cdir", "cas"}
SKinds == {"s", "smiss", "sas"}
Compiled(k, x) == (x = "" /\ k \in CKinds) \/ x = "c"
Asm(k, x) == (x = "" /\ k \in SKinds) \/ x = "assembler"
LinkIn == {"o", "a", "so"}

\* combinations whose meaning nobody fixes are left out
Sensible(c) ==
  /\ c.mode = "E" => \A n \in DOMAIN c.kinds : c.kinds[n] \in CKinds \cup (IF c.x = "c" THEN {"unk"} ELSE {})
  /\ c.x = "c" => \A n \in DOMAIN c.kinds : c.kinds[n] \in CKinds \cup {"unk"}
  /\ c.x = "assembler" => \A n \in DOMAIN c.kinds : c.kinds[n] \in SKinds \cup {"unk"}
  /\ (c.out # "none" /\ c.mode # "L" /\ Len(c.kinds) > 1) => \A n \in DOMAIN c.kinds : c.kinds[n] \notin {"l", "wl"}
  /\ c.ld # "ok" => c.mode = "L"
  /\ c.as # "fail" => \E n \in DOMAIN c.kinds : c.kinds[n] \in {"cas", "sas"}
  /\ c.out = "stdout" => c.mode \in {"S", "E"}
  /\ c.x # "" => c.ld = "ok" /\ c.as = "fail" /\ c.extra = ""
  /\ c.extra # "" => c.mode = "L" /\ c.ld = "ok" /\ Len(c.kinds) = 1
  /\ c.cl # "ok" => c.extra = "" /\ c.ld = "ok" /\ c.as = "fail" /\ c.x = "" /\ c.kinds = <<"c">> /\ c.out \in {"none", "file"}
Configs == {c \in [mode : {"E", "S", "c", "L"}, kinds : Kinds, out : {"none", "file", "nodir", "full", "stdout"},
                   x : {"", "c", "assembler"}, ld : {"ok", "fail", "kill", "missing"}, as : {"fail", "kill", "missing"},
                   extra : {"", "static", "shared", "L", "Xlinker", "s"},
                   cl : {"ok", "unknown option", "missing argument", "no input"}] : Sensible(c)}

N == Len(cf.kinds)
K == cf.kinds[i]
Put(f, name, v) == [x \in DOMAIN f \cup {name} |-> IF x = name THEN v ELSE f[x]]
\* the place of the result of input n: the -o file, or <name><ext> in the working directory
Dest(ext) == IF cf.out = "none" THEN "in" \o ToString(i) \o ext ELSE cf.out
OutOK == cf.out \notin {"nodir", "full"}
AsOK(k) == k \notin {"cas", "sas", "smiss"} /\ cf.as # "missing"

Init == /\ cf \in Configs
        /\ i = 1 /\ ph = "start" /\ files = <<>> /\ tmps = 0 /\ ldargs = <<>> /\ log = <<>> /\ out = <<>> /\ status = 0

Exit(s) == ph' = "exit" /\ status' = s /\ tmps' = 0     \* the temporary files go
Stop(s) == Exit(s) /\ UNCHANGED <<i, files, ldargs, log, out>>
NextInput == ph' = "input" /\ i' = i + 1

Start == /\ ph = "start"
         /\ IF cf.cl # "ok" \/ (N > 1 /\ cf.out # "none" /\ cf.mode # "L") THEN Stop(1)
            ELSE ph' = "input" /\ UNCHANGED <<i, files, tmps, ldargs, log, out, status>>
Input ==
  /\ ph = "input" /\ i <= N
  /\ CASE K \in {"l", "wl"} -> NextInput /\ ldargs' = Append(ldargs, <<K, i>>) /\ UNCHANGED <<files, tmps, log, out, status>>
       [] Compiled(K, cf.x) -> ph' = "cc1" /\ UNCHANGED <<i, files, tmps, ldargs, log, out, status>>
       [] Asm(K, cf.x) -> (IF cf.mode = "S" THEN NextInput ELSE ph' = "as" /\ i' = i) /\ UNCHANGED <<files, tmps, ldargs, log, out, status>>
       [] K \in LinkIn -> NextInput /\ ldargs' = Append(ldargs, <<"obj", i>>) /\ UNCHANGED <<files, tmps, log, out, status>>
       [] OTHER -> Stop(1)
Cc1 ==
  /\ ph = "cc1"
  /\ IF K \notin {"c", "cas", "unk"} THEN Stop(1)
     ELSE IF cf.mode \in {"E", "S"}
     THEN IF ~OutOK THEN Stop(1)
          ELSE /\ NextInput
               /\ IF cf.out = "stdout" \/ (cf.mode = "E" /\ cf.out = "none")
                  THEN out' = Append(out, i) /\ files' = files
                  ELSE files' = Put(files, Dest(".s"), <<IF cf.mode = "E" THEN "pp" ELSE "asm", i>>) /\ out' = out
               /\ UNCHANGED <<tmps, ldargs, log, status>>
     ELSE ph' = "as" /\ tmps' = tmps + 1 /\ UNCHANGED <<i, files, ldargs, log, out, status>>
As ==
  /\ ph = "as"
  /\ IF ~AsOK(K) \/ (cf.mode = "c" /\ ~OutOK)
     THEN Exit(1) /\ log' = (IF cf.as = "missing" THEN log ELSE Append(log, <<"as", i>>)) /\ UNCHANGED <<i, files, ldargs, out>>
     ELSE /\ NextInput /\ log' = Append(log, <<"as", i>>)
          /\ IF cf.mode = "c" THEN files' = Put(files, Dest(".o"), <<"obj", i>>) /\ UNCHANGED <<ldargs, tmps>>
             ELSE ldargs' = Append(ldargs, <<"obj", i>>) /\ tmps' = tmps + 1 /\ files' = files
          /\ UNCHANGED <<out, status>>
Link ==
  /\ ph = "input" /\ i > N
  /\ IF cf.mode # "L" \/ ldargs = <<>> THEN Stop(0)
     ELSE IF cf.ld = "missing" THEN Stop(1)
     ELSE /\ log' = Append(log, <<"ld", ldargs>>)
          /\ IF cf.ld # "ok" \/ ~OutOK THEN Exit(1) /\ files' = files
             ELSE Exit(0) /\ files' = Put(files, IF cf.out = "none" THEN "a.out" ELSE cf.out, <<"exe", 0>>)
          /\ UNCHANGED <<i, ldargs, out>>
\* start-up objects framing the linker's inputs, and whether a dynamic linker is named
Frame == IF cf.extra = "shared" THEN <<<<"crti.o", "crtbeginS.o">>, <<"crtendS.o", "crtn.o">>>>
         ELSE <<<<"crt1.o", "crti.o", "crtbeginT.o">>, <<"crtend.o", "crtn.o">>>>
Next == /\ Start \/ Input \/ Cc1 \/ As \/ Link
        /\ cf' = cf
        /\ (ph' = "exit" => PrintT("RES " \o ToJson(<<cf, status', [n \in DOMAIN files' |-> files'[n]], log', out', Frame>>)))
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* ------------------------------------------------------------- properties
NoTmpLeft == ph = "exit" => tmps = 0
\* the status tells exactly whether some stage failed
Bad(n) == LET k == cf.kinds[n] IN
  \/ Compiled(k, cf.x) /\ (k \notin {"c", "cas", "unk"} \/ (cf.mode \in {"c", "L"} /\ (k = "cas" \/ cf.as = "missing")))
  \/ Asm(k, cf.x) /\ cf.mode # "S" /\ (k \in {"sas", "smiss"} \/ cf.as = "missing")
  \/ (~Compiled(k, cf.x) /\ ~Asm(k, cf.x) /\ k = "unk")
StatusOK == ph = "exit" /\ status = 0 => cf.cl = "ok" /\ \A n \in 1..N : ~Bad(n)
StatusBad == ph = "exit" /\ status = 1 =>
  \/ \E n \in 1..N : Bad(n)
  \/ N > 1 /\ cf.out # "none" /\ cf.mode # "L"
  \/ ~OutOK \/ cf.ld # "ok" \/ cf.cl # "ok"
\* each input is assembled at most once, in order, and the linker runs last and once
InOrder == \A a, b \in DOMAIN log : a < b => log[a][1] = "as" /\ (log[b][1] = "as" => log[a][2] < log[b][2])
Ends == <>(ph = "exit")
=============================================================================
