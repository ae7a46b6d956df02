--------------------------------- MODULE Tls ----------------------------------
(* Thread-local objects.  A thread that starts gets its own copy of every
   thread-local object, from the initialiser, whatever the other threads did
   with theirs; an object is only changed by its own thread or through a
   pointer to it, which names the copy of the thread that took the address.
   Batch[k]: n (threads; thread 1 is main), init (per object the elements of
   its initialiser), sched (the steps in the order in which they happen):
     <<t, "start", u>>           thread t creates thread u
     <<t, "set", v, i, x>> <<t, "add", v, i, x>> <<t, "get", v, i>>
     <<t, "pub", v, s>>          pointer s becomes the address of t's v
     <<t, "poke", s, i, x>> <<t, "peek", s, i>> <<t, "same", v, s>>
   Elements are signed bytes' worth of small integers. *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Batch == JsonDeserialize(IOEnv.BATCH)
VARIABLES k, pc, mem, ptr, out
vars == <<k, pc, mem, ptr, out>>
C == Batch[k]
None == <<0, 0>>
Init == /\ k \in DOMAIN Batch /\ pc = 1 /\ out = <<>>
        /\ mem = [t \in 1..Batch[k].n |-> IF t = 1 THEN Batch[k].init ELSE <<>>]
        /\ ptr = [s \in 1..Batch[k].slots |-> None]
Set(t, v, i, x) == mem' = [mem EXCEPT ![t][v][i] = x]
Step ==
  LET s == C.sched[pc]  t == s[1]  op == s[2] IN
  /\ pc <= Len(C.sched) /\ mem[t] # <<>>
  /\ CASE op = "start" -> mem[s[3]] = <<>> /\ mem' = [mem EXCEPT ![s[3]] = C.init] /\ UNCHANGED <<ptr, out>>
       [] op = "set" -> Set(t, s[3], s[4], s[5]) /\ UNCHANGED <<ptr, out>>
       [] op = "add" -> Set(t, s[3], s[4], mem[t][s[3]][s[4]] + s[5]) /\ UNCHANGED <<ptr, out>>
       [] op = "get" -> out' = Append(out, mem[t][s[3]][s[4]]) /\ UNCHANGED <<mem, ptr>>
       [] op = "pub" -> ptr' = [ptr EXCEPT ![s[4]] = <<t, s[3]>>] /\ UNCHANGED <<mem, out>>
       [] op = "poke" -> LET p == ptr[s[3]] IN Set(p[1], p[2], s[4], s[5]) /\ UNCHANGED <<ptr, out>>
       [] op = "peek" -> LET p == ptr[s[3]] IN out' = Append(out, mem[p[1]][p[2]][s[4]]) /\ UNCHANGED <<mem, ptr>>
       [] op = "same" -> out' = Append(out, IF ptr[s[4]] = <<t, s[3]>> THEN 1 ELSE 0) /\ UNCHANGED <<mem, ptr>>
  /\ pc' = pc + 1 /\ UNCHANGED k
  /\ pc' > Len(C.sched) => PrintT("RES " \o ToJson(<<k, out'>>))
Spec == Init /\ [][Step]_vars
\* a step changes the copy of one thread, its own unless it goes through a pointer or starts a thread
Own == [][\A t \in 1..C.n : mem'[t] # mem[t] =>
           /\ \A u \in 1..C.n : u # t => mem'[u] = mem[u]
           /\ C.sched[pc][1] = t \/ C.sched[pc][2] \in {"poke", "start"}]_vars
\* a fresh copy is the initialiser
Fresh == [][\A t \in 1..C.n : mem[t] = <<>> /\ mem'[t] # <<>> => mem'[t] = C.init]_vars
=============================================================================
