------------------------------ MODULE ScopeLink ------------------------------
(* Scopes of identifiers, name spaces and linkage (C11 6.2.1 - 6.2.3, 6.7.4,
   6.9), from several translation units to the running program.

   Phase 1 walks every translation unit item by item: the state is the stack of
   scopes (ordinary identifiers and tags apart), the table of names with
   linkage of the unit, and the entities (objects and functions) of the whole
   program.  Every use is resolved to an entity there and becomes an action of
   the function around it.  At the end of a unit the symbols its object file
   must, may and must not have follow from the table.
   Phase 2 runs the program: it starts main and collects what is printed.

   items:  <<"obj", name, sto, tls, val, len>>   int name / name[len]; val -1: no initialiser;
                                                 len 0: scalar, -1: unknown length
           <<"objs", name, len>>                 automatic, initialised by sizeof(name)
           <<"objc", name, src>>                 automatic, initialised by src
           <<"arrn", name, src>>                 automatic char name[sizeof(src)]
           <<"fptr", name, sto, f>>              int (*name)(void) = f
           <<"fdecl", name, sto, inl>>           <<"fdef", name, sto, inl, params, id>>  <<"fend">>
           <<"type", name, n>>                   typedef char name[n]
           <<"typen", name, src>>                typedef char name[sizeof(src)]
           <<"typed", name, src>>                typedef src name
           <<"enum", tag, <<form, name, v>>...>> form "v": = v, "n": none, "u": = v + 1 for the enumerator v
           <<"tag", kw, tag, n>>                 kw tag { char a[n]; }
           <<"tagp", kw, tag, n, kw2, tag2>>     kw tag { char a[n]; kw2 tag2 *p; }
           <<"tfwd", kw, tag>>                   kw tag;
           <<"tptr", kw, tag, name>>             static kw tag *name;
           <<"open">> <<"close">>  <<"for", name, v>> <<"endfor">>
           <<"use", name, how>>                  how: val inc size
           <<"call", name, args>>  <<"skip", name>>  <<"memb", name, v>>
           <<"usetag", kw, tag>>   <<"usep", kw, tag>> (sizeof *((kw tag *)0)->p)  <<"deref", name>>  *)
EXTENDS Integers, Sequences, TLC, TLCExt, Json, IOUtils, SequencesExt, FiniteSetsExt
Batch == JsonDeserialize(IOEnv.BATCH)
VARIABLES k, tu, pc, sc, lnk, ents, tags, ext, cur, syms, mode
vars == <<k, tu, pc, sc, lnk, ents, tags, ext, cur, syms, mode>>
Nil == [x \in {} |-> 0]
NewScope == [v |-> Nil, t |-> Nil]
W == Batch[k]
Items == W.tus[tu]
It == Items[pc]
FileScope == Len(sc) = 1

\* ------------------------------------------------------------ visibility
\* a declaration is visible from the end of its declarator to the end of its
\* scope, except where an inner one of the same name space hides it
LookV(nm) == LET S == {i \in DOMAIN sc : nm \in DOMAIN sc[i].v} IN IF S = {} THEN <<"none">> ELSE sc[Max(S)].v[nm]
LookT(nm) == LET S == {i \in DOMAIN sc : nm \in DOMAIN sc[i].t} IN IF S = {} THEN 0 ELSE sc[Max(S)].t[nm]
BindV(s, nm, b) == [s EXCEPT ![Len(s)].v = (nm :> b) @@ @]
BindT(s, nm, b) == [s EXCEPT ![Len(s)].t = (nm :> b) @@ @]
\* bindings: <<"obj", entity, len, unit size>>  <<"fun", entity>>  <<"type", size>>  <<"enum", value>>  <<"tptr", tag>>  <<"fptr", entity>>
Sizeof(b) == CASE b[1] = "obj" -> (IF b[3] = 0 THEN b[4] ELSE IF b[3] < 0 THEN -1 ELSE b[3] * b[4])
               [] b[1] = "type" -> b[2] [] b[1] = "enum" -> 4 [] b[1] \in {"tptr", "fptr"} -> 8 [] OTHER -> -1

\* --------------------------------------------------------------- linkage
Linked(b) == b[1] \in {"obj", "fun", "fptr"} /\ ents[b[2]].link # "n"
\* linkage of a declaration: functions without storage class are as with extern
LinkOf(nm, sto, fun) ==
  LET b == LookV(nm) IN
  IF sto = "static" /\ FileScope THEN "i"
  ELSE IF sto = "extern" \/ (fun /\ sto = "") THEN (IF Linked(b) THEN ents[b[2]].link ELSE "e")
  ELSE IF FileScope THEN "e" ELSE "n"
Ent(kind, nm, link, tls) == [kind |-> kind, name |-> nm, link |-> link, tls |-> tls, init |-> 0, body |-> <<>>, params |-> <<>>, id |-> 0]
\* the entity: one per program for external linkage, one per unit for internal
EntFor(nm, link) == IF nm \in DOMAIN lnk /\ lnk[nm].link = link THEN lnk[nm].e ELSE IF link = "e" /\ nm \in DOMAIN ext THEN ext[nm] ELSE 0
Entry(e, link, kind, tls) == [e |-> e, link |-> link, kind |-> kind, tls |-> tls, def |-> "none", used |-> FALSE, sin |-> TRUE, inl |-> TRUE, refs |-> {}, len |-> 0]

\* the ways a world can be outside the language are reported, not repaired
Bad(why) == /\ mode' = "done" /\ PrintT("RES " \o ToJson(<<k, "bad", <<why, tu, pc>>, <<>>>>))
            /\ UNCHANGED <<k, tu, pc, sc, lnk, ents, tags, ext, cur, syms>>
Go == pc' = pc + 1 /\ UNCHANGED <<k, tu, mode, syms>>
Act(es, a) == IF cur = 0 THEN es ELSE [es EXCEPT ![cur].body = Append(@, a)]
\* a use of an entity with linkage: noted for the symbol table and for what keeps inline functions
Refer(l, e, own) == IF ents[e].link = "n" THEN l
               ELSE LET nm == ents[e].name IN
                    [x \in DOMAIN l |-> IF x = nm THEN [l[x] EXCEPT !.used = TRUE]
                                        ELSE IF x = own THEN [l[x] EXCEPT !.refs = @ \cup {nm}] ELSE l[x]]
Own == IF cur = 0 THEN "" ELSE ents[cur].name

\* declare a name with linkage: new l, es, x (ext) and the entity
Declare(nm, kind, link, tls) ==
  LET e0 == EntFor(nm, link)
      e == IF e0 = 0 THEN Len(ents) + 1 ELSE e0
      es == IF e0 = 0 THEN Append(ents, Ent(kind, nm, link, tls)) ELSE ents
      l == IF nm \in DOMAIN lnk THEN lnk ELSE (nm :> Entry(e, link, kind, tls)) @@ lnk
      x == IF link = "e" THEN (nm :> e) @@ ext ELSE ext
  IN <<e, es, l, x>>
\* C11 6.7p3, 6.2.2p7: no mixture of kinds or linkages, no second definition
Clash(nm, kind, link, tls) ==
  LET b == IF nm \in DOMAIN sc[Len(sc)].v THEN sc[Len(sc)].v[nm] ELSE <<"none">> IN
  \/ nm \in DOMAIN lnk /\ link # "n" /\ (lnk[nm].link # link \/ lnk[nm].kind # kind \/ lnk[nm].tls # tls)
  \/ link = "n" /\ b[1] # "none"
  \/ link # "n" /\ b[1] # "none" /\ ~Linked(b)
CompLen(nm, e, len) == LET b == LookV(nm) IN IF len = -1 /\ b[1] = "obj" /\ b[2] = e THEN b[3] ELSE len
UpDef(d, new) == IF d = "def" \/ new = "def" THEN "def" ELSE IF d = "tent" \/ new = "tent" THEN "tent" ELSE "none"

DeclObj ==
  /\ It[1] = "obj"
  /\ LET nm == It[2]  sto == It[3]  tls == It[4]  val == It[5]  len == It[6]
         link == LinkOf(nm, sto, FALSE)
     IN IF Clash(nm, "obj", link, tls) \/ (sto = "extern" /\ ~FileScope /\ val >= 0) THEN Bad("clash " \o nm)
        ELSE IF link = "n" THEN
          LET e == Len(ents) + 1
              e1 == [Ent("obj", nm, "n", tls) EXCEPT !.init = IF sto = "static" /\ val >= 0 THEN val ELSE 0]
              es == Append(ents, e1)
          IN /\ ents' = (IF sto = "static" THEN es ELSE Act(es, <<"set", e, val>>))
             /\ sc' = BindV(sc, nm, <<"obj", e, len, 4>>)
             /\ Go /\ UNCHANGED <<lnk, tags, ext, cur>>
        ELSE
          LET d == Declare(nm, "obj", link, tls)  e == d[1]
              new == IF val >= 0 THEN "def" ELSE IF sto = "extern" THEN "none" ELSE "tent"
              clen == CompLen(nm, e, len)
          IN IF new = "def" /\ d[3][nm].def = "def" THEN Bad("redefinition " \o nm)
             ELSE /\ ents' = (IF val >= 0 THEN [d[2] EXCEPT ![e].init = val] ELSE d[2])
                  /\ lnk' = [d[3] EXCEPT ![nm].def = UpDef(@, new), ![nm].len = IF clen # 0 /\ FileScope THEN clen ELSE @]
                  /\ ext' = d[4] /\ sc' = BindV(sc, nm, <<"obj", e, clen, 4>>)
                  /\ Go /\ UNCHANGED <<tags, cur>>
\* the scope of a name begins after its declarator: its initialiser sees it, its array bounds do not
DeclSelf ==
  /\ It[1] = "objs"
  /\ LET e == Len(ents) + 1 IN
     IF Clash(It[2], "obj", "n", 0) THEN Bad("clash " \o It[2])
     ELSE /\ ents' = Act(Append(ents, Ent("obj", It[2], "n", 0)), <<"set", e, IF It[3] = 0 THEN 4 ELSE 4 * It[3]>>)
          /\ sc' = BindV(sc, It[2], <<"obj", e, It[3], 4>>) /\ Go /\ UNCHANGED <<lnk, tags, ext, cur>>
DeclCopy ==
  /\ It[1] = "objc"
  /\ LET e == Len(ents) + 1  b == LookV(It[3]) IN
     IF Clash(It[2], "obj", "n", 0) \/ b[1] \notin {"obj", "enum"} \/ It[2] = It[3] \/ (b[1] = "obj" /\ b[4] # 4) THEN Bad("copy " \o It[2])
     ELSE /\ ents' = Act(Append(ents, Ent("obj", It[2], "n", 0)), IF b[1] = "enum" THEN <<"set", e, b[2]>> ELSE <<"copy", e, b[2]>>)
          /\ lnk' = (IF b[1] = "obj" THEN Refer(lnk, b[2], Own) ELSE lnk)
          /\ sc' = BindV(sc, It[2], <<"obj", e, 0, 4>>) /\ Go /\ UNCHANGED <<tags, ext, cur>>
DeclArr ==
  /\ It[1] \in {"arrn", "typen"}
  /\ LET e == Len(ents) + 1  n == Sizeof(LookV(It[3])) IN
     IF Clash(It[2], "obj", "n", 0) \/ n <= 0 THEN Bad("array " \o It[2])
     ELSE /\ ents' = (IF It[1] = "arrn" THEN Append(ents, Ent("obj", It[2], "n", 0)) ELSE ents)
          /\ sc' = BindV(sc, It[2], IF It[1] = "arrn" THEN <<"obj", e, n, 1>> ELSE <<"type", n>>)
          /\ Go /\ UNCHANGED <<lnk, tags, ext, cur>>
DeclPtr ==
  /\ It[1] = "fptr"
  /\ LET nm == It[2]  f == LookV(It[4])
         link == LinkOf(nm, It[3], FALSE)
     IN IF f[1] # "fun" \/ nm = It[4] \/ Clash(nm, "fptr", link, 0) \/ (link # "n" /\ nm \in DOMAIN lnk) THEN Bad("fptr " \o nm)
        ELSE IF link = "n" THEN
          LET e == Len(ents) + 1  es == Append(ents, [Ent("fptr", nm, "n", 0) EXCEPT !.init = IF It[3] = "static" THEN f[2] ELSE 0]) IN
          /\ ents' = (IF It[3] = "static" THEN es ELSE Act(es, <<"set", e, f[2]>>))
          /\ lnk' = Refer(lnk, f[2], Own) /\ sc' = BindV(sc, nm, <<"fptr", e>>) /\ Go /\ UNCHANGED <<tags, ext, cur>>
        ELSE
          LET d == Declare(nm, "fptr", link, 0) IN
          /\ ents' = [d[2] EXCEPT ![d[1]].init = f[2]]
          /\ lnk' = Refer([d[3] EXCEPT ![nm].def = "def"], f[2], nm)
          /\ ext' = d[4] /\ sc' = BindV(sc, nm, <<"fptr", d[1]>>) /\ Go /\ UNCHANGED <<tags, cur>>
\* functions: sin = every declaration so far static inline, inl = every file-scope one inline without extern
FunFlags(l, nm, sto, inl, def) ==
  [l EXCEPT ![nm].inl = @ /\ (FileScope => (inl = 1 /\ sto # "extern")), ![nm].sin = @ /\ (FileScope => inl = 1), ![nm].def = UpDef(@, def)]
DeclFun ==
  /\ It[1] = "fdecl"
  /\ LET nm == It[2]  link == LinkOf(nm, It[3], TRUE) IN
     IF Clash(nm, "fun", link, 0) THEN Bad("clash " \o nm)
     ELSE LET d == Declare(nm, "fun", link, 0) IN
          /\ ents' = d[2] /\ lnk' = FunFlags(d[3], nm, It[3], It[4], "none") /\ ext' = d[4]
          /\ sc' = BindV(sc, nm, <<"fun", d[1]>>) /\ Go /\ UNCHANGED <<tags, cur>>
BeginFun ==
  /\ It[1] = "fdef"
  /\ LET nm == It[2]  link == LinkOf(nm, It[3], TRUE)  ps == It[5] IN
     IF ~FileScope \/ Clash(nm, "fun", link, 0) \/ (nm \in DOMAIN lnk /\ lnk[nm].def = "def") THEN Bad("fdef " \o nm)
     ELSE LET d == Declare(nm, "fun", link, 0)  e == d[1]
              pe == [i \in DOMAIN ps |-> Len(d[2]) + i]
          IN /\ ents' = [i \in 1..(Len(d[2]) + Len(ps)) |->
                           IF i = e THEN [d[2][e] EXCEPT !.id = It[6], !.body = <<>>, !.params = pe]
                           ELSE IF i <= Len(d[2]) THEN d[2][i] ELSE Ent("obj", ps[i - Len(d[2])], "n", 0)]
             /\ lnk' = FunFlags(d[3], nm, It[3], It[4], "def") /\ ext' = d[4] /\ cur' = e
             /\ sc' = Append(BindV(sc, nm, <<"fun", e>>),
                             [NewScope EXCEPT !.v = FoldLeft(LAMBDA a, i : (ps[i] :> <<"obj", pe[i], 0, 4>>) @@ a, Nil, [i \in DOMAIN ps |-> i])])
             /\ Go /\ UNCHANGED tags
EndFun == /\ It[1] = "fend" /\ cur' = 0 /\ sc' = Front(sc) /\ Go /\ UNCHANGED <<lnk, ents, tags, ext>>

\* ---------------------------------------- type names, enumerators and tags
DeclType ==
  /\ It[1] \in {"type", "typed"}
  /\ LET b == IF It[1] = "type" THEN <<"type", It[3]>> ELSE LookV(It[3]) IN
     IF b[1] # "type" \/ Clash(It[2], "type", "n", 0) THEN Bad("typedef " \o It[2])
     ELSE sc' = BindV(sc, It[2], b) /\ Go /\ UNCHANGED <<lnk, ents, tags, ext, cur>>
\* an enumerator is visible from its own end on
EnumStep(a, m) == \* a = <<scopes, next value, ok>>
  LET s == a[1]
      look(nm) == LET S == {i \in DOMAIN s : nm \in DOMAIN s[i].v} IN IF S = {} THEN <<"none">> ELSE s[Max(S)].v[nm]
      v == CASE m[1] = "v" -> m[3] [] m[1] = "n" -> a[2] [] m[1] = "u" -> (IF look(m[3])[1] = "enum" THEN look(m[3])[2] + 1 ELSE -1)
  IN <<BindV(s, m[2], <<"enum", v>>), v + 1, a[3] /\ v >= 0 /\ m[2] \notin DOMAIN s[Len(s)].v>>
DeclEnum ==
  /\ It[1] = "enum"
  /\ LET r == FoldLeft(EnumStep, <<sc, 0, TRUE>>, It[3]) IN
     IF ~r[3] \/ (It[2] # "" /\ It[2] \in DOMAIN sc[Len(sc)].t) THEN Bad("enum")
     ELSE /\ sc' = (IF It[2] = "" THEN r[1] ELSE BindT(r[1], It[2], Len(tags) + 1))
          /\ tags' = (IF It[2] = "" THEN tags ELSE Append(tags, <<"enum", 4, 0>>))
          /\ Go /\ UNCHANGED <<lnk, ents, ext, cur>>
Up8(n) == ((n + 7) \div 8) * 8
LocalTag(s, tg) == IF tg \in DOMAIN s[Len(s)].t THEN s[Len(s)].t[tg] ELSE 0
\* kw tag with neither list nor other use of the tag visible: declared here, incomplete
RefTag(s, ts, kw, tg, i) == IF i # 0 THEN <<s, ts, i>> ELSE <<BindT(s, tg, Len(ts) + 1), Append(ts, <<kw, -1, 0>>), Len(ts) + 1>>
LookTs(s, nm) == LET S == {i \in DOMAIN s : nm \in DOMAIN s[i].t} IN IF S = {} THEN 0 ELSE s[Max(S)].t[nm]
DefTag ==
  /\ It[1] \in {"tag", "tagp"}
  /\ LET kw == It[2]  n == It[4]
         r == RefTag(sc, tags, kw, It[3], LocalTag(sc, It[3]))      \* the tag is in scope in its own list
         q == IF It[1] = "tag" THEN <<r[1], r[2], 0>> ELSE RefTag(r[1], r[2], It[5], It[6], LookTs(r[1], It[6]))
         size == IF It[1] = "tag" THEN n ELSE IF kw = "struct" THEN Up8(n) + 8 ELSE Up8(IF n < 8 THEN 8 ELSE n)
     IN IF r[2][r[3]][1] # kw \/ r[2][r[3]][2] # -1 \/ (It[1] = "tagp" /\ q[2][q[3]][1] # It[5]) THEN Bad("tag " \o It[3])
        ELSE sc' = q[1] /\ tags' = [q[2] EXCEPT ![r[3]] = <<kw, size, q[3]>>] /\ Go /\ UNCHANGED <<lnk, ents, ext, cur>>
FwdTag ==
  /\ It[1] = "tfwd"
  /\ LET r == RefTag(sc, tags, It[2], It[3], LocalTag(sc, It[3])) IN
     IF r[2][r[3]][1] # It[2] THEN Bad("tag " \o It[3]) ELSE sc' = r[1] /\ tags' = r[2] /\ Go /\ UNCHANGED <<lnk, ents, ext, cur>>
TagPtr ==
  /\ It[1] = "tptr"
  /\ LET r == RefTag(sc, tags, It[2], It[3], LookT(It[3])) IN
     IF r[2][r[3]][1] # It[2] \/ Clash(It[4], "tptr", "n", 0) THEN Bad("tptr " \o It[4])
     ELSE sc' = BindV(r[1], It[4], <<"tptr", r[3]>>) /\ tags' = r[2] /\ Go /\ UNCHANGED <<lnk, ents, ext, cur>>

\* ----------------------------------------------------------------- blocks
Open == /\ It[1] = "open" /\ sc' = Append(sc, NewScope) /\ Go /\ UNCHANGED <<lnk, ents, tags, ext, cur>>
Close == /\ It[1] = "close" /\ sc' = Front(sc) /\ Go /\ UNCHANGED <<lnk, ents, tags, ext, cur>>
For == /\ It[1] = "for"
       /\ LET e == Len(ents) + 1 IN
          /\ ents' = Act(Append(ents, Ent("obj", It[2], "n", 0)), <<"set", e, It[3]>>)
          /\ sc' = sc \o <<[NewScope EXCEPT !.v = (It[2] :> <<"obj", e, 0, 4>>)], NewScope>>
       /\ Go /\ UNCHANGED <<lnk, tags, ext, cur>>
EndFor == /\ It[1] = "endfor" /\ sc' = Front(Front(sc)) /\ Go /\ UNCHANGED <<lnk, ents, tags, ext, cur>>

\* ------------------------------------------------------------------- uses
Put(a, l) == ents' = Act(ents, a) /\ lnk' = l /\ Go /\ UNCHANGED <<sc, tags, ext, cur>>
Use ==
  /\ It[1] = "use"
  /\ LET b == LookV(It[2])  how == It[3] IN
     IF how = "size" THEN (IF Sizeof(b) < 0 THEN Bad("sizeof " \o It[2]) ELSE Put(<<"print", Sizeof(b)>>, lnk))
     ELSE IF b[1] = "enum" /\ how = "val" THEN Put(<<"print", b[2]>>, lnk)
     ELSE IF b[1] = "obj" /\ b[4] = 4 THEN Put(<<how, b[2]>>, Refer(lnk, b[2], Own))
     ELSE Bad("use " \o It[2])
Call ==
  /\ It[1] = "call"
  /\ LET b == LookV(It[2]) IN
     IF b[1] = "fun" THEN Put(<<"call", b[2], It[3]>>, Refer(lnk, b[2], Own))
     ELSE IF b[1] = "fptr" THEN Put(<<"callp", b[2]>>, Refer(lnk, b[2], Own))
     ELSE Bad("call " \o It[2])
\* labels and members have name spaces of their own
Other == \/ /\ It[1] = "skip" /\ Put(<<"nop">>, lnk)
         \/ /\ It[1] = "memb" /\ Put(<<"print", It[3]>>, lnk)
UseTag ==
  /\ It[1] \in {"usetag", "usep", "deref"}
  /\ LET i == IF It[1] = "deref" THEN (LET b == LookV(It[2]) IN IF b[1] = "tptr" THEN b[2] ELSE 0) ELSE LookT(It[3])
         j == IF i = 0 THEN 0 ELSE IF It[1] = "usep" THEN tags[i][3] ELSE i
     IN IF j = 0 \/ (It[1] # "deref" /\ tags[i][1] # It[2]) THEN Bad("tag use") ELSE IF tags[j][2] < 0 THEN Bad("incomplete")
        ELSE Put(<<"print", tags[j][2]>>, lnk)

\* ------------------------------------------------------ end of a unit: symbols
\* reachability over the references of the unit
RECURSIVE Reach(_)
Reach(S) == LET T == S \cup UNION {lnk[x].refs : x \in S} IN IF T = S THEN S ELSE Reach(T)
StaticInline(x) == lnk[x].kind = "fun" /\ lnk[x].sin /\ lnk[x].link = "i"
InlineOnly(x) == lnk[x].kind = "fun" /\ lnk[x].inl /\ lnk[x].link = "e" /\ lnk[x].def = "def"
Must == Reach({x \in DOMAIN lnk : lnk[x].def # "none" /\ lnk[x].link = "e" /\ ~InlineOnly(x)})
May == Reach({x \in DOMAIN lnk : lnk[x].def # "none" /\ ~StaticInline(x) /\ ~InlineOnly(x)})
SymOf(x) ==
  LET d == lnk[x]
      need == IF d.link = "e" /\ d.def # "none" /\ ~InlineOnly(x) THEN "must"
              ELSE IF x \in Must THEN "must" ELSE IF x \in May THEN "may"
              ELSE IF StaticInline(x) \/ InlineOnly(x) THEN "never" ELSE "may"
      what == IF InlineOnly(x) THEN "inline"
              ELSE IF d.def = "none" THEN "und"
              ELSE IF d.kind = "fun" THEN "func"
              ELSE IF d.tls = 1 THEN "tls"
              ELSE IF d.def = "tent" /\ d.link = "e" /\ W.common = 1 THEN "common" ELSE "data"
  IN <<x, IF d.link = "i" THEN "local" ELSE "global", what, need, IF d.kind = "obj" THEN (IF d.len = 0 THEN 4 ELSE IF d.len < 0 THEN 4 ELSE 4 * d.len) ELSE 0>>
EndUnit ==
  /\ mode = "walk" /\ pc > Len(Items)
  /\ syms' = Append(syms, {SymOf(x) : x \in DOMAIN lnk})
  /\ IF tu < Len(W.tus) THEN tu' = tu + 1 /\ pc' = 1 /\ mode' = "walk" ELSE tu' = tu /\ pc' = pc /\ mode' = "link"
  /\ sc' = <<NewScope>> /\ lnk' = Nil /\ cur' = 0 /\ UNCHANGED <<k, ents, tags, ext>>

\* ------------------------------------------------- linking and running
\* every external name used is defined once: by one definition, or by tentative ones
\* (several units may define one tentatively if they are common)
Defs(x, set) == {u \in DOMAIN syms : \E s \in syms[u] : s[1] = x /\ s[2] = "global" /\ s[3] \in set}
LinkOk == \A x \in DOMAIN ext :
            /\ Cardinality(Defs(x, {"func", "data", "tls"})) <= 1
            /\ Defs(x, {"func", "data", "tls", "common"}) # {}
PutOut(st, v) == [st EXCEPT !.out = Append(@, v)]
RECURSIVE RunFn(_, _, _)
RunAct(st, a) ==
  CASE a[1] = "print" -> PutOut(st, a[2])
    [] a[1] = "val" -> PutOut(st, st.mem[a[2]])
    [] a[1] = "inc" -> LET s2 == [st EXCEPT !.mem[a[2]] = @ + 1] IN PutOut(s2, s2.mem[a[2]])
    [] a[1] = "set" -> [st EXCEPT !.mem[a[2]] = a[3]]
    [] a[1] = "copy" -> [st EXCEPT !.mem[a[2]] = st.mem[a[3]]]
    [] a[1] = "call" -> LET s2 == RunFn(a[2], a[3], st) IN PutOut(s2, ents[a[2]].id)
    [] a[1] = "callp" -> LET f == st.mem[a[2]]  s2 == RunFn(f, <<>>, st) IN PutOut(s2, ents[f].id)
    [] a[1] = "nop" -> st
RunFn(f, args, st) ==
  FoldLeft(RunAct, FoldLeft(LAMBDA s, i : [s EXCEPT !.mem[ents[f].params[i]] = args[i]], st, [i \in DOMAIN args |-> i]), ents[f].body)
Run == /\ mode = "link"
       /\ LET st == RunFn(ext["main"], <<>>, [mem |-> [e \in DOMAIN ents |-> ents[e].init], out |-> <<>>]) IN
          IF ~LinkOk THEN PrintT("RES " \o ToJson(<<k, "bad", <<"link", 0, 0>>, <<>>>>))
          ELSE PrintT("RES " \o ToJson(<<k, "ok", st.out, syms>>))
       /\ mode' = "done" /\ UNCHANGED <<k, tu, pc, sc, lnk, ents, tags, ext, cur, syms>>

Init == /\ k \in DOMAIN Batch /\ tu = 1 /\ pc = 1 /\ sc = <<NewScope>> /\ lnk = Nil /\ ents = <<>> /\ tags = <<>> /\ ext = Nil
        /\ cur = 0 /\ syms = <<>> /\ mode = "walk"
Walk == /\ mode = "walk" /\ pc <= Len(Items)
        /\ \/ DeclObj \/ DeclSelf \/ DeclCopy \/ DeclArr \/ DeclPtr \/ DeclFun \/ BeginFun \/ EndFun \/ DeclType \/ DeclEnum
           \/ DefTag \/ FwdTag \/ TagPtr \/ Open \/ Close \/ For \/ EndFor \/ Use \/ Call \/ Other \/ UseTag
Next == Walk \/ EndUnit \/ Run
Spec == Init /\ [][Next]_vars
\* what a scope hides is visible again, unchanged, when it ends
Restored == [][Len(sc') < Len(sc) /\ Len(sc') > 1 => sc' = SubSeq(sc, 1, Len(sc'))]_vars
\* a name with linkage keeps it, and names its entity in every scope
Stable == \A i \in DOMAIN sc : \A nm \in DOMAIN sc[i].v :
            LET b == sc[i].v[nm] IN (b[1] \in {"obj", "fun", "fptr"} /\ ents[b[2]].link # "n") => (nm \in DOMAIN lnk /\ lnk[nm].e = b[2])
OneExternal == \A x \in DOMAIN ext : ents[ext[x]].link = "e" /\ ents[ext[x]].name = x
=============================================================================
