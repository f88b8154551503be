------------------------------- MODULE QPGen -------------------------------
(* Generates call histories of qpOASES problem objects together with the exact verdict (certificate) of every
   QP that occurs in them.  One TLC state per chunk of seeds; a behaviour is a function of its seed. *)
EXTENDS QPFam, Json, IOUtils
CONSTANTS Profile, Base, ChunkSize, Chunk, Out
VARIABLE done

-------------------------------------------------------------------------------
(* Profiles: what the histories of a property look like.  presets/switches: option sets; len and acts: the continuation after the
   first solve; exh > 0: all words of that length over acts are enumerated by the behaviour number *)
Default == [ cls |-> <<"Q","Q","Q","S","B">>, nlo |-> 1, nhi |-> 5, mlo |-> 1, mhi |-> 6,
             hes |-> <<"pd","pd","diag","id","semi","zero">>, htdecl |-> 30, dep |-> 0, zrow |-> 0, deg |-> 0, free |-> 15,
             presets |-> <<"default","reliable","mpc","default">>, switches |-> 0, force |-> <<>>,
             len |-> 4, exh |-> 0, acts |-> <<"hot">>, via |-> <<"arr","obj","obj">>, hks |-> <<"dense","sparse">>, aks |-> <<"dense","sparse","row">>,
             hvia |-> <<"vec","vec","vec","file">>, guess |-> 0, gk |-> <<"w","wb","wc">>, infk |-> 10, amag |-> 2, xsp |-> 4, initkind |-> <<"opt">>, nulls |-> 10, first |-> <<>>, m0p |-> 7, cif |-> FALSE ]
NonDeg == [Default EXCEPT !.hes = <<"pd","pd","diag","id">>]
Profiles == [
  C01 |-> [Default EXCEPT !.zrow = 6, !.cls = <<"Q","Q","S","B">>, !.len = 3, !.via = <<"arr","obj","obj","file">>, !.deg = 25, !.dep = 20],
  C01L |-> [Default EXCEPT !.cls = <<"Q","S","B","Q">>, !.nlo = 6, !.nhi = 9, !.mlo = 5, !.mhi = 12, !.len = 3, !.acts = <<"hot","hot","hot","reinit","inf","bud","unb">>, !.deg = 10, !.dep = 10],
  C02L |-> [Default EXCEPT !.nlo = 6, !.nhi = 9, !.mlo = 5, !.mhi = 12, !.len = 5, !.dep = 10, !.acts = <<"hot","hot","part","part","inf","unb","bud","bud0","reinit","cross","far","opt">>],
  C16L |-> [NonDeg EXCEPT !.nlo = 6, !.nhi = 9, !.mlo = 5, !.mhi = 12, !.len = 4, !.guess = 60, !.acts = <<"hot","hot","reinit","hot","inf">>],
  C22L |-> [NonDeg EXCEPT !.cls = <<"S">>, !.nlo = 6, !.nhi = 9, !.mlo = 5, !.mhi = 12, !.len = 4, !.switches = 1, !.guess = 20, !.acts = <<"mats","mpart","mats","mats","hot","matsinf","bud0","copyc","reinit","matscross","inf">>],
  C21L |-> [NonDeg EXCEPT !.cls = <<"X">>, !.nlo = 6, !.nhi = 9, !.mlo = 5, !.mhi = 12, !.len = 4, !.hks = <<"sparsez","dense","sparse">>, !.aks = <<"sparse","dense">>, !.guess = 20, !.acts = <<"hot","part","hot","mats","mpart","hot","inf","bud","matsinf","reinit">>],
  C01N |-> [Default EXCEPT !.hes = <<"indef">>, !.cls = <<"Q","Q","S","B">>, !.htdecl = 0, !.presets = <<"default","reliable">>, !.len = 4, !.acts = <<"hot","hot","reinit","inf","bud","cross">>],
  C02 |-> [Default EXCEPT !.zrow = 6, !.len = 6, !.dep = 15, !.acts = <<"hot","hot","part","part","inf","unb","bud","bud0","reinit","cross","far","opt">>],
  C03 |-> [Default EXCEPT !.zrow = 10, !.len = 5, !.acts = <<"inf","inf","hot","inf","cross","initinf","reinit","initcross","hot">>, !.dep = 40, !.initkind = <<"opt","inf","inf","cross">>],
  C04 |-> [Default EXCEPT !.len = 5, !.hes = <<"zero","semi","zero","semi">>, !.acts = <<"unb","unb","hot","far","initunb","reinit">>, !.initkind = <<"opt","unb","unb","far">>],
  C05 |-> [Default EXCEPT !.len = 4, !.exh = 4, !.nhi = 3, !.mhi = 3, !.hes = <<"zero","semi","pd">>, !.initkind = <<"opt","opt","inf","unb">>,
             !.acts = <<"hot","inf","unb","bud0","reset","reinit","initinf","initunb","badinit","badhot","copyd","assign","cross">>, !.first = <<"hotun">>],
  C06 |-> [Default EXCEPT !.len = 3, !.acts = <<"bud","bud","bud0","thr","thr","initthr","initbud","cpu0","hot","infthr">>, !.cls = <<"Q","Q","S","B","B">>],
  C07 |-> [Default EXCEPT !.zrow = 8, !.len = 4, !.deg = 25, !.dep = 40, !.acts = <<"hot","hot","hot","inf","reinit">>, !.nhi = 4, !.mhi = 7],
  C10 |-> [Default EXCEPT !.len = 4, !.cls = <<"Q","Q","S","B">>, !.acts = <<"copyc","copyd","assign","assignused","hot","inf","unb","bud0","reset","copyreset","copyfresh">>, !.via = <<"arr","obj","file">>],
  C11M |-> [NonDeg EXCEPT !.cls = <<"S">>, !.len = 4, !.guess = 20, !.via = <<"arr","obj","file">>, !.acts = <<"mats","mats","matsinf","hot","reinit","matsbud","matscopy">>],
  C11 |-> [Default EXCEPT !.len = 4, !.presets = <<"default","mpc","reliable","mpc">>, !.switches = 3, !.acts = <<"hot","hot","inf","unb","cross","reinit","bud","reinit">>, !.via = <<"arr","obj","obj","file">>, !.guess = 40, !.hvia = <<"vec","file">>],
  C16H |-> [Default EXCEPT !.cls = <<"Q","S">>, !.nlo = 4, !.nhi = 7, !.mlo = 1, !.mhi = 4, !.len = 5, !.hes = <<"pd","diag","id","pd","semi","zero">>, !.free = 4, !.guess = 180, !.gk = <<"v","v","n","n","w","wb">>, !.acts = <<"hot","hot","hot","hot","reinit","bud0">>],
  C22G |-> [NonDeg EXCEPT !.cls = <<"S">>, !.nlo = 4, !.nhi = 6, !.mlo = 1, !.mhi = 4, !.len = 5, !.free = 4, !.guess = 180, !.gk = <<"v","v","n","n","w","wb">>, !.acts = <<"mats","mats","hot","matsinf","reinit","matsbud">>],
  C16 |-> [Default EXCEPT !.zrow = 6, !.len = 4, !.via = <<"arr","obj","obj","file">>, !.guess = 85, !.acts = <<"reinit","reinit","hot","reinit","badguess">>],
  C17D |-> [Default EXCEPT !.cls = <<"Q","S","B","Q">>, !.len = 5, !.dep = 25, !.switches = 2, !.guess = 40, !.force = <<"drop">>, !.acts = <<"hot","hot","part","reinit","opt","bud">>],       \* dropping infeasible constraints allowed, nothing to drop
  C17 |-> [Default EXCEPT !.len = 4, !.switches = 4, !.acts = <<"hot","hot","opt","reinit","inf","print">>],
  C18 |-> [Default EXCEPT !.len = 4, !.hes = <<"pd","semi","zero","id","diag","semi">>, !.htdecl = 50, !.switches = 1, !.acts = <<"hot","objat","unb","inf","bud","reinit","reset">>],
  C21 |-> [NonDeg EXCEPT !.cls = <<"X">>, !.len = 6, !.hks = <<"sparsez","dense","sparse">>, !.aks = <<"sparse","dense">>, !.via = <<"obj","arr","file">>, !.guess = 30, !.acts = <<"hot","part","curv","mats","mpart","hot","inf","bud","bud0","cross","matsinf","matscross","matsbud","badmats","initinf","reset","opt","reinit","newdef">>, !.switches = 3],
  C21d |-> [NonDeg EXCEPT !.cls = <<"X">>, !.len = 6, !.hks = <<"sparsez","dense","sparse">>, !.aks = <<"sparse","dense">>, !.via = <<"obj","arr","file">>, !.guess = 30, !.acts = <<"hot","part","curv","mats","mpart","hot","inf","bud","bud0","cross","matsinf","matscross","matsbud","badmats","initinf","reset","opt","far","reinit">>, !.presets = <<"default","reliable">>, !.switches = 0, !.dep = 20, !.deg = 15],
  C22 |-> [Default EXCEPT !.zrow = 8, !.cls = <<"S">>, !.len = 5, !.switches = 1, !.guess = 30, !.acts = <<"mats","mpart","mats","mats","mats","hot","matsinf","badmats","bud0","copyc","reinit","matscopy","matsunb","matscross","matsbud","inf","unb">>, !.hes = <<"pd","pd","diag","id","semi","zero">>],
  C23Q |-> [Default EXCEPT !.cls = <<"Q","S","Q">>, !.nlo = 3, !.nhi = 5, !.mlo = 3, !.mhi = 7, !.len = 7, !.hes = <<"semi">>, !.htdecl = 20, !.switches = 1, !.force = <<"drift">>, !.presets = <<"default","default","reliable">>, !.free = 50, !.acts = <<"hot","hot","reinit","bud","hot">>],
  C23B |-> [Default EXCEPT !.cls = <<"B","B","Q","S">>, !.m0p = 50, !.len = 5, !.hes = <<"semi","zero","semi","diag">>, !.htdecl = 20, !.switches = 1, !.force = <<"drift">>, !.presets = <<"default","default","reliable">>, !.free = 4, !.acts = <<"hot","hot","reinit","hot","part","bud">>],
  C23 |-> [Default EXCEPT !.len = 4, !.hes = <<"id","zero","semi","diag","id","zero">>, !.htdecl = 60, !.switches = 1, !.acts = <<"hot","hot","reinit","hot","opt","resetdecl">>, !.via = <<"arr","obj">>, !.hks = <<"dense","sparse","sparsez">>],
  C24 |-> [Default EXCEPT !.cls = <<"Q","S","Q">>, !.len = 5, !.acts = <<"hot","hot","setcp","setcp","unsetcp","reinit","copyc","inf","resetcp">>, !.first = <<"setcp">>,
             !.force = <<"far", "far", "far", "isb">>, !.free = 25],
  C10X |-> [NonDeg EXCEPT !.cls = <<"X">>, !.len = 5, !.hks = <<"sparsez","dense","sparse">>, !.aks = <<"sparse","dense">>, !.guess = 20, !.switches = 2, !.acts = <<"copyc","copyd","assign","assignused","hot","inf","bud0","reset","copyreset","copyfresh","matscopy","mats","thr">>],
  C20X |-> [NonDeg EXCEPT !.cls = <<"X">>, !.len = 3, !.hks = <<"sparsez","dense","sparse">>, !.aks = <<"sparse","dense">>, !.acts = <<"ana","ana","hot","reinit","mats","mpart","objat","copyc">>, !.guess = 30],
  C20 |-> [Default EXCEPT !.len = 3, !.nhi = 4, !.mhi = 4, !.cls = <<"Q", "Q", "S", "B">>, !.hes = <<"pd", "pd", "diag", "id", "pd", "semi">>, !.acts = <<"ana", "ana", "ana", "anac", "hot", "reinit">>, !.guess = 20, !.switches = 1, !.free = 30],
  C14 |-> [Default EXCEPT !.len = 4, !.nhi = 4, !.m0p = 12, !.cls = <<"Q", "Q", "S", "S", "B">>, !.acts = <<"badany", "badany", "abuse", "badfresh", "badinit", "badhot", "newbad", "newdef", "hot", "inf", "unb", "bud0", "reset", "badany", "badsize">>, !.via = <<"arr", "obj", "file">>, !.hvia = <<"vec", "file">>, !.switches = 1, !.initkind = <<"opt", "opt", "inf">>],
  C15 |-> [Default EXCEPT !.cif = TRUE, !.len = 4, !.nhi = 4, !.mhi = 5, !.switches = 2, !.via = <<"arr">>, !.hvia = <<"vec">>, !.cls = <<"Q", "S", "B">>, !.m0p = 15, !.initkind = <<"opt", "opt", "opt", "inf", "unb">>, !.first = <<"cpre">>,
             !.acts = <<"chot", "chot", "chot", "chotinf", "chotunb", "cbud", "ccpu", "creinit", "creinit", "cinitinf", "csetup", "cbad", "cother", "oqp", "oqp", "oqpread", "oqpread", "mat", "mat">>],
  C19 |-> [Default EXCEPT !.len = 3, !.acts = <<"quiet", "quiet", "hot", "print", "inf", "unb", "bud0">>, !.cls = <<"Q", "S", "B">>, !.force = <<"far", "isb">>] ]
Prof == Profiles[Profile]

-------------------------------------------------------------------------------
HtDecl(f, s, p) == IF ~Chance(s, 9, p.htdecl) THEN "UNKNOWN" ELSE CASE f.hk = "zero" -> "ZERO" [] f.hk = "id" -> "IDENTITY" [] f.hk = "semi" -> "SEMIDEF" [] OTHER -> "POSDEF"
SwitchNames == <<"ramp", "far", "flip", "reg", "fullLI", "nzc", "drift", "chol", "eq", "isb", "refine", "regsteps">>
SwVal(s, nm) == CASE nm = "isb" -> Rnd(s, 21, -1, 1) [] nm = "refine" -> Rnd(s, 22, 0, 3) [] nm = "drift" -> Rnd(s, 23, 0, 3) [] nm = "chol" -> Rnd(s, 24, 0, 2) [] nm = "regsteps" -> Rnd(s, 26, 1, 3) [] OTHER -> Rnd(s, 25, 0, 1)
Opts(s, p) == LET k == Rnd(s, 10, 0, p.switches)
                  nms == {SwitchNames[1 + (Hash(s, 11 + i) % Len(SwitchNames))] : i \in 1..k}
                  sw == [nm \in nms |-> SwVal(Hash(s, 40 + Len(nm)), nm)]
                  fz == IF p.force # <<>> /\ Chance(s, 14, 45) THEN Pick(s, 15, p.force) ELSE "print"
              IN [preset |-> Pick(s, 12, p.presets), set |-> [nm \in nms \cup {fz, "print"} |-> IF nm = "print" THEN 0 ELSE IF nm = fz THEN (IF fz = "isb" THEN Rnd(s, 16, -1, 1) ELSE IF fz = "drop" THEN 1 ELSE 0) ELSE sw[nm]]]
Switch(o, nm, dflt, mpc) == IF nm \in DOMAIN o.set THEN o.set[nm] = 1 ELSE IF o.preset \in {"mpc", "fast"} THEN mpc ELSE dflt
Ramping(o) == Switch(o, "ramp", TRUE, FALSE)
\* without regularisation a singular Hessian requires a start from a vertex (neither guesses nor initially inactive bounds) and the means to stay at vertices
\* (flipping, limits kept finite by far bounds)
NoFar(o) == [o EXCEPT !.set = [nm \in DOMAIN o.set \ {"far"} |-> o.set[nm]]]
NeedReg(o0, singular, p) == LET o == IF singular THEN NoFar(o0) ELSE o0 IN IF singular /\ (p.guess > 0 \/ DOMAIN o.set \cap {"isb", "flip"} # {} \/ (o.preset \in {"mpc", "fast"} /\ "reg" \in DOMAIN o.set)) THEN [o EXCEPT !.set = [nm \in DOMAIN o.set \cup {"reg"} |-> IF nm = "reg" THEN 1 ELSE o.set[nm]]] ELSE o
\* a change of options that keeps the premises of the family (ramping or not)
NewOpts(s, p) == LET o == Opts(s, p)
                     keep(ps) == NeedReg([o EXCEPT !.preset = Pick(s, 13, ps), !.set = [nm \in (DOMAIN o.set \ ({"ramp"} \cup (IF p.singular THEN {"flip", "far", "isb", "reg"} ELSE {}))) \cup {"print"} \cup (IF p.singular THEN DOMAIN p.opt0.set \cap {"reg"} ELSE {}) |-> IF nm = "print" THEN 0 ELSE IF nm = "reg" /\ p.singular THEN p.opt0.set[nm] ELSE o.set[nm]]], p.singular, p)
                 IN IF p.opt0.preset \in {"mpc", "fast"} THEN keep(<<"mpc", "fast">>) ELSE IF Ramping(p.opt0) THEN keep(<<"default", "reliable">>) ELSE p.opt0

-------------------------------------------------------------------------------
(* Calls *)
AllInf(v) == \A i \in DOMAIN v : ~Fin(v[i])
Nul(q, s, p) == LET use == Chance(s, 58, 80) IN [lb |-> use /\ AllInf(q.lb), ub |-> use /\ AllInf(q.ub), lbA |-> use /\ q.m > 0 /\ AllInf(q.lbA), ubA |-> use /\ q.m > 0 /\ AllInf(q.ubA)]
Call(op, f, q, s, p) ==
  LET via == IF op = "init" THEN Pick(s, 50, p.via) ELSE Pick(s, 51, p.hvia)
      hk == IF f.hk = "id" /\ Chance(s, 52, 40) /\ op = "init" /\ p.decl = "IDENTITY" /\ p.pristine THEN "null"
            ELSE IF f.hk = "zero" /\ Chance(s, 52, 30) /\ op = "init" THEN "null"
            ELSE LET k == Pick(s, 53, p.hks) IN IF k = "sparse" /\ ~f.pd THEN "sparsez" ELSE k
  IN [op |-> op, slot |-> 1, qp |-> q, via |-> via, hk |-> hk, ak |-> Pick(s, 54, p.aks), budget |-> 1000,
      infk |-> IF via # "file" /\ Chance(s, 55, p.infk) THEN Rnd(s, 56, 1, 2) ELSE 0, nul |-> Nul(q, s, p), bad |-> "", same |-> 0]
(* initial guesses: primal point, multipliers, working set; right, perturbed or wild *)
SideOf(y, v, lo, hi) == IF y > 0 THEN -1 ELSE IF y < 0 THEN 1 ELSE 0
Wild(s, k, lo, hi) == LET w == Rnd(s, k, -1, 1) IN IF w = -1 /\ ~Fin(lo) THEN 0 ELSE IF w = 1 /\ ~Fin(hi) THEN 0 ELSE w
Guess(q, s, p, kinds) ==
  LET k == Pick(s, 31, kinds) right == Chance(s, 32, 40) mix == Chance(s, 33, 50)
      x == [i \in 1..q.n |-> IF right \/ (mix /\ Chance(s, 5300 + i, 60)) THEN q.xs[i] ELSE Rnd(s, 5320 + i, -5, 5)]
      y == [i \in 1..(q.n + q.m) |-> IF right \/ (mix /\ Chance(s, 5340 + i, 60)) THEN q.ys[i] ELSE Rnd(s, 5360 + i, -4, 4)]
      gb == [i \in 1..q.n |-> IF right \/ (mix /\ Chance(s, 5380 + i, 60)) THEN SideOf(q.ys[i], 0, q.lb[i], q.ub[i]) ELSE Wild(s, 5400 + i, q.lb[i], q.ub[i])]
      gc == [i \in 1..q.m |-> IF right \/ (mix /\ Chance(s, 5420 + i, 60)) THEN SideOf(q.ys[q.n + i], 0, q.lbA[i], q.ubA[i]) ELSE Wild(s, 5440 + i, q.lbA[i], q.ubA[i])]
  IN CASE k = "x" -> [gx |-> x] [] k = "xy" -> [gx |-> x, gy |-> y] [] k = "y" -> [gy |-> y] [] k = "w" -> [gb |-> gb, gc |-> gc] [] k = "wb" -> [gb |-> gb]
       [] k = "xw" -> [gx |-> x, gb |-> gb, gc |-> gc] [] k = "xyw" -> [gx |-> x, gy |-> y, gb |-> gb, gc |-> gc] [] k = "wc" -> [gc |-> gc]
       [] k = "v" -> [gb |-> [i \in 1..q.n |-> IF Fin(q.lb[i]) /\ (~Fin(q.ub[i]) \/ Chance(s, 5460 + i, 50)) THEN -1 ELSE IF Fin(q.ub[i]) THEN 1 ELSE 0], gc |-> [i \in 1..q.m |-> 0]]    \* a corner
       [] k = "n" -> [gb |-> [i \in 1..q.n |-> IF i = Rnd(s, 5480, 1, q.n) THEN gb[i] ELSE SideOf(q.ys[i], 0, q.lb[i], q.ub[i])],                                                           \* nearly right
                      gc |-> [i \in 1..q.m |-> IF i = Rnd(s, 5481, 1, 2 * q.m) THEN gc[i] ELSE SideOf(q.ys[q.n + i], 0, q.lbA[i], q.ubA[i])]]
       [] k = "yw" -> [gy |-> y, gb |-> gb, gc |-> gc] [] k = "ywc" -> [gy |-> y, gc |-> gc]
       [] k = "R" -> [R |-> [i \in 1..q.n |-> [j \in 1..q.n |-> IF i = j THEN 1 ELSE 0]]] [] k = "Ry" -> [gy |-> y, R |-> [i \in 1..q.n |-> [j \in 1..q.n |-> IF i = j THEN 1 ELSE 0]]] [] k = "Rw" -> [gb |-> gb, R |-> [i \in 1..q.n |-> [j \in 1..q.n |-> IF i = j THEN 1 ELSE 0]]]
       [] k = "Rx" -> [gx |-> x, R |-> [i \in 1..q.n |-> [j \in 1..q.n |-> IF i = j THEN 1 ELSE 0]]]
Merge(a, b) == [k \in (DOMAIN a \cup DOMAIN b) |-> IF k \in DOMAIN b THEN b[k] ELSE a[k]]
Guessed0(c, s, p) == IF c.op = "init" /\ c.qp.kind = "opt" /\ Chance(s, 30, p.guess) THEN Merge(c, Guess(c.qp, s, p, IF c.qp.m > 0 THEN <<"x","xy","y","w","wb","xw","xyw","wc">> ELSE <<"x","xy","y","w","xw","xyw">>))
                    ELSE IF c.op = "hot" /\ c.qp.kind = "opt" /\ Chance(s, 30, p.guess \div 2) THEN Merge(c, Guess(c.qp, s, p, IF c.qp.m > 0 THEN p.gk ELSE <<"w">>)) ELSE c
\* without a guess at init the caller may pass the Cholesky factor of the Hessian; with a guess the time may be limited
Guessed(c, s, p, f) == LET c2 == Guessed0(c, s, p) IN
  IF p.guess = 0 THEN c2 ELSE IF c2 = c THEN IF c.op = "init" /\ f.pd /\ f.hk # "indef" /\ Chance(s, 34, 50) THEN Merge(c, [R |-> [i \in 1..f.n |-> [j \in 1..f.n |-> f.L[j][i]]]]) ELSE c
  ELSE IF c2.budget = 1000 /\ Chance(s, 35, 15) THEN Merge(c2, [cpu |-> 60000000]) ELSE c2
InitC(f, s, p, kind) == Guessed(Call("init", f, MkQP(f, s, p, kind), s, p), s, p, f)
Hot(f, s, p, kind) == Guessed(Call("hot", f, MkQP(f, s, p, kind), s, p), s, p, f)
At(c, slot) == Merge(c, [slot |-> slot])
Rel(c, back) == Merge(c, [same |-> back])
Obs(slot) == [op |-> "obs", slot |-> slot]
Reset == [op |-> "reset", slot |-> 1]
New(f, p, slot, o) == [op |-> "new", slot |-> slot, cls |-> p.c, n |-> f.n, m |-> IF p.m0 THEN 0 ELSE f.m, ht |-> p.decl, opts |-> o, nsmax |-> p.nsmax]
Fam2(f, s, p) == IF p.exch THEN LET f2 == Fam(s, [p EXCEPT !.hes = IF f.pd THEN NonDeg.hes ELSE p.hes]) IN IF f2.n # f.n \/ f2.m # f.m \/ f2.pd # f.pd THEN f ELSE f2 ELSE f
NoNul == [lb |-> FALSE, ub |-> FALSE, lbA |-> FALSE, ubA |-> FALSE]
BadInit(f, s, p) == LET c == Call("init", f, MkQP(f, s, p, "opt"), s, p) k == Pick(s, 90, IF p.m0 THEN <<"g","yw","Rx","file","file","Rf">> ELSE <<"g","A","yw","ywc","Rx","file","file","Rf">>)
                        v == Pick(s, 91, <<"arr","obj","file">>) viaFile(x) == IF v = "file" THEN Merge(x, [infk |-> 0, hk |-> "dense"]) ELSE x IN
  CASE k = "g" -> Merge(viaFile(c), [nul |-> Merge(c.nul, [g |-> TRUE]), via |-> v, bad |-> IF v = "file" THEN "RET_UNABLE_TO_READ_FILE" ELSE "RET_INVALID_ARGUMENTS"])
    [] k = "A" -> Merge(viaFile(c), [ak |-> "null", via |-> v, bad |-> IF v = "file" THEN "RET_UNABLE_TO_READ_FILE" ELSE "RET_INVALID_ARGUMENTS"])
    [] k = "yw" -> Merge(Merge(viaFile(c), Guess(c.qp, s, p, <<"yw">>)), [via |-> v, bad |-> "RET_INVALID_ARGUMENTS"])
    [] k = "ywc" -> Merge(Merge(viaFile(c), Guess(c.qp, s, p, <<"ywc">>)), [via |-> v, bad |-> "RET_INVALID_ARGUMENTS"])
    [] k = "Rx" -> Merge(Merge(viaFile(c), Guess(c.qp, s, p, <<"Rx", "Ry", "Rw">>)), [via |-> v, bad |-> "RET_NO_CHOLESKY_WITH_INITIAL_GUESS"])
    [] k = "Rf" -> Merge(Merge(c, Guess(c.qp, s, p, <<"R">>)), [via |-> "file", infk |-> 0, hk |-> "dense", nul |-> NoNul, badfile |-> "R", badkind |-> Pick(s, 93, <<"missing","text","short">>), bad |-> IF Pick(s, 93, <<"missing","text","short">>) = "missing" THEN "RET_UNABLE_TO_OPEN_FILE" ELSE "RET_UNABLE_TO_READ_FILE"])
    [] k = "file" -> Merge(c, [via |-> "file", infk |-> 0, hk |-> "dense", nul |-> NoNul,
                               badfile |-> Pick(s, 92, IF p.m0 THEN <<"H","g","lb","ub">> ELSE <<"H","g","A","lb","ub","lbA","ubA">>), badkind |-> Pick(s, 93, <<"missing","text","short">>), bad |-> "RET_UNABLE_TO_READ_FILE"])
BadHot(f, s, p) == LET c == Call("hot", f, MkQP(f, s, p, "opt"), s, p) k == Pick(s, 90, <<"g","file","file">>) v == Pick(s, 91, <<"vec", "file">>) IN
  CASE k = "g" -> Merge(c, [nul |-> Merge(c.nul, [g |-> TRUE]), via |-> v, infk |-> IF v = "file" THEN 0 ELSE c.infk, bad |-> "RET_INVALID_ARGUMENTS"])
    [] k = "file" -> Merge(c, [via |-> "file", infk |-> 0, nul |-> NoNul,
                               badfile |-> Pick(s, 92, IF p.m0 THEN <<"g","lb","ub">> ELSE <<"g","lb","ub","lbA","ubA">>), badkind |-> Pick(s, 93, <<"missing","text","short">>), bad |-> "RET_UNABLE_TO_READ_FILE"])
BadMats(f, s, p) == LET c == Merge(Call("hot", f, MkQP(f, s, p, "opt"), s, p), [via |-> Pick(s, 91, <<"mats","matarr">>)]) k == Pick(s, 90, IF p.m0 THEN <<"H","f","fn">> ELSE <<"A","H","f","f","fn">>) IN
         CASE k = "A" -> Merge(c, [ak |-> "null", bad |-> "RET_SETUP_AUXILIARYQP_FAILED"])
           [] k = "H" -> Merge(c, [hk |-> "null", bad |-> IF f.hk = "zero" \/ f.hk = "id" THEN "?" ELSE "RET_SETUP_AUXILIARYQP_FAILED"])
           [] k = "fn" -> Merge(IF Chance(s, 94, 50) THEN Merge(c, [nul |-> Merge(c.nul, [g |-> TRUE])]) ELSE IF p.m0 \/ Chance(s, 95, 50) THEN Merge(c, [hk |-> "null"]) ELSE Merge(c, [ak |-> "null"]), [via |-> "matfile", infk |-> 0, bad |-> "RET_INVALID_ARGUMENTS"])
           [] k = "f" -> Merge(c, [via |-> "matfile", infk |-> 0, nul |-> NoNul, badfile |-> Pick(s, 92, IF p.m0 THEN <<"H","g","lb","ub">> ELSE <<"H","A","g","lb","ub","lbA","ubA">>), badkind |-> Pick(s, 93, <<"missing","text","short">>), bad |-> "RET_UNABLE_TO_READ_FILE"])
Misc(slot, what) == [op |-> "misc", slot |-> slot, what |-> what, v |-> 0]
Copy(a, b) == [op |-> "copy", slot |-> a, to |-> b]
Del(a) == [op |-> "del", slot |-> a]
(* analyses of the solution found by the call `of` events before *)
Kkt(q, s, of) == LET zero == Chance(s, 1, 25) small == Chance(s, 2, 50) IN
  [op |-> "kkt", slot |-> 1, of |-> of, none |-> Chance(s, 3, 15), dx |-> [i \in 1..q.n |-> IF zero \/ (small /\ Chance(s, 10 + i, 60)) THEN 0 ELSE Rnd(s, 30 + i, -5, 5)],
   dy |-> [i \in 1..(q.n + q.m) |-> IF zero \/ (small /\ Chance(s, 50 + i, 60)) THEN 0 ELSE Rnd(s, 70 + i, -4, 4)]]
Eqp(q, s, of) == LET k == Rnd(s, 1, 1, 3) v(kk, t, len) == [i \in 1..len |-> Rnd(s, 100 * kk + 1000 * t + i, -6, 6)] IN
  [op |-> "eqp", slot |-> 1, of |-> of, k |-> k, rhs |-> [kk \in 1..k |-> [g |-> v(kk, 1, q.n), lb |-> v(kk, 2, q.n), ub |-> v(kk, 3, q.n), lbA |-> v(kk, 4, q.m), ubA |-> v(kk, 5, q.m)]],
   nul |-> [lb |-> AllInf(q.lb), ub |-> AllInf(q.ub), lbA |-> q.m > 0 /\ AllInf(q.lbA), ubA |-> q.m > 0 /\ AllInf(q.ubA)]]
Cov(q, s, of, p) == LET d == 2 * q.n + q.m dg == Chance(s, 1, 40) a == Rnd(s, 2, 0, 2) v(i, j) == IF i = j THEN Rnd(s, 10 + i, 0, 4) ELSE IF dg THEN 0 ELSE Rnd(s, 1000 + 40 * (IF i < j THEN i ELSE j) + (IF i < j THEN j ELSE i), -a, a) IN
  Merge([op |-> "varcov", slot |-> 1, of |-> of, V |-> [i \in 1..d |-> [j \in 1..d |-> v(i, j)]]], IF p.c = "B" THEN [noimp |-> TRUE] ELSE [of |-> of])
FFlags == [op |-> "misc", slot |-> 1, what |-> "freeflags", v |-> 0]
Analyses(q, s, p) == IF p.c = "B" THEN <<Kkt(q, Hash(s, 2), 1), Cov(q, Hash(s, 3), 2, p), Kkt(q, Hash(s, 4), 3)>>
                     ELSE <<Kkt(q, Hash(s, 2), 1), Eqp(q, Hash(s, 3), 2), Kkt(q, Hash(s, 4), 3), Cov(q, Hash(s, 5), 4, p), FFlags, Eqp(q, Hash(s, 6), 6)>>
(* the C interface: every call follows the same call of the C++ object in slot sl *)
HtCode(h) == CASE h = "ZERO" -> 0 [] h = "IDENTITY" -> 1 [] h = "POSDEF" -> 2 [] h = "SEMIDEF" -> 4 [] OTHER -> 6
CMisc(sl, cls, what, n, m, ht, e) == [op |-> "ccall", slot |-> sl, cls |-> cls, what |-> what, n |-> n, m |-> m, ht |-> ht, exp |-> e]
CSetup(sl, cls, f, p) == CMisc(sl, cls, "setup", f.n, IF p.m0 THEN 0 ELSE f.m, HtCode(p.decl), 0)
CTwin(c, cls, o) == LET d == [op |-> "ccall", slot |-> c.slot, cls |-> cls, what |-> c.op, qp |-> c.qp, nul |-> c.nul, hk |-> c.hk, ak |-> c.ak, budget |-> c.budget, infk |-> c.infk, of |-> 1]
                        d1 == IF "cpu" \in DOMAIN c THEN Merge(d, [cpu |-> c.cpu]) ELSE d IN IF o = <<>> THEN d1 ELSE Merge(d1, [copts |-> o[1]])
CPair(c, cls, o) == <<c, CTwin(c, cls, o)>>
CHot(f, s, p, kind) == LET c == Call("hot", f, MkQP(f, s, p, kind), s, p) IN IF p.c = "S" THEN Merge(c, [via |-> "matarr"]) ELSE c
CInit(f, s, p, kind) == Merge(Call("init", f, MkQP(f, s, p, kind), s, p), [via |-> "arr"])
CBadCall(s, p, cls) == CASE Rnd(s, 1, 1, 12) = 1 -> CMisc(1, cls, "setup", -Rnd(s, 2, 0, 2), 1, 6, -1) [] Rnd(s, 1, 1, 12) = 2 -> CMisc(1, IF cls = "B" THEN "Q" ELSE cls, "setup", 2, -Rnd(s, 2, 1, 3), 6, -1)
                         [] Rnd(s, 1, 1, 12) = 3 -> CMisc(1, cls, "setup", 2, 1, -Rnd(s, 2, 1, 3), -1) [] Rnd(s, 1, 1, 12) = 4 -> CMisc(1, cls, "setup", 2, 1, Rnd(s, 2, 7, 9), -1)
                         [] Rnd(s, 1, 1, 12) = 5 -> CMisc(1, cls, "optmode", Rnd(s, 2, 3, 5), 0, 0, -1) [] Rnd(s, 1, 1, 12) = 6 -> CMisc(1, cls, "optmode", -Rnd(s, 2, 1, 5), 0, 0, -1)
                         [] Rnd(s, 1, 1, 12) = 7 -> CMisc(1, cls, "optnull", 0, 0, 0, -1) [] Rnd(s, 1, 1, 12) = 8 -> CMisc(1, cls, "copynull", 0, 0, 0, -1) [] Rnd(s, 1, 1, 12) = 9 -> CMisc(1, cls, "copynull2", 0, 0, 0, -1)
                         [] Rnd(s, 1, 1, 12) = 10 -> CMisc(1, cls, "outnull", 0, 0, 0, -1) [] Rnd(s, 1, 1, 12) = 11 -> CMisc(1, Pick(s, 3, p.others), Pick(s, 2, <<"init", "hot">>), 0, 0, 0, -1) [] OTHER -> CMisc(1, Pick(s, 3, p.others), "cleanup", 0, 0, 0, 0)
(* sequences of QPs in OQP files *)
OqpFilesOf(m0) == IF m0 THEN <<"dims", "H", "g", "lb", "ub">> ELSE <<"dims", "H", "g", "A", "lb", "ub", "lbA", "ubA">>
BadKind(s, f) == IF f = "dims" THEN Pick(s, 3, <<"missing", "short", "text", "neg", "negk", "negm", "nege">>) ELSE Pick(s, 3, <<"missing", "short", "text">>)
Oqp(f, s, p) ==
  LET k == Rnd(s, 1, 1, 3) run == Chance(s, 2, 60) hot == Chance(s, 4, 65) bf == IF run /\ Chance(s, 5, 25) THEN Pick(s, 6, OqpFilesOf(p.m0)) ELSE ""
      cls == IF p.m0 /\ (run \/ Chance(s, 7, 50)) THEN "B" ELSE "Q" p2 == [p EXCEPT !.decl = "UNKNOWN", !.pristine = TRUE] sparse == f.pd /\ Chance(s, 8, 50) bud == IF Chance(s, 9, 30) THEN Rnd(s, 10, 0, 4) ELSE 1000 brief == hot /\ Chance(s, 11, 30)
      kd(i) == IF Chance(s, 20 + i, 12) THEN "inf" ELSE "opt" qs == [i \in 1..k |-> MkQP(f, Hash(s, 30 + i), p2, kd(i))]
      cl(i) == Merge(At(Call(IF i = 1 \/ ~hot THEN "init" ELSE "hot", f, qs[i], Hash(s, 40 + i), p2), 2), [via |-> IF i = 1 \/ ~hot THEN "obj" ELSE "vec", nul |-> NoNul, infk |-> 0, hk |-> IF sparse THEN "sparse" ELSE "dense", ak |-> IF sparse THEN "row" ELSE "dense", budget |-> bud])
      seq == [j \in 1..(2 * k) |-> IF j % 2 = 1 THEN cl((j + 1) \div 2) ELSE [op |-> "res", slot |-> 2, qp |-> qs[j \div 2]]]
  IN <<Merge(New(f, p2, 2, p.opt0), [cls |-> cls])>> \o seq \o <<[op |-> "oqp", slot |-> 2, cls |-> cls, m |-> qs[1].m, qps |-> qs, via |-> IF run THEN "run" ELSE "solve", hot |-> hot, sparse |-> sparse, brief |-> brief, budget |-> bud, opts |-> p.opt0, badfile |-> bf, badkind |-> BadKind(s, bf), nec |-> Rnd(s, 12, 0, 2)], Del(2)>>
OqpRead(f, s, p) ==
  LET k == Rnd(s, 1, 1, 3) bf == IF Chance(s, 5, 45) THEN Pick(s, 6, OqpFilesOf(p.m0) \o <<"x_opt", "y_opt", "obj_opt">>) ELSE "" qs == [i \in 1..k |-> MkQP(f, Hash(s, 30 + i), p, "opt")]
      nl == (IF Chance(s, 7, 50) THEN <<>> ELSE Pick(s, 8, <<<<"x_opt">>, <<"y_opt">>, <<"obj_opt">>, <<"x_opt", "y_opt">>, <<"x_opt", "obj_opt">>, <<"x_opt", "y_opt", "obj_opt">>>>)) \o (IF Chance(s, 9, 80) THEN <<>> ELSE Pick(s, 10, <<<<"H">>, <<"g">>, <<"lb">>, <<"ub">>, <<"A">>, <<"lbA">>, <<"ubA">>, <<"A", "lbA", "ubA">>>>))
  IN [op |-> "oqpread", slot |-> 1, m |-> qs[1].m, qps |-> qs, badfile |-> bf, badkind |-> BadKind(s, bf), nec |-> Rnd(s, 12, 0, 2), nulls |-> nl, dims |-> Chance(s, 13, 15)]
MatDump(s, what, of) == [op |-> "mat", slot |-> 1, what |-> what, of |-> of, badpath |-> Chance(s, 1, 8)]
(* an act extends the history; it sees its family, the seed and the profile, and returns the calls and the family now in force *)
Act(a, f, s, p) ==
  LET s2 == Hash(s, 401) one(c) == [calls |-> <<c>>, fam |-> f] many(cs) == [calls |-> cs, fam |-> f] IN
  CASE a = "hot" -> one(Hot(f, s, p, "opt"))
    [] a = "part" -> LET c == Hot(f, s, p, "opt") v(q, t) == LET q2 == Vary(q, Hash(s, t), p.tame) IN IF CertOK(q2) THEN q2 ELSE Assert(FALSE, <<"bad certificate", q2>>)
                         h(q, t) == Call("hot", f, q, Hash(s, t), p) IN                                \* hotstarts that change one vector only, back to the first QP
         IF ~f.pd THEN one(c) ELSE LET q2 == v(c.qp, 1) q3 == v(q2, 2) IN CASE Rnd(s, 3, 1, 3) = 1 -> many(<<c, h(q2, 4), h(c.qp, 5)>>) [] Rnd(s, 3, 1, 3) = 2 -> many(<<h(q2, 4), c, h(v(c.qp, 6), 7)>>) [] OTHER -> many(<<c, h(q2, 4), h(q3, 5), h(c.qp, 8)>>)
    [] a = "far" -> one(Hot(f, s, p, "far"))
    [] a = "inf" -> one(Hot(f, s, p, "inf"))
    [] a = "cross" -> one(Hot(f, s, p, "cross"))
    [] a = "unb" -> one(Hot(f, s, p, "unb"))
    [] a = "bud" -> LET c == Hot(f, s, p, "opt") IN many(<<[c EXCEPT !.budget = Rnd(s, 57, 0, 4)], c>>)
    [] a = "bud0" -> one([Hot(f, s, p, "opt") EXCEPT !.budget = Rnd(s, 57, 0, 3)])
    [] a = "cpu0" -> LET c == Hot(f, s, p, "opt") IN many(<<Merge(c, [cpu |-> 0]), c>>)
    [] a = "initbud" -> LET c == InitC(f, s, p, "opt") IN many(<<Reset, [c EXCEPT !.budget = Rnd(s, 57, 0, 4)], [Hot(f, s, p, "opt") EXCEPT !.qp = c.qp, !.nul = c.nul, !.infk = 0]>>)
    [] a = "initthr" -> LET c == InitC(f, s, p, "opt") IN many(<<Reset, c, Reset, Merge(c, [bref |-> <<2, 1>>, same |-> 2]), Reset, Merge(c, [bref |-> <<4, 0>>])>>)
    [] a \in {"thr", "infthr"} -> LET c == Hot(f, s, p, IF a = "thr" THEN "opt" ELSE "inf") IN
         many(<<Copy(1, 2), Copy(1, 3), c, Merge(c, [slot |-> 2, bref |-> <<1, 1>>, same |-> 1]), Merge(c, [slot |-> 3, bref |-> <<2, 0>>]), Merge(c, [slot |-> 3]), Del(2), Del(3)>>)
    [] a = "reset" -> many(<<Reset, InitC(f, s, p, "opt")>>)
    [] a = "resetdecl" -> many(<<Reset, [op |-> "sethess", slot |-> 1, ht |-> p.decl], InitC(f, s, [p EXCEPT !.pristine = TRUE], "opt")>>)
    [] a = "hotun" -> many(<<Hot(f, s, p, "opt")>>)
    [] a = "reinit" -> one(InitC(f, s, p, "opt"))
    [] a = "initinf" -> one(InitC(f, s, p, "inf"))
    [] a = "initcross" -> one(InitC(f, s, p, "cross"))
    [] a = "initunb" -> one(InitC(f, s, p, "unb"))
    [] a = "badinit" -> many(<<BadInit(f, s, p), InitC(f, s2, p, "opt")>>)
    [] a = "badhot" -> many(<<BadHot(f, s, p), Hot(f, s2, p, "opt")>>)
    [] a = "badguess" -> LET c == Call("init", f, MkQP(f, s, p, "opt"), s, p) IN many(<<BadInit(f, s, p), InitC(f, s2, p, "opt")>>)
    [] a = "opt" -> many(<<[op |-> "opt", slot |-> 1, opts |-> NewOpts(s, p)], Hot(f, s, p, "opt")>>)
    [] a = "objat" -> many(<<Hot(f, s, p, Pick(s, 98, <<"opt", "opt", "far">>)), [op |-> "objat", slot |-> 1, of |-> 1, X |-> [i \in 1..f.n |-> Rnd(s, 140 + i, -6, 6)]]>>)
    [] a = "curv" -> many(<<Hot(f, s, p, "opt"), [op |-> "misc", slot |-> 1, what |-> "curv", v |-> 0], Hot(f, s2, p, "opt")>>)
    [] a = "print" -> many(<<[op |-> "misc", slot |-> 1, what |-> Pick(s, 94, <<"printprops","printopts","printlevel">>), v |-> Rnd(s, 95, -2, 3)], Hot(f, s, p, "opt")>>)
    [] a = "copyc" -> LET c == Hot(f, s, p, "opt") IN many(<<Copy(1, 2), c, Merge(c, [slot |-> 2, same |-> 1]), At(Hot(f, s2, p, "opt"), 2), Obs(1), Del(2)>>)
    [] a = "quiet" -> LET c == Hot(f, s, p, Pick(s, 97, <<"opt", "opt", "inf", "unb">>)) c2 == Hot(f, s2, p, "opt") lv == Rnd(s, 95, -2, 3) IN      \* the same calls at different print levels
         many(<<Copy(1, 2), [op |-> "misc", slot |-> 2, what |-> "printlevel", v |-> lv], Merge(c, [slot |-> 2]), [op |-> "misc", slot |-> 1, what |-> "printlevel", v |-> 0], Merge(c, [same |-> 2]),
                [op |-> "misc", slot |-> 2, what |-> "printlevel", v |-> lv], Merge(c2, [slot |-> 2]), [op |-> "misc", slot |-> 1, what |-> "printlevel", v |-> 0], Merge(c2, [same |-> 2]), Del(2)>>)
    [] a = "copyfresh" -> LET c == InitC(f, s, p, "opt") IN many(<<Reset, Copy(1, 2), c, Merge(c, [slot |-> 2, same |-> 1]), At(Hot(f, s2, p, "opt"), 2), Obs(1), Del(2)>>)
    [] a = "copyreset" -> many(<<Copy(1, 2), At(Reset, 2), Obs(1), At(InitC(f, s, p, "opt"), 2), Obs(1), Del(2), Hot(f, s2, p, "opt")>>)
    [] a = "copyd" -> LET c == Hot(f, s, p, "opt") IN many(<<Copy(1, 2), Del(1), Copy(2, 1), c, Merge(c, [slot |-> 2, same |-> 1]), Del(2), Hot(f, s2, p, "opt")>>)
    [] a = "assign" -> LET c == Hot(f, s, p, "opt") IN many(<<New(f, p, 3, p.opt0), [op |-> "assign", slot |-> 1, to |-> 3], c, Merge(c, [slot |-> 3, same |-> 1]), Hot(f, s2, p, "opt"), Obs(3), Del(3)>>)
    [] a = "assignused" -> LET f2 == Fam(s2, p) c == Hot(f, s, p, "opt") IN
         many(<<New(f2, [p EXCEPT !.decl = "UNKNOWN"], 3, p.opt0), At(Call("init", f2, MkQP(f2, s2, [p EXCEPT !.decl = "UNKNOWN"], "opt"), s2, [p EXCEPT !.decl = "UNKNOWN"]), 3),
                [op |-> "assign", slot |-> 1, to |-> 3], c, Merge(c, [slot |-> 3, same |-> 1]), Del(1), At(Hot(f, s2, p, "opt"), 3), Copy(3, 1), Del(3), Hot(f, Hash(s2, 5), p, "opt")>>)
    [] a = "ana" -> LET c == IF Chance(s, 99, 75) THEN Hot(f, s, p, "opt") ELSE InitC(f, s, p, "opt") IN many(<<c>> \o Analyses(c.qp, s2, p))
    [] a = "anac" -> LET c == Hot(f, s, p, "opt") an == Analyses(c.qp, s2, p) IN many(<<c, Copy(1, 2)>> \o [i \in 1..Len(an) |-> IF "of" \in DOMAIN an[i] THEN Merge(an[i], [slot |-> 2, of |-> an[i].of + 1]) ELSE At(an[i], 2)]
                                                    \o <<Merge(c, [slot |-> 2]), Del(2)>>)
    [] a = "setcp" -> many(<<[op |-> "setcp", slot |-> 1, on |-> TRUE, A |-> f.A]>>)
    [] a = "unsetcp" -> many(<<[op |-> "setcp", slot |-> 1, on |-> FALSE], Hot(f, s, p, "opt")>>)
    [] a = "resetcp" -> many(<<Reset, [op |-> "setcp", slot |-> 1, on |-> TRUE, A |-> f.A], InitC(f, s, p, "opt")>>)
    [] a = "mpart" -> LET f2 == Fam2(f, s, [p EXCEPT !.exch = TRUE]) v == Pick(s, 96, IF p.c = "X" THEN <<"mats">> ELSE <<"mats","mats","matarr">>)      \* one matrix changes only, then one vector only
                          mh(q, ff, t) == Merge(Call("mats", ff, q, Hash(s, t), p), [op |-> "hot", via |-> v]) ck(q) == IF CertOK(q) THEN q ELSE Assert(FALSE, <<"bad certificate", q>>)
                          c == mh(MkQP(f, s, p, "opt"), f, 4) IN
         IF ~f.pd THEN many(<<c>>) ELSE LET q2 == ck(VaryM(c.qp, f2, Hash(s, 1), p.tame)) q3 == ck(VaryM(q2, f2, Hash(s, 2), p.tame)) q4 == ck(Vary(c.qp, Hash(s, 3), p.tame)) IN
         CASE Rnd(s, 3, 1, 3) = 1 -> many(<<c, mh(q2, f, 5), mh(c.qp, f, 6)>>) [] Rnd(s, 3, 1, 3) = 2 -> many(<<c, mh(q2, f, 5), mh(q3, f, 6), mh(c.qp, f, 7)>>)
           [] OTHER -> many(<<c, mh(q4, f, 5), mh(c.qp, f, 6), Call("hot", f, q4, Hash(s, 7), p), mh(c.qp, f, 8)>>)
    [] a = "matscopy" -> LET f2 == Fam2(f, s, [p EXCEPT !.exch = TRUE]) c == Merge(Call("mats", f2, MkQP(f2, s, p, "opt"), s, p), [op |-> "hot", via |-> Pick(s, 96, <<"mats", "matarr">>)]) IN
         [calls |-> <<Copy(1, 2), c, Merge(c, [slot |-> 2, same |-> 1]), At(Hot(f2, s2, p, "opt"), 2), Obs(1), Del(2)>>, fam |-> f2]
    [] a \in {"mats", "matsinf", "matsunb", "matscross", "matsbud"} -> LET f2 == Fam2(f, s, [p EXCEPT !.exch = TRUE]) c == Call("mats", f2, MkQP(f2, s, p, CASE a = "matsinf" -> "inf" [] a = "matsunb" -> "unb" [] a = "matscross" -> "cross" [] OTHER -> "opt"), s, p) v == Pick(s, 96, IF p.c = "X" THEN <<"mats">> ELSE <<"mats","mats","matarr","matfile">>) IN
         [calls |-> <<Guessed(Merge(c, [op |-> "hot", via |-> v, budget |-> IF a = "matsbud" THEN Rnd(s, 57, 0, 3) ELSE 1000, infk |-> IF v = "matfile" THEN 0 ELSE c.infk]), s, p, f2)>> \o (IF a = "matsbud" THEN <<Hot(f2, s, p, "opt")>> ELSE <<>>), fam |-> f2]
    [] a = "badmats" -> many(<<BadMats(f, s, p), InitC(f, s2, p, "opt")>>)
    \* misuse that has to be refused whatever the state, without consequences
    [] a = "abuse" -> many(<<Misc(1, Pick(s, 90, IF p.m0 THEN <<"ws0", "wsb0", "wsc0", "kkt0">> ELSE <<"ws0", "wsb0", "wsc0", "eqpx0", "eqpy0", "kkt0">>)), Misc(1, Pick(s, 91, <<"printprops", "printopts">>))>>)
    [] a = "badany" -> one(CASE Rnd(s, 88, 1, IF p.c = "S" THEN 3 ELSE 2) = 1 -> BadInit(f, s, p) [] Rnd(s, 88, 1, IF p.c = "S" THEN 3 ELSE 2) = 2 -> BadHot(f, s, p) [] OTHER -> BadMats(f, s, p))
    [] a = "badsize" -> LET c == Call(Pick(s, 83, <<"init", "hot">>), f, MkQP(f, s, p, "opt"), s, p) g == Guess(c.qp, s, p, <<"w", "xw">>) cut(v) == SubSeq(v, 1, Len(v) - 1) b == p.m0 \/ Chance(s, 82, 50) IN
         many(<<Merge(Merge(c, IF b THEN [gb |-> cut(g.gb)] ELSE [gb |-> g.gb, gc |-> cut(g.gc)]), [bad |-> IF c.op = "init" THEN "RET_INVALID_ARGUMENTS" ELSE "?"]), InitC(f, s2, p, "opt")>>)
    [] a = "badfresh" -> LET f2 == f IN many(<<Reset, CASE Rnd(s, 88, 1, 2) = 1 -> BadInit(f, s, p) [] OTHER -> BadHot(f, s, p), Misc(1, "printprops"), InitC(f, s2, p, "opt"), Hot(f, Hash(s2, 3), p, "opt")>>)
    [] a = "newbad" -> LET p1 == [p EXCEPT !.nlo = 1, !.nhi = 1, !.m0 = (p.c = "B") \/ Chance(s, 87, 50), !.decl = "UNKNOWN"] f1 == Fam(s, [p1 EXCEPT !.hes = NonDeg.hes]) p2 == [p1 EXCEPT !.singular = FALSE, !.m0 = p1.m0] IN
         many(<<Merge(New(f1, p2, 2, p.opt0), [badn |-> IF p2.m0 /\ p.c # "B" /\ Chance(s, 86, 50) THEN 1 ELSE -Rnd(s, 85, 0, 2), badm |-> IF p2.m0 THEN -Rnd(s, 84, 0, 2) ELSE f1.m]), At(InitC(f1, s, p2, "opt"), 2), At(Hot(f1, s2, p2, "opt"), 2), Del(2), Hot(f, s2, p, "opt")>>)
    [] a = "newdef" -> LET c == Hot(f, s, p, "opt") no(x) == At(Merge(x, [bad |-> "RET_QPOBJECT_NOT_SETUP"]), 3) IN
         many(<<Merge(New(f, p, 3, p.opt0), [def |-> TRUE, ht |-> "UNKNOWN"]), no(Call("init", f, MkQP(f, s2, p, "opt"), s2, p)), Merge(At(Reset, 3), [bad |-> IF p.c = "X" THEN "RET_RESET_FAILED" ELSE "RET_QPOBJECT_NOT_SETUP"]), no(Call("hot", f, MkQP(f, s, p, "opt"), s, p)), Misc(3, Pick(s, 90, <<"printprops", "printopts", "ws0", "kkt0">>))>> \o
              (IF p.c = "X" THEN <<c, Del(3)>> ELSE <<[op |-> "assign", slot |-> 1, to |-> 3], c, Merge(c, [slot |-> 3, same |-> 1]), At(Hot(f, s2, p, "opt"), 3), Obs(1), Del(3)>>))
ActC(a, f, s, p) ==
  LET s2 == Hash(s, 401) one(c) == [calls |-> <<c>>, fam |-> f] many(cs) == [calls |-> cs, fam |-> f] pair(c, o) == many(CPair(c, p.c, o)) IN
  CASE a = "cpre" -> many(<<CMisc(1, p.c, Pick(s, 81, <<"init", "hot">>), 0, 0, 0, -1), CBadCall(s2, p, p.c), CSetup(1, p.c, f, p)>> \o (IF Chance(s, 82, 30) THEN CPair(CHot(f, s, p, "opt"), p.c, <<>>) ELSE <<>>))
    [] a = "chot" -> pair(CHot(f, s, p, "opt"), <<>>)
    [] a = "chotinf" -> pair(CHot(f, s, p, Pick(s, 83, <<"inf", "cross">>)), <<>>)
    [] a = "chotunb" -> pair(CHot(f, s, p, "unb"), <<>>)
    [] a = "cbud" -> LET c == CHot(f, s, p, "opt") IN many(CPair([c EXCEPT !.budget = Rnd(s, 57, 0, 4)], p.c, <<>>) \o CPair(c, p.c, <<>>))
    [] a = "ccpu" -> pair(Merge(CHot(f, s, p, "opt"), [cpu |-> Pick(s, 57, <<0, 100000000>>)]), <<>>)
    [] a = "creinit" -> LET o == NewOpts(s2, p) IN IF Chance(s, 84, 50) THEN many(<<[op |-> "opt", slot |-> 1, opts |-> o]>> \o CPair(CInit(f, s, p, "opt"), p.c, <<o>>)) ELSE pair(CInit(f, s, p, "opt"), <<>>)
    [] a = "cinitinf" -> pair(CInit(f, s, p, Pick(s, 83, <<"inf", "unb", "cross">>)), <<>>)
    [] a = "csetup" -> many(<<New(f, p, 1, p.opt0), CSetup(1, p.c, f, p)>> \o CPair(CInit(f, s, [p EXCEPT !.pristine = TRUE], "opt"), p.c, <<p.opt0>>))
    [] a = "cbad" -> many(<<CBadCall(s, p, p.c), CBadCall(s2, p, p.c)>> \o CPair(CHot(f, s, p, "opt"), p.c, <<>>))
    [] a = "cother" -> LET k == Pick(s, 85, p.others) p1 == [p EXCEPT !.nlo = 1, !.nhi = 3, !.mhi = 3, !.m0 = (k = "B") \/ Chance(s, 87, 20), !.decl = "UNKNOWN", !.hes = NonDeg.hes, !.singular = FALSE, !.c = k] f1 == Fam(s, p1) IN
         many(<<New(f1, p1, 3, p.opt0), CSetup(3, k, f1, p1)>> \o CPair(At(CInit(f1, s, p1, "opt"), 3), k, <<p.opt0>>) \o CPair(CHot(f, s2, p, "opt"), p.c, <<>>) \o CPair(At(CHot(f1, s2, p1, "opt"), 3), k, <<>>)
              \o <<CMisc(3, k, "cleanup", 0, 0, 0, 0), CMisc(3, k, "hot", 0, 0, 0, -1), Del(3)>> \o CPair(CHot(f, Hash(s2, 3), p, "opt"), p.c, <<>>))
    [] a = "oqp" -> many(Oqp(f, s, p))
    [] a = "oqpread" -> one(OqpRead(f, s, p))
    [] a = "mat" -> LET c == CHot(f, s, p, "opt") IN IF p.c = "B" THEN pair(c, <<>>) ELSE many(CPair(c, p.c, <<>>) \o <<MatDump(s, "data", 2), MatDump(s2, "work", 3)>>)
RECURSIVE Steps(_, _, _, _, _)
Steps(i, f, s, p, word) == IF i > p.len THEN <<>> ELSE
  LET r == IF p.cif THEN ActC(word[i], f, Hash(s, 7000 + i), p) ELSE Act(word[i], f, Hash(s, 7000 + i), p) IN r.calls \o Steps(i + 1, r.fam, s, p, word)
Digit(v, i) == LET RECURSIVE D(_, _) D(x, k) == IF k = 1 THEN x % Len(Prof.acts) ELSE D(x \div Len(Prof.acts), k - 1) IN D(v, i)
Behaviour(sd) ==
  LET s == Hash(sd, 1) cls == Pick(s, 2, Prof.cls)
      opts0 == Opts(Hash(s, 4), Prof)
      ramping == Ramping(opts0)
      f == Fam(Hash(s, 3), IF ramping \/ cls = "B" THEN Prof ELSE [Prof EXCEPT !.dep = 0, !.amag = 9, !.hes = NonDeg.hes])
      opts == NeedReg(opts0, ~f.pd, Prof)
      decl == HtDecl(f, s, Prof)
      extra == [m0 |-> cls = "B" \/ (Prof.m0p > 0 /\ Chance(s, 17, Prof.m0p)), decl |-> decl, tame |-> ~ramping \/ ~f.pd, slater |-> ramping /\ f.pd /\ ~Chance(s, 8, 20), opt0 |-> opts, c |-> cls, nsmax |-> Rnd(s, 5, 1, 6), others |-> SelectSeq(<<"B", "Q", "S">>, LAMBDA k : k # cls), exch |-> FALSE, pristine |-> FALSE, singular |-> ~f.pd]
      p == Merge(Prof, extra)
      init == InitC(f, Hash(s, 6), [p EXCEPT !.pristine = TRUE], Pick(s, 7, p.initkind))
      word == [i \in 1..p.len |-> IF p.exh > 0 THEN p.acts[1 + Digit(sd, i)] ELSE Pick(s, 70 + i, p.acts)]
      pre == IF p.first = <<>> THEN <<>> ELSE IF p.cif THEN ActC(p.first[1], f, Hash(s, 71), p).calls ELSE Act(p.first[1], f, Hash(s, 71), p).calls
  IN [id |-> sd, steps |-> <<New(f, p, 1, opts)>> \o pre \o (IF p.cif THEN CPair(init, cls, <<opts>>) ELSE <<init>>) \o Steps(1, f, s, p, word)]
Init == done = FALSE
Next == ~done /\ done' = TRUE
Emitted == done => ndJsonSerialize(Out, [i \in 1..ChunkSize |-> Behaviour(Base + Chunk * ChunkSize + i)])
=============================================================================
