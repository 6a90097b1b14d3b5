------------------------------ MODULE WorkRun ------------------------------
(***************************************************************************)
(* A workspace: original distributions are put in place and replaced,      *)
(* converted, cut to the mini data set, and loaded, in any order.  What is *)
(* loaded is what the last conversion found, whatever has been converted   *)
(* before (C21, C20): conversions replace, and neither conversions nor     *)
(* loads of one data set disturb another, nor the originals.               *)
(***************************************************************************)
EXTENDS Files, Json

CONSTANTS Fams,        \* data sets; the first has a mini data set
          MaxActs, Flaws, Emit

VARIABLES orig,        \* by data set: which version lies there, or 0
          conv,        \* by data set: converted files [lines, users], or <<>>
          mini,        \* the mini data set, or <<>>
          acts, seen   \* what has been done, and what was loaded
vars == <<orig, conv, mini, acts, seen>>

L(u, i, s) == [kind |-> "data", ev |-> <<u, i>>, sc |-> s, ef |-> <<>>, iu |-> u, ii |-> i]
Version(d) == IF d = 1 THEN [lines |-> <<L(1, 2, 5), L(12, 1, 3), L(1, 2, 5)>>, users |-> << <<12, "x">>, <<1, "y">>, <<3, "z">> >>]
              ELSE [lines |-> <<L(4, 11, 1), L(2, 2, 2)>>, users |-> << <<1, "p">>, <<2, "q">>, <<4, "r">> >>]
First == CHOOSE f \in Fams : \A g \in Fams : f <= g

Init == /\ orig = [f \in Fams |-> 0] /\ conv = [f \in Fams |-> <<>>] /\ mini = <<>>
        /\ acts = <<>> /\ seen = <<>>
Act(a) == Len(acts) < MaxActs /\ acts' = Append(acts, a)
Put(f, d) == /\ orig[f] # d /\ Act(<<"put", f, d>>) /\ orig' = [orig EXCEPT ![f] = d] /\ UNCHANGED <<conv, mini, seen>>
Convert(f) ==
    /\ orig[f] # 0 /\ Act(<<"convert", f, 0>>)
    /\ LET v == Version(orig[f])
           had == conv[f] # <<>>
           lines == IF "append" \in Flaws /\ had THEN conv[f][1].lines \o v.lines ELSE v.lines
           users == IF "keeptable" \in Flaws /\ had THEN conv[f][1].users ELSE v.users
           new == [conv EXCEPT ![f] = <<[lines |-> lines, users |-> users]>>]
       IN conv' = IF "samefile" \in Flaws THEN [g \in Fams |-> IF new[g] = <<>> THEN <<>> ELSE <<[new[g][1] EXCEPT !.users = users]>>]
                  ELSE new
    /\ UNCHANGED <<orig, mini, seen>>
Cut == /\ conv[First] # <<>> /\ Mini(conv[First][1].lines) # <<>> /\ Act(<<"mini", First, 0>>)
       /\ mini' = <<Mini(IF "cutoriginal" \in Flaws /\ orig[First] # 0 THEN Version(orig[First]).lines
                         ELSE conv[First][1].lines)>>
       /\ conv' = IF "cutinplace" \in Flaws THEN [conv EXCEPT ![First] = <<[conv[First][1] EXCEPT !.lines = mini'[1]]>>] ELSE conv
       /\ UNCHANGED <<orig, seen>>
View(lines, users) == [ev |-> Events(lines), sc |-> ScoresOf(lines), u |-> Attach(users, Events(lines), 1)]
Load(f) == /\ conv[f] # <<>> /\ Act(<<"load", f, 0>>)
           /\ seen' = Append(seen, <<Len(acts'), View(conv[f][1].lines, conv[f][1].users)>>)
           /\ UNCHANGED <<orig, conv, mini>>
LoadMini == /\ mini # <<>> /\ Act(<<"loadmini", First, 0>>)
            /\ seen' = Append(seen, <<Len(acts'), View(mini[1], conv[First][1].users)>>)
            /\ UNCHANGED <<orig, conv, mini>>
Show == Emit /\ Len(acts) = MaxActs /\ seen # <<>> /\ acts[MaxActs][1] \in {"load", "loadmini"}
        /\ PrintT("HIST|" \o ToJson([ev |-> acts])) /\ UNCHANGED vars
Next == \/ \E f \in Fams : Load(f) \/ Convert(f) \/ \E d \in 1..2 : Put(f, d)
        \/ Cut \/ LoadMini \/ Show
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
\* what the history means: versions found by the last conversion, and by the conversion before the last cut
Last(P(_), n) == LET J == {j \in 1..n : P(acts[j])} IN IF J = {} THEN 0 ELSE CHOOSE j \in J : \A i \in J : i <= j
Found(f, n) == LET c == Last(LAMBDA a : a[1] = "convert" /\ a[2] = f, n)
               IN IF c = 0 THEN 0 ELSE acts[Last(LAMBDA a : a[1] = "put" /\ a[2] = f, c)][3]
Meaning(n) ==
    LET a == acts[n]  f == a[2]  v == Version(Found(f, n)) IN
    IF a[1] = "load" THEN View(v.lines, v.users)
    ELSE View(Mini(Version(Found(f, Last(LAMBDA b : b[1] = "mini", n))).lines), v.users)
LoadedIsConverted == \A j \in DOMAIN seen : seen[j][2] = Meaning(seen[j][1])
\* nothing but a conversion or a cut changes what can be loaded, and each changes its own
Undisturbed == [][/\ \A f \in Fams : conv'[f] # conv[f] => acts'[Len(acts')] = <<"convert", f, 0>>
                  /\ mini' # mini => acts'[Len(acts')][1] = "mini"
                  /\ orig' # orig => acts'[Len(acts')][1] = "put"]_vars
NoHist == <<orig, conv, mini, Len(acts)>>
=============================================================================
