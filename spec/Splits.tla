------------------------------- MODULE Splits -------------------------------
(***************************************************************************)
(* What splits of samples into training and test sets have to satisfy.     *)
(* Samples are 0..n-1, lab is the sequence of their group labels (lab[i+1] *)
(* for sample i), a fold is [tr |-> training samples, te |-> test samples],*)
(* both sequences of samples.                                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Ran(q) == {q[i] : i \in DOMAIN q}
Distinct(q) == Cardinality(Ran(q)) = Len(q)
Samples(n) == 0..(n - 1)
Groups(lab) == Ran(lab)
Members(lab, g) == {i - 1 : i \in {j \in DOMAIN lab : lab[j] = g}}
Size(lab, g) == Cardinality(Members(lab, g))

\* k folds
LegalK(n, lab, K) == K >= 2 /\ K <= n /\ \A g \in Groups(lab) : K <= Size(lab, g)
Partition(n, K, folds) ==
    /\ Len(folds) = K
    /\ \A f \in DOMAIN folds : Distinct(folds[f].te) /\ Distinct(folds[f].tr)
    /\ UNION {Ran(folds[f].te) : f \in DOMAIN folds} = Samples(n)
    /\ \A f, g \in DOMAIN folds : f < g => Ran(folds[f].te) \cap Ran(folds[g].te) = {}
    /\ \A f \in DOMAIN folds : Ran(folds[f].tr) = Samples(n) \ Ran(folds[f].te)
Balanced(lab, folds) ==
    \A g \in Groups(lab) :
        LET M == Members(lab, g)
            C == {Cardinality(Ran(folds[f].te) \cap M) : f \in DOMAIN folds}
        IN \A a, b \in C : a - b <= 1
\* the part of a group in a test set is a run of the group in order of samples
Contiguous(lab, folds) ==
    \A g \in Groups(lab) : \A f \in DOMAIN folds :
        LET M == Members(lab, g)
            T == Ran(folds[f].te) \cap M
        IN \A a, b \in T : \A x \in M : (a < x /\ x < b) => x \in T
Interlaced(K, folds) == \A f \in DOMAIN folds : \A i \in Ran(folds[f].te) : i % K = f - 1

\* sizes in a group of m samples.  A size is [kind |-> "none" | "abs" | "frac", a, b]
\* where an absolute size is a and a fraction is a/b.  A fraction of m that is a whole
\* number may be rounded to either side, for a/b is not exact in floating point.
Ceil(a, b) == (a + b - 1) \div b
TestSizes(m, t) == CASE t.kind = "abs" -> {t.a}
                     [] t.kind = "frac" -> {Ceil(t.a * m, t.b)} \cup
                            (IF (t.a * m) % t.b = 0 THEN {(t.a * m) \div t.b + 1} ELSE {})
                     [] OTHER -> {}
TrainSizes(m, t) == CASE t.kind = "abs" -> {t.a}
                      [] t.kind = "frac" -> {(t.a * m) \div t.b} \cup
                            (IF (t.a * m) % t.b = 0 THEN {(t.a * m) \div t.b - 1} ELSE {})
                      [] OTHER -> {}
\* the pairs <<number of training samples, number of test samples>> that a request may mean
Pairs(m, tr, te) ==
    IF tr.kind = "none" /\ te.kind = "none" THEN {}
    ELSE IF tr.kind = "none" THEN {<<m - x, x>> : x \in TestSizes(m, te)}
    ELSE IF te.kind = "none" THEN {<<x, m - x>> : x \in TrainSizes(m, tr)}
    ELSE TrainSizes(m, tr) \X TestSizes(m, te)
InFrac(s) == s.kind = "frac" => s.a > 0 /\ s.a < s.b
GoodPair(m, p) == p[1] >= 1 /\ p[2] >= 1 /\ p[1] + p[2] <= m
MustRefuse(lab, tr, te) ==
    \/ ~InFrac(tr) \/ ~InFrac(te)
    \/ \E g \in Groups(lab) : \A p \in Pairs(Size(lab, g), tr, te) : ~GoodPair(Size(lab, g), p)
MayRefuse(lab, tr, te) ==
    \/ MustRefuse(lab, tr, te)
    \/ tr.kind = "frac" /\ te.kind = "frac" /\ tr.a * te.b + te.a * tr.b > tr.b * te.b
    \/ \E g \in Groups(lab) : \E p \in Pairs(Size(lab, g), tr, te) : ~GoodPair(Size(lab, g), p)
Sizes(lab, tr, te, f) ==
    \A g \in Groups(lab) :
        LET M == Members(lab, g) IN
        <<Cardinality(Ran(f.tr) \cap M), Cardinality(Ran(f.te) \cap M)>> \in Pairs(Cardinality(M), tr, te)
SplitOk(n, f) == /\ Distinct(f.tr) /\ Distinct(f.te)
                 /\ Ran(f.tr) \cap Ran(f.te) = {}
                 /\ Ran(f.tr) \cup Ran(f.te) \subseteq Samples(n)
TrainFirst(lab, f) == \A g \in Groups(lab) : \A a \in Ran(f.tr) \cap Members(lab, g) :
                         \A b \in Ran(f.te) \cap Members(lab, g) : a < b
=============================================================================
