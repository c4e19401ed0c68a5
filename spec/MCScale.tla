------------------------------ MODULE MCScale -------------------------------
EXTENDS Scale, TLC
CONSTANT NI
VARIABLES d, done
N == 1..NI
Rec == [flux : [N -> {-1, 2}], model : [N -> {0, 1, 3}], err : [N -> {1, 2}], mask : [N -> {0, 1}], nosky : SUBSET N, w : {5, 10}]
Lift(r) == [flux |-> <<r.flux>>, model |-> <<r.model>>, err |-> <<r.err>>, mask |-> <<r.mask>>, nosky |-> r.nosky, weight |-> <<[i \in N |-> r.w]>>, free |-> 1]
Init == d \in Rec /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED d
Spec == Init /\ [][Next]_<<d, done>>
(* chi-square over the clear unmasked channels of the model times a/b, times b^2 *)
At(l, a, b) == SumS([i \in Chans(l) |-> LET r == b * l.flux[1][i] - a * l.model[1][i] IN r * r * (Iv(l.err[1][i]) \div 25)], Used(l, 1))
Least == LET l == Lift(d) n == Amp(l, 1) m == IF n[1] = 0 THEN n ELSE <<n[1] \div 25, n[2] \div 25>>
         IN \A a \in -4..4, b \in 1..3 : At(l, m[1], m[2]) * b * b <= At(l, a, b) * m[2] * m[2]
Blind == LET l == Lift(d)
             o == [l EXCEPT !.flux = <<[i \in N |-> IF l.mask[1][i] = 0 THEN 9 - l.flux[1][i] ELSE l.flux[1][i]]>>,
                            !.err = <<[i \in N |-> IF l.mask[1][i] = 0 THEN 5 ELSE l.err[1][i]]>>]
         IN Amp(l, 1) = Amp(o, 1) /\ Chi(l, TRUE) = Chi(o, TRUE) /\ Chi(l, FALSE) = Chi(o, FALSE) /\ NegLike(l) = NegLike(o) /\ Dof(l) = Dof(o)
Unconstrained == LET l == Lift(d) IN (\A i \in Used(l, 1) : l.model[1][i] = 0) => Amp(l, 1)[1] = 0
Perfect == LET l == Lift(d) IN (\A i \in N : l.mask[1][i] = 1 => l.flux[1][i] = l.model[1][i]) => Chi(l, TRUE) = 0
Weighting == LET l == Lift(d) IN 10 * Chi(l, TRUE) = d.w * Chi(l, FALSE)
(* scaling twice changes nothing                                              *)
Twice == LET l == Lift(d) n == Amp(l, 1) m == IF n[1] = 0 THEN n ELSE <<n[1] \div 25, n[2] \div 25>> s == [l EXCEPT !.model = <<[i \in N |-> m[1] * l.model[1][i]]>>, !.flux = <<[i \in N |-> m[2] * l.flux[1][i]]>>]
         IN Den(s, 1) # 0 => Num(s, 1) = Den(s, 1)
All == done => Least /\ Blind /\ Unconstrained /\ Perfect /\ Weighting /\ Twice
=============================================================================
