------------------------------- MODULE Scale --------------------------------
(* Scaling of a model to the data and the goodness of fit.                    *)
(* d: flux, err, model, mask (0/1), weight (tenths): sequences of rows;       *)
(*    nosky: set of clear channels; free: number of free parameters.          *)
(* err is 1, 2, 5 or 10, so that 100/err^2 is whole.                          *)
EXTENDS Common
Iv(e) == 100 \div (e * e)
Rows(d) == 1..Len(d.flux)
Chans(d) == 1..Len(d.flux[1])
Used(d, j) == {i \in d.nosky : d.mask[j][i] = 1}
RECURSIVE SumS(_, _)
SumS(f, S) == IF S = {} THEN 0 ELSE LET i == CHOOSE x \in S : TRUE IN f[i] + SumS(f, S \ {i})
Num(d, j) == SumS([i \in Chans(d) |-> d.flux[j][i] * d.model[j][i] * Iv(d.err[j][i])], Used(d, j))
Den(d, j) == SumS([i \in Chans(d) |-> d.model[j][i] * d.model[j][i] * Iv(d.err[j][i])], Used(d, j))
(* amplitude of row j: <<numerator, denominator>>, zero if nothing constrains *)
Amp(d, j) == IF Den(d, j) = 0 THEN <<0, 1>> ELSE <<Num(d, j), Den(d, j)>>
Good(d) == {<<j, i>> \in Rows(d) \X Chans(d) : d.mask[j][i] = 1}
(* 1000 times the chi-square, weighted or not                                 *)
Chi(d, weighted) == SumS([p \in Rows(d) \X Chans(d) |->
                       LET r == d.flux[p[1]][p[2]] - d.model[p[1]][p[2]]
                       IN r * r * Iv(d.err[p[1]][p[2]]) * (IF weighted THEN d.weight[p[1]][p[2]] ELSE 10)], Good(d))
(* log10(2 pi err^2) in 1e-6                                                  *)
LogErr(e) == 798180 + (CASE e = 1 -> 0 [] e = 2 -> 602060 [] e = 5 -> 1397940 [] OTHER -> 2000000)
(* -2000 times the log likelihood, rounded down                               *)
NegLike(d) == Chi(d, TRUE) + (SumS([p \in Rows(d) \X Chans(d) |-> LogErr(d.err[p[1]][p[2]])], Good(d)) \div 1000)
Dof(d) == Cardinality(Good(d)) - d.free
Weights(d) == SumS([p \in Rows(d) \X Chans(d) |-> d.weight[p[1]][p[2]]], Rows(d) \X Chans(d))
(* q is a/b to the nearest (within t)                                         *)
IsRatio(q, a, b, t) == Abs(q * b - a) <= t * Abs(b)
=============================================================================
