------------------------------- MODULE Worlds -------------------------------
(* Models sharing galaxies, instruments and profiles.                        *)
(*                                                                           *)
(* Galaxies and instruments are slots holding a configuration token.  A      *)
(* model holds its options, its last parameters and the set-up taken when it *)
(* was last made; what it computes must be a function of that alone.         *)
EXTENDS Common
Blank(opt) == [opt |-> opt, setup |-> <<>>, theta |-> <<>>]
(* the set-up a make takes: configurations at this moment, not references     *)
SetUp(w, g, i, kind) == <<w.gal[g], w.ins[i], kind>>
Make(w, m, g, i, kind, th) == [w EXCEPT !.mod[m].setup = SetUp(w, g, i, kind), !.mod[m].theta = th]
Update(w, m, th) == [w EXCEPT !.mod[m].theta = th]
(* what the result may depend on                                              *)
Key(x) == <<x.setup, x.opt, x.theta>>
Configure(w, f, slot, cfg) == IF f = "gal" THEN [w EXCEPT !.gal[slot] = cfg] ELSE [w EXCEPT !.ins[slot] = cfg]
=============================================================================
