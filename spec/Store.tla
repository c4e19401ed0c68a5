------------------------------- MODULE Store --------------------------------
(* Fits in memory and on disk.  A fit is a record of aspects (what it holds)  *)
(* plus the sampled chain; a saved fit is a record of the same aspects.       *)
EXTENDS Common
Aspects == {"galaxy", "instrument", "img", "lines", "kin", "intensity", "options", "prior", "settings", "mcmc", "links", "results", "extras"}
(* aspects of the acting fit each operation may replace                       *)
May(op) == CASE op = "setup" -> {"prior", "links"}
             [] op = "run" -> {"mcmc"}
             [] op = "analyse" -> {"results"}
             [] op = "reanalyse" -> {"results", "prior", "links"}
             [] op = "change" -> {}            \* only the one it names
             [] OTHER -> {}
Replaced(op, aspect) == May(op) \cup (IF op = "change" THEN {aspect} ELSE {})
(* the fit after the operation, new being what it is observed to hold         *)
Mix(f, new, S) == [a \in Aspects |-> IF a \in S THEN new[a] ELSE f[a]]
None == [none |-> TRUE]
(* image stamps and headers are kept out of saved fits                        *)
Bare(f) == [f EXCEPT !["extras"] = 0]
(* s: fits (sequence), chains (sequence), best, chain: the two files          *)
Fits(s, e) ==
  CASE e.op = "new" -> Append(s.fits, e.new)
    [] e.op = "copy" -> Append(s.fits, s.fits[e.o])
    [] e.op = "load" -> IF e.raised = "" THEN [s.fits EXCEPT ![e.o] = Bare(s.best)] ELSE s.fits
    [] OTHER -> [s.fits EXCEPT ![e.o] = Mix(@, e.new, Replaced(e.op, e.aspect))]
Chains(s, e) ==
  CASE e.op = "new" -> Append(s.chains, 0)
    [] e.op = "copy" -> Append(s.chains, s.chains[e.o])
    [] e.op = "run" -> [s.chains EXCEPT ![e.o] = e.chain]
    [] e.op = "loadchain" -> IF e.raised = "" THEN [s.chains EXCEPT ![e.o] = s.chain] ELSE s.chains
    [] e.op \in {"analyse", "reanalyse"} -> IF e.raised = "" /\ s.chains[e.o] = 0 THEN [s.chains EXCEPT ![e.o] = s.chain] ELSE s.chains
    [] OTHER -> s.chains
BestFile(s, e) == CASE e.op = "save" /\ e.raised = "" -> s.fits[e.o]
                    [] e.op = "drop" -> None
                    [] OTHER -> s.best
ChainFile(s, e) == CASE e.op = "run" -> e.chain [] OTHER -> s.chain
Apply(s, e) == [s EXCEPT !.fits = Fits(s, e), !.chains = Chains(s, e), !.best = BestFile(s, e), !.chain = ChainFile(s, e)]
(* what must be there for the operation to succeed                            *)
Possible(s, e) == CASE e.op = "load" -> s.best # None
                    [] e.op = "loadchain" -> s.chain # 0
                    [] e.op = "analyse" -> s.chains[e.o] # 0 \/ s.chain # 0
                    [] e.op = "reanalyse" -> s.chains[e.o] # 0 \/ s.chain # 0
                    [] e.op = "bad" -> FALSE
                    [] OTHER -> TRUE
(* a quantity that depends only on some aspects: the same whenever they are   *)
Posterior == {"galaxy", "instrument", "kin", "intensity", "options", "prior", "settings"}
Summary == {"galaxy", "kin", "options", "settings", "links"}
Proj(f, S) == [a \in S |-> f[a]]
=============================================================================
