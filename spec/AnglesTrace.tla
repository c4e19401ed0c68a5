---------------------------- MODULE AnglesTrace ----------------------------
(* A galaxy object over a history of attribute changes and angle              *)
(* calculations.  "set": attributes changed; "calc": angle computed;          *)
(* "prep": computed through preparation (only if still unset).                *)
EXTENDS Angles, TraceKit
Unset == 999999
TInit == [gal |-> 0, slit |-> 0, img |-> 0, model |-> FALSE, delt |-> Unset]
TStep(s, e) ==
  CASE e.k = "set" -> [gal |-> e.gal, slit |-> e.slit, img |-> e.img, model |-> e.model,
                       delt |-> IF e.delt = Unset + 1 THEN s.delt ELSE e.delt]
    [] e.k = "calc" -> IF e.raised # "" THEN s ELSE [s EXCEPT !.delt = e.out]
    [] OTHER -> s
TFails(s, e) ==
  CASE e.k = "set" -> {}
    [] e.k = "calc" ->
       IF s.model
       THEN IF s.delt = Unset THEN {}
            ELSE IF e.raised # "" THEN {"calc raised"}
            ELSE Failing([ kept |-> e.out = s.delt, absolute |-> e.outabs = Abs(s.delt) ])
       ELSE IF e.raised # "" THEN {"calc raised"}
       ELSE Failing([ folded |-> Accept(e.out, s.gal, s.slit, s.img, e.tol),
                      absolute |-> e.outabs = Abs(e.out),
                      untouched |-> e.attrs = <<s.gal, s.slit, s.img>> ])
    [] OTHER -> {"unknown event"}
=============================================================================
