------------------------------ MODULE StampTrace -----------------------------
(* "shown": a figure of the image, and what it contains.  "mean": averaging    *)
(* over other pixels.  "angles": helpers for angles.                           *)
EXTENDS Stamp, TraceKit
TInit == 0
TStep(s, e) == s
Near(a, b, t) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Abs(a[i] - b[i]) <= t
NearPt(p, q, t) == Abs(p[1] - q[1]) <= t /\ Abs(p[2] - q[2]) <= t
Largest(q) == SetMax({Abs(q[i]) : i \in 1..Len(q)})
Hidden == 1073741824
(* what would be below the darkest shade that has a logarithm is not seen       *)
SamePixels(got, want, t, med) ==
  Len(got) = Len(want) /\ \A i \in 1..Len(want) : IF got[i] = Hidden \/ (med = 0 /\ got[i] = 0) THEN want[i] <= t - 3 * med ELSE Abs(got[i] - want[i]) <= t
SegIs(seg, c, d, t) == \/ NearPt(seg[1], <<c[1] + d[1], c[2] + d[2]>>, t) /\ NearPt(seg[2], <<c[1] - d[1], c[2] - d[2]>>, t)
                       \/ NearPt(seg[2], <<c[1] + d[1], c[2] + d[2]>>, t) /\ NearPt(seg[1], <<c[1] - d[1], c[2] - d[2]>>, t)
BarIs(seg, C, e) ==
  LET x == ViewX(C) y == ViewY(C) at == y[1] + (y[2] - y[1]) \div 10 + C.label
      l == Min2(seg[1][1], seg[2][1]) r == Max2(seg[1][1], seg[2][1])
  IN Abs(seg[1][2] - at) <= 6 /\ Abs(seg[2][2] - at) <= 6 /\ Abs(l - (x[1] + (x[2] - x[1]) \div 10)) <= 6 /\ Abs(r - l - Bar(C)) <= 6 + Bar(C) \div 1000
NoteIs(n, C) ==
  LET x == ViewX(C) y == ViewY(C) IN n.text = (IF C.kpc > 0 THEN "1 kpc" ELSE "0.25 arcsec")
     /\ Abs(n.x - (x[1] + (x[2] - x[1]) \div 10 + Bar(C) \div 2)) <= 8 + Bar(C) \div 1000 /\ Abs(n.y - (y[1] + ((y[2] - y[1]) * 13) \div 100 + C.label)) <= 8
ShownFails(C, o) ==
  LET want == TLCEval(IF C.stamp = <<>> THEN <<>> ELSE Shown(C))
      sz == Size(C) g == TLCEval(Galaxy(C)) a == Lean(C) x == TLCEval(ViewX(C)) y == TLCEval(ViewY(C))
      mom == Moments(C)
      mt == 40 + (mom[1] + mom[3]) \div 25
      c == TLCEval(Corners(C))
      half == IF C.rot /\ C.conv /\ C.kind = "Moffat" THEN FALSE ELSE TRUE
  IN IF o.shape # <<sz[2], sz[1]>> THEN {"size"} ELSE
     Failing([
       image |-> (C.stamp # <<>>) => SamePixels(o.img, want, 5 + Largest(want) \div (IF C.conv THEN 120 ELSE 1500), o.dark),
       upright |-> o.origin = "lower",
       light |-> (C.stamp = <<>>) => Abs(o.blob[1] - C.flux) <= C.flux \div (IF half THEN 60 ELSE 8),
       place |-> (C.stamp = <<>>) => NearPt(<<o.blob[2], o.blob[3]>>, <<0, 0>>, 20),
       form |-> (C.stamp = <<>> /\ half) => \A i \in 1..3 : Abs(o.blob[3 + i] - mom[i]) <= mt,
       shades |-> LET fs == {Faint(o.img, sz[1], sz[2], x0, x1, y0, y1) : x0 \in Rounds(x[1]), x1 \in Rounds(x[2]), y0 \in Rounds(y[1]), y1 \in Rounds(y[2])}
                  IN (\E f \in fs : Abs(f - o.dark) <= 2 + f \div 200) /\ Abs(o.dark - o.light) <= 2 + o.dark \div 1000,
       view |-> Near(o.xlim, x, 6) /\ Near(o.ylim, y, 6),
       slit |-> Len(o.slit) = 5 /\ NearPt(o.slit[5], o.slit[1], 1) /\ \E k \in 0..3 : \/ \A i \in 1..4 : NearPt(o.slit[i], c[((i + k - 1) % 4) + 1], 12)
                                                                                   \/ \A i \in 1..4 : NearPt(o.slit[i], c[((4 - i + k) % 4) + 1], 12),
       axes |-> IF C.show THEN Len(o.segs) = 3 /\ \E p \in [1..3 -> 1..3] : {p[i] : i \in 1..3} = 1..3 /\ SegIs(o.segs[p[1]], g, EndA(C), 8 + HalfA(C) \div 500)
                                    /\ SegIs(o.segs[p[2]], g, EndB(C), 8 + HalfB(C) \div 500) /\ BarIs(o.segs[p[3]], C, o)
                ELSE o.segs = <<>>,
       ellipse |-> IF C.show THEN Len(o.ell) = 6 /\ NearPt(<<o.ell[1], o.ell[2]>>, g, 6)
                                 /\ LET w == IF Abs(a[1] * o.ell[6] - a[2] * o.ell[5]) <= 40 * a[3] THEN <<HalfB(C), HalfA(C)>>
                                             ELSE IF Abs(a[1] * o.ell[5] + a[2] * o.ell[6]) <= 40 * a[3] THEN <<HalfA(C), HalfB(C)>> ELSE <<0, 0>>
                                    IN \/ Abs(o.ell[3] - 2 * w[1]) <= 16 + w[1] \div 200 /\ Abs(o.ell[4] - 2 * w[2]) <= 16 + w[2] \div 200
                                       \/ Abs(C.q - 1000) <= 1 /\ Abs(o.ell[3] - 2 * HalfA(C)) <= 16 + HalfA(C) \div 200 /\ Abs(o.ell[4] - 2 * HalfB(C)) <= 16 + HalfB(C) \div 200
                   ELSE o.ell = <<>>,
       scale |-> IF C.show THEN \E i \in 1..Len(o.notes) : NoteIs(o.notes[i], C) ELSE o.notes = <<>>,
       ratios |-> (C.own /\ C.show) => (Len(o.ba) >= 1 /\ Abs(o.ba[1] - 10 * C.q) <= 1 /\ (C.conv => Len(o.ba) = 2 /\ Abs(o.ba[2] - ((HalfB(C) * 10000) \div HalfA(C))) <= 12)),
       title |-> C.own => o.title = C.title,
       saved |-> o.saved = C.save,
       input |-> o.same ])
(* averaging a row of pixels                                                       *)
MeanFails(e) ==
  Failing([ raised |-> e.raised = "",
            mean |-> e.raised = "" => LET w == Mean1(e.v, e.o, e.p, e.n, e.c, e.b) IN Near(e.got, w, 4 + Largest(e.v) \div 800) ])
AnglesFails(e) ==
  Failing([ raised |-> e.raised = "",
            misaligned |-> e.raised = "" => LET m == Misaligned(e.gal, e.slit, e.img) IN (Abs(e.delt - m) <= 1 \/ (Abs(m) = 900 /\ Abs(e.delt) = 900)) /\ Abs(e.abs - Abs(e.delt)) <= 1,
            header |-> e.raised = "" => (e.cd = <<0, 0>> /\ e.pa = <<10000, 0>>)
                        \/ (Abs(e.cd[1] * e.pa[2] - e.cd[2] * e.pa[1]) <= 20 * (Abs(e.cd[1]) + Abs(e.cd[2])) /\ e.cd[1] * e.pa[1] + e.cd[2] * e.pa[2] > 0),
            between |-> e.raised = "" => Abs(e.sep[1] * e.dir[2] - e.sep[2] * e.dir[1]) <= 20 * (Abs(e.sep[1]) + Abs(e.sep[2])) /\ e.sep[1] * e.dir[1] + e.sep[2] * e.dir[2] > 0,
            signs |-> e.raised = "" => \A i \in 1..Len(e.signs) : LET d == (((((e.signs[i].pa + 1800) % 3600) + 3600) % 3600) - 1800) s == e.signs[i] IN
                 /\ s.y = (IF Abs(d) < 900 THEN 1 ELSE IF Abs(d) = 900 THEN 0 ELSE -1)
                 /\ s.x = (IF d = 0 \/ d = -1800 THEN 0 ELSE Sgn(d)) ])
TFails(s, e) == CASE e.k = "shown" -> IF e.raised = "" THEN ShownFails(e.C, e.out) ELSE {"raised"}
                  [] e.k = "mean" -> MeanFails(e)
                  [] e.k = "angles" -> AnglesFails(e)
                  [] OTHER -> {"unknown"}
=============================================================================
