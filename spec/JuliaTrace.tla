------------------------------ MODULE JuliaTrace ------------------------------
EXTENDS Julia, TraceBase
(* an image, or some of its pixels <<i, j, brightness>>                          *)
ImageOp(s, e) ==
  R(s, << <<"image is computed in its size", e.exc = "" /\ e.shape = <<e.w, e.h>>>> >> \o
       IF e.exc # "" THEN <<>> ELSE
       << <<"pixel is (iterations to escape / limit)^0.2",
            \A k \in 1..Len(e.pix) : LET p == e.pix[k] IN IsNum(p[3]) /\ \E n \in PixelCounts(p[1], p[2], e) : QLe(QAbs(QSub(p[3], Bright(n, e.N))), P10(-12))>> >>)
SliderOp(s, e) ==
  R(s, << <<"one trace and one slider step per angle", e.n = e.divs /\ Len(e.steps) = e.divs>>,
          <<"shows the image of the last angle at first", e.active = e.divs - 1 /\ e.shown>>,
          <<"each step shows its own image only", \A i \in 1..Len(e.steps) : e.steps[i] = [j \in 1..e.divs |-> i = j]>> >>)
TStep(s, e) == CASE e.op = "image" -> ImageOp(s, e) [] e.op = "slider" -> SliderOp(s, e) [] OTHER -> R(s, << <<"unknown event " \o e.op, FALSE>> >>)
=============================================================================
