---------------------------- MODULE NumericTrace ----------------------------
EXTENDS Numeric, TraceIO
IsInt(e) == e.cls = "int"
Limit(e) ==
  IF e.cls = "int" THEN e.v = IntLimit(e.bits, e.signed, e.which)
  ELSE IF e.which = "infinity" THEN e.v = "inf"
  ELSE IF e.which \in {"quiet_NaN", "signaling_NaN"} THEN e.v = "nan"
  ELSE e.v = FloatLimit(e.t, e.which)
Trig(e) ==
  LET tol == e.tol IN
  /\ e.k # 99 => Near(e.s, SinAt(e.k), tol) /\ Near(e.c, CosAt(e.k), tol)
  /\ Pythagoras(e.s, e.c, tol) /\ TangentOf(e.s, e.c, e.t, tol)
  /\ e.ss = e.s /\ e.sc = e.c                        \* sincos agrees
  /\ e.bytes = e.want
Inverse(e) ==   \* x: an angle in 10^-4 within the principal range; f: the function of it, inverted
  /\ Near(e.back, e.x, e.tol) /\ e.bytes = e.want
Expo(e) ==      \* exponentials: exp(x) exp(-x) = 1, log(exp(x)) = x, exp(x+1) = e exp(x)
  /\ Near((e.ep * e.em) \div One, One, 2 * e.tol + 3 + e.ep \div 5000) /\ Near(e.back, e.x, e.tol)
  /\ Near((e.ep * 2718) \div 1000, e.ep1, 3 * e.tol + e.ep \div 3000 + 4)
  /\ (e.x = 0) => e.ep = One /\ e.back = 0
  /\ e.bytes = e.want
TraceInit == l = 1
TraceNext ==
  /\ More /\ Advance
  /\ LET e == Event IN
     \/ e.op = "begin"
     \/ e.op = "max" /\ e.r = (IF IsInt(e) THEN MaxI(e.a, e.b) ELSE MaxD(e.a, e.b))
     \/ e.op = "min" /\ e.r = (IF IsInt(e) THEN MinI(e.a, e.b) ELSE MinD(e.a, e.b))
     \/ e.op = "abs" /\ e.r = (IF IsInt(e) THEN AbsI(e.a) ELSE AbsD(e.a))
     \/ e.op = "square" /\ e.r = SquareD(e.a)
     \/ e.op = "sqrt" /\ e.x = SquareD(e.a) /\ e.r = AbsD(e.a) /\ e.bytes = ResultBytes(e.t)
     \/ e.op = "invSqrt" /\ e.bytes = ResultBytes(e.t) /\ (IF e.a.m = 1 THEN e.r = [m |-> 1, e |-> -e.a.e] ELSE Near(e.q, 1048576, 1))
     \/ e.op = "convert" /\ e.r = e.a /\ e.n = 1
     \/ e.op = "convert2" /\ e.r1 = e.a /\ e.r2 = e.b /\ e.n = 2 /\ e.same = <<e.a, e.a>>
     \/ e.op = "limit" /\ Limit(e)
     \/ e.op = "trig" /\ Trig(e)
     \/ e.op = "inverse" /\ Inverse(e)
     \/ e.op = "expo" /\ Expo(e)
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
