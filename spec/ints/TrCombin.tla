------------------------------ MODULE TrCombin ------------------------------
(* Recorded calls.  One event is one row: a type, an n and a list of k with  *)
(* the answer for each, <<1, value>> or <<0>> for a call that did not return.*)
EXTENDS Combin, TraceKit

\* a representable answer must be returned exactly; otherwise nothing is claimed
Exact(ans, want, ty) ==
  want = Huge \/ DLt(MaxOf(ty), want) \/ (ans[1] = 1 /\ ans[2] = want)
InRange(v, ty) == DLe(MinOf(ty), v) /\ DLe(v, MaxOf(ty))

Row(e, F(_)) == /\ e.st = "ok" /\ Len(e.res) = Len(e.ks)
                /\ \A i \in DOMAIN e.ks : F(i)
\* the first k with a wrong answer, for the report
Accept(e) ==
  LET m == MaxOf(e.ty) IN
  CASE e.op = "factorial" -> Row(e, LAMBDA i : Exact(e.res[i], Fact(e.ks[i], m), e.ty))
    [] e.op = "factorial2" -> Row(e, LAMBDA i : Exact(e.res[i], Fact2(e.ks[i], m), e.ty))
    [] e.op = "factorialk" -> Row(e, LAMBDA i : IF DSgn(e.ks[i]) # 1 THEN e.res[i][1] = 0
                                               ELSE Exact(e.res[i], KFact(e.n, e.ks[i], m), e.ty))
    [] e.op = "comb" -> Row(e, LAMBDA i : Exact(e.res[i], Comb(e.n, e.ks[i], m), e.ty))
    [] e.op = "perm" -> Row(e, LAMBDA i : Exact(e.res[i], Perm(e.n, e.ks[i], m), e.ty))
    \* the call forms n + k, which has to be representable; zero kinds taken zero times is left open
    [] e.op = "comb_rep" -> Row(e, LAMBDA i :
          \/ ~InRange(DAdd(e.n, e.ks[i]), e.ty)
          \/ (e.n = Zero /\ e.ks[i] = Zero)
          \/ ((Neg(e.n) \/ Neg(e.ks[i])) /\ ~InRange(DSub(DAdd(e.n, e.ks[i]), One), e.ty))
          \/ Exact(e.res[i], CombRep(e.n, e.ks[i], m), e.ty))
    [] e.op = "stirling2" -> Row(e, LAMBDA i : Exact(e.res[i], Stirling2(e.ni, e.ki[i]), e.ty))
    [] OTHER -> FALSE
Init == TraceInit
Next == StatelessNext(Accept)
=============================================================================
