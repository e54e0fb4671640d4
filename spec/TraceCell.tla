------------------------------ MODULE TraceCell ------------------------------
(* Recorded uses of datatypes and columns.                                    *)
EXTENDS Cell, Harness
CellInit(sess) == sess.ini
Yes(stt) == [st |-> stt, bad |-> "", exp |-> <<>>]
Nay(stt, clause, exp) == [st |-> stt, bad |-> clause, exp |-> exp]
\* an outcome is [k |-> "ok", v], [k |-> "err"] (ValueError) or [k |-> "other"] (anything else raised)
Judge(stt, r, out, what) ==
  IF out.k = "other" THEN Nay(stt, "an exception other than ValueError", r)
  ELSE IF r.k = "any" THEN Yes(stt)
  ELSE IF r.k = "err" /\ out.k # "err" THEN Nay(stt, what \o ": accepted", r)
  ELSE IF r.k = "ok" /\ out.k # "ok" THEN Nay(stt, what \o ": refused", r)
  ELSE IF r.k = "ok" /\ out.v # r.v THEN Nay(stt, what \o ": value", r)
  ELSE Yes(stt)
JudgeText(stt, t, out, what) ==
  IF out.k # "ok" THEN Nay(stt, what \o ": failed", t)
  ELSE IF out.v # t THEN Nay(stt, what \o ": text", t)
  ELSE Yes(stt)

CellStep(stt, e) ==
  CASE e.op = "make" ->      \* a datatype description
         IF e.out.k = "other" THEN Nay(stt, "an exception other than ValueError", <<>>)
         ELSE IF Consistent(e.dt) /\ Incomparable(e.dt) THEN Yes(stt)
         ELSE IF (Consistent(e.dt) /\ PatternOk(e.dt)) # (e.out.k = "ok")
         THEN Nay(stt, IF e.out.k = "ok" THEN "contradictory description accepted" ELSE "consistent description refused", <<>>)
         ELSE Yes(stt)
    [] e.op = "read" -> Judge(stt, IF Consistent(e.dt) /\ PatternOk(e.dt) THEN Read(e.dt, e.t) ELSE Err1, e.out, "read")
    [] e.op = "write" -> JudgeText(stt, Write(e.dt, e.v), e.out, "write")
    [] e.op = "roundtrip" ->
         IF ~Representable(e.dt, e.v) THEN Yes(stt)
         ELSE Judge(stt, Ok1(Canon(e.v)), e.out, "written and read back")
    [] e.op = "cread" -> Judge(stt, ReadCell(e.levels, e.t), e.out, "cell")
    [] e.op = "cwrite" -> JudgeText(stt, WriteCell(e.levels, e.v), e.out, "cell written")
    [] e.op = "cround" -> Judge(stt, ReadCell(e.levels, WriteCell(e.levels, e.v)), e.out, "cell written and read back")
    [] e.op = "junk" -> IF e.out.k = "other" THEN Nay(stt, "an exception other than ValueError", <<>>) ELSE Yes(stt)
=============================================================================
