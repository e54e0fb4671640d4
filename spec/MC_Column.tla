------------------------------ MODULE MC_Column ------------------------------
(* The interpretation of a cell by its column: every combination of the       *)
(* inherited properties at two levels and every short cell.                   *)
EXTENDS Cell, TLC, Json
CONSTANTS Emit, MaxLen
VARIABLES up, low, text
vars == <<up, low, text>>

L(n, d, r, s) == [null |-> n, default |-> d, required |-> r, separator |-> s, datatype |-> <<>>]
Nulls == { <<>>, << <<C("-")>> >>, << <<>> >>, << << <<>>, C("a")>> >> }
Defaults == { <<>>, <<C("a")>>, <<C("-")>> }
Ups == {L(n, d, r, s) : n \in Nulls, d \in Defaults, r \in { <<>>, <<TRUE>> }, s \in { <<>>, <<C(";")>> }}
Lows == {L(n, d, r, s) : n \in { <<>>, << <<C("a")>> >> }, d \in { <<>>, <<C("-")>> }, r \in { <<>>, <<FALSE>> }, s \in { <<>>, <<C("-")>> }}
Texts == UNION {[1..n -> {45, 59, 97}] : n \in 0..MaxLen}

Init == up \in Ups /\ low \in Lows /\ text = <<>> /\ (Emit => PrintT(<<"GEN", ToJson([up |-> up, low |-> low])>>))
Next == /\ ~Emit
        /\ text = <<>>
        /\ text' \in Texts
        /\ UNCHANGED <<up, low>>
Lv == <<up, low>>
R == ReadCell(Lv, text)
EffText == IF text = <<>> THEN DefaultOf(Lv) ELSE text
\* the nearest description wins
Nearest == /\ low.null # <<>> => NullOf(Lv) = low.null[1]
           /\ low.default # <<>> => DefaultOf(Lv) = low.default[1]
           /\ low.separator # <<>> => SepOf(Lv) = low.separator
           /\ low.required # <<>> => RequiredOf(Lv) = low.required[1]
           /\ low.null = <<>> /\ up.null # <<>> => NullOf(Lv) = up.null[1]
NullWins == (SepOf(Lv) = <<>> /\ EffText \in TRange(NullOf(Lv)))
            => R = IF RequiredOf(Lv) THEN Err1 ELSE Ok1(<<"n">>)
Lists == (SepOf(Lv) # <<>> /\ R.k = "ok") =>
            \/ R.v = <<"n">> /\ EffText \in TRange(NullOf(Lv)) /\ EffText # <<>>
            \/ R.v[1] = "l" /\ (EffText = <<>> <=> R.v[2] = <<>>)
            \/ R.v[1] = "l" /\ Len(R.v[2]) = Len(Split(EffText, SepOf(Lv)[1]))
\* a cell without list items that are null strings is written as it was read
WriteBack == (SepOf(Lv) = <<>> /\ R.k = "ok" /\ R.v # <<"n">>) => WriteCell(Lv, R.v) = EffText
=============================================================================
