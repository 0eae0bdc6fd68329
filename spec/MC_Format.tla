------------------------------ MODULE MC_Format ------------------------------
(***************************************************************************)
(* The design of the number format, checked exhaustively: for every takum  *)
(* of every width in Widths_, in both families, the laws a user relies on. *)
(***************************************************************************)
EXTENDS Takum, TLC
CONSTANTS MaxWidth
WidthSet == {w \in {8, 12, 13, 14, 16} : w <= MaxWidth}

VARIABLES width, word
vars == <<width, word>>
(* sixteen walks per width, each over its part of the number line *)
Block(w) == 2^(w - 4)
Init == width \in WidthSet /\ word \in {NaR(width) + j * Block(width) : j \in 0..15}
Next == (word + 1) % Block(width) # 0 /\ word' = word + 1 /\ UNCHANGED width
Spec == Init /\ [][Next]_vars

Real == word # 0 /\ ~IsNaR(width, word)
(* compare dyadic numbers v 2^x *)
Cmp(a, b) == LET m == Min(a[2], b[2]) IN a[1] * 2^(a[2] - m) - b[1] * 2^(b[2] - m)
Lin_ == IF word = 0 THEN <<0, 0>> ELSE LinValue(width, word)
(* the positive logarithmic takums are ordered by l *)
Log_ == LET a == LogValue(width, word) IN <<a[1], -a[2]>>
Next_(t) == LinValue(width, t)

NegationNegates ==
    Real => /\ Cmp(LinValue(width, -word), <<-Lin_[1], Lin_[2]>>) = 0
            /\ Cmp(<<LogValue(width, -word)[1], -LogValue(width, -word)[2]>>, Log_) = 0
OrderIsIntegerOrder ==
    Real /\ word < PosMax(width) =>
        /\ word # -1 => Cmp(Lin_, LinValue(width, word + 1)) < 0
        /\ word > 0 => LET a == LogValue(width, word + 1) IN Cmp(Log_, <<a[1], -a[2]>>) < 0
        /\ word < -1 => LET a == LogValue(width, word + 1) IN Cmp(Log_, <<a[1], -a[2]>>) > 0
        /\ Sgn(Lin_[1]) = Sgn(word)
(* the value rounds back to the takum it came from *)
RoundingIsIdentity ==
    Real => /\ Eq(RoundLin(width, Lin_[1], Lin_[2]), word)
            /\ LET a == LogValue(width, word) IN Eq(RoundLog(width, word < 0, a[1], a[2]), word)
(* taking the value and rounding it to fewer bits is rounding the bit      *)
(* string, and never yields 0 or NaR                                       *)
Narrower == {m \in {8, 12, 13} : m < width}
ReductionIsRounding ==
    Real => \A m \in Narrower :
        LET r == Reduce(width, m, word)
        IN  /\ Eq(RoundLin(m, Lin_[1], Lin_[2]), r)
            /\ LET a == LogValue(width, word) IN Eq(RoundLog(m, word < 0, a[1], a[2]), r)
            /\ r # 0 /\ ~IsNaR(m, r)
            /\ 2 * Abs(word - Expand(m, width, r)) <= 2^(width - m)
               \/ r \in {1, -1, PosMax(m), -PosMax(m)}
ExpansionIsExact ==
    Real => LET m == 2 * width
                a == LinValue(m, Expand(width, m, word))
                b == LogValue(m, Expand(width, m, word))
            IN  /\ Cmp(a, Lin_) = 0
                /\ Cmp(<<b[1], -b[2]>>, Log_) = 0
                /\ Eq(Reduce(m, width, Expand(width, m, word)), word)
(* characteristic and mantissa stay in the ranges of the format *)
FieldRanges ==
    Real => LET f == Fields(width, word)
            IN  /\ f.c >= -255 /\ f.c <= 254
                /\ f.r = CharR(f.c)
                /\ f.p >= 0 /\ f.M < 2^f.p
                /\ Precision(width, word) >= 0 /\ Precision(width, word) <= width - 5
(* extremes *)
Extremes ==
    /\ word = 1 => Precision(width, word) >= 0
    /\ Eq(word, One(width)) => Eq(Lin_[1], 2^(-Lin_[2])) /\ Log_[1] = 0
    /\ IsNaR(width, word) => \A m \in {8, 16, 32, 64} : Eq(Resize(width, m, word), NaR(m))
    /\ word = 0 => \A m \in {8, 16, 32, 64} : Resize(width, m, word) = 0
=============================================================================
