------------------------------ MODULE MC_Codec ------------------------------
(* All short texts through all encoders and back.  The alphabet is 0..A-1,   *)
(* a pair of the run-length code stands for at most CAP repetitions          *)
(* (CAP <= A, so that a count is a symbol).                                  *)
EXTENDS Codec, Json

CONSTANTS A, MAXN, CAP

VARIABLES text, i, rle, rlz, hum, mtf, lst, j, unrle, unrlz, unmtf, ulst
vars == <<text, i, rle, rlz, hum, mtf, lst, j, unrle, unrlz, unmtf, ulst>>
Z == 1
n == Len(text)
D0 == [key |-> -1, out |-> <<>>]
Init == /\ text \in Texts(0..A-1, 0, MAXN)
        /\ i = 1
        /\ rle = RleInit /\ rlz = RlzInit /\ hum = <<>> /\ mtf = <<>> /\ lst = MtfList(A)
        /\ j = 1 /\ unrle = D0 /\ unrlz = D0 /\ unmtf = <<>> /\ ulst = MtfList(A)
Encode == /\ i <= n
          /\ i' = i + 1
          /\ rle' = RleByte(CAP, rle, text[i])
          /\ rlz' = RlzByte(CAP, Z, rlz, text[i])
          /\ hum' = RunsOfByte(hum, text[i])
          /\ LET p == PosIn(lst, text[i]) IN mtf' = Append(mtf, p - 1) /\ lst' = ToFront(lst, p)
          /\ UNCHANGED <<text, j, unrle, unrlz, unmtf, ulst>>
RleOut == RleEnd(rle)
RlzOut == RlzEnd(Z, rlz)
Steps == MaxOf({Len(RleOut), Len(RlzOut), Len(mtf)})
Decode == /\ i > n /\ j <= Steps
          /\ j' = j + 1
          /\ unrle' = IF j <= Len(RleOut) THEN UnrleByte(unrle, RleOut[j]) ELSE unrle
          /\ unrlz' = IF j <= Len(RlzOut) THEN UnrlzByte(Z, unrlz, RlzOut[j]) ELSE unrlz
          /\ IF j <= Len(mtf) THEN unmtf' = Append(unmtf, ulst[mtf[j] + 1]) /\ ulst' = ToFront(ulst, mtf[j] + 1)
             ELSE UNCHANGED <<unmtf, ulst>>
          /\ UNCHANGED <<text, i, rle, rlz, hum, mtf, lst>>
Next == Encode \/ Decode
Done == i > n /\ j > Steps

MtfRight == /\ \A x \in 1..Len(mtf) : mtf[x] = MtfDef(text, x)
            /\ Range(lst) = 0..A-1
MtfBack == \A x \in 1..Len(unmtf) : unmtf[x] = text[x]
RleBack == Done => unrle = [key |-> -1, out |-> text] /\ unrlz = [key |-> -1, out |-> text]
(* splits only after CAP repetitions                                           *)
RleShort == Done => /\ Len(RleOut) % 2 = 0
                    /\ \A x \in 1..(Len(RleOut) \div 2) - 1 :
                         RleOut[2*x-1] = RleOut[2*x+1] => RleOut[2*x] = CAP - 1
                    /\ Cardinality({x \in 1..Len(text) : x = 1 \/ text[x] # text[x-1]}) = Len(hum)
HumExact == i > n => Flatten([x \in 1..Len(hum) |-> Repeat(hum[x][1], hum[x][2])]) = text
Export == Done => PrintT(ToJson([t |-> text, rle |-> RleOut, rlz |-> RlzOut, hum |-> hum, mtf |-> mtf]))
=============================================================================
