----------------------------- MODULE TR_Entropy -----------------------------
(* A reported entropy.  t: the terminated text, order, e: n times the        *)
(* reported value as four limbs, refused.  Each event is one block of equal  *)
(* contexts in suffix-array order, <<m, c1, ..., cj>>: m suffixes, followed   *)
(* by runs of equal followers (hint, verified).                              *)
EXTENDS Entropy, TraceBase

LOG == TLCEval(JsonDeserialize(IOEnv.LOGS))
ASSUME LogTableOk(LOG)

ZeroInside(t) == \E i \in 1..Len(t) - 1 : t[i] = 0
EnSInit(r) == IF r.ev # <<>> => Assert(IsSACert(r.t, r.sa, r.rk), <<"bad certificate", r.id>>)
              THEN Ok([p |-> 1, acc |-> Zero4]) ELSE Bad
RECURSIVE RunsOk(_, _, _, _, _, _)
(* followers: blocks of k+1 characters, within the ranks p .. last            *)
RunsOk(r, k, e, x, p, last) ==
  IF x > Len(e) THEN p = last + 1
  ELSE /\ e[x] >= 1 /\ p + e[x] - 1 <= last
       /\ (x > 2 => ~SameK(r.t, r.sa[p-1], r.sa[p], k + 1))
       /\ \A q \in p+1..p+e[x]-1 : SameK(r.t, r.sa[q-1], r.sa[q], k + 1)
       /\ RunsOk(r, k, e, x + 1, p + e[x], last)
RECURSIVE Less(_, _, _)
Less(acc, e, x) == IF x > Len(e) THEN acc ELSE Less(AddScaled(acc, 0 - e[x], LOG[e[x]]), e, x + 1)
EnSStep(r, s, e) ==
  LET m == e[1]
      n == Len(r.t)
      k == r.order
      last == s.p + m - 1
  IN IF Assert(/\ m >= 1 /\ last <= n
               /\ BlockStart(r.t, r.sa, k, s.p) /\ (last = n \/ BlockStart(r.t, r.sa, k, last + 1))
               /\ (IF m = 1 THEN Len(e) = 2 /\ e[2] = 1
                   ELSE /\ \A q \in s.p+1..last : SameK(r.t, r.sa[q-1], r.sa[q], k)
                        /\ RunsOk(r, k, e, 2, s.p, last)), <<"bad hint", r.id, s.p>>)
     THEN Ok([p |-> last + 1, acc |-> Less(AddScaled(s.acc, m, LOG[m]), e, 2)]) ELSE Bad
EnSFinal(r, s) ==
  LET n == Len(r.t)
      unfit == IF r.k = "kmer" THEN r.order < 1 \/ r.order > 7 \/ r.order > n
               ELSE r.order >= 1 /\ ZeroInside(r.t)
  IN IF unfit THEN r.refused
     ELSE /\ ~r.refused
          /\ r.len = n
          /\ Assert(s.p = n + 1, <<"bad hint", r.id>>)
          /\ Small([q \in 1..4 |-> s.acc[q] - r.e[q]], 2 * n + 64)
=============================================================================
