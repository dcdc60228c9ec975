------------------------------ MODULE TR_Parse ------------------------------
(* k = "lz"  : one event <<x, l, lo, hi>> per written LZ77 factor (lo..hi: the *)
(*             interval hint, 0 = decide by definition); cnt reported count    *)
(* k = "lex" : one event <<x, l>> per written lex-parse factor                 *)
(* k = "mus" : mus = the reported pairs (1-based start), one event per        *)
(*             position: its longest repeats (hint); small texts are decided by definition                   *)
(* k = "att" : verdict of the attractor tool; for long texts one event per     *)
(*             rank: the common prefix with the rank before                    *)
EXTENDS Parse, TraceBase

(* ml[i]: the reported length at start i, 0 if i is not reported (hint)        *)
MusStart(r) ==
  LET m == Len(r.t)
  IN /\ \A x \in 2..Len(r.mus) : r.mus[x-1][1] < r.mus[x][1]
     /\ \A x \in 1..Len(r.mus) : r.mus[x][1] \in 1..m /\ r.mus[x][2] > 0
     /\ m <= 14 => {r.mus[x] : x \in 1..Len(r.mus)} = MusDef(r.t)
     /\ Assert(/\ Len(r.ml) = m /\ \A x \in 1..Len(r.mus) : r.ml[r.mus[x][1]] = r.mus[x][2]
               /\ Cardinality({i \in 1..m : r.ml[i] # 0}) = Len(r.mus), <<"bad hint", r.id>>)
(* event i: common prefixes a, b of suffix i with its two neighbours; both are *)
(* known to be at least one less than those of suffix i - 1                     *)
LcpHint(t, i, j, from, v) ==
  IF j = 0 THEN v = 0
  ELSE /\ v >= from /\ i + v - 1 <= Len(t) /\ j + v - 1 <= Len(t)
       /\ (i + v <= Len(t) /\ j + v <= Len(t) => t[i+v] # t[j+v])
       /\ \A k \in from..v-1 : t[i+k] = t[j+k]
MusEvent(r, s, e) ==
  LET m == Len(r.t)
      now == Max2(e[1], e[2])
      was == Max2(s.a, s.b)
  IN IF /\ Assert(/\ LcpHint(r.t, s.i, PredOf(r.sa, r.rk, s.i), Max2(s.a - 1, 0), e[1])
                  /\ LcpHint(r.t, s.i, SuccOf(r.sa, r.rk, s.i), Max2(s.b - 1, 0), e[2]), <<"bad hint", r.id, s.i>>)
        /\ s.i > 1 => r.ml[s.i - 1] = (IF s.i - 1 + was <= m /\ was <= now THEN was + 1 ELSE 0)
     THEN Ok([i |-> s.i + 1, a |-> e[1], b |-> e[2]]) ELSE Bad
MusEnd(r, s) == LET m == Len(r.t)
                    was == Max2(s.a, s.b)
                IN s.i = m + 1 /\ r.ml[m] = (IF was = 0 THEN 1 ELSE 0)
AttPos(r) == {r.p[x] + 1 : x \in 1..Len(r.p)}
Beyond(r) == \E x \in 1..Len(r.p) : r.p[x] > Len(r.t)
(* long texts: plcp = the common prefix of each suffix with its predecessor in   *)
(* the order, dist = the distance to the next position (hints)                   *)
ByPath(r) == "plcp" \in DOMAIN r
AttStart(r) ==
  ~Beyond(r) /\ ByPath(r) =>
    Assert(/\ Len(r.plcp) = Len(r.t) /\ Len(r.ev) = Len(r.t)
           /\ \A i \in 1..Len(r.t) : LcpHint(r.t, i, PredOf(r.sa, r.rk, i), IF i = 1 THEN 0 ELSE Max2(r.plcp[i-1] - 1, 0), r.plcp[i])
           /\ IsDist(Len(r.t), r.p, r.dist), <<"bad hint", r.id>>)
(* an empty set of positions covers nothing; every position beyond is refused *)
AttOk(r, covered) ==
  LET m == Len(r.t)
      P == AttPos(r)
      T0 == Append(r.t, 0)
  IN IF Beyond(r) THEN r.verdict = "refused"
     ELSE /\ r.verdict = (IF covered THEN "valid" ELSE "invalid")
          /\ (m <= 16 => covered = IsAttractorDef(r.t, P))
          \* every substring named occurs, but no occurrence covers a position
          /\ \A x \in 1..Len(r.names) :
               LET w == r.names[x]
                   occ == {j \in 1..m + 2 - Len(w) : OccursAt(T0, w, j)}
               IN Len(w) > 0 /\ occ # {} /\ \A j \in occ : ~(IF ByPath(r) THEN j <= m /\ r.dist[j] < Len(w) ELSE Covers(P, j, Len(w)))
          /\ (r.verdict = "valid" => r.names = <<>>)
PaSInit(r) ==
  IF "sa" \in DOMAIN r => Assert(IsSACert(r.t, r.sa, r.rk), <<"bad certificate", r.id>>)
  THEN (IF r.k = "mus" THEN (IF MusStart(r) THEN Ok([i |-> 1, a |-> 0, b |-> 0]) ELSE Bad)
        ELSE IF r.k = "att" THEN (IF AttStart(r) THEN Ok([i |-> 1, path |-> PathInit]) ELSE Bad)
        ELSE Ok([i |-> 1])) ELSE Bad
PaSStep(r, s, e) ==
  CASE s.i > Len(r.t) -> Bad
    [] r.k = "lz" ->
         IF Len(r.t) <= 120
         THEN IF IsLzFactor(r.t, s.i, e) THEN Ok([i |-> Advance(s.i, e)]) ELSE Bad
         ELSE IF /\ e[2] >= 0 /\ s.i + Max2(e[2], 1) - 1 <= Len(r.t)
                 /\ IF e[2] = 0 THEN e[1] = r.t[s.i] ELSE e[1] >= 1 /\ e[1] < s.i /\ Same(r.t, s.i - e[1], s.i, e[2])
                 /\ NoEarlierByRank(r.t, r.sa, r.rk, s.i, e[2], e[3], e[4])
              THEN Ok([i |-> Advance(s.i, e)]) ELSE Bad
    [] r.k = "lex" -> IF IsLexFactor(r.t, r.sa, r.rk, s.i, e) THEN Ok([i |-> Advance(s.i, e)]) ELSE Bad
    [] r.k = "mus" -> MusEvent(r, s, e)
    [] r.k = "att" -> \* s.i is a rank
         IF Assert(e = r.plcp[r.sa[s.i]], <<"bad hint", r.id>>)
         THEN Ok([i |-> s.i + 1, path |-> PathStep(s.path, e, Len(r.t) - r.sa[s.i] + 1, r.dist[r.sa[s.i]])]) ELSE Bad
    [] OTHER -> Bad
PaSFinal(r, s) ==
  CASE r.k \in {"lz", "lex"} -> s.i = Len(r.t) + 1 /\ r.cnt = Len(r.ev) /\ r.len = Len(r.t)
    [] r.k = "mus" -> MusEnd(r, s)
    [] r.k = "att" -> AttOk(r, IF ByPath(r) THEN PathEnd(s.path)
                               ELSE LET P == AttPos(r)
                                        m == Len(r.t)
                                    IN IF Beyond(r) THEN FALSE
                                       ELSE IF m <= 16 THEN IsAttractorDef(r.t, P)
                                       ELSE IsAttractorByRank(r.t, r.sa, TLCEval([x \in 1..m |-> IF x = 1 THEN 0 ELSE LcpAt(r.t, r.sa[x-1], r.sa[x])]),
                                                              TLCEval([x \in 1..m |-> DistTo(P, x)])))
=============================================================================
