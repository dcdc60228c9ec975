------------------------------ MODULE MC_Files ------------------------------
(* A tool that opens its input and its output in either order, with or without *)
(* the right to do so, next to another file.  The input is a file or standard   *)
(* input; the output a file, with or without previous content, or standard      *)
(* output.  (Input and output are different files.)                             *)
EXTENDS Files, Json

CONSTANTS SIGMA, MAXN, TOOLSET

VARIABLES sc, fs, std, got, inOpen, outOpen, pc, status
vars == <<sc, fs, std, got, inOpen, outOpen, pc, status>>

None == <<-1>>                                     \* no such file
Other == <<7, 7>>
Scenarios == {[tool |-> w, t |-> t, file |-> f, named |-> n, old |-> o, mayRead |-> r, mayWrite |-> m] :
              w \in TOOLSET, t \in Texts(0..SIGMA-1, 0, MAXN), f \in BOOLEAN, n \in BOOLEAN,
              o \in {None, <<>>, <<9, 9, 9, 9, 9, 9, 9, 9, 9>>}, r \in BOOLEAN, m \in BOOLEAN}
Init == /\ sc \in {s \in Scenarios : /\ s.file \/ s.mayRead
                                     /\ s.named \/ (s.mayWrite /\ s.old = None)
                                     /\ s.tool # "count_runs" \/ ~s.named}
        /\ fs = [in |-> sc.t, out |-> sc.old, other |-> Other]
        /\ std = <<>> /\ got = <<>> /\ inOpen = FALSE /\ outOpen = FALSE /\ pc = "run" /\ status = -1

Complete == inOpen /\ got = sc.t
(* what may have been written with the input read so far                         *)
Produced == IF Complete THEN Whole(sc.tool, got) ELSE Partial(sc.tool, got)
Out == IF sc.named THEN fs.out ELSE std

OpenIn == /\ pc = "run" /\ ~inOpen
          /\ IF sc.mayRead THEN inOpen' = TRUE /\ pc' = pc ELSE inOpen' = FALSE /\ pc' = "dying"
          /\ UNCHANGED <<sc, fs, std, got, outOpen, status>>
OpenOut == /\ pc = "run" /\ ~outOpen
           /\ IF sc.mayWrite
              THEN /\ outOpen' = TRUE /\ pc' = pc
                   /\ fs' = IF sc.named THEN [fs EXCEPT !.out = <<>>] ELSE fs
              ELSE outOpen' = FALSE /\ pc' = "dying" /\ UNCHANGED fs
           /\ UNCHANGED <<sc, std, got, inOpen, status>>
Deliver == /\ pc = "run" /\ inOpen
           /\ \E n \in 1..(Len(fs.in) - Len(got)) : got' = SubSeq(fs.in, 1, Len(got) + n)
           /\ UNCHANGED <<sc, fs, std, inOpen, outOpen, pc, status>>
Write == /\ pc = "run" /\ outOpen
         /\ \E n \in 1..(Len(Produced) - Len(Out)) :
              LET o == SubSeq(Produced, 1, Len(Out) + n)
              IN IF sc.named THEN fs' = [fs EXCEPT !.out = o] /\ UNCHANGED std ELSE std' = o /\ UNCHANGED fs
         /\ UNCHANGED <<sc, got, inOpen, outOpen, pc, status>>
Exit == /\ \/ pc = "run" /\ Complete /\ outOpen /\ Out = Produced /\ status' = 0
           \/ pc = "dying" /\ status' = 1
        /\ pc' = "done"
        /\ UNCHANGED <<sc, fs, std, got, inOpen, outOpen>>
Next == OpenIn \/ OpenOut \/ Deliver \/ Write \/ Exit
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Pairs(f) == {<<n, f[n]>> : n \in DOMAIN f}
Start == [in |-> sc.t, out |-> sc.old, other |-> Other]
(* at every moment, and whatever goes wrong                                       *)
Untouched == OnlyOutput(Pairs(Start), Pairs(fs), IF sc.named THEN "out" ELSE "-")
(* reading the input and writing the output is all that is needed                 *)
RightsSuffice == pc = "done" => (status = 0 <=> (sc.mayRead /\ sc.mayWrite))
Result == status = 0 => /\ Out = Whole(sc.tool, sc.t)
                        /\ sc.named => std = <<>>
(* an output that cannot be opened keeps its content                              *)
Kept == ~sc.mayWrite => fs.out = sc.old
Terminates == <>(pc = "done")
Export == pc = "done" => PrintT(ToJson([sc |-> sc, status |-> status, std |-> std, out |-> fs.out]))
=============================================================================
