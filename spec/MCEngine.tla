------------------------------ MODULE MCEngine ------------------------------
(***************************************************************************)
(* The Monte Carlo engine as a state machine: every loop draws once, then  *)
(* optionally mirrors, then optionally standardises, builds a path and a   *)
(* payoff, takes the mean; +inf ends the call with a warning.  The same    *)
(* option object is asked twice.                                           *)
(*                                                                         *)
(* An innovation matrix is the sequence of the steps applied to it.        *)
(* Init enumerates the configurations; TLC checks the protocol for all of  *)
(* them and prints each one, which is then run with recording plug-ins on  *)
(* the real engine (Sim!JEngine judges the recording).                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json

CONSTANTS MaxLoops, Wrong       \* Wrong: standardise first (a broken engine, to see the check bite)

VARIABLES cfg, asked, loop, pc, eps, log, ret
vars == <<cfg, asked, loop, pc, eps, log, ret>>

Configs == {c \in [loops : 1..MaxLoops, anti : BOOLEAN, std : BOOLEAN, trace : BOOLEAN, eps : BOOLEAN, paths : {2, 5}, len : {1, 3},
                   m1 : {"call", "put"}, m2 : {"call", "put"}, special : {"none", "inf", "-inf", "nan"}, at : 1..MaxLoops] :
              c.at <= c.loops /\ (c.special = "none" => c.at = 1)}
Init == /\ cfg \in Configs /\ asked = 1 /\ loop = 1 /\ pc = "draw" /\ eps = << >> /\ log = << >> /\ ret = "none"
Log(x) == log' = Append(log, x)
Draw == /\ pc = "draw" /\ loop <= cfg.loops /\ ret = "none"
        /\ eps' = <<"raw">> /\ Log(<<"draw", asked, loop>>) /\ pc' = (IF Wrong THEN "std" ELSE "anti") /\ UNCHANGED <<cfg, asked, loop, ret>>
Anti == /\ pc = "anti" /\ eps' = (IF cfg.anti THEN Append(eps, "mirrored") ELSE eps)
        /\ pc' = (IF Wrong THEN "path" ELSE "std") /\ UNCHANGED <<cfg, asked, loop, log, ret>>
Std == /\ pc = "std" /\ eps' = (IF cfg.std THEN Append(eps, "standardised") ELSE eps)
       /\ pc' = (IF Wrong THEN "anti" ELSE "path") /\ UNCHANGED <<cfg, asked, loop, log, ret>>
Path == pc = "path" /\ Log(<<"path", asked, loop, eps>>) /\ pc' = "payoff" /\ UNCHANGED <<cfg, asked, loop, eps, ret>>
Payoff == pc = "payoff" /\ Log(<<"payoff", asked, loop, IF asked = 1 THEN cfg.m1 ELSE cfg.m2>>) /\ pc' = "mean" /\ UNCHANGED <<cfg, asked, loop, eps, ret>>
\* the special value comes up in the at-th evaluation of each call
Mean == /\ pc = "mean"
        /\ IF cfg.special = "inf" /\ loop = cfg.at
           THEN ret' = "infinite loop" /\ Log(<<"warn", asked, loop>>) /\ UNCHANGED loop
           ELSE loop' = loop + 1 /\ UNCHANGED <<ret, log>>
        /\ pc' = "draw" /\ UNCHANGED <<cfg, asked, eps>>
Return == /\ pc = "draw" /\ (loop > cfg.loops \/ ret # "none")
          /\ ret' = (IF ret = "none" THEN "means" ELSE ret) /\ pc' = "returned"
          /\ (IF cfg.trace /\ ret = "none" THEN Log(<<"trace", asked, cfg.loops>>) ELSE UNCHANGED log)
          /\ UNCHANGED <<cfg, asked, loop, eps>>
Again == /\ pc = "returned" /\ asked = 1
         /\ asked' = 2 /\ loop' = 1 /\ ret' = "none" /\ pc' = "draw" /\ eps' = << >> /\ UNCHANGED <<cfg, log>>
Done == /\ pc = "returned" /\ asked = 2 /\ pc' = "end"
        /\ PrintT("@CF" \o ToJson(cfg))
        /\ UNCHANGED <<cfg, asked, loop, eps, log, ret>>
Next == Draw \/ Anti \/ Std \/ Path \/ Payoff \/ Mean \/ Return \/ Again \/ Done
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

---------------------------------------------------------------------------
At(kind, a) == {i \in DOMAIN log : log[i][1] = kind /\ log[i][2] = a}
Count(kind, a) == LET s == At(kind, a) IN IF s = {} THEN 0 ELSE Len(SelectSeq(log, LAMBDA x : x[1] = kind /\ x[2] = a))
Runs(a) == IF cfg.special = "inf" THEN cfg.at ELSE cfg.loops
\* the matrix a path gets is mirrored and standardised as asked, in this order
Order == \A a \in 1..2 : \A i \in At("path", a) :
            log[i][4] = <<"raw">> \o (IF cfg.anti THEN <<"mirrored">> ELSE << >>) \o (IF cfg.std THEN <<"standardised">> ELSE << >>)
OneEach == pc = "end" => \A a \in 1..2 :
              /\ \A kind \in {"draw", "path", "payoff"} : Count(kind, a) = Runs(a)
              /\ Count("warn", a) = (IF cfg.special = "inf" THEN 1 ELSE 0)
              /\ Count("trace", a) = (IF cfg.trace /\ cfg.special # "inf" THEN 1 ELSE 0)
Result == pc = "end" => ret = (IF cfg.special = "inf" THEN "infinite loop" ELSE "means")
Ends == <>(pc = "end")
=============================================================================
