----------------------------- MODULE MC_TimeTruth ----------------------------
(* The lock-free update: load, decide, compare and exchange, again from the   *)
(* value found if that fails.  Every interleaving of a few threads; TLC also  *)
(* prints the schedules, to be replayed into the implementation.              *)
EXTENDS TimeTruth, TLC, Json
CONSTANTS Threads, OpsEach, Times, Record
VARIABLES truth, pc, op, cur, done, sched, writes
SomeTimes == {<<2000, 5000>>, <<2000, 6000>>, <<2001, 1000>>, <<1875, 7000>>}
vars == <<truth, pc, op, cur, done, sched, writes>>
Ops == {[op |-> "get", src |-> 0, wn |-> 0, ms |-> 0, ok |-> TRUE]} \cup {[op |-> "update", src |-> s, wn |-> t[1], ms |-> t[2], ok |-> TRUE] : s \in {0, 7}, t \in Times}
Init == /\ truth = <<>> /\ pc = [t \in Threads |-> "idle"] /\ op = [t \in Threads |-> <<>>] /\ cur = [t \in Threads |-> <<>>]
        /\ done = [t \in Threads |-> <<>>] /\ sched = <<>> /\ writes = <<>>
Note(t, what) == sched' = IF Record THEN Append(sched, what) ELSE <<>>
Call(t) == /\ pc[t] = "idle" /\ Len(done[t]) < OpsEach
           /\ \E o \in Ops : op' = [op EXCEPT ![t] = o] /\ Note(t, [t |-> t, o |-> o])
           /\ pc' = [pc EXCEPT ![t] = "load"] /\ UNCHANGED <<truth, cur, done, writes>>
Return(t, answer) == /\ pc' = [pc EXCEPT ![t] = "idle"] /\ done' = [done EXCEPT ![t] = Append(@, [o |-> op[t], a |-> answer])]
Decide(t, v) == IF op[t].op = "get" THEN Return(t, v) /\ UNCHANGED <<truth, cur, writes>>
                ELSE IF Takes(v, op[t]) THEN /\ pc' = [pc EXCEPT ![t] = "cas"] /\ cur' = [cur EXCEPT ![t] = v] /\ UNCHANGED <<truth, done, writes>>
                ELSE Return(t, <<0>>) /\ UNCHANGED <<truth, cur, writes>>
Load(t) == pc[t] = "load" /\ Decide(t, truth) /\ Note(t, [t |-> t]) /\ UNCHANGED op
Cas(t) == /\ pc[t] = "cas" /\ Note(t, [t |-> t]) /\ UNCHANGED op
          /\ IF truth = cur[t]
             THEN truth' = <<op[t].wn, op[t].ms>> /\ writes' = Append(writes, truth') /\ Return(t, <<1>>) /\ UNCHANGED cur
             ELSE Decide(t, truth)
Finished == \A t \in Threads : pc[t] = "idle" /\ Len(done[t]) = OpsEach
Next == \E t \in Threads : Call(t) \/ Load(t) \/ Cas(t)
Spec == Init /\ [][Next]_vars
---------------------------------------------------------------------------
Forward == [][truth' = truth \/ truth = <<>> \/ LaterThan(truth', truth)]_vars
(* a report is answered with yes exactly when it became the truth *)
Count(S) == Cardinality(S)
Yes == {<<t, i>> \in Threads \X (1..OpsEach) : i <= Len(done[t]) /\ done[t][i].o.op = "update" /\ done[t][i].a = <<1>>}
Honest == Finished => /\ Count(Yes) = Len(writes)
                      /\ \A y \in Yes : \E k \in 1..Len(writes) : writes[k] = <<done[y[1]][y[2]].o.wn, done[y[1]][y[2]].o.ms>>
(* in the end the latest acceptable report is the truth *)
Reports == {done[t][i].o : t \in Threads, i \in 1..OpsEach}
Good(o) == o.op = "update" /\ Takes(<<>>, o)
Latest == Finished => IF \E o \in Reports : Good(o)
                      THEN \E o \in Reports : Good(o) /\ truth = <<o.wn, o.ms>> /\ \A p \in Reports : Good(p) => ~LaterThan(<<p.wn, p.ms>>, truth)
                      ELSE truth = <<>>
Emit == (Record /\ Finished) => PrintT("GEN " \o ToJson(sched))
=============================================================================
