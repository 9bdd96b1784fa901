------------------------------ MODULE EditsImpl ------------------------------
(* The playlist as the code keeps it - an array which is grown, shifted and cut *)
(* in steps - under a lock.  Refines PlaylistEdits; without the lock it does    *)
(* not.                                                                         *)
EXTENDS Integers, Sequences, TLC

CONSTANTS Ops, Lock, Plan
(* What each operator does, one after the other. *)
MCPlan == <<[op |-> "insert", songs |-> <<1, 2>>, p |-> 0], [op |-> "remove", songs |-> <<>>, p |-> 1],
            [op |-> "add", songs |-> <<3>>, p |-> 0], [op |-> "list", songs |-> <<>>, p |-> 0]>>

VARIABLES list, run,   \* of the specification
          arr, lock, pc, idx, tmp, out

E == INSTANCE PlaylistEdits
impl == <<arr, lock, pc, idx, tmp, out>>

Init ==
  /\ E!EditsInit /\ arr = <<>> /\ lock = 0
  /\ pc = [o \in Ops |-> "start"] /\ idx = [o \in Ops |-> 0] /\ tmp = [o \in Ops |-> 0] /\ out = [o \in Ops |-> <<>>]

To(o, s) == pc' = [pc EXCEPT ![o] = s]
Start(o) ==
  /\ pc[o] = "start" /\ E!Begin(o, Plan[o].op, Plan[o].songs, Plan[o].p)
  /\ To(o, "lock") /\ UNCHANGED <<arr, lock, idx, tmp, out>>
Acquire(o) ==
  /\ pc[o] = "lock" /\ (Lock => lock = 0) /\ lock' = o
  /\ To(o, "go") /\ UNCHANGED <<list, run, arr, idx, tmp, out>>
(* The first song is put in; the position has been clipped before. *)
DoFix(o) ==
  /\ pc[o] = "go" /\ run[o].op = "insert" /\ ~run[o].fix /\ E!Fix(o)
  /\ UNCHANGED impl
Grow(o) ==
  /\ pc[o] = "go" /\ run[o].op \in {"add", "insert"} /\ (run[o].op = "insert" => run[o].fix)
  /\ arr' = Append(arr, 0) /\ idx' = [idx EXCEPT ![o] = Len(arr) + 1]
  /\ To(o, "shift") /\ UNCHANGED <<list, run, lock, tmp, out>>
Where(o) == IF run[o].op = "add" THEN Len(arr) ELSE E!Clip(run[o].p, Len(arr) - 1) + 1
Shift(o) ==
  /\ pc[o] = "shift"
  /\ IF idx[o] > Where(o) /\ idx[o] <= Len(arr)
     THEN arr' = [arr EXCEPT ![idx[o]] = arr[idx[o] - 1]] /\ idx' = [idx EXCEPT ![o] = @ - 1] /\ UNCHANGED pc
     ELSE To(o, "put") /\ UNCHANGED <<arr, idx>>
  /\ UNCHANGED <<list, run, lock, tmp, out>>
Put(o) ==
  /\ pc[o] = "put"
  /\ IF Where(o) \in 1 .. Len(arr) THEN arr' = [arr EXCEPT ![Where(o)] = Head(run[o].songs)] ELSE UNCHANGED arr
  /\ (E!Append1(o) \/ E!Insert1(o))
  /\ To(o, "unlock") /\ UNCHANGED <<lock, idx, tmp, out>>
Take(o) ==
  /\ pc[o] = "go" /\ run[o].op = "remove"
  /\ IF arr = <<>> THEN To(o, "cut") /\ UNCHANGED <<out, idx>>
     ELSE /\ out' = [out EXCEPT ![o] = <<arr[E!RemoveIdx(arr, run[o].p)]>>]
          /\ idx' = [idx EXCEPT ![o] = E!RemoveIdx(arr, run[o].p)] /\ To(o, "close")
  /\ UNCHANGED <<list, run, arr, lock, tmp>>
Close(o) ==
  /\ pc[o] = "close"
  /\ IF idx[o] < Len(arr)
     THEN arr' = [arr EXCEPT ![idx[o]] = arr[idx[o] + 1]] /\ idx' = [idx EXCEPT ![o] = @ + 1] /\ UNCHANGED pc
     ELSE To(o, "cut") /\ UNCHANGED <<arr, idx>>
  /\ UNCHANGED <<list, run, lock, tmp, out>>
Cut(o) ==
  /\ pc[o] = "cut" /\ arr' = (IF arr = <<>> THEN arr ELSE SubSeq(arr, 1, Len(arr) - 1))
  /\ E!Remove(o) /\ To(o, "unlock") /\ UNCHANGED <<lock, idx, tmp, out>>
Copy(o) ==
  /\ pc[o] = "go" /\ run[o].op = "list" /\ E!Look(o)
  /\ out' = [out EXCEPT ![o] = arr] /\ To(o, "unlock") /\ UNCHANGED <<arr, lock, idx, tmp>>
Release(o) ==
  /\ pc[o] = "unlock" /\ lock' = 0
  /\ To(o, IF run[o].songs = <<>> THEN "answer" ELSE "lock")
  /\ UNCHANGED <<list, run, arr, idx, tmp, out>>
Answer(o) ==
  /\ pc[o] = "answer" /\ run' = [run EXCEPT ![o] = E!Idle] /\ UNCHANGED list
  /\ Assert(run[o].got = out[o], <<"answer", o>>)
  /\ To(o, "over") /\ UNCHANGED <<arr, lock, idx, tmp, out>>

Next == \E o \in Ops : Start(o) \/ Acquire(o) \/ DoFix(o) \/ Grow(o) \/ Shift(o) \/ Put(o) \/ Take(o) \/ Close(o)
                        \/ Cut(o) \/ Copy(o) \/ Release(o) \/ Answer(o)
Same == lock = 0 => arr = list
==============================================================================
