-------------------------------- MODULE Twins --------------------------------
(* Two stores given the same calls: self-composition of HandlesImpl. The     *)
(* answers of the one are those of the other.                                *)
EXTENDS Naturals, Sequences

CONSTANTS MaxId, MaxVer, Cap0, Word, Bug
VARIABLES next1, gaps1, cap1, ver1, bits1, peak1, ever1, retired1, op1,
          next2, gaps2, cap2, ver2, bits2, peak2, ever2, retired2, op2
A == INSTANCE HandlesImpl WITH next <- next1, gaps <- gaps1, cap <- cap1, ver <- ver1, bits <- bits1, peak <- peak1,
                               ever <- ever1, retired <- retired1, op <- op1
B == INSTANCE HandlesImpl WITH next <- next2, gaps <- gaps2, cap <- cap2, ver <- ver2, bits <- bits2, peak <- peak2,
                               ever <- ever2, retired <- retired2, op <- op2

Call(o) == IF o[1] = "c" THEN <<"c">> ELSE o
Init == A!Init /\ B!Init
Next == A!Next /\ B!Next /\ Call(op1') = Call(op2')
Spec == Init /\ [][Next]_<<A!vars, B!vars>>

SameAnswers == op1 = op2 /\ cap1 = cap2 /\ A!Live = B!Live
\* a call that one of them can take, the other can take as well
SameChoice == (ENABLED A!Next) = (ENABLED B!Next)
CheckView == <<A!CheckView, B!CheckView, op1 = op2>>
=============================================================================
