------------------------------ MODULE TwinPages ------------------------------
(* Two stores given the same calls: self-composition of Pages. Their pages   *)
(* lie in the opposite order of memory; nothing depends on that.             *)
EXTENDS Naturals, Sequences

CONSTANTS Types, Rows, Pages0, MaxLive, MaxN, Vals, Bug
VARIABLES archs1, apages1, freeArch1, freePages1, rows1, pcap1, p2a1, where1, alive1, n1, op1,
          archs2, apages2, freeArch2, freePages2, rows2, pcap2, p2a2, where2, alive2, n2, op2
A == INSTANCE Pages WITH Down <- FALSE, archs <- archs1, apages <- apages1, freeArch <- freeArch1, freePages <- freePages1, rows <- rows1, pcap <- pcap1, p2a <- p2a1, where <- where1, alive <- alive1, n <- n1, op <- op1
B == INSTANCE Pages WITH Down <- TRUE, archs <- archs2, apages <- apages2, freeArch <- freeArch2, freePages <- freePages2, rows <- rows2, pcap <- pcap2, p2a <- p2a2, where <- where2, alive <- alive2, n <- n2, op <- op2

Init == A!Init /\ B!Init
Both(a, b) == a /\ b /\ op1' = op2'
Next ==
    \/ Both(A!Create, B!Create)
    \/ \E S \in A!Sets : Both(A!CreateRefused(S), B!CreateRefused(S))
    \/ \E S \in A!Sets, v \in Vals : Both(A!CreateWith(S, v), B!CreateWith(S, v))
    \/ \E t \in alive1 :
        \/ Both(A!Destroy(t), B!Destroy(t))
        \/ \E S \in A!Sets : Both(A!Drop(t, S), B!Drop(t, S))
        \/ \E S \in A!Sets, v \in Vals : Both(A!Add(t, S, v), B!Add(t, S, v)) \/ Both(A!Write(t, S, v), B!Write(t, S, v))
Spec == Init /\ [][Next]_<<A!vars, B!vars>>

\* also the order in which a query visits archetypes, pages and rows
Visits(archs, apages, rows) == [a \in DOMAIN archs |-> <<archs[a], [i \in DOMAIN apages[a] |-> rows[apages[a][i]]]>>]
SameAnswers == alive1 = alive2 /\ Visits(archs1, apages1, rows1) = Visits(archs2, apages2, rows2)
View == <<A!View, B!View>>
=============================================================================
