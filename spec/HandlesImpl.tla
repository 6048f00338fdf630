----------------------------- MODULE HandlesImpl -----------------------------
(* entities_container.rs: counter, stack of gaps, version array, alive bits  *)
(* in words, capacity doubling, ids without versions left are retired.       *)
(* Checked against Handles by refinement; an access outside of an array is   *)
(* an evaluation error of TLC. Bug: "" or the name of a planted mistake.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, TLCExt, Json

CONSTANTS MaxId,        \* ids 0..MaxId
          MaxVer,       \* the last version (2^32 - 1 in the code)
          Cap0,         \* initial capacity
          Word,         \* bits in a word of the alive bitmap (32 in the code)
          Bug

VARIABLES next, gaps, cap, ver, bits, peak, ever, retired, op
vars == <<next, gaps, cap, ver, bits, peak, ever, retired, op>>

Max2(a, b) == IF a > b THEN a ELSE b
Words(c) == IF Bug = "words" THEN Max2(1, c \div Word) ELSE c \div Word + 1
Zeros(n) == [i \in 0..(n - 1) |-> 0]

Init ==
    /\ next = 0 /\ gaps = <<>> /\ cap = Cap0
    /\ ver = Zeros(Cap0)
    /\ bits = [i \in 0..(Words(Cap0) * Word - 1) |-> FALSE]
    /\ peak = 0 /\ ever = 0 /\ retired = 0
    /\ op = <<"new", Cap0>>

Live == {i \in DOMAIN bits : bits[i]}

(* realloc: old contents kept, the rest zero *)
GrowVer(v, c) == [i \in 0..(c - 1) |-> IF i \in DOMAIN v THEN v[i] ELSE 0]
GrowBits(b, old, new) ==
    IF Words(old) = Words(new) THEN b
    ELSE [i \in 0..(Words(new) * Word - 1) |-> IF i \in DOMAIN b THEN b[i] ELSE FALSE]

NewCap == IF Bug = "cap0" THEN cap * 2 ELSE Max2(cap, 1) * 2

(* from the k-th gap; 0: a new id *)
CreateFrom(k) ==
    LET fromGap == k # 0
        id == IF fromGap THEN gaps[k] ELSE next
        grows == ~fromGap /\ id >= cap
        c == IF grows THEN NewCap ELSE cap
        v == IF grows THEN GrowVer(ver, c) ELSE ver
        b == IF grows /\ Bug # "bitsnotgrown" THEN GrowBits(bits, cap, c) ELSE bits
    IN  /\ id <= MaxId
        /\ gaps' = IF fromGap THEN SubSeq(gaps, 1, k - 1) \o SubSeq(gaps, k + 1, Len(gaps)) ELSE gaps
        /\ next' = IF fromGap THEN next ELSE next + 1
        /\ cap' = c
        \* the counter of a 32-bit version starts again after the last one
        /\ ver' = [v EXCEPT ![id] = IF v[id] = MaxVer THEN 0 ELSE v[id] + 1]
        /\ bits' = [b EXCEPT ![id] = ~b[id]]
        /\ peak' = Max2(peak, Cardinality({i \in DOMAIN bits' : bits'[i]}))
        /\ ever' = Max2(ever, id + 1)
        /\ UNCHANGED retired
        /\ op' = <<"c", id>>

Create == \E k \in IF gaps = <<>> THEN {0} ELSE IF Bug = "anygap" THEN DOMAIN gaps ELSE {Len(gaps)} : CreateFrom(k)

IsAlive(id, v) == ver[id] = v /\ bits[id]

(* destroy of the handle (id, v): v versions older handles are dead *)
Destroy(id, v) ==
    /\ IF Bug = "noalive" THEN ver[id] = v ELSE IsAlive(id, v)
    /\ bits' = [bits EXCEPT ![id] = ~@]
    /\ \/ /\ v = MaxVer /\ Bug # "noretire"
          /\ retired' = retired + 1
          /\ UNCHANGED <<next, gaps>>
       \/ /\ v # MaxVer \/ Bug = "noretire"
          /\ UNCHANGED retired
          /\ IF id = next - 1
             THEN IF Bug = "trim"
                  THEN next' = (CHOOSE k \in 0..id : /\ k = 0 \/ bits[k - 1]
                                                     /\ \A j \in k..(id - 1) : ~bits[j]) /\ gaps' = gaps
                  ELSE next' = id /\ gaps' = gaps
             ELSE next' = next /\ gaps' = IF Bug = "gapdup" /\ gaps # <<>> THEN gaps \o <<id, id>> ELSE Append(gaps, id)
    /\ UNCHANGED <<cap, ver, peak, ever>>
    /\ op' = <<"d", id>>

Refused(id, back) ==        \* the handle `back` versions ago
    /\ ver[id] - back >= 1
    /\ ~IsAlive(id, ver[id] - back)
    /\ op' = <<"x", id, back>>
    /\ UNCHANGED <<next, gaps, cap, ver, bits, peak, ever, retired>>

Ids == 0..(ever - 1)
Next ==
    \/ Create
    \/ \E id \in Ids : \E v \in {ver[id], ver[id] - 1} : v >= 1 /\ Destroy(id, v)
    \/ \E id \in Ids : \E back \in 0..2 : Refused(id, back)

Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
H == INSTANCE Handles WITH
        live <- Live,
        last <- [k \in 1..ever |-> IF ver[k - 1] = 0 THEN -2147483647 - 1 ELSE ver[k - 1]],
        peak <- peak
Refines == H!HandlesInit /\ [][LET o == op' IN
                                CASE o[1] = "c" -> H!Issue(o[2], ver'[o[2]])
                                  [] o[1] = "d" -> H!Retire(o[2], ver[o[2]])
                                  [] o[1] = "x" -> UNCHANGED H!handleVars]_vars

Bounds ==
    /\ next <= peak + retired
    /\ Cap0 > 0 => cap <= Max2(Cap0, 2 * (peak + retired))
    /\ Cap0 = 0 => cap <= 2 * (peak + retired)
    /\ DOMAIN ver = 0..(cap - 1)
    /\ cap <= Words(cap) * Word                       \* there is a bit for every id
    /\ DOMAIN bits = 0..(Words(cap) * Word - 1)
    /\ \A i \in DOMAIN gaps : gaps[i] < ever /\ ~bits[gaps[i]]
    /\ Cardinality({gaps[i] : i \in DOMAIN gaps}) = Len(gaps)
(* handles that were never given out, also beyond the arrays, are not alive  *)
Answer(id, v) == IF id >= cap + (IF Bug = "edge" THEN 1 ELSE 0) THEN FALSE
                 ELSE IF Bug = "noversion" THEN bits[id] ELSE IsAlive(id, v)
UnknownDead == \A id \in 0..(MaxId + 2) : \A v \in 1..(MaxVer + 1) :
                   ~(id < ever /\ v <= ver[id]) => ~Answer(id, v)
Small == \A i \in DOMAIN ver : ver[i] <= MaxVer

----------------------------------------------------------------------------
(* the graph for replay: versions do not matter for what happens next *)
CheckView == <<next, gaps, cap, ver, bits, peak, ever, retired>>
View == <<next, gaps, cap, Live>>
Fp(v) == TLCFP(v)
Emit == PrintT(ToJson(<<"E", Fp(View), op', Fp(View'), <<>>>>))
=============================================================================
