------------------------------- MODULE Memory -------------------------------
(* mem_utils.rs and its users: a store keeps arrays of different element     *)
(* sizes for one capacity; they are made with it, grown one after the other, *)
(* and given back with the layouts they were made with. Numbers of bytes are *)
(* machine words. The allocator may refuse anything.                         *)
EXTENDS Naturals, Sequences

CONSTANTS Word,         \* bytes of a machine word are computed modulo this
          Limit,        \* no block is larger (isize::MAX)
          MaxCap,       \* capacities asked for
          Bug

VARIABLES
    cap,                \* rows
    blk,                \* bytes of the block of every array; Null: no memory
    back,               \* <<bytes given back, bytes they were made with>>
    at,                 \* array that is made or grown next; 0: no call is under way
    goal,               \* capacity of the call under way
    refused,            \* memory was refused in this call
    state               \* "none", "live", "aborted", "panicked"
vars == <<cap, blk, back, at, goal, refused, state>>

Null == Word            \* not a number of bytes
Sizes == <<1, 4, 3>>
Arrays == 1..Len(Sizes)
Real(a, c) == Sizes[a] * c
Over(a, c) == Real(a, c) > Limit
Bytes(a, c) == Real(a, c) % Word
Checked(a) == CASE Bug = "wraps" -> FALSE
                [] Bug = "firstchecked" -> a = 1
                [] OTHER -> TRUE

Init == cap = 0 /\ blk = [a \in Arrays |-> 0] /\ back = <<0, 0>> /\ at = 0 /\ goal = 0 /\ refused = FALSE /\ state = "none"

Free(a) == blk[a] \in 1..(Word - 1)     \* a block that is given back; the layout is computed from the capacity again

New(c) == /\ state = "none" /\ at = 0
          /\ goal' = c /\ at' = 1
          /\ UNCHANGED <<cap, blk, back, refused, state>>

\* twice the capacity, or one more
Grow == /\ state = "live" /\ at = 0
        /\ goal' = (IF cap = 0 THEN 1 ELSE (2 * cap) % Word) /\ at' = 1
        /\ cap' = (IF Bug = "capfirst" THEN goal' ELSE cap)
        /\ UNCHANGED <<blk, back, refused, state>>

\* a capacity whose bytes are no number of a block: a panic, which drops what was made
TooMuch ==
    /\ at > 0 /\ Checked(at) /\ Over(at, goal)
    /\ state' = "panicked" /\ at' = 0
    /\ UNCHANGED <<cap, blk, back, goal, refused>>

Gave(bytes) ==
    /\ blk' = [blk EXCEPT ![at] = bytes]
    /\ back' = (IF state = "live" /\ Free(at) THEN <<Bytes(at, cap), blk[at]>> ELSE back)
    /\ at' = IF at = Len(Sizes) THEN 0 ELSE at + 1
    /\ cap' = IF at = Len(Sizes) THEN goal ELSE cap
    /\ state' = IF at = Len(Sizes) THEN "live" ELSE state

Given ==
    /\ at > 0 /\ ~(Checked(at) /\ Over(at, goal))
    /\ Gave(IF Bug = "keepsize" /\ state = "live" /\ at = 2 THEN blk[at] ELSE Bytes(at, goal))
    /\ UNCHANGED <<goal, refused>>

\* nothing is asked for when there are no bytes
Refuse ==
    /\ at > 0 /\ ~(Checked(at) /\ Over(at, goal)) /\ Bytes(at, goal) > 0
    /\ refused' = TRUE
    /\ IF Bug = "null" \/ (Bug = "growunchecked" /\ state = "live") \/ (Bug = "lastunchecked" /\ at = Len(Sizes))
       THEN Gave(Null) /\ UNCHANGED goal
       ELSE IF Bug = "keepold" /\ state = "live"
       THEN Gave(blk[at]) /\ UNCHANGED goal
       ELSE state' = "aborted" /\ at' = 0 /\ UNCHANGED <<cap, blk, back, goal>>

Next == (\E c \in 0..MaxCap : New(c)) \/ Grow \/ TooMuch \/ Given \/ Refuse
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
\* a store that can be used has memory for every row of every array
Backed == state = "live" /\ at = 0 => \A a \in Arrays : blk[a] # Null /\ blk[a] >= Real(a, cap)
\* blocks go back with the layout they came with
GoBack == back[1] = back[2]
\* nothing goes on after a refusal
Ends == [][refused => state' = "aborted"]_vars
\* and a call panics only when it has to
Needed == state = "panicked" => \E a \in Arrays : Over(a, goal)
=============================================================================
