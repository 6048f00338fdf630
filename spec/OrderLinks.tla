----------------------------- MODULE OrderLinks -----------------------------
(* order_group_container.rs: every group has arrays of forward and backward  *)
(* links indexed by entity id, a head and a tail; a group's arrays are made  *)
(* at its first use with the capacity of that moment and grow with the store.*)
(* Ids come from Ids. Checked against Store (order, by tokens) by refinement.*)
EXTENDS Ids, FiniteSets, TLC, TLCExt, Json

CONSTANTS MaxId, MaxN, G, Cap0, Bug      \* G: set of groups

VARIABLES h,            \* the ids
          tok,          \* id -> token of its living entity, 0 if there is none
          n,            \* entities created so far
          fwd, bwd,     \* group -> array of links, <<>> before the first use
          head, tail,   \* group -> id or Null
          op
vars == <<h, tok, n, fwd, bwd, head, tail, op>>

Null == -1
Ids0 == 0..MaxId
Alive == {i \in Ids0 : tok[i] # 0}
Nulls(c) == [i \in 0..(c - 1) |-> Null]
None == [i \in {} |-> 0]

Init ==
    /\ h = IdsNew(Cap0)
    /\ tok = [i \in Ids0 |-> 0]
    /\ n = 0
    /\ fwd = [g \in G |-> None] /\ bwd = [g \in G |-> None]
    /\ head = [g \in G |-> Null] /\ tail = [g \in G |-> Null]
    /\ op = <<"new", Cap0>>

Used(g) == fwd[g] # None
Grown(a, c) == [i \in 0..(c - 1) |-> IF i \in DOMAIN a THEN a[i] ELSE Null]

Create ==
    LET id == IdToTake(h) h2 == Take(h)
    IN  /\ id <= MaxId
        /\ h' = h2
        /\ tok' = [tok EXCEPT ![id] = n + 1]
        /\ n' = n + 1
        /\ fwd' = [g \in G |-> IF Used(g) THEN Grown(fwd[g], h2.cap) ELSE fwd[g]]
        /\ bwd' = [g \in G |-> IF Used(g) /\ Bug # "bwdnotgrown" THEN Grown(bwd[g], h2.cap) ELSE bwd[g]]
        /\ UNCHANGED <<head, tail>>
        /\ op' = <<"c", id>>

(* the four arrays of one group after taking id out of it *)
Out(g, id, f0, b0, hd, tl) ==
    LET f == f0[id] b == b0[id]
        b1 == IF f # Null THEN [b0 EXCEPT ![f] = b] ELSE b0
        f1 == IF b # Null /\ Bug # "noback" THEN [f0 EXCEPT ![b] = f] ELSE f0
    IN [hd |-> IF hd = id THEN f ELSE hd,
        tl |-> IF tl = id THEN b ELSE tl,
        f |-> IF Bug = "keepfwd" THEN f1 ELSE [f1 EXCEPT ![id] = Null],
        b |-> [b1 EXCEPT ![id] = Null]]
Outs(id) == [g \in G |-> IF Used(g) THEN Out(g, id, fwd[g], bwd[g], head[g], tail[g])
                         ELSE [hd |-> head[g], tl |-> tail[g], f |-> fwd[g], b |-> bwd[g]]]

Destroy(id) ==
    /\ id \in Alive
    /\ h' = Give(h, id)
    /\ tok' = [tok EXCEPT ![id] = 0]
    /\ UNCHANGED n
    /\ LET o == Outs(id)
       IN IF Bug = "destroykeeps"
          THEN UNCHANGED <<fwd, bwd, head, tail>>
          ELSE /\ fwd' = [g \in G |-> o[g].f] /\ bwd' = [g \in G |-> o[g].b]
               /\ head' = [g \in G |-> o[g].hd] /\ tail' = [g \in G |-> o[g].tl]
    /\ op' = <<"d", id>>

(* the arrays of g as the call finds them: made at the first use *)
F(g) == IF Used(g) THEN fwd[g] ELSE Nulls(h.cap)
B(g) == IF Used(g) THEN bwd[g] ELSE Nulls(h.cap)
Put(g, f, b, hd, tl) ==
    /\ fwd' = [fwd EXCEPT ![g] = f] /\ bwd' = [bwd EXCEPT ![g] = b]
    /\ head' = [head EXCEPT ![g] = hd] /\ tail' = [tail EXCEPT ![g] = tl]
    /\ UNCHANGED <<h, tok, n>>

HasNoOrder(g, id) == head[g] # id /\ F(g)[id] = Null /\ B(g)[id] = Null
HasOrder(g, id) == B(g)[id] # Null \/ head[g] = id

OrderAppend(g, id) ==
    /\ id \in Alive
    /\ IF head[g] = Null
       THEN /\ Put(g, F(g), B(g), id, id)
            /\ op' = <<"oa", g, id>>
       ELSE IF HasNoOrder(g, id) \/ (Bug = "onlyfwd" /\ F(g)[id] = Null /\ head[g] # id)
       THEN /\ Put(g, [F(g) EXCEPT ![tail[g]] = id], [B(g) EXCEPT ![id] = tail[g]], head[g], id)
            /\ op' = <<"oa", g, id>>
       ELSE /\ Put(g, F(g), B(g), head[g], tail[g])
            /\ op' = <<"oa!", g, id>>

OrderNext(g, id, a) ==
    /\ id \in Alive /\ a \in Alive
    /\ IF HasNoOrder(g, id) /\ HasOrder(g, a) /\ (id # a)
       THEN LET fa == F(g)[a]
                b1 == IF fa # Null THEN [B(g) EXCEPT ![fa] = id] ELSE B(g)
                f1 == IF fa # Null THEN [F(g) EXCEPT ![id] = fa] ELSE F(g)
            IN /\ Put(g, [f1 EXCEPT ![a] = id], [b1 EXCEPT ![id] = a], head[g],
                      IF tail[g] = a /\ Bug # "tailstays" THEN id ELSE tail[g])
               /\ op' = <<"on", g, id, a>>
       ELSE /\ Put(g, F(g), B(g), head[g], tail[g])
            /\ op' = <<"on!", g, id, a>>

OrderPrev(g, id, a) ==
    /\ id \in Alive /\ a \in Alive
    /\ IF HasNoOrder(g, id) /\ HasOrder(g, a) /\ (id # a)
       THEN LET ba == B(g)[a]
                f1 == IF ba # Null THEN [F(g) EXCEPT ![ba] = id] ELSE F(g)
                b1 == IF ba # Null THEN [B(g) EXCEPT ![id] = ba] ELSE B(g)
            IN /\ Put(g, [f1 EXCEPT ![id] = a], [b1 EXCEPT ![a] = id],
                      IF head[g] = a THEN id ELSE head[g], tail[g])
               /\ op' = <<"op", g, id, a>>
       ELSE /\ Put(g, F(g), B(g), head[g], tail[g])
            /\ op' = <<"op!", g, id, a>>

OrderRemove(g, id) ==
    /\ id \in Alive
    /\ op' = <<"or", g, id>>
    /\ IF Used(g)
       THEN LET o == Out(g, id, fwd[g], bwd[g], head[g], tail[g])
            IN Put(g, o.f, o.b, o.hd, o.tl)
       ELSE UNCHANGED <<h, tok, n, fwd, bwd, head, tail>>

Next ==
    \/ Create
    \/ \E id \in Alive :
        \/ Destroy(id)
        \/ \E g \in G : OrderAppend(g, id) \/ OrderRemove(g, id)
        \/ \E g \in G, a \in Alive : OrderNext(g, id, a) \/ OrderPrev(g, id, a)

Spec == Init /\ [][Next]_vars
Bounded == n <= MaxN

----------------------------------------------------------------------------
(* the walk along the links; a cycle is cut after more steps than there are ids *)
RECURSIVE Walk(_, _, _)
Walk(a, i, k) == IF i = Null \/ k = 0 THEN <<>> ELSE <<i>> \o Walk(a, a[i], k - 1)
Seq0(g) == Walk(fwd[g], head[g], MaxId + 3)
Tokens(s) == [i \in DOMAIN s |-> tok[s[i]]]

S == INSTANCE Store WITH
        Groups <- G,
        n <- n,
        alive <- {tok[i] : i \in Alive},
        val <- [t \in 1..n |-> [c \in {} |-> 0]],
        tags <- [t \in 1..n |-> {}],
        order <- [g \in G |-> Tokens(Seq0(g))]
AbsNext ==
    LET o == op' IN
    CASE o[1] = "c" -> S!Create([c \in {} |-> 0])
      [] o[1] = "d" -> S!Destroy(tok[o[2]])
      [] o[1] = "oa" -> S!OrderAppend(o[2], tok[o[3]])
      [] o[1] = "on" -> S!OrderNextTo(o[2], tok[o[3]], tok[o[4]])
      [] o[1] = "op" -> S!OrderPrevTo(o[2], tok[o[3]], tok[o[4]])
      [] o[1] = "or" -> S!OrderRemove(o[2], tok[o[3]])
      [] OTHER -> S!Nothing
Refines == S!StoreInit /\ [][AbsNext]_vars

(* refused exactly when the specification cannot do it *)
RefusedRight ==
    [][/\ op'[1] = "oa!" => ~S!CanAppend(op'[2], tok[op'[3]])
       /\ op'[1] \in {"on!", "op!"} => ~S!CanPlace(op'[2], tok[op'[3]], tok[op'[4]])]_vars

Links ==
    \A g \in G :
        LET s == Seq0(g)
        IN  /\ Used(g) => DOMAIN fwd[g] = 0..(h.cap - 1) /\ DOMAIN bwd[g] = 0..(h.cap - 1)
            /\ tail[g] = (IF s = <<>> THEN Null ELSE s[Len(s)])
            /\ Walk(bwd[g], tail[g], MaxId + 3) = [i \in DOMAIN s |-> s[Len(s) + 1 - i]]
            /\ \A i \in DOMAIN fwd[g] : (\A k \in DOMAIN s : s[k] # i) => fwd[g][i] = Null /\ bwd[g][i] = Null

----------------------------------------------------------------------------
CheckView == <<h, tok, n, fwd, bwd, head, tail>>
View == <<h, [i \in Ids0 |-> tok[i] # 0], fwd, bwd, head, tail>>
Emit == PrintT(ToJson(<<"E", TLCFP(View), op', TLCFP(View'), <<>>>>))
=============================================================================
