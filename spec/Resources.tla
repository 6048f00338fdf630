----------------------------- MODULE Resources -----------------------------
(* A resource store: handle token -> value; who owns each value.             *)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES m,          \* resources created so far (tokens 1..m)
          held,       \* tokens whose resource is in the store
          value,      \* token -> value in the store
          open        \* the store exists

resVars == <<m, held, value, open>>

ResInit == m = 0 /\ held = {} /\ value = <<>> /\ open = TRUE

Put(v) == open /\ m' = m + 1 /\ held' = held \cup {m + 1} /\ value' = Append(value, v) /\ UNCHANGED open
PutMany(vs) == open /\ m' = m + Len(vs) /\ held' = held \cup (m + 1)..(m + Len(vs)) /\ value' = value \o vs /\ UNCHANGED open
Assign(t, v) == open /\ t \in held /\ value' = [value EXCEPT ![t] = v] /\ UNCHANGED <<m, held, open>>
Release(t) == open /\ t \in held /\ held' = held \ {t} /\ UNCHANGED <<m, value, open>>
ReleaseMany(T) == open /\ (T \subseteq held) = TRUE /\ held' = held \ T /\ UNCHANGED <<m, value, open>>
Close == open /\ open' = FALSE /\ held' = {} /\ UNCHANGED <<m, value>>
=============================================================================
