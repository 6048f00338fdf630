------------------------------- MODULE Derive -------------------------------
(* The derive macros: which definitions of types they accept. A definition   *)
(* is put together step by step; the macro's decision (a look at the kind of *)
(* the definition and the number of its fields, division_ecs_attributes) is  *)
(* compared with the rule. All definitions are Clone and Copy.               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxFields, FieldTypes, Known, Bug

VARIABLES d, pc, accepted
vars == <<d, pc, accepted>>

Kinds == {"struct", "enum", "union"}
Styles == {"unit", "tuple", "named"}
Macros == {"Component", "Tag"}
Attrs == {"", "repr", "doc", "pub", "where"}
Generics == {"", "type", "const", "lifetime"}
(* of an enum: the style of its variants, one field for each variant *)
NoFields(k, s) == k = "struct" /\ s = "unit"
Defs == [kind : Kinds, style : Styles, fields : Seq(FieldTypes), attr : Attrs, gen : Generics, macro : Macros]
WellFormed(x) ==
    /\ NoFields(x.kind, x.style) => x.fields = <<>>
    /\ x.kind = "union" => x.style = "named" /\ x.fields # <<>>
    /\ x.attr = "repr" => x.kind # "enum"
    /\ x.gen # "" => x.attr = ""
    \* parameters have to be used
    /\ x.gen \in {"type", "lifetime"} => x.fields # <<>> /\ x.style # "unit"

(* the rule *)
Accepts(x) ==
    x.kind = "struct" /\ (IF x.macro = "Component" THEN x.fields # <<>> ELSE x.fields = <<>>)
(* what the macro is known to refuse *)
Refused(x) == x.gen # "" /\ "generic" \in Known

(* the macro *)
Decision(x) ==
    IF x.gen # "" /\ "generic" \in Known THEN FALSE
    ELSE IF Bug = "anykind" THEN (x.macro = "Component") = (x.fields # <<>>)
    ELSE IF x.kind # "struct" THEN FALSE
    ELSE IF x.macro = "Component"
    THEN IF Bug = "notunit" THEN x.style # "unit" ELSE IF Bug = "namedonly" THEN x.style = "named" /\ x.fields # <<>>
         ELSE Len(x.fields) > 0
    ELSE IF Bug = "unitonly" THEN x.style = "unit" ELSE Len(x.fields) = 0

Init == /\ d \in [kind : Kinds, style : Styles, fields : {<<>>}, attr : Attrs, gen : Generics, macro : Macros]
        /\ pc = "write" /\ accepted = FALSE
AddField == pc = "write" /\ ~NoFields(d.kind, d.style) /\ Len(d.fields) < MaxFields
            /\ \E t \in FieldTypes : d' = [d EXCEPT !.fields = Append(@, t)] /\ UNCHANGED <<pc, accepted>>
Compile == pc = "write" /\ WellFormed(d) = TRUE /\ pc' = "done" /\ accepted' = Decision(d) /\ UNCHANGED d
Next == AddField \/ Compile
Spec == Init /\ [][Next]_vars

Exact == pc = "done" /\ ~Refused(d) => accepted = Accepts(d)
Emit == pc' # "done" \/ PrintT(ToJson(<<"E", d>>))
=============================================================================
