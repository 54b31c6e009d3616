------------------------------ MODULE NamesGen ------------------------------
(* All names (sequences of symbols) up to a length.                         *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Symbols, MaxLen
VARIABLE name
Init == name = <<>>
Next == Len(name) < MaxLen /\ \E s \in Symbols : name' = Append(name, s)
(* for long random names: one random continuation *)
NextRandom == Len(name) < MaxLen /\ name' = Append(name, RandomElement(Symbols))
Emit == name # <<>> => PrintT("@@" \o ToJson(name))
=============================================================================
