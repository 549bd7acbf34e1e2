------------------------------- MODULE OpsGen -------------------------------
(* Calls of the operator constructors; everything up to the given bounds.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxK, Starts, Scales, Levels
VARIABLE e
ITypes == {"so", "si", "sa", "spin-orbital", "spin-integrated", "spin-adapted"}
HP == {<<"h", "p">>, <<"c", "v">>, <<"a", "v">>, <<"c", "a">>, <<"h", "v">>, <<"a", "p">>}
Hams == {[k |-> "ham", body |-> b, start |-> s, it |-> t] : b \in 0..MaxK, s \in Starts, t \in ITypes}
Clus == {[k |-> "amp", body |-> b, start |-> s, it |-> t, exc |-> x, name |-> n, scale |-> c, hp |-> hp] :
           b \in 1..MaxK, s \in Starts, t \in {"so", "si", "sa"}, x \in BOOLEAN, n \in {"T", "S", "T2"}, c \in Scales, hp \in HP}
Lists == {[k |-> "list", levels |-> q, start |-> s, unitary |-> u, sr |-> r] : q \in Levels, s \in Starts, u \in BOOLEAN, r \in BOOLEAN}
Fixed == {[k |-> "fock", sr |-> TRUE], [k |-> "fock", sr |-> FALSE], [k |-> "dyall", sr |-> FALSE], [k |-> "fink", sr |-> TRUE], [k |-> "fink", sr |-> FALSE]}
Init == e \in Hams \/ e \in Clus \/ e \in Lists \/ e \in Fixed
Next == FALSE /\ UNCHANGED e
Spec == Init /\ [][Next]_e
Emit == PrintT("GEN " \o ToJson(e))
St == {0, 1, 2, 7, 10}
Sc == {<<1, 1>>, <<-1, 1>>, <<1, 2>>, <<3, 8>>}
Lv == {<<1>>, <<2>>, <<1, 2>>, <<2, 1>>, <<1, 2, 3>>, <<3>>, <<2, 2>>, <<1, 3>>, <<>>}
=============================================================================
