------------------------------ MODULE SioTable ------------------------------
(* The application of the Socket.IO scripts: namespaces, handlers and acknowledgement callbacks, as in sio_test.go. *)
EXTENDS Integers, Sequences
Nsps == {"/", "/a", "/b", "/c d", "/q"}   \* registered; "/u" is not
Watched(nsp) == nsp # "/q"                \* has callbacks for connect, disconnect and errors
Odd == "we\"ird \\ name, [x]"             \* an event name that needs escaping
Names == {"none", "str", "mix", "mid", "bin", "binmix", "any", "act", "st", "Str", "*", Odd}
(* parameter types: S a Socket, str, int, bool, bin (binary), any (interface{}), strs ([]string), map *)
Sig(nsp, name) ==
  CASE name = "onlya" /\ nsp = "/a" -> <<"str">>
    [] name = "str" /\ nsp = "/b" -> <<"int">>
    [] name \in {"none", "*"} -> <<>>
    [] name \in {"str", "st"} -> <<"str">>
    [] name = "Str" -> <<"str", "bool">>
    [] name = "mix" -> <<"S", "str", "int", "bool">>
    [] name = "mid" -> <<"str", "S", "int">>
    [] name = "bin" -> <<"bin">>
    [] name = "binmix" -> <<"str", "bin", "int", "bin">>
    [] name = "any" -> <<"any", "strs", "map">>
    [] name = "act" -> <<"S", "str">>
    [] name = Odd -> <<"int", "any">>
    [] OTHER -> <<"unregistered">>
Has(nsp, name) == nsp # "/c d" /\ Sig(nsp, name) # <<"unregistered">>
Str(x) == [k |-> "s", v |-> x]
(* what a handler returns, given its converted arguments *)
Ret(nsp, name, a) ==
  CASE name = "str" -> <<a[1]>>
    [] name = "Str" -> <<a[2]>>
    [] name = "mix" -> <<a[2], a[3]>>
    [] name = "bin" -> <<a[1], Str("\"ok\"")>>
    [] name = "binmix" -> <<a[3], a[2], a[1], a[4]>>
    [] name = "any" -> <<a[1]>>
    [] name = "act" -> <<a[2]>>
    [] OTHER -> <<>>
AckKinds == {"a1", "a2", "a3", "a4", "a5"}
AckSig(ak) ==
  CASE ak = "a1" -> <<"str", "int">> [] ak = "a2" -> <<>> [] ak = "a3" -> <<"bin", "str">>
    [] ak = "a4" -> <<"S", "any">> [] OTHER -> <<"int">>
=============================================================================
