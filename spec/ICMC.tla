---- MODULE ICMC ----
(* bounds for model checking the definitions of IC *)
EXTENDS IC
K == {<<0, 0>>, <<0, 1>>, <<1, 0>>}
====
