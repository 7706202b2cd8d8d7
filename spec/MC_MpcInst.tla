----------------------------- MODULE MC_MpcInst ----------------------------
(* Instances for MC_Mpc, selected by the environment variable INST.           *)
EXTENDS MC_Mpc, IOUtils
P(n) == LE(n, 32)
Inst == IF "INST" \in DOMAIN IOEnv THEN IOEnv.INST ELSE "entropy"
E0 == LE(0, 8)
E1 == LE(1, 8)
McMsA == CASE Inst \in {"entropy", "message", "protocol"} -> {<<P(0), P(7)>>, <<P(2), P(8)>>, <<P(3), P(7)>>}
           [] Inst = "full" -> {<<P(0), P(7)>>, <<P(1), P(8)>>, <<P(2), P(7)>>, <<P(3), P(8)>>}
           [] Inst = "cofactor" -> {<<P(0), P(7)>>, <<P(4), P(8)>>, <<P(5), P(7)>>}
McMsB == CASE Inst = "message" -> {<<P(0), P(7)>>, <<P(2), P(7)>>, <<P(3), P(7)>>}
           [] Inst = "protocol" -> {<<P(0), P(7)>>, <<P(6), P(8)>>, <<P(3), P(7)>>}
           [] OTHER -> McMsA
McEA == E0
McEB == IF Inst = "entropy" \/ Inst = "full" THEN E1 ELSE E0
=============================================================================
