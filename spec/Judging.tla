------------------------------ MODULE Judging -------------------------------
(* Shared by the judge specifications: the state space is one state per case  *)
(* (reached from one of up to 64 chunk states, so that workers share the      *)
(* load), and a failed case is printed rather than reported as an error, so   *)
(* that the rest are still judged.                                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

ChunkCount == 64
ChunkIds(n) == { -k : k \in 1..(IF n < ChunkCount THEN n ELSE ChunkCount) }
Chunk(l, n) == { i \in 1..n : i % ChunkCount = (-l) % ChunkCount }
Verdict(l, bad) == bad = {} \/ PrintT("BAD " \o ToString(l) \o " " \o ToJson(bad))
=============================================================================
