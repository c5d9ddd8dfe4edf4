--------------------------------- MODULE Abi --------------------------------
(***************************************************************************)
(* The Solidity ABI layout of a consensus state and of the journal, as a   *)
(* contract reads them.  Bytes are base-2^16 digits, so a 32-byte word has *)
(* 16 digits; a root is such a word, an epoch or slot its last 4 digits.   *)
(***************************************************************************)
EXTENDS U64, Integers
Zeros(n) == [i \in 1..n |-> 0]
NumWord(u) == Zeros(12) \o u
CpBytes(c) == NumWord(c[1]) \o c[2]                     \* c = <<epoch, root>>
StateBytes(s) == CpBytes(s[1]) \o CpBytes(s[2])         \* s = <<justified, finalized>>
JournalBytes(pre, post, slot) == StateBytes(pre) \o StateBytes(post) \o NumWord(slot)
StateLen == 128
JournalLen == 288

ZeroState == <<<<UZero, Zeros(16)>>, <<UZero, Zeros(16)>>>>
ValidState(s) == ULt(s[2][1], s[1][1]) \/ s = ZeroState

(* Decoding reads the first 128 bytes; the unused high part of an epoch    *)
(* word does not carry meaning.                                            *)
NumAt(b, w) == SubSeq(b, 16 * w + 13, 16 * w + 16)
RootAt(b, w) == SubSeq(b, 16 * w + 1, 16 * w + 16)
ReadState(b) == <<<<NumAt(b, 0), RootAt(b, 1)>>, <<NumAt(b, 2), RootAt(b, 3)>>>>
Clean(b, w) == \A i \in 1..12 : b[16 * w + i] = 0
Decodable(b, len) == len >= StateLen /\ ValidState(ReadState(b))
(* A decoder may insist on canonical bytes.                                *)
Strict(b, len) == len = StateLen /\ Clean(b, 0) /\ Clean(b, 2)
=============================================================================
