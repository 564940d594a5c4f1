-------------------------------- MODULE Cbc --------------------------------
EXTENDS Bytes, SequencesExt

(* CBC with any 8- or 16-byte block cipher.  The chain of blocks is kept    *)
(* in the accumulator and flattened at the end.                            *)
Flatten(blocks, n) == TLCEval([i \in 1 .. n * Len(blocks) |->
                        blocks[((i - 1) \div n) + 1][((i - 1) % n) + 1]])
Split(s, n) == [i \in 1 .. NumBlocks(s, n) |-> Block(s, n, i)]
CbcEnc(Enc(_), iv, s, n) ==
    Flatten(SubSeq(FoldLeft(LAMBDA acc, b : Append(acc, Enc(XorB(acc[Len(acc)], b))),
                            <<iv>>, Split(s, n)), 2, NumBlocks(s, n) + 1), n)
CbcDec(Dec(_), iv, s, n) ==
    LET c == TLCEval(<<iv>> \o Split(s, n))
    IN  Flatten(TLCEval([i \in 1 .. NumBlocks(s, n) |-> XorB(Dec(c[i + 1]), c[i])]), n)


(* Anything that is not "response" means the request direction *)
IsResponse(action) == action = "response"
=============================================================================
