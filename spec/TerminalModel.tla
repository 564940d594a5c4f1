---------------------------- MODULE TerminalModel ----------------------------
(***************************************************************************)
(* Every counter of a small width: the device and the host agree, no key   *)
(* serves two transactions, and a device that is opened gives away no key  *)
(* it has used.  Keys are symbolic: the path of counters that leads to      *)
(* them, so that a key can be computed from another exactly when the        *)
(* other's path is a prefix of its own.                                    *)
(***************************************************************************)
EXTENDS Terminal, SequencesExt, FiniteSets
CONSTANTS MaxW

Sym(key, c) == Append(key, c)
IKsym == <<>>
Val(c) == LET RECURSIVE V(_) V(i) == IF i = 0 THEN 0 ELSE 2 * V(i - 1) + c[i] IN V(Len(c))

VARIABLES m, dev, used     \* used: the set of <<counter, key>> of past transactions
vars == <<m, dev, used>>

Init == \E w \in 2 .. MaxW : \E k \in 1 .. w :
            m = k /\ dev = Loaded(Sym, IKsym, w) /\ used = {}
Next == /\ ~dev.dead
        /\ used' = used \cup {<<dev.ctr, TxKey(dev)>>}
        /\ dev' = Transact(Sym, dev, m)
        /\ m' = m
Spec == Init /\ [][Next]_vars

W == Len(dev.ctr)
Agreement == ~dev.dead => /\ TxKey(dev) = HostKey(Sym, IKsym, dev.ctr)
                          /\ dev.regs = RegistersAt(Sym, IKsym, dev.ctr)
                          /\ IsValid(dev.ctr, m)
(* the law by which CubeTrace judges families of counters *)
OneStep == ~IsZero(dev.ctr) =>
    HostKey(Sym, IKsym, dev.ctr) = Sym(HostKey(Sym, IKsym, Above(dev.ctr, LowestOne(dev.ctr))), dev.ctr)
(* past transaction keys are pairwise different, and so are their counters *)
OneKeyEach == \A t, u \in used : t # u => t[1] # u[1] /\ t[2] # u[2]
ForwardSecret ==
    \A t \in used : \A p \in 1 .. W :
        dev.regs[p] # NoKey => ~IsPrefix(dev.regs[p], t[2])
(* every counter that is valid gets its turn, in order *)
AllUsed == dev.dead => Cardinality(used) =
              Cardinality({c \in [1 .. W -> {0, 1}] : ~IsZero(c) /\ IsValid(c, m)})
InOrder == [][~dev'.dead => Val(dev.ctr) < Val(dev'.ctr) /\ dev'.ctr = NextCounter(dev.ctr, m)]_vars
LastIsMax == [][dev'.dead => dev.ctr = MaxCounter(W, m)]_vars
=============================================================================
