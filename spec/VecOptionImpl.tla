---------------------------- MODULE VecOptionImpl ----------------------------
(* The representation of vec_option.rs: memory cells that may be uninitialised or stale, a length    *)
(* and a presence bitmap, driven one user-visible step at a time: a drain and the owning iterators    *)
(* hand out one item per step, destructors run one item per step, and every piece of user code (a     *)
(* destructor, a clone) may panic and unwind. Checked against VecOption: at rest the contents are     *)
(* what the abstract machine has, every item alive in the container is in exactly one present cell    *)
(* (nothing leaks unless a panic or a forgotten drain intervened), and no cell is ever destroyed,     *)
(* handed out or read when it does not hold an item of the container.                                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC, IOUtils
CONSTANTS Items, Cap
Mut == IF "MUT" \in DOMAIN IOEnv THEN IOEnv.MUT ELSE "none"

VARIABLES mem,     \* cells 1..Cap: an item (perhaps stale) or 0, never written
          len,     \* vec.len()
          bits,    \* present: a sequence of BOOLEAN
          own,     \* the items alive inside the container
          op,      \* the operation in progress
          v,       \* the abstract contents
          leaky,   \* a panic or a forgotten drain has happened: items may have leaked
          bad      \* an ill-founded access has happened
vars == <<mem, len, bits, own, op, v, leaky, bad>>

A == INSTANCE VecOption WITH MaxLen <- Cap, last <- 0
Idle == [k |-> "idle"]
NoneOf(n) == [j \in 1..n |-> 0]
Contents == [j \in 1..Len(bits) |-> IF bits[j] THEN mem[j] ELSE 0]
Range(s) == {s[j] : j \in DOMAIN s}
Fresh == Items \ (own \cup Range(mem))
(* One fresh item stands for all (they are interchangeable).                                         *)
New == IF Fresh = {} THEN {} ELSE {CHOOSE x \in Fresh : TRUE}
Opt(S) == S \cup {0}

Init == mem = NoneOf(Cap) /\ len = 0 /\ bits = <<>> /\ own = {} /\ op = Idle /\ v = <<>> /\ leaky = FALSE /\ bad = FALSE

(* A one-step operation: its concrete effect, and the abstract one it must match.                    *)
Step(e, m, n, b, o, ret, ok) ==
  /\ op.k = "idle" /\ mem' = m /\ len' = n /\ bits' = b /\ own' = o /\ UNCHANGED <<op, leaky>>
  /\ LET r == A!Eff(e, v, 0) IN v' = r.v /\ bad' = (bad \/ ~ok \/ r.ret # ret)

ReplaceBits(b, j, x) == IF x = 0 THEN [b EXCEPT ![j] = FALSE]
                        ELSE IF Mut = "keepbit" THEN b ELSE [b EXCEPT ![j] = TRUE]
Old(j) == IF bits[j] THEN mem[j] ELSE 0
Sound(x) == x = 0 \/ x \in own

Push(x) == /\ len < Cap
           /\ Step([ev |-> "push", x |-> x], IF x = 0 THEN mem ELSE [mem EXCEPT ![len + 1] = x], len + 1,
                   Append(bits, x # 0), own \cup ({x} \ {0}), <<>>, TRUE)
Pop == LET x == IF len = 0 THEN 0 ELSE Old(len) IN
       Step([ev |-> "pop"], mem, IF len = 0 \/ (Mut = "poplen" /\ x = 0) THEN len ELSE len - 1,
            IF bits = <<>> THEN bits ELSE SubSeq(bits, 1, Len(bits) - 1), own \ {x},
            IF len = 0 THEN <<>> ELSE <<x>>, Sound(x) /\ len = Len(bits))
Replace(j, x) == /\ j <= Len(bits)
                 /\ Step([ev |-> "replace", i |-> j - 1, x |-> x], IF x = 0 THEN mem ELSE [mem EXCEPT ![j] = x], len,
                         ReplaceBits(bits, j, x), (own \ {Old(j)}) \cup ({x} \ {0}), <<Old(j)>>, Sound(Old(j)))
(* replace_none(a); replace(b, value); replace(a, value)                                              *)
Swap(i, j) ==
  /\ i <= Len(bits) /\ j <= Len(bits)
  /\ LET x == Old(i)  y == IF Mut = "swapsame" /\ i = j THEN 0 ELSE Old(j)
         m1 == IF x = 0 THEN mem ELSE [mem EXCEPT ![j] = x]
         m2 == IF y = 0 THEN m1 ELSE [m1 EXCEPT ![i] = y]
     IN Step([ev |-> "swap", a |-> i - 1, b |-> j - 1], m2, len, ReplaceBits(ReplaceBits(bits, j, x), i, y), own, <<>>,
             Sound(x) /\ Sound(y))

(* set: the replaced value is destroyed once the new one is in place; the destructor may panic.       *)
Set(j, x) == /\ op.k = "idle" /\ j <= Len(bits)
             /\ LET o == Old(j) IN
                /\ mem' = IF x = 0 THEN mem ELSE [mem EXCEPT ![j] = x]
                /\ bits' = IF Mut = "setlate" /\ o # 0 THEN bits ELSE ReplaceBits(bits, j, x)
                /\ own' = (own \ {o}) \cup ({x} \ {0})
                /\ v' = A!Eff([ev |-> "set", i |-> j - 1, x |-> x], v, 0).v
                /\ bad' = (bad \/ ~Sound(o))
                /\ leaky' \in (IF o = 0 THEN {leaky} ELSE {leaky, TRUE})
                /\ UNCHANGED <<len, op>>

(* ---- drain ---------------------------------------------------------------------------------------- *)
DrainStart(lo, hi) ==
  /\ op.k = "idle" /\ lo <= hi /\ hi <= len
  /\ op' = [k |-> "drain", lo |-> lo, hi |-> hi, next |-> lo, ret |-> <<>>]
  /\ UNCHANGED <<mem, len, bits, own, v, leaky, bad>>
TakeAt(j) ==  \* replace_none(j), as an effect on bits
  bits' = IF Mut = "takekeeps" THEN bits ELSE [bits EXCEPT ![j] = FALSE]
DrainNext ==
  /\ op.k = "drain" /\ op.next < op.hi
  /\ LET x == Old(op.next + 1) IN
     /\ TakeAt(op.next + 1) /\ own' = own \ {x} /\ bad' = (bad \/ ~Sound(x))
     /\ op' = [op EXCEPT !.next = @ + 1, !.ret = Append(@, x)]
  /\ UNCHANGED <<mem, len, v, leaky>>
DrainDrop ==  \* the drain goes out of scope
  /\ op.k = "drain"
  /\ op' = IF op.lo = op.hi THEN Idle ELSE [op EXCEPT !.k = "draindrop"]
  /\ bad' = (bad \/ op.ret # SubSeq(v, op.lo + 1, op.next))
  /\ v' = A!Eff([ev |-> "drain", lk |-> 1, lo |-> op.lo, hk |-> 2, hi |-> op.hi, take |-> 0], v, 0).v
  /\ UNCHANGED <<mem, len, bits, own, leaky>>
(* Unwinding or forgetting leaves whatever is present.                                               *)
Abandon(own1, bits1) ==
  /\ op' = Idle /\ leaky' = TRUE
  /\ v' = [j \in 1..Len(bits1) |-> IF bits1[j] THEN mem[j] ELSE 0]
DrainForget ==
  /\ op.k = "drain" /\ Abandon(own, bits) /\ UNCHANGED <<mem, len, bits, own, bad>>
DrainRest ==  \* destroys one remaining item of the range
  /\ op.k = "draindrop" /\ op.next < op.hi
  /\ LET x == Old(op.next + 1)
         b == IF Mut = "takekeeps" THEN bits ELSE [bits EXCEPT ![op.next + 1] = FALSE]
     IN /\ bits' = b /\ own' = own \ {x} /\ bad' = (bad \/ ~Sound(x))
        /\ \/ op' = [op EXCEPT !.next = @ + 1] /\ UNCHANGED <<v, leaky>>
           \/ x # 0 /\ Abandon(own, b)
  /\ UNCHANGED <<mem, len>>
DrainFinish ==
  /\ op.k = "draindrop" /\ op.next = op.hi
  /\ LET w == op.hi - op.lo
         shift(m) == [j \in 1..Cap |-> IF j > op.lo /\ j <= len - w THEN m[j + w] ELSE m[j]]
         \* copying from the back overwrites what is still to be moved
         back(m) == [j \in 1..Cap |-> IF j > op.lo /\ j <= len - w
                                      THEN LET k == (len - j) \div w IN m[j + k * w] ELSE m[j]]
     IN /\ mem' = IF Mut = "copyback" THEN back(mem) ELSE shift(mem)
        /\ len' = len - w
        /\ bits' = IF Mut = "truncate" THEN SubSeq(bits, 1, Len(bits) - w)
                   ELSE SubSeq(bits, 1, op.lo) \o SubSeq(bits, op.hi + 1, Len(bits))
  /\ op' = Idle /\ UNCHANGED <<own, v, leaky, bad>>

(* ---- compact -------------------------------------------------------------------------------------- *)
CompactStart(then) ==
  /\ op.k = "idle" /\ op' = [k |-> "compact", i |-> 0, keep |-> 0, then |-> then]
  /\ UNCHANGED <<mem, len, bits, own, v, leaky, bad>>
CompactStep ==
  /\ op.k = "compact" /\ op.i < Len(bits)
  /\ IF bits[op.i + 1]
     THEN mem' = [mem EXCEPT ![op.keep + 1] = mem[op.i + 1]] /\ op' = [op EXCEPT !.i = @ + 1, !.keep = @ + 1]
     ELSE op' = [op EXCEPT !.i = @ + 1] /\ mem' = mem
  /\ UNCHANGED <<len, bits, own, v, leaky, bad>>
CompactFinish ==
  /\ op.k = "compact" /\ op.i = Len(bits)
  /\ LET n == op.keep
         slice == [j \in 1..n |-> mem[j]]
     IN /\ bad' = (bad \/ slice # A!Some(v) \/ \E j \in 1..n : mem[j] \notin own)
        /\ IF op.then = "stay"
           THEN /\ v' = A!Some(v) /\ len' = n
                /\ bits' = IF Mut = "compactbits" THEN SubSeq(bits, 1, n) ELSE [j \in 1..n |-> TRUE]
                /\ op' = Idle /\ UNCHANGED own
           ELSE \* some_into_vec: the caller gets the vector; what is left of the container is destroyed
                /\ v' = <<>> /\ len' = 0 /\ own' = own \ Range(slice)
                /\ bits' = IF Mut = "intovec" THEN [j \in 1..n |-> TRUE] ELSE <<>>
                /\ op' = [k |-> "drop", i |-> 0, n |-> 0]
  /\ UNCHANGED <<mem, leaky>>

(* ---- the destructor -------------------------------------------------------------------------------- *)
DropStart == /\ op.k = "idle"
             /\ op' = [k |-> "drop", i |-> 0, n |-> IF Mut = "droplen" THEN len ELSE 0]
             /\ v' = <<>> /\ UNCHANGED <<mem, len, bits, own, leaky, bad>>
Reset(n, o, leak) ==  \* the buffer is freed, with a Vec of n items still in it; a new container takes over
  LET cells == {mem[j] : j \in 1..n} IN
  /\ bad' = (bad \/ ~(cells \subseteq o) \/ Cardinality(cells) < n \/ (~leak /\ cells # o))
  /\ mem' = NoneOf(Cap) /\ len' = 0 /\ bits' = <<>> /\ own' = {} /\ op' = Idle /\ leaky' = FALSE
DropStep ==
  /\ op.k = "drop" /\ op.i < Len(bits)
  /\ LET x == IF bits[op.i + 1] THEN mem[op.i + 1] ELSE 0 IN
     \/ /\ op' = [op EXCEPT !.i = @ + 1] /\ own' = own \ {x} /\ bad' = (bad \/ ~Sound(x))
        /\ UNCHANGED <<mem, len, bits, v, leaky>>
     \/ \* the destructor of x panics; the rest of the items leaks, the fields are dropped
        /\ x # 0 /\ UNCHANGED v
        /\ IF Sound(x) THEN Reset(op.n, own \ {x}, TRUE)
           ELSE bad' = TRUE /\ op' = Idle /\ UNCHANGED <<mem, len, bits, own, leaky>>
DropFinish == /\ op.k = "drop" /\ op.i = Len(bits) /\ Reset(op.n, own, leaky) /\ UNCHANGED v

(* ---- the owning iterators --------------------------------------------------------------------------- *)
IntoStart == /\ op.k = "idle" /\ op' = [k |-> "into", next |-> 0]
             /\ UNCHANGED <<mem, len, bits, own, v, leaky, bad>>
IntoNext ==
  /\ op.k = "into" /\ op.next < len
  /\ LET x == Old(op.next + 1) IN
     /\ TakeAt(op.next + 1) /\ own' = own \ {x} /\ bad' = (bad \/ ~Sound(x) \/ x # v[op.next + 1])
     /\ op' = [op EXCEPT !.next = @ + 1]
  /\ UNCHANGED <<mem, len, v, leaky>>
IntoDrop == /\ op.k = "into" /\ op' = [k |-> "drop", i |-> 0, n |-> 0] /\ v' = <<>>
            /\ UNCHANGED <<mem, len, bits, own, leaky, bad>>

(* ---- clone ------------------------------------------------------------------------------------------ *)
CloneStart == /\ op.k = "idle" /\ len > 0
              /\ op' = [k |-> "clone", i |-> 0, cmem |-> NoneOf(Cap), made |-> {},
                        clen |-> IF Mut = "clonelen" THEN len ELSE 0]
              /\ UNCHANGED <<mem, len, bits, own, v, leaky, bad>>
CloneStep ==
  /\ op.k = "clone" /\ op.i < Len(bits)
  /\ IF ~bits[op.i + 1] THEN op' = [op EXCEPT !.i = @ + 1] /\ UNCHANGED <<leaky, bad>>
     ELSE /\ bad' = (bad \/ ~Sound(mem[op.i + 1]))
          /\ \/ \E x \in Fresh \ op.made :
                  /\ x = CHOOSE y \in Fresh \ op.made : TRUE
                  /\ op' = [op EXCEPT !.i = @ + 1, !.cmem = [@ EXCEPT ![op.i + 1] = x], !.made = @ \cup {x}]
                  /\ UNCHANGED leaky
             \/ \* the clone panics; the half-made vector is dropped with its length
                /\ leaky' = TRUE /\ op' = [k |-> "cloned", ok |-> \A j \in 1..op.clen : op.cmem[j] \in op.made]
  /\ UNCHANGED <<mem, len, bits, own, v>>
ClonePanicked == /\ op.k = "cloned" /\ op' = Idle /\ bad' = (bad \/ ~op.ok) /\ UNCHANGED <<mem, len, bits, own, v, leaky>>
CloneFinish ==  \* the original is destroyed, the clone stays
  /\ op.k = "clone" /\ op.i = Len(bits)
  /\ bad' = (bad \/ \E j \in 1..Len(bits) : bits[j] /\ op.cmem[j] \notin op.made)
  /\ mem' = op.cmem /\ own' = op.made /\ v' = [j \in 1..Len(v) |-> IF v[j] = 0 THEN 0 ELSE op.cmem[j]]
  /\ op' = Idle /\ UNCHANGED <<len, bits, leaky>>

Next ==
  /\ ~bad
  /\ \/ \E x \in Opt(New) : Push(x) \/ \E j \in 1..Cap : Replace(j, x) \/ Set(j, x)
     \/ Pop \/ \E i, j \in 1..Cap : Swap(i, j)
     \/ \E lo, hi \in 0..Cap : DrainStart(lo, hi)
     \/ DrainNext \/ DrainDrop \/ DrainForget \/ DrainRest \/ DrainFinish
     \/ CompactStart("stay") \/ CompactStart("vec") \/ CompactStep \/ CompactFinish
     \/ DropStart \/ DropStep \/ DropFinish
     \/ IntoStart \/ IntoNext \/ IntoDrop
     \/ CloneStart \/ CloneStep \/ ClonePanicked \/ CloneFinish
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Sane == ~bad
AtRest == op.k = "idle" => len = Len(bits) /\ Contents = v
OnceEach == op.k \in {"idle", "drain", "draindrop", "into"} =>
  LET present == {j \in 1..Len(bits) : bits[j]} IN
  /\ \A j \in present : mem[j] \in own
  /\ \A i, j \in present : i # j => mem[i] # mem[j]
  /\ ~leaky => own = {mem[j] : j \in present}
Sym == Permutations(Items)
=============================================================================
