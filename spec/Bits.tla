-------------------------------- MODULE Bits --------------------------------
(***************************************************************************)
(* The two bitset utilities as machines which work word by word, on words  *)
(* of W bits: the iteration over the members, and the comparison.  A bitset *)
(* is a sequence of words, a word the set of its one bits (below W), so     *)
(* that bitsets of any number of words, and of different ones, are covered. *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, RecordProps
CONSTANTS W, Words \* bits of a word, most words of a bitset

Word == SUBSET (0..(W - 1))
Bitsets == UNION {[1..k -> Word] : k \in 0..Words}
Members(s) == UNION {{W * (k - 1) + x : x \in s[k]} : k \in DOMAIN s}
WordAt(s, k) == IF k <= Len(s) THEN s[k] ELSE {}

VARIABLES
    a, b,           \* the bitsets
    at, off, out, over, \* iteration over a: current word, offset in it, what was yielded, ends reported
    cw, cb, cmp     \* comparison of a and b: word, bit, result
it == <<at, off, out, over>>
lx == <<cw, cb, cmp>>
bvars == <<a, b, it, lx>>
Undecided == 9

BInit == /\ a \in Bitsets /\ b \in Bitsets
         /\ at = 1 /\ off = 0 /\ out = <<>> /\ over = 0
         /\ cw = 1 /\ cb = 0 /\ cmp = Undecided

(* one step of the iteration: to the next word, over a zero bit, a member, or the end (which stays the end) *)
NextWord == at <= Len(a) /\ (a[at] = {} \/ off >= W) /\ at' = at + 1 /\ off' = 0 /\ UNCHANGED <<out, over>>
Skip == at <= Len(a) /\ a[at] # {} /\ off < W /\ off \notin a[at] /\ off' = off + 1 /\ UNCHANGED <<at, out, over>>
Yield == at <= Len(a) /\ off < W /\ off \in a[at] /\ out' = Append(out, W * (at - 1) + off) /\ off' = off + 1 /\ UNCHANGED <<at, over>>
Over == at > Len(a) /\ over < 2 /\ over' = over + 1 /\ UNCHANGED <<at, off, out>>
Iterate == NextWord \/ Skip \/ Yield \/ Over

(* one step of the comparison: equal words are skipped, in others the lowest differing bit is looked for;
   words which are missing count as zero *)
End == IF Len(a) > Len(b) THEN Len(a) ELSE Len(b)
Compare ==
    /\ cmp = Undecided
    /\ IF cw > End THEN cmp' = 0 /\ UNCHANGED <<cw, cb>>
       ELSE LET x == WordAt(a, cw) y == WordAt(b, cw) IN
            IF x = y \/ cb = W THEN cw' = cw + 1 /\ cb' = 0 /\ cmp' = cmp
            ELSE IF (cb \in x) = (cb \in y) THEN cb' = cb + 1 /\ UNCHANGED <<cw, cmp>>
            ELSE cmp' = (IF cb \in y THEN -1 ELSE 1) /\ UNCHANGED <<cw, cb>>

BNext == (Iterate /\ UNCHANGED <<a, b, lx>>) \/ (over = 2 /\ Compare /\ UNCHANGED <<a, b, it>>)
         \/ (over = 2 /\ cmp # Undecided /\ UNCHANGED bvars)
BSpec == BInit /\ [][BNext]_bvars /\ WF_bvars(BNext)

-----------------------------------------------------------------------------
(* what was yielded so far are the lowest members, in order; at the end all of them *)
Yielded == /\ Increasing(out)
           /\ Range(out) = {x \in Members(a) : x < W * (at - 1) + off}
           /\ over > 0 => BitReason([fatal |-> "", out |-> out, set |-> SetToSortSeq(Members(a), <), tail |-> 0]) = ""
(* the comparison is the order given by the lowest differing bit, whatever the numbers of words *)
Compared == cmp # Undecided => cmp = Order(Members(a), Members(b))
Ends == <>(over = 2 /\ cmp # Undecided)

(* the pairs of bitsets, for the replay into the implementation *)
RECURSIVE Digits(_, _), Text(_, _)
Digits(w, x) == IF x = W THEN "" ELSE (IF x \in w THEN ToString(x) ELSE "") \o Digits(w, x + 1)
Text(s, k) == IF Len(s) = 0 THEN "-" ELSE Digits(s[k], 0) \o (IF k = Len(s) THEN "" ELSE "," \o Text(s, k + 1))
Emitted == (over = 2 /\ cmp # Undecided) => PrintT("UTIL|" \o Text(a, 1) \o ";" \o Text(b, 1) \o "|")

(* that order is total: on all sets of members *)
All == SUBSET (0..(W * Words - 1))
ASSUME \A x, y \in All : Order(x, y) = -Order(y, x) /\ (Order(x, y) = 0 <=> x = y)
ASSUME \A x, y, z \in SUBSET (0..3) : Order(x, y) <= 0 /\ Order(y, z) <= 0 => Order(x, z) <= 0
=============================================================================
