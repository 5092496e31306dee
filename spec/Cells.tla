------------------------------- MODULE Cells -------------------------------
(***************************************************************************)
(* A matrix which keeps its cells one row after the other in a sequence     *)
(* refines independent cells: for every shape, and every history of writes. *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, RecordProps
CONSTANTS Side, Values, Writes \* greatest number of rows and columns, values, most writes of a history

VARIABLES rows, cols, data, cells, ops
mvars == <<rows, cols, data, cells, ops>>
Positions == (0..(rows - 1)) \X (0..(cols - 1))
Pos(x) == cols * x[1] + x[2] + 1

MInit == /\ rows \in 0..Side /\ cols \in 0..Side
         /\ data = [k \in 1..(rows * cols) |-> 0]
         /\ cells = [x \in Positions |-> 0] /\ ops = <<>>
Write == /\ Len(ops) < Writes
         /\ \E x \in Positions, v \in Values :
              /\ data' = [data EXCEPT ![Pos(x)] = v]
              /\ cells' = [cells EXCEPT ![x] = v]
              /\ ops' = Append(ops, <<1, x[1], x[2], v>>)
         /\ UNCHANGED <<rows, cols>>
MSpec == MInit /\ [][Write]_mvars

Refines == \A x \in Positions : data[Pos(x)] = cells[x]
(* no two cells share a place, and every place belongs to a cell *)
Apart == {Pos(x) : x \in Positions} = DOMAIN data /\ \A x, y \in Positions : Pos(x) = Pos(y) => x = y
(* so reading back after a history is judged right *)
Judged == MatReason([fatal |-> "", rows |-> rows, cols |-> cols, item |-> 0, size |-> <<Len(data), rows, cols>>, ops |-> ops,
                     fin |-> [i \in 1..rows |-> [j \in 1..cols |-> data[Pos(<<i - 1, j - 1>>)]]]]) = ""
RECURSIVE Texts(_)
Texts(h) == IF h = <<>> THEN "" ELSE " " \o ToString(h[1][2]) \o "," \o ToString(h[1][3]) \o "," \o ToString(h[1][4]) \o Texts(Tail(h))
Emitted == PrintT("UTIL|" \o ToString(rows) \o " " \o ToString(cols) \o Texts(ops) \o "|")
=============================================================================
