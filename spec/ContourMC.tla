----------------------------- MODULE ContourMC -----------------------------
(***************************************************************************)
(* Levels are asked for in any order, each with the next colour of the     *)
(* cycle, and put in increasing order before the contours are drawn.  The  *)
(* geometry of the contours is checked on every small table.               *)
(***************************************************************************)
EXTENDS Contour, TLC, Json
CONSTANTS Nx, Ny, MaxZ, MaxLevels, NCol, Emit
VARIABLES z, asked, drawn
vars == <<z, asked, drawn>>
Levels == {1000 * k + 500 : k \in 0..(MaxZ - 1)} \union {1000 * MaxZ + 500}
Init == z \in [1..Nx -> [1..Ny -> 0..MaxZ]] /\ asked = <<>> /\ drawn = <<>>
Ask == /\ Len(asked) < MaxLevels
       /\ \E l \in Levels \ {asked[k] : k \in 1..Len(asked)} :
            LET k == Cardinality({j \in 1..Len(drawn) : drawn[j][1] < l})
                c == Len(asked) % NCol IN
            /\ asked' = Append(asked, l)
            /\ drawn' = SubSeq(drawn, 1, k) \o <<<<l, c>>>> \o SubSeq(drawn, k + 1, Len(drawn))
       /\ UNCHANGED z
Next == Ask
Spec == Init /\ [][Next]_vars
Increasing == \A k \in 1..(Len(drawn) - 1) : drawn[k][1] < drawn[k + 1][1]
OwnColour == \A k \in 1..Len(asked) : \E j \in 1..Len(drawn) : drawn[j] = <<asked[k], (k - 1) % NCol>>
\* exchanging x and y mirrors the contours
Mirror == \A k \in 1..Len(asked) : Crossings(Transpose(z), asked[k]) = {<<p[2], p[1]>> : p \in Crossings(z, asked[k])}
\* a contour that enters a cell leaves it
Cell(i, j) == <<z[i][j], z[i + 1][j], z[i + 1][j + 1], z[i][j + 1]>>
Through == \A k \in 1..Len(asked), i \in 1..(Nx - 1), j \in 1..(Ny - 1) :
             Cardinality({n \in 1..4 : Passes(Cell(i, j)[n], Cell(i, j)[(n % 4) + 1], asked[k])}) % 2 = 0
\* no contour exactly when all values are on one side
Separates == \A k \in 1..Len(asked) :
               (Crossings(z, asked[k]) = {}) <=> ((\A i \in 1..Nx, j \in 1..Ny : 1000 * z[i][j] > asked[k]) \/ (\A i \in 1..Nx, j \in 1..Ny : 1000 * z[i][j] < asked[k]))
\* contours relative to the maximum are those of the function itself
Shifted == \A k \in 1..Len(asked) : Crossings(Rel(z), asked[k] - 1000 * ZMax(z)) = Crossings(z, asked[k])
EmitC == (Emit /\ asked # <<>>) => PrintT("@@BEH " \o ToJson([z |-> z, levels |-> asked]))
=============================================================================
