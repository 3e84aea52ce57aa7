----------------------------- MODULE Gradients -----------------------------
(* Derivatives of the function a model computes.  A model is a sequence of modules on integer vectors:
     lin: W x + b (parameters W, b)    sq: a_i x_i x_{i+1} (parameters a, cyclic)    gate: g x (g is state, not a parameter)
   Derivatives are exact integers, obtained by accumulating the derivatives of the modules from the input forwards;
   MCGradients shows that accumulating from the output backwards, or taking differences, gives the same. *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
Dot(a, b) == FoldLeft(LAMBDA s, i : s + a[i] * b[i], 0, [i \in 1..Len(a) |-> i])
Col(M, j) == [i \in 1..Len(M) |-> M[i][j]]
MatVec(M, v) == [i \in 1..Len(M) |-> Dot(M[i], v)]
MatMat(A, B) == IF Len(B) = 0 \/ B[1] = <<>> THEN [i \in 1..Len(A) |-> <<>>]
                ELSE [i \in 1..Len(A) |-> [j \in 1..Len(B[1]) |-> Dot(A[i], Col(B, j))]]
Unit(n) == [i \in 1..n |-> [j \in 1..n |-> IF i = j THEN 1 ELSE 0]]
Nx(i, n) == IF i = n THEN 1 ELSE i + 1
(* one module *)
Ap(m, x) == LET n == Len(x) IN
  CASE m.k = "lin" -> [i \in 1..Len(m.W) |-> Dot(m.W[i], x) + m.b[i]]
    [] m.k = "sq" -> [i \in 1..n |-> m.a[i] * x[i] * x[Nx(i, n)]]
    [] OTHER -> [i \in 1..n |-> m.g * x[i]]
DX(m, x) == LET n == Len(x) IN          \* derivative by the input
  CASE m.k = "lin" -> m.W
    [] m.k = "sq" -> [i \in 1..n |-> [j \in 1..n |-> m.a[i] * ((IF j = i THEN x[Nx(i, n)] ELSE 0) + (IF j = Nx(i, n) THEN x[i] ELSE 0))]]
    [] OTHER -> [i \in 1..n |-> [j \in 1..n |-> IF i = j THEN m.g ELSE 0]]
DP(m, x) == LET n == Len(x) IN          \* derivative by the parameters: W row by row, then b; a
  CASE m.k = "lin" -> LET r == Len(m.W) IN [i \in 1..r |-> [q \in 1..(r * n + r) |->
                         IF q <= r * n THEN (IF (q - 1) \div n + 1 = i THEN x[((q - 1) % n) + 1] ELSE 0) ELSE IF q - r * n = i THEN 1 ELSE 0]]
    [] m.k = "sq" -> [i \in 1..n |-> [q \in 1..n |-> IF q = i THEN x[i] * x[Nx(i, n)] ELSE 0]]
    [] OTHER -> [i \in 1..n |-> <<>>]
(* the whole model: [y, jx, jp], jp = one matrix for each module *)
Run(ms, x) == FoldLeft(LAMBDA s, m : [y |-> Ap(m, s.y), jx |-> MatMat(DX(m, s.y), s.jx),
                                      jp |-> Append([i \in 1..Len(s.jp) |-> MatMat(DX(m, s.y), s.jp[i])], DP(m, s.y))],
                       [y |-> x, jx |-> Unit(Len(x)), jp |-> <<>>], ms)
=============================================================================
