-------------------------------- MODULE Gltf --------------------------------
(***************************************************************************)
(* What a glTF reader makes of an exported file, and when that is a given   *)
(* mesh.  A file record f:                                                  *)
(*   ok       a glTF document could be taken from it                        *)
(*   bytes    all bytes of the file (small files only, else empty)          *)
(*   json, bin  <<first byte (from 0), length>> of the two chunks           *)
(*   glb      the file is a binary container                                *)
(*   doc      structure: scenes/meshes/primitives as counted by the reader  *)
(*   pos, idx, col   the accessors with their elements                      *)
(* A mesh record m: V[i] = 3 pairs <<n, e>> (value n/2^e), I = indices.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, BigNum

\* ---------------------------------------------------------- the container
U16(b, at) == b[at+1] + 256 * b[at+2]
U32(b, at) == b[at+1] + 256 * (b[at+2] + 256 * (b[at+3] + 256 * b[at+4]))   \* below 2^31
MagicGltf == 1179937895   JsonType == 1313821514   BinType == 5130562
ContainerOk(f) ==
  LET b == f.bytes  jl == f.json[2]
  IN /\ Len(b) >= 20 /\ U32(b, 0) = MagicGltf /\ U32(b, 4) = 2 /\ U32(b, 8) = Len(b)
     /\ U32(b, 12) = jl /\ U32(b, 16) = JsonType /\ jl % 4 = 0 /\ f.json[1] = 20
     /\ Len(b) >= 28 + jl
     /\ U32(b, 24 + jl) = BinType /\ U32(b, 20 + jl) = f.bin[2] /\ f.bin[2] % 4 = 0 /\ f.bin[1] = 28 + jl
     /\ Len(b) = 28 + jl + f.bin[2]

\* ---------------------------------------------------------- the accessors
CompSize(t) == CASE t \in {5120, 5121} -> 1 [] t \in {5122, 5123} -> 2 [] t \in {5125, 5126} -> 4 [] OTHER -> 0
Comps(t) == CASE t = "SCALAR" -> 1 [] t = "VEC2" -> 2 [] t = "VEC3" -> 3 [] t = "VEC4" -> 4 [] OTHER -> 0
ElemSize(a) == CompSize(a.ctype) * Comps(a.type)
Stride(a)  == IF a.stride = 0 THEN ElemSize(a) ELSE a.stride
Begin(a)   == a.viewOffset + a.offset
AccessorOk(f, a) ==
  /\ a.present /\ CompSize(a.ctype) > 0 /\ Comps(a.type) > 0
  /\ Begin(a) % CompSize(a.ctype) = 0 /\ a.offset % CompSize(a.ctype) = 0 /\ Stride(a) % CompSize(a.ctype) = 0
  /\ Stride(a) >= ElemSize(a)
  /\ a.count > 0
  /\ a.offset + (a.count - 1) * Stride(a) + ElemSize(a) <= a.viewLength
  /\ a.viewOffset + a.viewLength <= f.bufferLength
  /\ Len(a.elems) = a.count
\* an unsigned value: whole below 2^31; floats as <<high half, low half>>
ValueAt(f, a, k, c) ==
  LET at == f.bin[1] + Begin(a) + k * Stride(a) + c * CompSize(a.ctype)
  IN IF CompSize(a.ctype) = 1 THEN f.bytes[at + 1]
     ELSE IF CompSize(a.ctype) = 2 THEN U16(f.bytes, at)
     ELSE <<U16(f.bytes, at + 2), U16(f.bytes, at)>>
\* the elements as read are those in the bytes
ElemsOk(f, a) == \A k \in 1..a.count : \A c \in 1..Comps(a.type) : a.elems[k][c] = ValueAt(f, a, k-1, c-1)
Whole(h) == IF h[1] >= 32768 THEN -1 ELSE h[1] * 65536 + h[2]

\* ------------------------------------------------------- single precision
Index(h)   == (h[1] % 32768) * 65536 + h[2]         \* position among the magnitudes
MagVal(i)  == LET ex == i \div 8388608  mant == i % 8388608     \* times 2^149
              IN IF ex = 0 THEN BInt(mant) ELSE BMul(BInt(mant + 8388608), BPow2(ex - 1))
F32(h)     == IF h[1] >= 32768 THEN BNeg(MagVal(Index(h))) ELSE MagVal(Index(h))
Finite(h)  == (h[1] % 32768) < 32640
\* h is n/2^e rounded to the nearest single, ties to even
Rounded(x, h) ==
  LET k == IF x[2] > 149 THEN x[2] ELSE 149
      X == BMul(BAbs(x[1]), BPow2(k - x[2]))
      i == Index(h)
      V(j) == BMul(MagVal(j), BPow2(k - 149))
      D(j) == BAbs(BSub(X, V(j)))
  IN /\ Finite(h)
     /\ (i # 0 /\ BSgn(x[1]) # 0) => ((h[1] >= 32768) <=> BSgn(x[1]) < 0)
     /\ \/ X = V(i)
        \/ /\ BCmp(D(i), D(i + 1)) < 0 \/ (D(i) = D(i + 1) /\ i % 2 = 0)
           /\ i = 0 \/ BCmp(D(i), D(i - 1)) < 0 \/ (D(i) = D(i - 1) /\ i % 2 = 0)

\* ------------------------------------------------------------ the clauses
Clause(name, cond) == IF cond THEN {} ELSE {name}
White(a, x) == CASE a.ctype = 5121 -> a.normalized /\ x = 255
                 [] a.ctype = 5123 -> a.normalized /\ x = 65535
                 [] a.ctype = 5126 -> x = <<16256, 0>>
                 [] OTHER -> FALSE
BoundsOk(f, m) ==   \* min and max as stored, rounded to single precision
  /\ Len(f.pos.min) = 3 /\ Len(f.pos.max) = 3
  /\ \A c \in 1..3 :
       /\ \E k \in 1..f.pos.count : F32(f.pos.elems[k][c]) = F32(f.pos.min[c])
       /\ \A k \in 1..f.pos.count : BLeq(F32(f.pos.min[c]), F32(f.pos.elems[k][c]))
       /\ \E k \in 1..f.pos.count : F32(f.pos.elems[k][c]) = F32(f.pos.max[c])
       /\ \A k \in 1..f.pos.count : BLeq(F32(f.pos.elems[k][c]), F32(f.pos.max[c]))
       /\ Rounded(f.pos.minExact[c], f.pos.min[c]) /\ Rounded(f.pos.maxExact[c], f.pos.max[c])
WhyNotMesh(f, m) ==
  IF ~f.ok THEN {"not a glTF file"}
  ELSE IF f.glb /\ f.bytes # <<>> /\ ~ContainerOk(f) THEN {"broken container"}
  ELSE Clause("one mesh with one primitive, shown once, untransformed",
              f.doc.meshes = 1 /\ f.doc.primitives = 1 /\ f.doc.shown = 1 /\ f.doc.plain)
       \cup Clause("not a triangle list", f.doc.mode = 4)
       \cup (IF ~(AccessorOk(f, f.pos) /\ f.pos.type = "VEC3" /\ f.pos.ctype = 5126) THEN {"position accessor"}
             ELSE Clause("bytes of positions", f.bytes # <<>> => ElemsOk(f, f.pos))
                  \cup (IF f.pos.count # Len(m.V) THEN {"number of positions"}
                        ELSE Clause("positions", \A k \in 1..f.pos.count : \A c \in 1..3 : Rounded(m.V[k][c], f.pos.elems[k][c]))
                             \cup Clause("position bounds", BoundsOk(f, m))))
       \cup (IF ~(AccessorOk(f, f.idx) /\ f.idx.type = "SCALAR" /\ f.idx.ctype \in {5121, 5123, 5125} /\ ~f.idx.normalized) THEN {"index accessor"}
             ELSE Clause("bytes of indices", f.bytes # <<>> => ElemsOk(f, f.idx))
                  \cup Clause("indices", /\ f.idx.count = Len(m.I)
                                         /\ \A k \in 1..f.idx.count :
                                              LET x == f.idx.elems[k][1] IN (IF f.idx.ctype = 5125 THEN Whole(x) ELSE x) = m.I[k]))
       \cup (IF ~(AccessorOk(f, f.col) /\ f.col.type \in {"VEC3", "VEC4"}) THEN {"colour accessor"}
             ELSE Clause("bytes of colours", f.bytes # <<>> => ElemsOk(f, f.col))
                  \cup Clause("colours", /\ f.col.count = Len(m.V)
                                         /\ \A k \in 1..f.col.count : \A c \in 1..Comps(f.col.type) : White(f.col, f.col.elems[k][c])))
=============================================================================
