# Score functions (C13): floating point operations are treated as operations on real
# numbers; square root, division and arc cosine are named functions.
rec dotsum(a arrr, ao Int, b arrr, bo Int, n Int) Real = ite(n <= 0, real(0), dotsum(a, ao, b, bo, n-1) + a[ao+n-1]*b[bo+n-1])
rec sqdist(a arrr, ao Int, b arrr, bo Int, n Int) Real = ite(n <= 0, real(0), sqdist(a, ao, b, bo, n-1) + (a[ao+n-1]-b[bo+n-1])*(a[ao+n-1]-b[bo+n-1]))
rec absdist(a arrr, ao Int, b arrr, bo Int, n Int) Real = ite(n <= 0, real(0), absdist(a, ao, b, bo, n-1) + ite(a[ao+n-1]-b[bo+n-1] >= 0, a[ao+n-1]-b[bo+n-1], 0-(a[ao+n-1]-b[bo+n-1])))
uf rsqrt(real) real
uf racos(real) real
uf rdiv(real, real) real
axiom[rsqrt] a square root is not negative: all(x, "float64", rsqrt(x) >= 0)
def least(a, b) = ite(a < b, a, b)
def dotOf(a, b, n) = dotsum(elems(a), off(a), elems(b), off(b), n)
def dot(a, b) = dotOf(a, b, least(len(a), len(b)))
def sqOf(a, n) = dotsum(elems(a), off(a), elems(a), off(a), n)
def norm2(a) = sqOf(a, len(a))
def ratio(a, b) = rdiv(dot(a, b), rsqrt(norm2(a))*rsqrt(norm2(b)))
def cosine(a, b) = ite(norm2(a) == 0 || norm2(b) == 0, real(0), ite(ratio(a, b) > 1, real(1), ite(ratio(a, b) < 0-1, real(0-1), ratio(a, b))))

func data.VectorDistance(a, b) (r)
  ensures[C13] the Euclidean distance of the common prefix: r == rsqrt(sqdist(elems(a), off(a), elems(b), off(b), least(len(a), len(b))))
  ensures[C13] not negative: r >= 0
  loop (s float32, i int) sum of squared differences: 0 <= i && s == sqdist(elems(a), off(a), elems(b), off(b), i)
  loop (s float32, i int) sum of squared differences in a range loop: 0 <= i+1 && s == sqdist(elems(a), off(a), elems(b), off(b), i+1)

func data.QuickVectorDistance(a, b) (r)
  ensures[C13] the Manhattan distance of the common prefix: r == absdist(elems(a), off(a), elems(b), off(b), least(len(a), len(b)))
  ensures[C13] not negative: r >= 0
  loop (s float64, i int) sum of absolute differences: 0 <= i && s >= 0 && s == absdist(elems(a), off(a), elems(b), off(b), i)
  loop (s float64, i int) sum of absolute differences in a range loop: 0 <= i+1 && s >= 0 && s == absdist(elems(a), off(a), elems(b), off(b), i+1)

func data.VectorMultiplication(a, b) (r)
  ensures[C13] the dot product of the common prefix: r == dot(a, b)
  loop (s float32, i int) sum of products: 0 <= i && s == dotOf(a, b, i)
  loop (s float32, i int) sum of products in a range loop: 0 <= i+1 && s == dotOf(a, b, i+1)

func data.CosineSimilarity(a, b) (r)
  apply C13
  modifies nothing
  ensures[C13] the cosine similarity of the padded vectors: r == cosine(a, b)
  ensures[C13] within bounds: 0-1 <= r && r <= 1
  ensures[C13] zero vectors are similar to nothing: imp(norm2(a) == 0 || norm2(b) == 0, r == 0)
  loop (i int) counted: 0 <= i
  loop (i int) counted in a range loop: 0 <= i+1
  loop (s float32, i int) sum of products: s == dotOf(a, b, least(i, least(len(a), len(b))))
  loop (s float32, i int) sum of products in a range loop: s == dotOf(a, b, least(i+1, least(len(a), len(b))))
  loop (s float32, i int) squares of the first: s == sqOf(a, least(i, len(a)))
  loop (s float32, i int) squares of the first in a range loop: s == sqOf(a, least(i+1, len(a)))
  loop (s float32, i int) squares of the second: s == sqOf(b, least(i, len(b)))
  loop (s float32, i int) squares of the second in a range loop: s == sqOf(b, least(i+1, len(b)))

func data.AngularDistance(a, b) (r)
  ensures[C13] the angular similarity: r == 1 - rdiv(racos(cosine(a, b)), math.Pi)

# symmetry, sign and zero vectors, by induction over the length (base and step)
lemma[C13] dot product symmetric: all(n, "int", all(x, "*pb.DatumKey", all(y, "*pb.DatumKey", dotOf(x.Feature, y.Feature, 0) == dotOf(y.Feature, x.Feature, 0) && (imp(n >= 0 && dotOf(x.Feature, y.Feature, n) == dotOf(y.Feature, x.Feature, n), dotOf(x.Feature, y.Feature, n+1) == dotOf(y.Feature, x.Feature, n+1))))))
lemma[C13] Euclidean distance symmetric and of a sum that is not negative: all(n, "int", all(x, "*pb.DatumKey", all(y, "*pb.DatumKey", sqdist(elems(x.Feature), off(x.Feature), elems(y.Feature), off(y.Feature), 0) == 0 && sqdist(elems(y.Feature), off(y.Feature), elems(x.Feature), off(x.Feature), 0) == 0 && (imp(n >= 0 && sqdist(elems(x.Feature), off(x.Feature), elems(y.Feature), off(y.Feature), n) >= 0 && sqdist(elems(x.Feature), off(x.Feature), elems(y.Feature), off(y.Feature), n) == sqdist(elems(y.Feature), off(y.Feature), elems(x.Feature), off(x.Feature), n), sqdist(elems(x.Feature), off(x.Feature), elems(y.Feature), off(y.Feature), n+1) == sqdist(elems(y.Feature), off(y.Feature), elems(x.Feature), off(x.Feature), n+1) && sqdist(elems(x.Feature), off(x.Feature), elems(y.Feature), off(y.Feature), n+1) >= 0)))))
lemma[C13] Manhattan distance symmetric: all(n, "int", all(x, "*pb.DatumKey", all(y, "*pb.DatumKey", absdist(elems(x.Feature), off(x.Feature), elems(y.Feature), off(y.Feature), 0) == absdist(elems(y.Feature), off(y.Feature), elems(x.Feature), off(x.Feature), 0) && (imp(n >= 0 && absdist(elems(x.Feature), off(x.Feature), elems(y.Feature), off(y.Feature), n) == absdist(elems(y.Feature), off(y.Feature), elems(x.Feature), off(x.Feature), n), absdist(elems(x.Feature), off(x.Feature), elems(y.Feature), off(y.Feature), n+1) == absdist(elems(y.Feature), off(y.Feature), elems(x.Feature), off(x.Feature), n+1))))))
lemma[C13] the cosine of symmetric products is symmetric: all(x, "*pb.DatumKey", all(y, "*pb.DatumKey", imp(dot(x.Feature, y.Feature) == dot(y.Feature, x.Feature), cosine(x.Feature, y.Feature) == cosine(y.Feature, x.Feature))))
lemma[C13] zero vectors have norm 0: all(n, "int", all(x, "*pb.DatumKey", sqOf(x.Feature, 0) == 0 && (imp(n >= 0 && sqOf(x.Feature, n) == 0 && x.Feature[n] == 0, sqOf(x.Feature, n+1) == 0))))
