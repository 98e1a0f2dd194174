// Runs one library routine on arguments read from standard input; Python decides.
#include <iostream>
#include <sstream>
#include <string>
#include <vector>
#include "latte_ntl.h"
#include "latte_gmp.h"
#include "cone.h"
#include "dual.h"
#include "rational.h"
#include "Irrational.h"
#include "barvinok/barvinok.h"
#include "barvinok/dec.h"
#include "genFunction/piped.h"
#include "genFunction/matrix_ops.h"
#include "genFunction/IntCombEnum.h"
#include "integration/PolyTrie.h"
#include "integration/PolyRep.h"
#include "integration/multiply.h"
#include "todd/todd-expansion.h"
#include "todd/gmp_pow.h"
#include "interpolation/PolynomialInterpolation.h"
#include "top-knapsack/PeriodicFunction.h"

using namespace std;

static ZZ rz() { string s; cin >> s; return to_ZZ(s.c_str()); }
static long rl() { long x; cin >> x; return x; }
static RationalNTL rq() { string s; cin >> s; return RationalNTL(s); }
static mpq_class rmq() { string s; cin >> s; mpq_class q(s); q.canonicalize(); return q; }
static string rline() { string s; while (s.find_first_not_of(" \n\r\t") == string::npos && getline(cin, s)) ; size_t k = s.find_first_not_of(" \t"); return k == string::npos ? "" : s.substr(k); }
static void pv(const vec_ZZ &v) { for (long i = 0; i < v.length(); i++) cout << (i ? " " : "") << v[i]; }
static void pl(const char *t, listVector *l) { for (; l; l = l->rest) { cout << t << " "; pv(l->first); cout << "\n"; } }
static mat_ZZ rmat(long n) {
  mat_ZZ A; A.SetDims(n, n);
  for (long i = 0; i < n; i++) for (long j = 0; j < n; j++) A[i][j] = rz();
  return A;
}
static void pm(const char *t, const mat_ZZ &A) {
  for (long i = 0; i < A.NumRows(); i++) { cout << t << " "; pv(A[i]); cout << "\n"; }
}

static listCone *read_cone(long d) {
  long m = rl();
  listCone *c = createListCone();
  rationalVector *v = new rationalVector(d);
  for (long i = 0; i < d; i++) { ZZ n = rz(), q = rz(); v->set_entry(i, n, q); }
  c->vertex = new Vertex(v);
  listVector **end = &c->rays;
  for (long k = 0; k < m; k++) {
    vec_ZZ r; r.SetLength(d);
    for (long i = 0; i < d; i++) r[i] = rz();
    *end = new listVector(r); end = &(*end)->rest;
  }
  return c;
}

static void print_cone(listCone *c) {
  cout << "cone " << c->coefficient << " " << c->determinant << " " << c->dual_determinant << "\n";
  cout << "vertex";
  for (long i = 0; i < c->vertex->vertex->numerators().length(); i++)
    cout << " " << c->vertex->vertex->numerators()[i] << "/" << c->vertex->vertex->denominators()[i];
  cout << "\n";
  pl("ray", c->rays);
  pl("facet", c->facets);
  cout << "divisors "; pv(c->facet_divisors); cout << "\n";
  pl("point", c->latticePoints);
}

static void setup(BarvinokParameters &p, long d, const string &mode, long maxdet) {
  p.Number_of_Variables = d;
  p.max_determinant = maxdet;
  p.File_Name = "in";
  p.decomposition = mode == "dual" ? BarvinokParameters::DualDecomposition
    : mode == "primal" ? BarvinokParameters::IrrationalPrimalDecomposition : BarvinokParameters::IrrationalAllPrimalDecomposition;
}

static void decomp() {
  string mode; cin >> mode;
  long maxdet = rl(), d = rl(), want_points = rl();
  listCone *c = read_cone(d);
  BarvinokParameters p;
  setup(p, d, mode, maxdet);
  listCone *out;
  dualizeCones(c, d, &p);
  if (mode == "all") {
    dualizeCones(c, d, &p);
    irrationalizeCones(c, d);
  }
  out = decomposeCones(c, false, p);
  if (want_points) computePointsInParallelepipeds(out, d, &p);
  for (; out; out = out->rest) print_cone(out);
}

static void dualize() {
  long d = rl();
  string how; cin >> how;
  listCone *c = read_cone(d);
  BarvinokParameters p;
  setup(p, d, "dual", 1);
  p.dualization = how == "4ti2" ? BarvinokParameters::DualizationWith4ti2 : BarvinokParameters::DualizationWithCdd;
  dualizeCones(c, d, &p);
  print_cone(c);
}

static void piped() {
  long d = rl(), scalar = rl();
  vec_ZZ g; g.SetLength(d);
  for (long i = 0; i < d; i++) g[i] = rz();
  listCone *c = read_cone(d);
  BarvinokParameters p;
  setup(p, d, "dual", 1);
  computeDetAndFacetsOfSimplicialCone(c, d);
  if (scalar != 1) computePointsInParallelepiped(c, d, &p);
  if (scalar) {
    computeLatticePointsScalarProducts(c, d, g, &p);
    cout << "products "; pv(c->lattice_points_scalar_products); cout << "\n";
  }
  print_cone(c);
}

static void smith() {
  long n = rl();
  mat_ZZ A = rmat(n), L, R, S;
  BarvinokParameters p;
  S = SmithNormalForm(A, L, R, &p);
  pm("S", S); pm("L", L); pm("R", R);
}

// A stack machine over RationalNTL
static void rational() {
  vector<RationalNTL> st;
  string op;
  while (cin >> op) {
    if (op == "push") { st.push_back(rq()); continue; }
    if (op == "push2") { ZZ a = rz(), b = rz(); st.push_back(RationalNTL(a, b)); continue; }
    if (op == "pushi") { int a = rl(), b = rl(); st.push_back(RationalNTL(a, b)); continue; }
    if (op == "pushz") { ZZ a = rz(); RationalNTL r; r = a; st.push_back(r); continue; }
    if (op == "read") { string s = rline(); istringstream i(s); RationalNTL r; i >> r; st.push_back(r); continue; }
    if (op == "dup") { st.push_back(st.back()); continue; }
    if (op == "pow") { long e = rl(); st.back().power(e); continue; }
    if (op == "spow") { long e = rl(); st.back() = RationalNTL::power(st.back(), e); continue; }
    if (op == "neg") { st.back().changeSign(); continue; }
    if (op == "mulz") { ZZ a = rz(); st.back().mult(a); continue; }
    if (op == "mulz2") { ZZ a = rz(); st.back() = st.back() * a; continue; }
    if (op == "mulz3") { ZZ a = rz(); st.back() *= a; continue; }
    if (op == "muli") { int a = rl(); st.back() = st.back() * a; continue; }
    if (op == "muli2") { int a = rl(); st.back() *= a; continue; }
    if (op == "divz") { ZZ a = rz(); st.back().div(a); continue; }
    if (op == "divz2") { ZZ a = rz(); st.back() = st.back() / a; continue; }
    if (op == "addz") { ZZ a = rz(), b = rz(); st.back().add(a, b); continue; }
    if (op == "mulzz") { ZZ a = rz(), b = rz(); st.back().mult(a, b); continue; }
    if (op == "out") { cout << st.back() << " " << st.back().str() << " " << st.back().getNumerator() << " " << st.back().getDenominator() << "\n"; continue; }
    if (op == "eqz") { ZZ a = rz(); cout << (st.back() == a) << "\n"; continue; }
    if (op == "eql") { long a = rl(); cout << (st.back() == a) << (st.back() != a) << "\n"; continue; }
    if (op == "dot") {
      long n = rl(); vec_RationalNTL a, b; a.SetLength(n); b.SetLength(n);
      for (long i = 0; i < n; i++) a[i] = rq();
      for (long i = 0; i < n; i++) b[i] = rq();
      vec_RationalNTL c(a); a = c;
      st.push_back(vec_RationalNTL::innerProduct(a, b)); continue;
    }
    RationalNTL b = st.back(); st.pop_back();
    RationalNTL &a = st.back();
    if (op == "+") a = a + b;
    else if (op == "-") a = a - b;
    else if (op == "*") a = a * b;
    else if (op == "/") a = a / b;
    else if (op == "+=") a += b;
    else if (op == "-=") a -= b;
    else if (op == "*=") a *= b;
    else if (op == "add") a.add(b);
    else if (op == "mult") a.mult(b);
    else if (op == "div") a.div(b);
    else if (op == "==") cout << (a == b) << (a != b) << "\n";
    else { cerr << "unknown " << op << "\n"; exit(3); }
  }
}

static void ratvec() {
  long n = rl();
  rationalVector v(n);
  for (long i = 0; i < n; i++) { ZZ a = rz(), b = rz(); v.set_entry(i, a, b); }
  string op;
  while (cin >> op) {
    if (op == "scale") {
      ZZ f; vec_ZZ r = scaleRationalVectorToInteger(&v, n, f);
      cout << "scaled " << f << " "; pv(r); cout << "\n";
    } else if (op == "canon") canonicalizeRationalVector(&v, n);
    else if (op == "norm") { rationalVector *w = normalizeRationalVector(new rationalVector(v), n); v = *w; }
    else if (op == "mult") { ZZ a = rz(), b = rz(); v.scalarMultiplication(a, b); }
    else if (op == "set") { long i = rl(); ZZ a = rz(), b = rz(); v.set_entry(i, a, b); }
    else if (op == "lazy") { long i = rl(); ZZ a = rz(), b = rz(); v.set_entry(i, a, b, true); }
    else if (op == "num") { long i = rl(); ZZ a = rz(); v.set_numerator(i, a); }
    else if (op == "den") { long i = rl(); ZZ a = rz(); v.set_denominator(i, a); }
    else if (op == "copy") { rationalVector *w = copyRationalVector(&v); v = *w; }
    else if (op == "out") { cout << "vector "; pv(v.numerators()); cout << " / "; pv(v.denominators()); cout << "\n"; }
    else exit(3);
  }
}

static void trie() {
  string op; cin >> op;
  if (op == "load") {
    monomialSum a; string s = rline(); loadMonomials(a, s); cout << printMonomials(a) << "\n"; destroyMonomials(a);
  } else if (op == "block") {
    _monomialSum a; string s = rline(); _loadMonomials(a, s); cout << _printMonomials(a) << "\n"; _destroyMonomials(a);
  } else if (op == "mul" || op == "mulbound") {
    monomialSum a, b, c;
    string s = rline(), t = rline();
    loadMonomials(a, s); loadMonomials(b, t);
    c.varCount = a.varCount;
    BTrieIterator<RationalNTL, int> i, j;
    i.setTrie(a.myMonomials, a.varCount); j.setTrie(b.myMonomials, b.varCount);
    if (op == "mul") multiply<RationalNTL>(&i, &j, c);
    else {
      vector<int> lo, hi;
      for (int k = 0; k < a.varCount; k++) lo.push_back(rl());
      for (int k = 0; k < a.varCount; k++) hi.push_back(rl());
      multiply<RationalNTL>(&i, &j, c, &lo[0], &hi[0]);
    }
    cout << printMonomials(c) << "\n";
  } else if (op == "forms") {
    linFormSum a; string s = rline(); loadLinForms(a, s); cout << printLinForms(a) << "\n"; destroyLinForms(a);
  } else if (op == "decompose") {
    monomialSum a; string s = rline(); loadMonomials(a, s);
    linFormSum l; l.varCount = a.varCount; l.termCount = 0;
    BTrieIterator<RationalNTL, int> i; i.setTrie(a.myMonomials, a.varCount);
    decompose(&i, l);
    cout << printLinForms(l) << "\n";
  } else if (op == "products") {
    linFormProductSum p; string s = rline(); loadLinFormProducts(p, s);
    for (size_t i = 0; i < p.myFormProducts.size(); i++) cout << printLinForms(p[i]) << "\n";
  }
}

static void pq(const mpq_vector &v) { for (size_t i = 0; i < v.size(); i++) cout << v[i] << " "; cout << "\n"; }

static void todd() {
  string op; cin >> op;
  long n = rl();
  if (op == "exp") pq(taylor_exponential(n));
  else if (op == "todd") pq(taylor_for_todd(n));
  else if (op == "recip") { mpq_vector v; for (long i = 0; i <= n; i++) v.push_back(rmq()); pq(taylor_reciprocal(v)); }
  else if (op == "prod") {
    long k = rl(); vector<mpq_vector> t;
    for (long j = 0; j < k; j++) { mpq_vector v; for (long i = 0; i <= n; i++) v.push_back(rmq()); t.push_back(v); }
    pq(taylor_product(t));
  } else if (op == "eval") {
    mpz_vector x; for (long i = 0; i < n; i++) { string s; cin >> s; x.push_back(mpz_class(s)); }
    pq(evaluate_todd(x));
  } else if (op == "pow") {
    mpq_class q = rmq(); string s; cin >> s; mpz_class z(s);
    cout << pow(q, (unsigned) n) << " " << pow(z, (unsigned) n) << "\n";
  } else if (op == "conv") {
    for (long i = 0; i < n; i++) { ZZ z = rz(); mpz_class m = convert_ZZ_to_mpz(z); cout << m << " " << convert_mpz_to_ZZ(m) << " " << convert_ZZ_to_mpq(z) << "\n"; }
  }
}

static void interpolate() {
  long deg = rl();
  PolynomialInterpolation p(deg);
  for (long i = 0; i <= deg; i++) { mpq_class x = rmq(), y = rmq(); p.addPoint(x, y); }
  vector<mpq_class> s = p.solve();
  pq(s);
  long k = rl();
  for (long i = 0; i < k; i++) cout << p.evaluatePoly(rmq(), s) << " ";
  cout << "\n";
}

static void periodic() {
  vector<PeriodicFunction> st;
  string op;
  while (cin >> op) {
    if (op == "num") { st.push_back(PeriodicFunction(rq(), true)); continue; }
    if (op == "mod") { st.push_back(PeriodicFunction(rq(), false)); continue; }
    if (op == "zero") { st.push_back(PeriodicFunction()); continue; }
    if (op == "const") { PeriodicFunction f; f.setToConstant((int) rl()); st.push_back(f); continue; }
    if (op == "constq") { PeriodicFunction f; f.setToConstant(rq()); st.push_back(f); continue; }
    if (op == "dup") { st.push_back(st.back()); continue; }
    if (op == "pow") { int e = rl(); st.back().pow(e); continue; }
    if (op == "div") { ZZ z = rz(); st.back().div(z); continue; }
    if (op == "scale") { RationalNTL q = rq(); st.back().times(q); continue; }
    if (op == "out") { cout << st.back() << "\n"; continue; }
    PeriodicFunction b = st.back(); st.pop_back();
    PeriodicFunction &a = st.back();
    if (op == "add") a.add(b);
    else if (op == "+=") a += b;
    else if (op == "sub") a.subtract(b);
    else if (op == "times") a.times(b);
    else if (op == "*=") a *= b;
    else exit(3);
  }
}

static void combos() {
  long n = rl();
  vector<int> u;
  for (long i = 0; i < n; i++) u.push_back(rl());
  IntCombEnum e(&u[0], n);
  e.decrementUpperBound();
  int *p;
  while ((p = e.getNext())) {
    for (long i = 0; i < n; i++) cout << p[i] << " ";
    cout << "\n";
  }
}

int main(int argc, char **argv) {
  string op = argc > 1 ? argv[1] : "";
  cout << "BEGIN\n";
  if (op == "decomp") decomp();
  else if (op == "dualize") dualize();
  else if (op == "piped") piped();
  else if (op == "smith") smith();
  else if (op == "rational") rational();
  else if (op == "ratvec") ratvec();
  else if (op == "trie") trie();
  else if (op == "todd") todd();
  else if (op == "interpolate") interpolate();
  else if (op == "periodic") periodic();
  else if (op == "combos") combos();
  else return 3;
  cout << "END" << endl;
  return 0;
}
