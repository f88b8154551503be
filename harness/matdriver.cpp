// Executes behaviours of the matrix classes
#include <qpOASES.hpp>
#include "forkloop.hpp"
#include <sstream>
#include <memory>
#include <map>
#include <set>
#include <cmath>
#if defined(__SANITIZE_ADDRESS__)
extern "C" size_t __sanitizer_get_current_allocated_bytes();
static size_t heap() { return __sanitizer_get_current_allocated_bytes(); }
#else
static size_t heap() { return 0; }
#endif
USING_NAMESPACE_QPOASES
static const char* RN[] = {
#define X(a) #a,
#include "retcodes.inc"
#undef X
};
static const int NR = sizeof(RN) / sizeof(RN[0]);
static std::string rn(int r) { return r >= 0 && r < NR ? RN[r] : "CODE" + std::to_string(r); }
struct Arr { std::ostringstream o; bool f = true; Arr() { o << "["; } template <class T> void add(const T& t) { if (!f) o << ","; f = false; o << t; } std::string end() { o << "]"; return o.str(); } };
static long enc(double v) { if (v != v) return 9999998; if (!(fabs(v) < 9e6) || v != floor(v)) return 9999999; return (long)v; }
static double dec(long v) { return v == 9999998 ? NAN : (double)v; }
// squares of 2-norms of integer data are integers
static long encSq(double v, long type) { if (type == 1) return enc(v); double s = v * v, r = floor(s + 0.5); return v >= 0 && fabs(s - r) <= 1e-9 * (1 + r) ? enc(r) : 9999999; }
typedef std::vector<double> V;
static std::string vecS(const double* v, size_t n) { Arr a; for (size_t i = 0; i < n; ++i) a.add(enc(v[i])); return a.end(); }
static V vecOf(const JV& a) { V v; for (auto& e : a.a) v.push_back(dec(e.i)); return v; }
// exact-size heap blocks, so that the sanitizer sees every access beyond them
static double* blk(const V& v) { double* p = new double[v.size()]; for (size_t i = 0; i < v.size(); ++i) p[i] = v[i]; return p; }
struct Slot { std::string cls; int nr = 0, nc = 0; Matrix* m = 0; SymmetricMatrix* sm = 0; DenseMatrix* d = 0; SparseMatrix* c = 0; SparseMatrixRow* r = 0;
  std::set<std::pair<int, int>> st; double* val = 0; sparse_int_t *i1 = 0, *i2 = 0; bool own = false;
  void clear() { delete m; m = 0; sm = 0; d = 0; c = 0; r = 0; delete[] val; delete[] i1; delete[] i2; val = 0; i1 = i2 = 0; st.clear(); }
  void bind(Matrix* x) { m = x; sm = dynamic_cast<SymmetricMatrix*>(x); d = dynamic_cast<DenseMatrix*>(x); c = dynamic_cast<SparseMatrix*>(x); r = dynamic_cast<SparseMatrixRow*>(x); }
  std::string kind() { return dynamic_cast<SymDenseMat*>(m) ? "SD" : dynamic_cast<SymSparseMat*>(m) ? "SC" : d ? "D" : c ? "C" : r ? "R" : "?"; } };
static std::map<int, Slot> sl;
static Indexlist* listOf(const JV& a, int n) { Indexlist* l = new Indexlist(n); for (auto& e : a.a) l->addNumber(e.i); return l; }
static std::string doStep(const JV& s) {
  std::string op = s["op"].s; int k = s["slot"].i, t = k; int ret = 0; long leak = 0; std::ostringstream ex;
  if (op == "new") {
    Slot& x = sl[k]; x.clear(); x.cls = s["cls"].s; x.nr = s["nr"].i; x.nc = s["nc"].i; int pad = s["pad"].i, ld = x.nc + pad; bool own = s["own"].b, arr = s["src"].s == "arr"; const JV& M = s["M"];
    for (int i = 0; i < x.nr; ++i) for (int j = 0; j < x.nc; ++j) if (M[i][j].i != 0 || (!arr && i == j)) x.st.insert({i, j});
    for (auto& z : s["z"].a) x.st.insert({(int)z[0].i, (int)z[1].i});
    bool dense = x.cls == "D" || x.cls == "SD";
    if (dense || !arr) {
      V v((x.nr - 1) * ld + x.nc + (pad ? 0 : 0), NAN); for (int i = 0; i < x.nr; ++i) for (int j = 0; j < x.nc; ++j) v[i * ld + j] = (double)M[i][j].i;
      double* p = blk(v);
      if (dense) { x.bind(x.cls == "D" ? (Matrix*)new DenseMatrix(x.nr, x.nc, ld, p) : (Matrix*)(DenseMatrix*)new SymDenseMat(x.nr, x.nc, ld, p)); if (own) x.m->doFreeMemory(); else x.val = p; }
      else { x.bind(x.cls == "C" ? (Matrix*)new SparseMatrix(x.nr, x.nc, ld, p) : x.cls == "SC" ? (Matrix*)(SparseMatrix*)new SymSparseMat(x.nr, x.nc, ld, p) : (Matrix*)new SparseMatrixRow(x.nr, x.nc, ld, p)); delete[] p; } }
    else {
      bool row = x.cls == "R"; int no = row ? x.nr : x.nc, ni = row ? x.nc : x.nr; std::vector<int> ptr(1, 0), idx; V v;
      for (int o = 0; o < no; ++o) { for (int i = 0; i < ni; ++i) { int a = row ? o : i, b = row ? i : o; if (x.st.count({a, b})) { idx.push_back(i); v.push_back((double)M[a][b].i); } } ptr.push_back(idx.size()); }
      sparse_int_t* pp = new sparse_int_t[ptr.size()]; for (size_t i = 0; i < ptr.size(); ++i) pp[i] = ptr[i]; sparse_int_t* ii = new sparse_int_t[idx.size()]; for (size_t i = 0; i < idx.size(); ++i) ii[i] = idx[i]; double* vv = blk(v);
      if (x.cls == "C") x.bind(new SparseMatrix(x.nr, x.nc, ii, pp, vv)); else if (x.cls == "SC") x.bind((SparseMatrix*)new SymSparseMat(x.nr, x.nc, ii, pp, vv)); else x.bind(new SparseMatrixRow(x.nr, x.nc, pp, ii, vv));
      if (own) x.m->doFreeMemory(); else { x.i1 = pp; x.i2 = ii; x.val = vv; } } }
  else if (op == "dup") { t = s["to"].i; Slot& x = sl[k]; Matrix* n = s["sym"].b ? dynamic_cast<Matrix*>(x.sm->duplicateSym()) : x.m->duplicate(); Slot y; y.cls = x.cls; y.nr = x.nr; y.nc = x.nc; y.st = x.st; y.bind(n); sl[t].clear(); sl[t] = y; }
  else {
    Slot& x = sl[k]; Matrix* m = x.m; std::unique_ptr<Indexlist> R, C; if (s.has("rows") && !(s.has("nullrows") && s["nullrows"].b)) R.reset(listOf(s["rows"], x.nr)); if (s.has("cols") && !(s.has("nullcols") && s["nullcols"].b)) C.reset(listOf(s["cols"], x.nc));
    double al = s.has("alpha") ? (double)s["alpha"].i : 0, be = s.has("beta") ? (double)s["beta"].i : 0; int xN = s.I("xN", 0), xLD = s.I("xLD", 0), yLD = s.I("yLD", 0); std::unique_ptr<double[]> X, Y; size_t ny = 0;
    if (s.has("x")) { X.reset(blk(vecOf(s["x"]))); V y = vecOf(s["y"]); ny = y.size(); Y.reset(blk(y)); }
    if (op == "full" || op == "print") { if (op == "print") ret = m->print("name"); }
    else if (op == "diag") ex << ",\"v\":" << enc(m->diag(s["i"].i));
    else if (op == "isdiag") ex << ",\"b\":" << (m->isDiag() == BT_TRUE ? "true" : "false");
    else if (op == "norm") ex << ",\"v\":" << encSq(m->getNorm(s["type"].i), s["type"].i);
    else if (op == "rownorm") ex << ",\"v\":" << encSq(m->getRowNorm(s["i"].i, s["type"].i), s["type"].i);
    else if (op == "rownorms") { std::unique_ptr<double[]> n(new double[x.nr]); ret = m->getRowNorm(n.get(), s["type"].i); Arr a; for (int i = 0; i < x.nr; ++i) a.add(encSq(n[i], s["type"].i)); ex << ",\"y\":" << a.end(); }
    else if (op == "getrow") { int n = C ? C->getLength() : x.nc; std::unique_ptr<double[]> v(new double[n]); ret = m->getRow(s["i"].i, C.get(), al, v.get()); ex << ",\"y\":" << vecS(v.get(), n); }
    else if (op == "getcol") { int n = R ? R->getLength() : x.nr; std::unique_ptr<double[]> v(new double[n]); ret = m->getCol(s["i"].i, R.get(), al, v.get()); ex << ",\"y\":" << vecS(v.get(), n); }
    else if (op == "sub") {
      std::string how = s["how"].s; BooleanType low = s["low"].b ? BT_TRUE : BT_FALSE; int ro = s["ro"].i, co = s["co"].i; std::unique_ptr<int_t[]> ra(new int_t[s["rows"].size()]), ca(new int_t[s["cols"].size()]); for (size_t i = 0; i < s["rows"].size(); ++i) ra[i] = s["rows"][i].i; for (size_t i = 0; i < s["cols"].size(); ++i) ca[i] = s["cols"][i].i;
      auto call = [&](int_t& n, int_t* ir, int_t* jc, double* av) { return how == "lists" ? m->getSparseSubmatrix(R.get(), C.get(), ro, co, n, ir, jc, av, low) : how == "col" ? m->getSparseSubmatrix(R.get(), ca[0], ro, co, n, ir, jc, av, low) : how == "row" ? m->getSparseSubmatrix(ra[0], C.get(), ro, co, n, ir, jc, av, low) : m->getSparseSubmatrix((int_t)s["rows"].size(), ra.get(), (int_t)s["cols"].size(), ca.get(), ro, co, n, ir, jc, av, low); };
      int_t n = 0; size_t h = heap(); ret = call(n, 0, 0, 0); leak = (long)(heap() - h); ex << ",\"cnt\":" << n; Arr a; if (ret == 0) { std::unique_ptr<int_t[]> ir(new int_t[n]), jc(new int_t[n]); std::unique_ptr<double[]> av(new double[n]); int_t n2 = n; h = heap(); ret = call(n2, ir.get(), jc.get(), av.get()); leak += (long)(heap() - h); for (int i = 0; i < n2; ++i) { Arr q; q.add(ir[i]); q.add(jc[i]); q.add(enc(av[i])); a.add(q.end()); } n = n2; } ex << ",\"n\":" << n << ",\"tri\":" << a.end(); }
    else if (op == "badsub") { std::unique_ptr<int_t[]> jc(new int_t[x.nr * x.nc]); int_t z = 0, n = 0; size_t h = heap(); ret = m->getSparseSubmatrix(1, &z, 1, &z, 0, 0, n, (int_t*)0, jc.get(), (double*)0, s["low"].b ? BT_TRUE : BT_FALSE); leak = (long)(heap() - h); }
    else if (op == "times") { size_t h = heap(); ret = m->times(xN, al, X.get(), xLD, be, Y.get(), yLD); leak = (long)(heap() - h); }
    else if (op == "trans") { size_t h = heap(); ret = m->transTimes(xN, al, X.get(), xLD, be, Y.get(), yLD); leak = (long)(heap() - h); }
    else if (op == "rtimes") { size_t h = heap(); ret = m->times(R.get(), C.get(), xN, al, X.get(), xLD, be, Y.get(), yLD, s["compr"].b ? BT_TRUE : BT_FALSE); leak = (long)(heap() - h); }
    else if (op == "rtrans") { size_t h = heap(); ret = m->transTimes(R.get(), C.get(), xN, al, X.get(), xLD, be, Y.get(), yLD); leak = (long)(heap() - h); }
    else if (op == "bilin") { size_t h = heap(); ret = x.sm->bilinear(C.get(), xN, X.get(), xLD, Y.get(), yLD); leak = (long)(heap() - h); }
    else if (op == "diaginfo") { if (x.c) x.c->createDiagInfo(); if (x.r) x.r->createDiagInfo(); }
    else if (op == "add") ret = m->addToDiag(al);
    else if (op == "setval") { V v; for (int j = 0; j < x.nc; ++j) for (int i = 0; i < x.nr; ++i) if (x.st.count({i, j})) v.push_back((double)s["M"][i][j].i); std::unique_ptr<double[]> p(blk(v)); x.c->setVal(p.get()); }
    else throw std::runtime_error("op " + op);
    if (ny) ex << ",\"y\":" << vecS(Y.get(), ny); }
  Slot& x = sl[t]; double* f = x.m->full(); Arr rows; for (int i = 0; i < x.nr; ++i) rows.add(vecS(f + i * x.nc, x.nc)); delete[] f;
  return "\"ret\":\"" + rn(ret) + "\",\"cls\":\"" + x.kind() + "\",\"leak\":" + std::to_string(leak) + ",\"m\":" + rows.end() + ex.str(); }
int main(int argc, char** argv) { getGlobalMessageHandler()->setErrorVisibilityStatus(VS_HIDDEN); return forkLoop(argc, argv, doStep, [] { for (auto& p : sl) p.second.clear(); }); }
