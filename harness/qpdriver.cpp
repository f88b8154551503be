// Replays behaviours of QPGen.tla (one JSON line each) into the real library and records, after every call,
// everything observable through the public API.  Usage: qpdriver IN.ndjson OUT.ndjson SCRATCHDIR
#include "mjson.hpp"
#include "densesolver.hpp"
#include "leak.hpp"
#include "cshim.hpp"
#include <qpOASES.hpp>
#include <qpOASES/extras/OQPinterface.hpp>
#include <cmath>
#include <cstring>
#include <fstream>
#include <iostream>
#include <memory>
#include <sstream>
#include <set>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <signal.h>
#include <fcntl.h>
#include <time.h>
USING_NAMESPACE_QPOASES
static const char* retName(int r) {
  switch (r) {
#define X(n) case n: return #n;
#include "retcodes.inc"
#undef X
    default: return "UNKNOWN_CODE"; } }
static std::string scratch;
static const long INFC = 1000000;
static double dec(long v, int infk) { if (v >= INFC) return infk == 0 ? INFTY : (infk == 1 ? 1e21 : INFINITY); if (v <= -INFC) return infk == 0 ? -INFTY : (infk == 1 ? -1e21 : -INFINITY); return (double)v; }
static volatile double sink;

struct MatBuf { // a matrix as the caller holds it: raw arrays (with pristine copies) and a Matrix object
  std::vector<double> v, v0; std::vector<sparse_int_t> r, c, r0, c0; std::unique_ptr<Matrix> m; SymmetricMatrix* sym = 0; int nr = 0, nc = 0;
  bool modified() const { return v.size() != v0.size() || (v.size() && memcmp(v.data(), v0.data(), v.size() * sizeof(double))) || r != r0 || c != c0; }
  void seal() { v0 = v; r0 = r; c0 = c; } };
struct UserCP : public ConstraintProduct { std::vector<std::vector<double>> A; mutable long calls = 0;
  int_t operator()(int_t i, const real_t* const x, real_t* const out) const override { double s = 0; for (size_t j = 0; j < A[i].size(); ++j) s += A[i][j] * x[j]; *out = s; ++calls; return 0; } };
struct Hack : public QProblemB { static real_t* QProblemB::* px() { return &Hack::x; } static real_t* QProblemB::* py() { return &Hack::y; } };
struct Obj { std::string cls; int n = 0, m = 0; std::unique_ptr<QProblemB> p; };
static std::map<int, Obj> objs;
static std::vector<std::unique_ptr<MatBuf>> pool;
static std::vector<std::unique_ptr<UserCP>> cps;
static bool modflag = false, leaked = false;
static std::vector<long> nwsrLog; // per step: reported number of working set changes (-1: none)
static std::vector<std::pair<double*, std::vector<double>>> vecs; // user vectors of the current call

static std::unique_ptr<MatBuf> mkMat(const JV& a, int nr, int nc, const std::string& kind, bool sym) {
  auto b = std::make_unique<MatBuf>(); b->nr = nr; b->nc = nc;
  auto at = [&](int i, int j) { return (double)a[i][j].i; };
  if (kind == "dense" || kind == "arr") {
    b->v.resize((size_t)nr * nc); for (int i = 0; i < nr; ++i) for (int j = 0; j < nc; ++j) b->v[i * nc + j] = at(i, j);
    if (kind == "dense") { if (sym) { auto s = new SymDenseMat(nr, nc, nc, b->v.data()); b->sym = s; b->m.reset(s); } else b->m.reset(new DenseMatrix(nr, nc, nc, b->v.data())); }
  } else if (kind == "sparse" || kind == "sparsez") { // column-wise; "sparsez": with explicit zeros on the diagonal
    b->c.push_back(0); for (int j = 0; j < nc; ++j) { for (int i = 0; i < nr; ++i) if (at(i, j) != 0 || (kind == "sparsez" && i == j)) { b->r.push_back(i); b->v.push_back(at(i, j)); } b->c.push_back((sparse_int_t)b->r.size()); }
    if (b->r.empty()) { b->r.reserve(1); b->v.reserve(1); }
    if (sym) { auto s = new SymSparseMat(nr, nc, b->r.data(), b->c.data(), b->v.data()); s->createDiagInfo(); b->sym = s; b->m.reset(s); }
    else b->m.reset(new SparseMatrix(nr, nc, b->r.data(), b->c.data(), b->v.data()));
  } else if (kind == "row") {
    b->r.push_back(0); for (int i = 0; i < nr; ++i) { for (int j = 0; j < nc; ++j) if (at(i, j) != 0) { b->c.push_back(j); b->v.push_back(at(i, j)); } b->r.push_back((sparse_int_t)b->c.size()); }
    if (b->c.empty()) { b->c.reserve(1); b->v.reserve(1); }
    b->m.reset(new SparseMatrixRow(nr, nc, b->r.data(), b->c.data(), b->v.data()));
  } else throw std::runtime_error("matrix kind " + kind);
  b->seal(); return b; }
static double* mkVec(const JV& q, const char* key, const JV& nul, int len, int infk) {
  if (nul.has(key) && nul[key].b) return 0;
  const JV& a = q[key]; double* p = new double[len]; for (int i = 0; i < len; ++i) p[i] = dec(a[i].i, infk);
  vecs.emplace_back(p, std::vector<double>(p, p + len)); return p; }
static double* mkVecA(const JV& a, int len, double scale = 1) { double* p = new double[len]; for (int i = 0; i < len; ++i) p[i] = (double)a[i].i * scale; vecs.emplace_back(p, std::vector<double>(p, p + len)); return p; }
static void dropVecs() { for (auto& v : vecs) { if (v.second.size() && memcmp(v.first, v.second.data(), v.second.size() * sizeof(double))) modflag = true; for (size_t i = 0; i < v.second.size(); ++i) v.first[i] = 7.7e77; delete[] v.first; } vecs.clear(); }
static void checkPool() { for (auto& b : pool) if (b && b->modified()) modflag = true; }
static std::string wrFile(const char* name, const double* p, int nr, int nc) {
  std::string f = scratch + "/" + name; FILE* o = fopen(f.c_str(), "w"); for (int i = 0; i < nr; ++i) { for (int j = 0; j < nc; ++j) fprintf(o, "%.17g ", p[i * nc + j]); fprintf(o, "\n"); } fclose(o); return f; }
static std::string slurp(const std::string& f) { std::ifstream i(f); std::stringstream s; s << i.rdbuf(); return s.str(); }

static void setOpts(Options& o, const JV& s) {
  std::string ps = s.S("preset", "default"); if (ps == "default") o.setToDefault(); else if (ps == "reliable") o.setToReliable(); else if (ps == "mpc") o.setToMPC(); else if (ps == "fast") o.setToFast();
  o.printLevel = getenv("QPD_PL") ? (PrintLevel)atoi(getenv("QPD_PL")) : PL_NONE;
  if (s.has("set") && s["set"].t == JV::OBJ) for (auto& kv : s["set"].o) { const std::string& k = kv.first; long v = kv.second.t == JV::BOOL ? kv.second.b : kv.second.i; BooleanType b = v ? BT_TRUE : BT_FALSE;
    if (k == "ramp") o.enableRamping = b; else if (k == "far") o.enableFarBounds = b; else if (k == "flip") o.enableFlippingBounds = b; else if (k == "reg") o.enableRegularisation = b;
    else if (k == "fullLI") o.enableFullLITests = b; else if (k == "nzc") o.enableNZCTests = b; else if (k == "drift") o.enableDriftCorrection = v; else if (k == "chol") o.enableCholeskyRefactorisation = v;
    else if (k == "eq") o.enableEqualities = b; else if (k == "isb") o.initialStatusBounds = (SubjectToStatus)v; else if (k == "regsteps") o.numRegularisationSteps = v; else if (k == "refine") o.numRefinementSteps = v;
    else if (k == "drop") o.enableDropInfeasibles = b; else if (k == "inertia") o.enableInertiaCorrection = b; else if (k == "print") o.printLevel = (PrintLevel)v;
    else if (k == "farexp") o.initialFarBounds = pow(10.0, (double)v); else throw std::runtime_error("option " + k); } }
static const char* stName(int s) { const char* n[] = {"NOTINIT", "PREPAUX", "AUXSOLVED", "HOMOTOPY", "HOMSOLVED", "SOLVED"}; return s >= 0 && s < 6 ? n[s] : "BAD"; }
static const char* htName(int s) { const char* n[] = {"ZERO", "IDENTITY", "POSDEF", "POSDEFNS", "SEMIDEF", "INDEF", "UNKNOWN"}; return s >= 0 && s < 7 ? n[s] : "BAD"; }
static HessianType htOf(const std::string& s) { if (s == "ZERO") return HST_ZERO; if (s == "IDENTITY") return HST_IDENTITY; if (s == "POSDEF") return HST_POSDEF; if (s == "SEMIDEF") return HST_SEMIDEF; if (s == "INDEF") return HST_INDEF; return HST_UNKNOWN; }
// value = hi + lo*1e-6 ; out of range or non-finite: hi = 9999999
static void split(double x, long& hi, long& lo) { if (!(std::fabs(x) < 900000.0)) { hi = std::isnan(x) ? 9999998 : (x > 0 ? 9999999 : -9999999); lo = 0; return; } double h = std::floor(x + 0.5); hi = (long)h; lo = (long)std::floor((x - h) * 1e6 + 0.5); }
static void putVec(std::ostream& o, const char* k, const double* x, int n) { std::ostringstream h, l; for (int i = 0; i < n; ++i) { long a, b; split(x[i], a, b); h << (i ? "," : "") << a; l << (i ? "," : "") << b; } o << ",\"" << k << "h\":[" << h.str() << "],\"" << k << "l\":[" << l.str() << "]"; }
static void putNum(std::ostream& o, const char* k, double x) { long a, b; split(x, a, b); o << ",\"" << k << "h\":" << a << ",\"" << k << "l\":" << b; }
static int wsv(double w) { return w == -1.0 ? -1 : w == 0.0 ? 0 : w == 1.0 ? 1 : 9; }

static void observe(std::ostream& o, Obj& ob, int got, int gotN) {
  QProblemB* p = ob.p.get(); int n = ob.n, m = ob.m; QProblem* q = ob.cls == "B" ? 0 : (QProblem*)p;
  o << ",\"st\":\"" << stName(p->getStatus()) << "\",\"ini\":" << (p->isInitialised() ? "true" : "false") << ",\"sol\":" << (p->isSolved() ? "true" : "false") << ",\"inf\":" << (p->isInfeasible() ? "true" : "false") << ",\"unb\":" << (p->isUnbounded() ? "true" : "false") << ",\"ht\":\"" << htName(p->getHessianType()) << "\"";
  double* x = new double[n]; for (int i = 0; i < n; ++i) x[i] = 5.5e55; int r = p->getPrimalSolution(x); bool untouched = true; for (int i = 0; i < n; ++i) if (x[i] != 5.5e55) untouched = false;
  o << ",\"xr\":\"" << retName(r) << "\",\"xu\":" << (untouched ? "true" : "false"); if (r == 0) putVec(o, "x", x, n);
  double* y = new double[n + m]; for (int i = 0; i < n + m; ++i) y[i] = 5.5e55; int ry = p->getDualSolution(y); o << ",\"yr\":\"" << retName(ry) << "\"";
  if (ry == 0) putVec(o, "y", y, n + m);
  double obj = p->getObjVal(); o << ",\"objinf\":" << (obj >= INFTY ? "true" : "false"); putNum(o, "obj", obj);
  if (r == 0) { double o2 = p->getObjVal(x); putNum(o, "objx", o2); }
  delete[] x; delete[] y;
  o << ",\"cnt\":" << (long)p->getCount() << ",\"nfr\":" << (long)p->getNFR() << ",\"nfx\":" << (long)p->getNFX() << ",\"nfv\":" << (long)p->getNFV() << ",\"nz\":" << (long)p->getNZ() << ",\"nv\":" << (long)p->getNV();
  if (q) o << ",\"nc\":" << (long)q->getNC() << ",\"nac\":" << (long)q->getNAC() << ",\"niac\":" << (long)q->getNIAC() << ",\"nec\":" << (long)q->getNEC();
  else o << ",\"nc\":0,\"nac\":0,\"niac\":0,\"nec\":0";
  // working sets: three views
  std::vector<double> w(n + m + 1, 9.0), wb(n + 1, 9.0), wc(m + 1, 9.0);
  double* wp = new double[n + m]; int r1 = p->getWorkingSet(wp); for (int i = 0; i < n + m; ++i) w[i] = wp[i]; delete[] wp;
  wp = new double[n]; int r2 = p->getWorkingSetBounds(wp); for (int i = 0; i < n; ++i) wb[i] = wp[i]; delete[] wp;
  int r3 = 0; wp = new double[m]; for (int i = 0; i < m; ++i) wp[i] = 9; if (q) { r3 = p->getWorkingSetConstraints(wp); for (int i = 0; i < m; ++i) wc[i] = wp[i]; } delete[] wp;
  o << ",\"wr\":" << ((r1 || r2 || r3) ? "false" : "true") << ",\"w\":["; for (int i = 0; i < n + m; ++i) o << (i ? "," : "") << wsv(w[i]);
  o << "],\"wb\":["; for (int i = 0; i < n; ++i) o << (i ? "," : "") << wsv(wb[i]); o << "],\"wc\":["; for (int i = 0; i < m; ++i) o << (i ? "," : "") << wsv(wc[i]); o << "]";
  // bounds / constraints objects
  { Bounds b; p->getBounds(b); o << ",\"bs\":["; for (int i = 0; i < n; ++i) { o << (i ? "," : "") << (p->getStatus() == QPS_NOTINITIALISED ? 0 : (int)b.getStatus(i)); } o << "],\"bt\":["; for (int i = 0; i < n; ++i) o << (i ? "," : "") << (p->getStatus() == QPS_NOTINITIALISED ? 4 : (int)b.getType(i)); o << "]"; 
    int_t *fr, *fx; b.getFree()->getNumberArray(&fr); b.getFixed()->getNumberArray(&fx); o << ",\"fr\":["; for (int i = 0; i < b.getNFR(); ++i) o << (i ? "," : "") << (long)fr[i] + 1; o << "],\"fx\":["; for (int i = 0; i < b.getNFX(); ++i) o << (i ? "," : "") << (long)fx[i] + 1; o << "]"; }
  if (q) { Constraints c; q->getConstraints(c); o << ",\"cs\":["; for (int i = 0; i < m; ++i) o << (i ? "," : "") << (p->getStatus() == QPS_NOTINITIALISED ? 0 : (int)c.getStatus(i)); o << "],\"ct\":["; for (int i = 0; i < m; ++i) o << (i ? "," : "") << (p->getStatus() == QPS_NOTINITIALISED ? 4 : (int)c.getType(i)); o << "]";
    int_t *ac, *ia; c.getActive()->getNumberArray(&ac); c.getInactive()->getNumberArray(&ia); o << ",\"ac\":["; for (int i = 0; i < c.getNAC(); ++i) o << (i ? "," : "") << (long)ac[i] + 1; o << "],\"ia\":["; for (int i = 0; i < c.getNIAC(); ++i) o << (i ? "," : "") << (long)ia[i] + 1; o << "]"; }
  else o << ",\"cs\":[],\"ct\":[],\"ac\":[],\"ia\":[]";
  (void)got; (void)gotN;
}

static std::string solveCall(Obj& ob, const JV& s, bool isInit) {
  const JV& q = s["qp"]; int n = (int)q["n"].i, m = ob.cls == "B" ? 0 : (int)q["m"].i; int infk = (int)s.I("infk", 0); static JV none; none.t = JV::OBJ;
  const JV& nul = s.has("nul") ? s["nul"] : none; std::string via = s.S("via", "arr");
  bool B = ob.cls == "B";
  double *g = mkVec(q, "g", nul, n, infk), *lb = mkVec(q, "lb", nul, n, infk), *ub = mkVec(q, "ub", nul, n, infk), *lA = 0, *uA = 0;
  if (!B && m > 0) { lA = mkVec(q, "lbA", nul, m, infk); uA = mkVec(q, "ubA", nul, m, infk); }
  int_t nWSR = s.I("budget", 1000); if (s.has("bref")) { long back = s["bref"][0].i, i = (long)nwsrLog.size() - 1 - back; nWSR = (i >= 0 && i < (long)nwsrLog.size() && nwsrLog[i] >= 0 ? nwsrLog[i] : 1000) + s["bref"][1].i; }
  long budget0 = nWSR; double cpu = 0; double* pcpu = 0; if (s.has("cpu")) { cpu = s["cpu"].i * 1e-6; pcpu = &cpu; }
  double *gx = 0, *gy = 0, *R = 0; std::unique_ptr<Bounds> gb, gb0; std::unique_ptr<Constraints> gc; std::vector<int> gbs, gcs;
  if (s.has("gx")) gx = mkVecA(s["gx"], n); if (s.has("gy")) gy = mkVecA(s["gy"], n + m);
  if (s.has("gb")) { int n = (int)s["gb"].size(); gb = std::make_unique<Bounds>(n); for (int i = 0; i < n; ++i) { gbs.push_back((int)s["gb"][i].i); gb->setupBound(i, (SubjectToStatus)s["gb"][i].i); } }
  if (s.has("gc") && !B) { int m = (int)s["gc"].size(); gc = std::make_unique<Constraints>(m); for (int i = 0; i < m; ++i) { gcs.push_back((int)s["gc"][i].i); gc->setupConstraint(i, (SubjectToStatus)s["gc"][i].i); } }
  if (s.has("R")) { R = new double[n * n]; for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) R[i * n + j] = (double)s["R"][i][j].i; vecs.emplace_back(R, std::vector<double>(R, R + n * n)); }
  MatBuf *H = 0, *A = 0; std::string hk = s.S("hk", "dense"), ak = s.S("ak", "dense");
  bool needM = isInit || via == "mats" || via == "matarr" || via == "matfile";
  bool arr = via == "arr" || via == "file" || via == "matarr" || via == "matfile";
  if (needM && hk != "null") { auto b = mkMat(q["H"], n, n, arr ? "arr" : hk, true); H = b.get(); pool.push_back(std::move(b)); }
  if (needM && !B && m > 0 && ak != "null") { auto b = mkMat(q["A"], m, n, arr ? "arr" : ak, false); A = b.get(); pool.push_back(std::move(b)); }
  int sl = (int)s.I("slot", 1); int ret = -99; QProblemB* pb = ob.p.get(); QProblem* qp = B ? 0 : (QProblem*)pb; SQProblem* sq = (ob.cls == "S" || ob.cls == "X") ? (SQProblem*)pb : 0;
  std::map<std::string, std::string> files; auto wf = [&](const char* nm, double* p, int a, int b) -> const char* { if (!p) return 0; std::string f = wrFile(nm, p, a, b); files[f] = slurp(f); return (new std::string(f))->c_str(); };
  std::string badfile = s.S("badfile", ""); 
  auto fname = [&](const char* nm, double* p, int a, int b) -> const char* { const char* f = wf(nm, p, a, b); if (f && badfile == nm) { std::string fs(f); if (s.S("badkind", "missing") == "missing") { unlink(f); files.erase(fs); } else if (s.S("badkind", "") == "short") { { std::ofstream o(fs); if (a * b > 1) o << "1.0 "; } files[fs] = slurp(fs); } else if (s.S("badkind", "") == "text") { { std::ofstream o(fs); o << (a * b > 1 ? "1.0 abc def" : "abc def"); } files[fs] = slurp(fs); } } return f; };
  double *Hp = H && arr ? H->v.data() : 0, *Ap = A && arr ? A->v.data() : 0;
  if (via == "file" || via == "matfile") {
    const char *fH = needM ? fname("H", Hp, n, n) : 0, *fg = fname("g", g, 1, n), *fA = needM ? fname("A", Ap, m, n) : 0, *fl = fname("lb", lb, 1, n), *fu = fname("ub", ub, 1, n), *fla = fname("lbA", lA, 1, m), *fua = fname("ubA", uA, 1, m), *fR = fname("R", R, n, n);
    leak::Tag tag(sl);
    if (isInit) ret = B ? pb->init(fH, fg, fl, fu, nWSR, pcpu, gx, gy, gb.get(), fR) : qp->init(fH, fg, fA, fl, fu, fla, fua, nWSR, pcpu, gx, gy, gb.get(), gc.get(), fR);
    else if (via == "matfile") ret = sq->hotstart(fH, fg, fA, fl, fu, fla, fua, nWSR, pcpu, gb.get(), gc.get());
    else ret = B ? pb->hotstart(fg, fl, fu, nWSR, pcpu, gb.get()) : sq ? sq->hotstart(fg, fl, fu, fla, fua, nWSR, pcpu, gb.get(), gc.get()) : qp->hotstart(fg, fl, fu, fla, fua, nWSR, pcpu, gb.get(), gc.get());
    leak::cur = 0; for (auto& f : files) if (slurp(f.first) != f.second) modflag = true;
  } else if (isInit) { leak::Tag tag(sl);
    if (via == "arr") ret = B ? pb->init(Hp, g, lb, ub, nWSR, pcpu, gx, gy, gb.get(), R) : qp->init(Hp, g, Ap, lb, ub, lA, uA, nWSR, pcpu, gx, gy, gb.get(), gc.get(), R);
    else { SymmetricMatrix* Hm = H ? H->sym : 0; Matrix* Am = A ? A->m.get() : 0;
      ret = B ? pb->init(Hm, g, lb, ub, nWSR, pcpu, gx, gy, gb.get(), R) : qp->init(Hm, g, Am, lb, ub, lA, uA, nWSR, pcpu, gx, gy, gb.get(), gc.get(), R); }
  } else if (leak::cur = sl, via == "mats") ret = sq->hotstart(H ? H->sym : 0, g, A ? A->m.get() : 0, lb, ub, lA, uA, nWSR, pcpu, gb.get(), gc.get());
  else if (via == "matarr") ret = sq->hotstart(Hp, g, Ap, lb, ub, lA, uA, nWSR, pcpu, gb.get(), gc.get());
  else ret = B ? pb->hotstart(g, lb, ub, nWSR, pcpu, gb.get()) : sq ? sq->hotstart(g, lb, ub, lA, uA, nWSR, pcpu, gb.get(), gc.get()) : qp->hotstart(g, lb, ub, lA, uA, nWSR, pcpu, gb.get(), gc.get());
  leak::cur = 0;
  if (gb) for (int i = 0; i < (int)gbs.size(); ++i) if ((int)gb->getStatus(i) != gbs[i]) modflag = true;
  if (gc) for (int i = 0; i < (int)gcs.size(); ++i) if ((int)gc->getStatus(i) != gcs[i]) modflag = true;
  dropVecs();
  std::ostringstream o; if (!nwsrLog.empty()) nwsrLog.back() = (long)nWSR; o << "\"ret\":\"" << retName(ret) << "\",\"nwsr\":" << (long)nWSR << ",\"bud\":" << budget0; if (pcpu) o << ",\"cpu\":" << (cpu >= 0 && cpu < 1e3 ? (long)(cpu * 1e6) : -1);
  return o.str(); }

// ---- the C interface (through a shim compiled as C)
struct COpt { void* p = shim_opt(); ~COpt() { free(p); } };
static const std::map<std::string, std::string> CNAMES = {{"ramp", "enableRamping"}, {"far", "enableFarBounds"}, {"flip", "enableFlippingBounds"}, {"reg", "enableRegularisation"}, {"fullLI", "enableFullLITests"}, {"nzc", "enableNZCTests"}, {"drift", "enableDriftCorrection"}, {"chol", "enableCholeskyRefactorisation"}, {"eq", "enableEqualities"}, {"isb", "initialStatusBounds"}, {"regsteps", "numRegularisationSteps"}, {"refine", "numRefinementSteps"}, {"print", "printLevel"}, {"inertia", "enableInertiaCorrection"}};
static void setCOpts(COpt& o, const JV& s) { std::string ps = s.S("preset", "default"); if (shim_opt_init(o.p, ps == "default" ? 0 : ps == "reliable" ? 1 : 2) != 0) throw std::runtime_error("c options"); shim_opt_set(o.p, "printLevel", 0);
  if (s.has("set") && s["set"].t == JV::OBJ) for (auto& kv : s["set"].o) { long v = kv.second.t == JV::BOOL ? kv.second.b : kv.second.i; if (!CNAMES.count(kv.first) || !shim_opt_set(o.p, CNAMES.at(kv.first).c_str(), (double)v)) throw std::runtime_error("c option " + kv.first); } }
struct COut { std::vector<double> x, y; double obj = 5.5e55; long st = 77, ret = -99, nw = 0; COut(int n, int m) : x(n, 5.5e55), y(n + m, 5.5e55) {} };
static void putCOut(std::ostream& o, const COut& c) { auto un = [](const std::vector<double>& v) { for (double d : v) if (d != 5.5e55) return false; return true; };
  o << "\"ret\":\"SUCCESSFUL_RETURN\",\"cret\":" << c.ret << ",\"cst\":" << c.st << ",\"nwsr\":" << c.nw << ",\"cxu\":" << (un(c.x) ? "true" : "false") << ",\"cyu\":" << (un(c.y) ? "true" : "false") << ",\"cou\":" << (c.obj == 5.5e55 ? "true" : "false"); putVec(o, "cx", c.x.data(), un(c.x) ? 0 : (int)c.x.size()); putVec(o, "cy", c.y.data(), un(c.y) ? 0 : (int)c.y.size()); o << ",\"cobjinf\":" << (c.obj >= INFTY ? "true" : "false"); putNum(o, "cobj", c.obj); }
static std::string cCall(const JV& s) {
  std::string w = s["what"].s; char cls = s["cls"].s[0]; std::ostringstream o; static JV none; none.t = JV::OBJ; leak::cur = 8;
  if (w == "setup" || w == "cleanup" || w == "optmode" || w == "optnull" || w == "copynull" || w == "copynull2" || w == "outnull" || w == "const" || !s.has("qp")) { COut c(1, 1); double one[1] = {1}; c.nw = 10;
    if (w == "setup") c.ret = shim_setup(cls, s["n"].i, s["m"].i, s["ht"].i); else if (w == "cleanup") c.ret = shim_cleanup(cls);
    else if (w == "optmode") { COpt t; c.ret = shim_opt_init(t.p, s["n"].i); } else if (w == "optnull") c.ret = shim_opt_init(0, 0); else if (w == "copynull") { Options t; c.ret = shim_opt_copy(0, &t); } else if (w == "copynull2") { COpt t; shim_opt_init(t.p, 0); c.ret = shim_opt_copy(t.p, 0); }
    else if (w == "outnull") c.ret = shim_out(c.x.data(), c.y.data(), &c.obj, &c.st);
    else if (w == "init") c.ret = shim_init(cls, one, one, one, one, one, one, one, &c.nw, 0, 0, c.x.data(), c.y.data(), &c.obj, &c.st); else if (w == "hot") c.ret = shim_hot(cls, one, one, one, one, one, one, one, &c.nw, 0, c.x.data(), c.y.data(), &c.obj, &c.st);
    else throw std::runtime_error("c call " + w);
    leak::cur = 0; putCOut(o, c); return o.str(); }
  const JV& q = s["qp"]; int n = (int)q["n"].i, m = cls == 'B' ? 0 : (int)q["m"].i, infk = (int)s.I("infk", 0); const JV& nul = s.has("nul") ? s["nul"] : none; leak::cur = 0;
  double *g = mkVec(q, "g", nul, n, infk), *lb = mkVec(q, "lb", nul, n, infk), *ub = mkVec(q, "ub", nul, n, infk), *lA = 0, *uA = 0; if (m > 0) { lA = mkVec(q, "lbA", nul, m, infk); uA = mkVec(q, "ubA", nul, m, infk); }
  double *H = 0, *A = 0; bool needM = w == "init" || cls == 'S'; if (needM && s.S("hk", "dense") != "null") { auto b = mkMat(q["H"], n, n, "arr", true); H = b->v.data(); pool.push_back(std::move(b)); } if (needM && m > 0 && s.S("ak", "dense") != "null") { auto b = mkMat(q["A"], m, n, "arr", false); A = b->v.data(); pool.push_back(std::move(b)); }
  COut c(n, m); c.nw = s.I("budget", 1000); double cpu = 0, *pcpu = 0; if (s.has("cpu")) { cpu = s["cpu"].i * 1e-6; pcpu = &cpu; }
  { COpt co; bool has = s.has("copts"); if (has) setCOpts(co, s["copts"]); leak::cur = 8;
    c.ret = w == "init" ? shim_init(cls, H, g, A, lb, ub, lA, uA, &c.nw, pcpu, has ? co.p : 0, c.x.data(), c.y.data(), &c.obj, &c.st) : shim_hot(cls, H, g, A, lb, ub, lA, uA, &c.nw, pcpu, c.x.data(), c.y.data(), &c.obj, &c.st); leak::cur = 0; }
  dropVecs(); putCOut(o, c); return o.str(); }
// ---- sequences of QPs in files
static double* rowMajor(const JV& a, int r, int c) { double* p = new double[(size_t)r * c]; for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) p[i * c + j] = (double)a[i][j].i; return p; }
static std::string residuals(Obj& ob, const JV& s) { const JV& q = s["qp"]; int n = ob.n, m = ob.m; std::ostringstream o; double a = -1, b = -1, c = -1;
  double *H = rowMajor(q["H"], n, n), *A = m ? rowMajor(q["A"], m, n) : 0; static JV none; none.t = JV::OBJ; double *g = mkVec(q, "g", none, n, 0), *lb = mkVec(q, "lb", none, n, 0), *ub = mkVec(q, "ub", none, n, 0), *la = m ? mkVec(q, "lbA", none, m, 0) : 0, *ua = m ? mkVec(q, "ubA", none, m, 0) : 0;
  double *x = new double[n], *y = new double[n + m]; int r = ob.p->getPrimalSolution(x); if (r == 0) r = ob.p->getDualSolution(y); bool ok = r == 0;
  if (ok) { r = ob.cls == "B" ? REFER_NAMESPACE_QPOASES getKktViolation(n, H, g, lb, ub, x, y, a, b, c) : REFER_NAMESPACE_QPOASES getKktViolation(n, m, H, g, A, lb, ub, la, ua, x, y, a, b, c); }
  delete[] x; delete[] y; delete[] H; delete[] A; dropVecs(); o << "\"ret\":\"SUCCESSFUL_RETURN\",\"rok\":" << (ok ? "true" : "false"); putNum(o, "ka", a); putNum(o, "kb", b); putNum(o, "kc", c); return o.str(); }
struct Oqp { int k = 0, n = 0, m = 0; std::vector<double> H, g, A, lb, ub, la, ua, xo, yo, oo;
  Oqp(const JV& s) { const JV& qs = s["qps"]; k = (int)qs.size(); n = (int)qs[0]["n"].i; m = (int)qs[0]["m"].i; 
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) H.push_back((double)qs[0]["H"][i][j].i); for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j) A.push_back((double)qs[0]["A"][i][j].i);
    for (int t = 0; t < k; ++t) { const JV& q = qs[t]; for (int i = 0; i < n; ++i) { g.push_back((double)q["g"][i].i); lb.push_back(dec(q["lb"][i].i, 0)); ub.push_back(dec(q["ub"][i].i, 0)); xo.push_back((double)q["xs"][i].i); } for (int i = 0; i < m; ++i) { la.push_back(dec(q["lbA"][i].i, 0)); ua.push_back(dec(q["ubA"][i].i, 0)); } for (int i = 0; i < n + m; ++i) yo.push_back((double)q["ys"][i].i); oo.push_back((double)q["obj2"].i / 2); } } };
static std::string oqpFiles(const JV& s, const Oqp& d) { // the files of the sequence, possibly damaged
  std::string dir = scratch + "/oqp"; mkdir(dir.c_str(), 0700); std::string p = dir + "/"; std::string bf = s.S("badfile", ""), bk = s.S("badkind", "");
  { std::ofstream f(p + "dims.oqp"); long k = d.k, n = d.n, m = d.m, e = s.I("nec", 0); if (bf == "dims") { if (bk == "neg") n = 0; else if (bk == "negk") k = 0; else if (bk == "negm") m = -1; else if (bk == "nege") e = -1; } if (bf == "dims" && bk == "short") f << k << "\n" << n << "\n"; else if (bf == "dims" && bk == "text") f << k << "\nabc\n" << n << "\n" << m << "\n"; else f << k << "\n" << n << "\n" << m << "\n" << e << "\n"; }
  auto w = [&](const char* nm, const std::vector<double>& v, int c) { std::string f = p + nm + ".oqp"; if (c == 0) { unlink(f.c_str()); return; } FILE* o = fopen(f.c_str(), "w"); size_t len = v.size(); if (bf == nm && bk == "short") len -= 1; for (size_t i = 0; i < len; ++i) { if (bf == nm && bk == "text" && i + 1 == len) fprintf(o, "abc "); else fprintf(o, "%.17g%c", v[i], (i + 1) % c ? ' ' : '\n'); } fclose(o); if (bf == nm && bk == "missing") unlink(f.c_str()); };
  w("H", d.H, d.n); w("g", d.g, d.n); w("A", d.A, d.m ? d.n : 0); w("lb", d.lb, d.n); w("ub", d.ub, d.n); w("lbA", d.la, d.m); w("ubA", d.ua, d.m); w("x_opt", d.xo, d.n); w("y_opt", d.yo, d.n + d.m); w("obj_opt", d.oo, 1);
  if (bf == "dims" && bk == "missing") unlink((p + "dims.oqp").c_str()); return p; }
static std::string oqpRun(const JV& s) {
  Oqp d(s); Options op; setOpts(op, s["opts"]); bool B = s["cls"].s == "B"; BooleanType sp = s.B("sparse", false) ? BT_TRUE : BT_FALSE, hot = s.B("hot", true) ? BT_TRUE : BT_FALSE; bool brief = s.B("brief", false); int_t bud = s["budget"].i, nw = bud; double mx = -1, av = -1, mc = 1e9, ac = 0, a = -1, b = -1, c = -1; int r; std::string via = s["via"].s;
  std::string path; if (via == "run") path = oqpFiles(s, d); std::vector<double> H0 = d.H, A0 = d.A, g0 = d.g, l0 = d.lb, u0 = d.ub, la0 = d.la, ua0 = d.ua; double none[1] = {0}, *A = d.m ? d.A.data() : none, *la = d.m ? d.la.data() : 0, *ua = d.m ? d.ua.data() : 0;
  leak::cur = 9; 
  if (via == "run") r = brief ? runOqpBenchmark(path.c_str(), sp, op, nw, mc, a, b, c) : runOqpBenchmark(path.c_str(), sp, hot, op, bud, mx, av, mc, ac, a, b, c);
  else if (B) r = brief ? solveOqpBenchmark(d.k, d.n, d.H.data(), d.g.data(), d.lb.data(), d.ub.data(), sp, op, nw, mc, a, b, c) : solveOqpBenchmark(d.k, d.n, d.H.data(), d.g.data(), d.lb.data(), d.ub.data(), sp, hot, op, bud, mx, av, mc, ac, a, b, c);
  else r = brief ? solveOqpBenchmark(d.k, d.n, d.m, 0, d.H.data(), d.g.data(), A, d.lb.data(), d.ub.data(), la, ua, sp, op, nw, mc, a, b, c) : solveOqpBenchmark(d.k, d.n, d.m, 0, d.H.data(), d.g.data(), A, d.lb.data(), d.ub.data(), la, ua, sp, hot, op, bud, mx, av, mc, ac, a, b, c);
  leak::cur = 0; if (leak::live[9]) leaked = true; if (H0 != d.H || A0 != d.A || g0 != d.g || l0 != d.lb || u0 != d.ub || la0 != d.la || ua0 != d.ua) modflag = true;
  std::ostringstream o; o << "\"ret\":\"" << retName(r) << "\",\"maxn\":" << (brief ? (long)nw : (long)mx) << ",\"sumn\":" << (brief ? -1 : (long)std::floor(av * d.k + 0.5)) << ",\"cpuok\":" << (mc >= 0 && mc < 1e3 && ac >= 0 && ac <= mc ? "true" : "false"); putNum(o, "ka", a); putNum(o, "kb", b); putNum(o, "kc", c); return o.str(); }
static std::string oqpRead(const JV& s) {
  Oqp d(s); std::string path = oqpFiles(s, d); int_t k = -7, n = -7, m = -7, e = -7; std::set<std::string> nul; for (auto& v : s["nulls"].a) nul.insert(v.s); int r; std::ostringstream o;
  if (s.B("dims", false)) { r = readOqpDimensions(path.c_str(), k, n, m, e); o << "\"ret\":\"" << retName(r) << "\",\"d\":[" << (long)k << "," << (long)n << "," << (long)m << "," << (long)e << "]"; return o.str(); }
  real_t *H = 0, *g = 0, *A = 0, *lb = 0, *ub = 0, *la = 0, *ua = 0, *xo = 0, *yo = 0, *oo = 0; auto at = [&](const char* nm, real_t** p) { return nul.count(nm) ? (real_t**)0 : p; };
  leak::cur = 9; r = readOqpData(path.c_str(), k, n, m, e, at("H", &H), at("g", &g), at("A", &A), at("lb", &lb), at("ub", &ub), at("lbA", &la), at("ubA", &ua), at("x_opt", &xo), at("y_opt", &yo), at("obj_opt", &oo)); leak::cur = 0;
  o << "\"ret\":\"" << retName(r) << "\",\"d\":[" << (long)k << "," << (long)n << "," << (long)m << "," << (long)e << "]";
  if (r == 0) { putVec(o, "H", H, d.n * d.n); putVec(o, "g", g, d.k * d.n); putVec(o, "lb", lb, d.k * d.n); putVec(o, "ub", ub, d.k * d.n); putVec(o, "A", A, A ? d.n * d.m : 0); putVec(o, "lbA", la, la ? d.k * d.m : 0); putVec(o, "ubA", ua, ua ? d.k * d.m : 0); putVec(o, "x_opt", xo, xo ? d.k * d.n : 0); putVec(o, "y_opt", yo, yo ? d.k * (d.n + d.m) : 0); putVec(o, "obj_opt", oo, oo ? d.k : 0);
    delete[] H; delete[] g; delete[] A; delete[] lb; delete[] ub; delete[] la; delete[] ua; delete[] xo; delete[] yo; delete[] oo; }
  if (leak::live[9]) leaked = true; return o.str(); }
// MAT files (level 4): a list of named column-major matrices
static std::string matDump(Obj& ob, const JV& s) { QProblem* q = (QProblem*)ob.p.get(); std::string f = scratch + (s.B("badpath", false) ? "/nowhere/at/all.mat" : "/dump.mat"); std::ostringstream o;
  leak::cur = (int)s.I("slot", 1); int r = s["what"].s == "data" ? q->writeQpDataIntoMatFile(f.c_str()) : q->writeQpWorkspaceIntoMatFile(f.c_str()); leak::cur = 0;
  std::string t = r == 0 ? slurp(f) : std::string(); unlink(f.c_str()); size_t p = 0; bool ok = true; std::ostringstream l; bool first = true;
  while (p < t.size()) { int32_t h[5]; if (p + sizeof h > t.size()) { ok = false; break; } memcpy(h, t.data() + p, sizeof h); p += sizeof h; if (h[0] != 0 || h[1] < 0 || h[2] < 0 || h[1] > 1000 || h[2] > 1000 || h[3] != 0 || h[4] < 1 || h[4] > 100 || p + h[4] + 8u * h[1] * h[2] > t.size()) { ok = false; break; }
    std::string nm(t.data() + p, h[4] - 1); if (t[p + h[4] - 1] != 0) ok = false; p += h[4]; std::vector<double> v((size_t)h[1] * h[2]); if (!v.empty()) memcpy(v.data(), t.data() + p, 8 * v.size()); p += 8 * v.size(); for (char c : nm) if (!isalnum(c) && c != '_') ok = false; if (!ok) break;
    l << (first ? "" : ",") << "{\"name\":\"" << nm << "\",\"nr\":" << h[1] << ",\"nc\":" << h[2]; putVec(l, "v", v.data(), (int)v.size()); l << "}"; first = false; }
  o << "\"ret\":\"" << retName(r) << "\",\"fmt\":" << (ok ? "true" : "false") << ",\"mats\":[" << l.str() << "]"; return o.str(); }
static int slotOf(const JV& s) { return (int)s.I("slot", 1); }
static std::string doStep(const JV& s) {
  std::string op = s["op"].s; std::ostringstream o; int sl = slotOf(s); modflag = false; nwsrLog.push_back(-1);
  if (op == "new") {
    Obj ob; ob.cls = s["cls"].s; ob.n = (int)s["n"].i; ob.m = ob.cls == "B" ? 0 : (int)s["m"].i; HessianType ht = htOf(s.S("ht", "UNKNOWN")); leak::cur = sl; int cn = (int)s.I("badn", ob.n), cm = (int)s.I("badm", ob.m);
    if (s.B("def", false)) { ob.n = ob.m = 0; if (ob.cls == "B") ob.p.reset(new QProblemB()); else if (ob.cls == "Q") ob.p.reset(new QProblem()); else if (ob.cls == "X") ob.p.reset(new SQProblemSchur()); else ob.p.reset(new SQProblem()); }
    else if (ob.cls == "B") ob.p.reset(new QProblemB(cn, ht)); else if (ob.cls == "Q") ob.p.reset(new QProblem(cn, cm, ht)); else if (ob.cls == "S") ob.p.reset(new SQProblem(cn, cm, ht));
    else ob.p.reset(new SchurWithSolver(ob.n, ob.m, ht, (int)s.I("nsmax", 75)));
    leak::cur = 0; Options op2; setOpts(op2, s["opts"]); leak::cur = sl; int r = ob.p->setOptions(op2); leak::cur = 0; objs[sl] = std::move(ob); o << "\"ret\":\"" << retName(r) << "\""; 
  } else if (op == "opt") { Options op2 = objs[sl].p->getOptions(); setOpts(op2, s["opts"]); int r = objs[sl].p->setOptions(op2); o << "\"ret\":\"" << retName(r) << "\"";
  } else if (op == "init") o << solveCall(objs[sl], s, true);
  else if (op == "hot") o << solveCall(objs[sl], s, false);
  else if (op == "reset") { leak::Tag tag(sl); int r = objs[sl].p->reset(); leak::cur = 0; o << "\"ret\":\"" << retName(r) << "\"";
  } else if (op == "sethess") { int r = objs[sl].p->setHessianType(htOf(s["ht"].s)); o << "\"ret\":\"" << retName(r) << "\"";
  } else if (op == "copy") { // copy-construct slot "to" from slot
    int to = (int)s["to"].i; Obj& a = objs[sl]; Obj b; b.cls = a.cls; b.n = a.n; b.m = a.m; leak::cur = to;
    if (a.cls == "B") b.p.reset(new QProblemB(*a.p)); else if (a.cls == "Q") b.p.reset(new QProblem(*(QProblem*)a.p.get())); else if (a.cls == "S") b.p.reset(new SQProblem(*(SQProblem*)a.p.get())); else b.p.reset(new SchurWithSolver(*(SchurWithSolver*)a.p.get()));
    leak::cur = 0; objs[to] = std::move(b); o << "\"ret\":\"SUCCESSFUL_RETURN\""; sl = to;
  } else if (op == "assign") { int to = (int)s["to"].i; Obj& a = objs[sl]; Obj& b = objs[to]; b.n = a.n; b.m = a.m; leak::cur = to;
    if (a.cls == "B") *b.p = *a.p; else if (a.cls == "Q") *(QProblem*)b.p.get() = *(QProblem*)a.p.get(); else if (a.cls == "X") *(SchurWithSolver*)b.p.get() = *(SchurWithSolver*)a.p.get(); else *(SQProblem*)b.p.get() = *(SQProblem*)a.p.get(); leak::cur = 0; o << "\"ret\":\"SUCCESSFUL_RETURN\""; sl = to;
  } else if (op == "del") { objs.erase(sl); if (leak::live[sl]) leaked = true; o << "\"ret\":\"SUCCESSFUL_RETURN\""; checkPool(); o << ",\"mod\":" << (modflag ? "true" : "false"); return o.str();
  } else if (op == "ccall") { o << cCall(s);
  } else if (op == "res") { o << residuals(objs[sl], s);
  } else if (op == "oqp") { o << oqpRun(s);
  } else if (op == "oqpread") { o << oqpRead(s);
  } else if (op == "mat") { o << matDump(objs[sl], s);
  } else if (op == "obs") { o << "\"ret\":\"SUCCESSFUL_RETURN\"";
  } else if (op == "setcp") { Obj& ob = objs[sl]; int r; if (s.B("on", true)) { auto c = std::make_unique<UserCP>(); for (int i = 0; i < ob.m; ++i) { std::vector<double> row; for (int j = 0; j < ob.n; ++j) row.push_back((double)s["A"][i][j].i); c->A.push_back(row); } r = ((QProblem*)ob.p.get())->setConstraintProduct(c.get()); cps.push_back(std::move(c)); } else r = ((QProblem*)ob.p.get())->setConstraintProduct(0); o << "\"ret\":\"" << retName(r) << "\"";
  } else if (op == "eqp") { Obj& ob = objs[sl]; int n = ob.n, m = ob.m, k = (int)s["k"].i; QProblem* q = (QProblem*)ob.p.get(); static JV none; none.t = JV::OBJ; const JV& nul = s.has("nul") ? s["nul"] : none;
    auto mk = [&](const char* key, int len) -> double* { if (nul.has(key) && nul[key].b) return 0; double* p = new double[k * len]; for (int r = 0; r < k; ++r) for (int i = 0; i < len; ++i) p[r * len + i] = (double)s["rhs"][r][key][i].i; vecs.emplace_back(p, std::vector<double>(p, p + k * len)); return p; };
    double *g = mk("g", n), *lb = mk("lb", n), *ub = mk("ub", n), *la = m ? mk("lbA", m) : 0, *ua = m ? mk("ubA", m) : 0; double* X = new double[k * n]; double* Y = new double[k * (n + m)]; for (int i = 0; i < k * n; ++i) X[i] = 5.5e55; for (int i = 0; i < k * (n + m); ++i) Y[i] = 5.5e55;
    leak::cur = sl; int r = q->solveCurrentEQP(k, g, lb, ub, la, ua, X, Y); leak::cur = 0; dropVecs(); o << "\"ret\":\"" << retName(r) << "\""; putVec(o, "ex", X, k * n); putVec(o, "ey", Y, k * (n + m)); delete[] X; delete[] Y;
  } else if (op == "kkt") { SolutionAnalysis sa; Obj& ob = objs[sl]; double a = -1, b = -1, c = -1, v; QProblemB* qb = ob.p.get(); int n = ob.n, nm = n + ob.m; real_t* X = qb->*Hack::px(); real_t* Y = qb->*Hack::py();
    std::vector<double> X0(X, X + n), Y0(Y, Y + nm);
    if (s.has("dx")) for (int i = 0; i < n; ++i) X[i] += (double)s["dx"][i].i;
    if (s.has("dy")) for (int i = 0; i < nm; ++i) Y[i] += (double)s["dy"][i].i;
    bool none = s.B("none", false); double *pa = none ? 0 : &a, *pb = none ? 0 : &b, *pc = none ? 0 : &c;
    leak::cur = sl; if (ob.cls == "B") v = sa.getKktViolation(ob.p.get(), pa, pb, pc); else if (ob.cls == "Q") v = sa.getKktViolation((QProblem*)ob.p.get(), pa, pb, pc); else v = sa.getKktViolation((SQProblem*)ob.p.get(), pa, pb, pc);
    leak::cur = 0; std::copy(X0.begin(), X0.end(), X); std::copy(Y0.begin(), Y0.end(), Y);
    o << "\"ret\":\"SUCCESSFUL_RETURN\""; putNum(o, "kv", v); putNum(o, "ka", a); putNum(o, "kb", b); putNum(o, "kc", c);
  } else if (op == "objat") { std::vector<double> X; for (int i = 0; i < objs[sl].n; ++i) X.push_back((double)s["X"][i].i); o << "\"ret\":\"SUCCESSFUL_RETURN\""; putNum(o, "ov", objs[sl].p->getObjVal(X.data()));
  } else if (op == "varcov") { SolutionAnalysis sa; Obj& ob = objs[sl]; int d = 2 * ob.n + ob.m; double* V = new double[d * d]; for (int i = 0; i < d; ++i) for (int j = 0; j < d; ++j) V[i * d + j] = (double)s["V"][i][j].i; double* P = new double[d * d]; std::vector<double> V0(V, V + d * d);
    leak::cur = sl; int r = ob.cls == "B" ? sa.getVarianceCovariance(ob.p.get(), V, P) : ob.cls == "Q" ? sa.getVarianceCovariance((QProblem*)ob.p.get(), V, P) : sa.getVarianceCovariance((SQProblem*)ob.p.get(), V, P); leak::cur = 0; if (memcmp(V, V0.data(), d * d * sizeof(double))) modflag = true; o << "\"ret\":\"" << retName(r) << "\""; putVec(o, "P", P, d * d); delete[] V; delete[] P;
  } else if (op == "misc") { QProblemB* p = objs[sl].p.get(); std::string w = s["what"].s; int r = 0; bool kret = false; QProblem* q = objs[sl].cls == "B" ? 0 : (QProblem*)p;
    if (w == "printprops") r = p->printProperties(); else if (w == "printopts") r = p->printOptions(); else if (w == "resetcnt") r = p->resetCounter(); else if (w == "printlevel") r = p->setPrintLevel((PrintLevel)s["v"].i);
    else if (w == "ws0") r = p->getWorkingSet(0); else if (w == "wsb0") r = p->getWorkingSetBounds(0); else if (w == "wsc0") r = p->getWorkingSetConstraints(0);
    else if (w == "eqpx0" || w == "eqpy0") { if (q) { std::vector<double> z(64, 0.0); bool X = w == "eqpx0"; r = q->solveCurrentEQP(1, z.data(), z.data(), z.data(), z.data(), z.data(), X ? 0 : z.data(), X ? z.data() : 0); } else r = RET_INVALID_ARGUMENTS; }
    else if (w == "kkt0") { SolutionAnalysis sa; double a = 3, v = objs[sl].cls == "B" ? sa.getKktViolation((QProblemB*)0, &a) : objs[sl].cls == "Q" ? sa.getKktViolation((QProblem*)0, &a) : sa.getKktViolation((SQProblem*)0, &a); o << "\"ret\":\"" << (v >= INFTY ? "INFTY" : "OTHER") << "\""; kret = true; }
    else if (w == "curv") { SolutionAnalysis sa; r = sa.checkCurvatureOnStronglyActiveConstraints((SQProblemSchur*)objs[sl].p.get()); }
    else if (w == "freeflags" && q) { BooleanType* f = new BooleanType[objs[sl].n]; r = q->getFreeVariablesFlags(f); o << "\"ff\":["; for (int i = 0; i < objs[sl].n; ++i) o << (i ? "," : "") << (f[i] ? 1 : 0); o << "],"; delete[] f; }
    if (!kret) o << "\"ret\":\"" << retName(r) << "\"";
  } else throw std::runtime_error("op " + op);
  checkPool(); 
  observe(o, objs[sl], 0, 0); o << ",\"mod\":" << (modflag ? "true" : "false");
  return o.str(); }

int main(int argc, char** argv) {
  if (argc < 4) return 2; std::ifstream in(argv[1]); FILE* out = fopen(argv[2], "w"); scratch = argv[3];
  int nf = argc > 4 ? atoi(argv[4]) : 1; (void)nf;
  int dn = open("/dev/null", O_WRONLY); if (!getenv("QPD_KEEP")) { dup2(dn, 1); dup2(dn, 2); }
  size_t cap = 16 << 20; char* mem = (char*)mmap(0, cap + 64, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  static char obuf[1 << 16]; setvbuf(stdout, obuf, _IOFBF, sizeof obuf); leakInstall(); printf(" "); getGlobalMessageHandler()->getErrorCount();
  std::string line; int hangs = 0;
  while (std::getline(in, line)) {
    if (line.empty() || hangs >= 3) continue; JV b = jparse(line); size_t* len = (size_t*)mem; *len = 0; OutBuf ob{mem + 64, cap, len}; 
    pid_t pid = fork();
    if (pid == 0) { alarm(20); try { bool first = true; 
        for (size_t k = 0; k < b["steps"].size(); ++k) { const JV& s = b["steps"][k]; std::string r = doStep(s); ob.put(std::string(first ? "" : ",") + "{\"c\":" + s.raw + ",\"o\":{" + r + "}}"); first = false; }
        while (!objs.empty()) { int sl = objs.begin()->first; objs.erase(objs.begin()); if (leak::live[sl]) leaked = true; } for (char c : {'B', 'Q', 'S'}) shim_cleanup(c); if (leak::live[8]) leaked = true; pool.clear(); if (leaked) { fflush(stdout); _exit(78); } } catch (std::exception& e) { FILE* f = fopen("/dev/tty", "w"); (void)f; ob.put(std::string("\n#EXC ") + e.what()); _exit(77); }
      fflush(stdout); _exit(0); }
    int st; waitpid(pid, &st, 0);
    std::string end = "ok"; if (WIFSIGNALED(st)) end = WTERMSIG(st) == SIGALRM ? (++hangs, "hang") : "crash"; else if (WEXITSTATUS(st) == 77) end = "driver"; else if (WEXITSTATUS(st) == 78) end = "leak"; else if (WEXITSTATUS(st) != 0) end = "crash";
    std::string body(mem + 64, *len); if (end == "driver") { fprintf(out, "{\"id\":%ld,\"end\":\"driver\",\"msg\":\"%s\",\"ev\":[]}\n", b["id"].i, body.substr(body.find("#EXC")).c_str()); continue; }
    std::string nextraw = "{\"op\":\"none\"}"; size_t done = 0; if (end != "ok") { // count complete events
        int depth = 0; for (char c : body) { if (c == '{') ++depth; else if (c == '}') { if (--depth == 0) ++done; } } if (done < b["steps"].size()) nextraw = b["steps"][done].raw; }
    fprintf(out, "{\"id\":%ld,\"end\":\"%s\",\"next\":%s,\"ev\":[%s]}\n", b["id"].i, end.c_str(), nextraw.c_str(), body.c_str());
  }
  fclose(out); return 0; }
