// Executes behaviours of the bookkeeping classes (index lists, bounds, constraints, option sets, message handler)
#include <qpOASES.hpp>
#include "forkloop.hpp"
#include <sstream>
#include <memory>
#include <map>
#include <cmath>
#include <cstring>
#include <fstream>
#include "cshim.hpp"
USING_NAMESPACE_QPOASES
static const char* RN[] = {
#define X(a) #a,
#include "retcodes.inc"
#undef X
};
static const int NR = sizeof(RN) / sizeof(RN[0]);
static std::string rn(int r) { return r >= 0 && r < NR ? RN[r] : "CODE" + std::to_string(r); }
static int rcode(const std::string& s) { for (int i = 0; i < NR; ++i) if (s == RN[i]) return i; return atoi(s.c_str()); }
static std::string Q(const std::string& s) { std::string r = "\""; for (char c : s) { if (c == '"' || c == '\\') r += '\\'; if (c == '\n') r += "\\n"; else if (c == '\t') r += "\\t"; else r += c; } return r + "\""; }
struct Arr { std::ostringstream o; bool f = true; Arr() { o << "["; } template <class T> void add(const T& t) { if (!f) o << ","; f = false; o << t; } std::string end() { o << "]"; return o.str(); } };
static std::vector<long> univ;
// ---- index lists
static std::map<int, std::unique_ptr<Indexlist>> il;
static std::string obsIdx(Indexlist& x) {
  std::ostringstream o; int n = x.getLength(); o << ",\"len\":" << n; Arr num, arr, is, idx, mem; int_t *a = 0, *s = 0; x.getNumberArray(&a); x.getISortArray(&s);
  for (int i = -1; i <= n; ++i) { int v = x.getNumber(i); num.add(v < 0 ? -1 : v); } for (int i = 0; i < n; ++i) { arr.add(a[i]); is.add(s[i]); }
  for (long k : univ) { idx.add(x.getIndex(k)); mem.add(x.isMember(k) == BT_TRUE ? 1 : 0); }
  int_t la = n > 0 ? x.getLastNumber() : -1; o << ",\"num\":" << num.end() << ",\"arr\":" << arr.end() << ",\"isort\":" << is.end() << ",\"idx\":" << idx.end() << ",\"mem\":" << mem.end() << ",\"last\":" << la; return o.str(); }
static std::string stepIdx(const JV& s) {
  std::string op = s["op"].s; int k = s["slot"].i, r = 0; int t = k;
  if (op == "new") { if (s.has("u")) { univ.clear(); for (auto& v : s["u"].a) univ.push_back(v.i); } if (s["n"].i < 0) il[k].reset(new Indexlist()); else il[k].reset(new Indexlist((int_t)s["n"].i)); }
  else if (op == "init") r = il[k]->init(s["n"].i);
  else if (op == "add") r = il[k]->addNumber(s["k"].i);
  else if (op == "rem") r = il[k]->removeNumber(s["k"].i);
  else if (op == "swap") r = il[k]->swapNumbers(s["a"].i, s["b"].i);
  else if (op == "copy") { t = s["to"].i; il[t].reset(new Indexlist(*il[k])); }
  else if (op == "assign") { t = s["to"].i; *il[t] = *il[k]; }
  else if (op == "obs") {} else throw std::runtime_error("op " + op);
  return "\"ret\":\"" + rn(r) + "\"" + obsIdx(*il[t]); }
// ---- bounds and constraints
struct Lim { std::unique_ptr<Bounds> b; std::unique_ptr<Constraints> c; };
static std::map<int, Lim> lm;
static SubjectToStatus stOf(const std::string& s) { return s == "L" ? ST_LOWER : s == "U" ? ST_UPPER : s == "I" ? ST_INACTIVE : ST_UNDEFINED; }
static std::string stS(SubjectToStatus s) { return s == ST_LOWER ? "L" : s == ST_UPPER ? "U" : s == ST_INACTIVE ? "I" : s == ST_UNDEFINED ? "N" : "X"; }
static SubjectToType tyOf(const std::string& s) { return s == "U" ? ST_UNBOUNDED : s == "B" ? ST_BOUNDED : s == "E" ? ST_EQUALITY : s == "D" ? ST_DISABLED : ST_UNKNOWN; }
static std::string tyS(SubjectToType s) { return s == ST_UNBOUNDED ? "U" : s == ST_BOUNDED ? "B" : s == ST_EQUALITY ? "E" : s == ST_DISABLED ? "D" : s == ST_UNKNOWN ? "?" : "X"; }
static std::string listS(Indexlist* l) { Arr a; int_t* v = 0; l->getNumberArray(&v); for (int i = 0; i < l->getLength(); ++i) a.add(v[i]); return a.end(); }
static std::string obsLim(Lim& x) {
  std::ostringstream o; SubjectTo* s = x.b ? (SubjectTo*)x.b.get() : (SubjectTo*)x.c.get(); int n = x.b ? x.b->getNV() : x.c->getNC(); Arr ty, st;
  for (int i = -1; i <= n; ++i) { ty.add(Q(tyS(s->getType(i)))); st.add(Q(stS(s->getStatus(i)))); }
  o << ",\"n\":" << n << ",\"type\":" << ty.end() << ",\"st\":" << st.end() << ",\"nolo\":" << (s->hasNoLower() == BT_TRUE ? "true" : "false") << ",\"noup\":" << (s->hasNoUpper() == BT_TRUE ? "true" : "false");
  if (x.b) o << ",\"neq\":" << x.b->getNFV() << ",\"nbd\":" << x.b->getNBV() << ",\"nun\":" << x.b->getNUV() << ",\"nfr\":" << x.b->getNFR() << ",\"nfx\":" << x.b->getNFX() << ",\"fr\":" << listS(x.b->getFree()) << ",\"fx\":" << listS(x.b->getFixed());
  else o << ",\"neq\":" << x.c->getNEC() << ",\"nbd\":" << x.c->getNIC() << ",\"nun\":" << x.c->getNUC() << ",\"nfr\":" << x.c->getNIAC() << ",\"nfx\":" << x.c->getNAC() << ",\"fr\":" << listS(x.c->getInactive()) << ",\"fx\":" << listS(x.c->getActive());
  return o.str(); }
static std::string stepLim(const JV& s) {
  std::string op = s["op"].s; int k = s["slot"].i, r = 0, t = k; 
  if (op == "new") { Lim l; if (s["cls"].s == "B") l.b.reset(s["n"].i < 0 ? new Bounds() : new Bounds(s["n"].i)); else l.c.reset(s["n"].i < 0 ? new Constraints() : new Constraints(s["n"].i)); lm[k] = std::move(l); return "\"ret\":\"SUCCESSFUL_RETURN\"" + obsLim(lm[k]); }
  Bounds* b = lm[k].b.get(); Constraints* c = lm[k].c.get(); SubjectTo* u = b ? (SubjectTo*)b : (SubjectTo*)c; int i = s.I("i", 0), j = s.I("j", 0); SubjectToStatus st = stOf(s.S("st", "N"));
  if (op == "init") r = b ? b->init(s["n"].i) : c->init(s["n"].i);
  else if (op == "setup") r = b ? b->setupBound(i, st) : c->setupConstraint(i, st);
  else if (op == "all") r = st == ST_INACTIVE ? (b ? b->setupAllFree() : c->setupAllInactive()) : st == ST_LOWER ? (b ? b->setupAllLower() : c->setupAllLower()) : (b ? b->setupAllUpper() : c->setupAllUpper());
  else if (op == "tofree") r = b ? b->moveFixedToFree(i) : c->moveActiveToInactive(i);
  else if (op == "tofix") r = b ? b->moveFreeToFixed(i, st) : c->moveInactiveToActive(i, st);
  else if (op == "flip") r = b ? b->flipFixed(i) : c->flipFixed(i);
  else if (op == "swap") r = b->swapFree(i, j);
  else if (op == "shift") r = b ? b->shift(i) : c->shift(i);
  else if (op == "rotate") r = b ? b->rotate(i) : c->rotate(i);
  else if (op == "type") r = u->setType(i, tyOf(s["ty"].s));
  else if (op == "status") r = u->setStatus(i, st);
  else if (op == "nolo") u->setNoLower(s["on"].b ? BT_TRUE : BT_FALSE); else if (op == "noup") u->setNoUpper(s["on"].b ? BT_TRUE : BT_FALSE);
  else if (op == "print") r = b ? b->print() : c->print();
  else if (op == "copy") { t = s["to"].i; Lim l; if (b) l.b.reset(new Bounds(*b)); else l.c.reset(new Constraints(*c)); lm[t] = std::move(l); }
  else if (op == "assign") { t = s["to"].i; if (b) *lm[t].b = *b; else *lm[t].c = *c; }
  else if (op == "obs") {} else throw std::runtime_error("op " + op);
  return "\"ret\":\"" + rn(r) + "\"" + obsLim(lm[t]); }
// ---- option sets
struct OptSlot { std::unique_ptr<Options> o; std::unique_ptr<QProblemB> p; };
static std::map<int, OptSlot> os_;
static double numOf(const JV& v) { std::string k = v[0].s; return k == "E" ? (double)v[1].i * EPS : k == "M" ? (double)v[1].i / 1000.0 : k == "G" ? (double)v[1].i * 1e6 : k == "R" ? 1.0e-14 : k == "P" ? (double)v[1].i / 1000.0 * (1 + EPS) : 0.0; }
static std::string numS(double v) {
  std::ostringstream o; double e = v / EPS; if (v == 0) return "[\"M\",0]"; if (v == 1.0e-14) return "[\"R\",1]";
  if (fabs(v) < 1e-5 && e == floor(e) && fabs(e) < 2e9) { o << "[\"E\"," << (long)e << "]"; return o.str(); }
  double m = floor(v * 1000 + 0.5); if (fabs(m) < 2e9 && m / 1000.0 == v) { o << "[\"M\"," << (long)m << "]"; return o.str(); }
  double g = floor(v / 1e6 + 0.5); if (fabs(g) < 2e9 && g * 1e6 == v) { o << "[\"G\"," << (long)g << "]"; return o.str(); }
  double c = floor(v * 1000 + 0.5) / 1000.0; if (fabs(m) < 2e9 && v > c && v <= c * (1 + 4 * EPS)) { o << "[\"P\"," << (long)m << "]"; return o.str(); }   // the next numbers above
  o.precision(17); o << "[\"X " << v << "\",0]"; return o.str(); }
#define BOOLS(X) X(enableRamping) X(enableFarBounds) X(enableFlippingBounds) X(enableRegularisation) X(enableFullLITests) X(enableNZCTests) X(enableEqualities) X(enableDropInfeasibles) X(enableInertiaCorrection)
#define INTS(X) X(enableDriftCorrection) X(enableCholeskyRefactorisation) X(numRegularisationSteps) X(numRefinementSteps) X(dropBoundPriority) X(dropEqConPriority) X(dropIneqConPriority)
#define REALS(X) X(terminationTolerance) X(boundTolerance) X(boundRelaxation) X(epsNum) X(epsDen) X(maxPrimalJump) X(maxDualJump) X(initialRamping) X(finalRamping) X(initialFarBounds) X(growFarBounds) X(epsFlipping) X(epsRegularisation) X(epsIterRef) X(epsLITests) X(epsNZCTests) X(rcondSMin)
static std::string obsOpt(const Options& x) {
  std::ostringstream o; 
#define X(f) o << ",\"" #f "\":" << (x.f == BT_TRUE ? "true" : "false");
  BOOLS(X)
#undef X
#define X(f) o << ",\"" #f "\":" << (long)x.f;
  INTS(X)
#undef X
#define X(f) o << ",\"" #f "\":" << numS(x.f);
  REALS(X)
#undef X
  o << ",\"printLevel\":" << (int)x.printLevel << ",\"initialStatusBounds\":" << Q(stS(x.initialStatusBounds)); return o.str(); }
static Options& theOpt(OptSlot& s, Options& tmp) { if (s.o) return *s.o; tmp = s.p->getOptions(); return tmp; }
static void setField(Options& x, const std::string& f, const JV& v) {
  bool hit = false;
#define X(g) if (f == #g) { x.g = v.b ? BT_TRUE : BT_FALSE; hit = true; }
  BOOLS(X)
#undef X
#define X(g) if (f == #g) { x.g = v.i; hit = true; }
  INTS(X)
#undef X
#define X(g) if (f == #g) { x.g = numOf(v); hit = true; }
  REALS(X)
#undef X
  if (f == "printLevel") { x.printLevel = (PrintLevel)v.i; hit = true; } if (f == "initialStatusBounds") { x.initialStatusBounds = stOf(v.s); hit = true; }
  if (!hit) throw std::runtime_error("field " + f); }
static std::map<int, void*> co_;
static std::string obsC(const void* c) {
  std::ostringstream o;    // anything but 0 or 1 is left out
#define X(f) { double v = shim_opt_get(c, #f); if (v == 0 || v == 1) o << ",\"" #f "\":" << (v == 1 ? "true" : "false"); }
  BOOLS(X)
#undef X
#define X(f) o << ",\"" #f "\":" << (long)shim_opt_get(c, #f);
  INTS(X)
#undef X
#define X(f) o << ",\"" #f "\":" << numS(shim_opt_get(c, #f));
  REALS(X)
#undef X
  long st = (long)shim_opt_get(c, "initialStatusBounds"); const char* n = st == shim_const("ST_LOWER") ? "L" : st == shim_const("ST_UPPER") ? "U" : st == shim_const("ST_INACTIVE") ? "I" : "X";
  o << ",\"printLevel\":" << (long)shim_opt_get(c, "printLevel") << ",\"initialStatusBounds\":" << Q(n); return o.str(); }
static void setC(void* c, const std::string& f, const JV& v) {
  double x = 0; bool hit = false; int reals = 0;
#define X(g) if (f == #g) { x = v.b ? 1 : 0; hit = true; }
  BOOLS(X)
#undef X
#define X(g) if (f == #g) { x = v.i; hit = true; }
  INTS(X)
#undef X
#define X(g) if (f == #g) { x = numOf(v); hit = true; reals = 1; }
  REALS(X)
#undef X
  (void)reals; if (f == "printLevel") { x = v.i; hit = true; } if (f == "initialStatusBounds") { x = shim_const(v.s == "L" ? "ST_LOWER" : v.s == "U" ? "ST_UPPER" : "ST_INACTIVE"); hit = true; }
  if (!hit || !shim_opt_set(c, f.c_str(), x)) throw std::runtime_error("field " + f); }
static std::string stepOpt(const JV& s) {
  { std::string op = s["op"].s; int k = s["slot"].i;
    if (op == "cnew" || op == "cset" || op == "cnull") {   // what a C program sees
      long r = 0; if (op == "cnew") { if (!co_.count(k)) co_[k] = shim_opt(); r = shim_opt_init(co_[k], s["mode"].i); }
      else if (op == "cset") { for (auto& kv : s["fields"].o) setC(co_[k], kv.first, kv.second); }
      else { std::string w = s["what"].s; Options d; r = w == "init" ? shim_opt_init(0, 0) : w == "from" ? shim_opt_copy(0, &d) : shim_opt_copy(co_[k], 0); }
      std::ostringstream o; o << "\"ret\":\"SUCCESSFUL_RETURN\",\"cret\":" << r << obsC(co_[k]); return o.str(); }
    if (op == "ctoopt") { int t = s["to"].i; long r = shim_opt_copy(co_[k], os_[t].o.get()); std::ostringstream o; o << "\"ret\":\"SUCCESSFUL_RETURN\",\"cret\":" << r << obsOpt(*os_[t].o); return o.str(); }
    if (op == "consts") { std::ostringstream o; 
#define X(g) o << ",\"" #g "\":" << (shim_const(#g) == (long)g ? "true" : "false");
      o << "\"ret\":\"SUCCESSFUL_RETURN\""; X(HST_ZERO) X(HST_IDENTITY) X(HST_POSDEF) X(HST_POSDEF_NULLSPACE) X(HST_SEMIDEF) X(HST_INDEF) X(HST_UNKNOWN) X(ST_LOWER) X(ST_INACTIVE) X(ST_UPPER) X(ST_INFEASIBLE_LOWER) X(ST_INFEASIBLE_UPPER) X(ST_UNDEFINED) X(PL_DEBUG_ITER) X(PL_TABULAR) X(PL_NONE) X(PL_LOW) X(PL_MEDIUM) X(PL_HIGH)
#undef X
      return o.str(); } }
  std::string op = s["op"].s; int k = s["slot"].i, r = 0, t = k; Options tmp;
  if (op == "new") { os_[k] = OptSlot(); os_[k].o.reset(new Options()); }
  else if (op == "newqp") { os_[k] = OptSlot(); std::string c = s["cls"].s; os_[k].p.reset(c == "B" ? new QProblemB(2) : c == "Q" ? new QProblem(2, 1) : new SQProblem(2, 1)); }
  else if (op == "preset") { std::string w = s["what"].s; Options& o = *os_[k].o; r = w == "default" ? o.setToDefault() : w == "reliable" ? o.setToReliable() : w == "mpc" ? o.setToMPC() : o.setToFast(); }
  else if (op == "set") { for (auto& kv : s["fields"].o) setField(*os_[k].o, kv.first, kv.second); }
  else if (op == "ensure") r = os_[k].o->ensureConsistency();
  else if (op == "copy") { t = s["to"].i; Options* n = new Options(*os_[k].o); os_[t] = OptSlot(); os_[t].o.reset(n); }
  else if (op == "assign") { t = s["to"].i; *os_[t].o = *os_[k].o; }
  else if (op == "toqp") { t = s["to"].i; r = os_[t].p->setOptions(*os_[k].o); }
  else if (op == "fromqp") { t = s["to"].i; os_[t] = OptSlot(); os_[t].o.reset(new Options(os_[k].p->getOptions())); }
  else if (op == "copyqp") { t = s["to"].i; QProblemB* n; if (dynamic_cast<SQProblem*>(os_[k].p.get())) n = new SQProblem(*(SQProblem*)os_[k].p.get()); else if (dynamic_cast<QProblem*>(os_[k].p.get())) n = new QProblem(*(QProblem*)os_[k].p.get()); else n = new QProblemB(*os_[k].p); os_[t] = OptSlot(); os_[t].p.reset(n); }
  else if (op == "level") r = os_[k].p->setPrintLevel((PrintLevel)s["v"].i);
  else if (op == "resetqp") r = os_[k].p->reset();
  else if (op == "print") r = os_[k].o ? os_[k].o->print() : os_[k].p->printOptions();
  else throw std::runtime_error("op " + op);
  std::string pl; if (os_[t].p) { std::ostringstream o; o << ",\"pl\":" << (int)os_[t].p->getPrintLevel(); pl = o.str(); }
  Options tmp2; MessageHandling* h = getGlobalMessageHandler(); std::ostringstream v; v << ",\"vis\":[" << (h->getErrorVisibilityStatus() == VS_VISIBLE) << "," << (h->getWarningVisibilityStatus() == VS_VISIBLE) << "," << (h->getInfoVisibilityStatus() == VS_VISIBLE) << "]";
  return "\"ret\":\"" + rn(r) + "\"" + obsOpt(theOpt(os_[t], tmp2)) + pl + v.str(); }
// ---- message handler
static std::map<int, MessageHandling*> mh; static FILE* cap_ = 0; static long capPos = 0;
static std::string captured() {   // new output as a list of lines
  fflush(cap_); fseek(cap_, 0, SEEK_END); long e = ftell(cap_); std::string t(e - capPos, 0); fseek(cap_, capPos, SEEK_SET); size_t g = fread(&t[0], 1, t.size(), cap_); t.resize(g); fseek(cap_, 0, SEEK_END); capPos = e;
  Arr a; size_t p = 0; while (p < t.size()) { size_t q = t.find('\n', p); if (q == std::string::npos) q = t.size(); a.add(Q(t.substr(p, q - p))); p = q + 1; } return a.end(); }
static std::string stepMsg(const JV& s) {
  std::string op = s["op"].s; int k = s["slot"].i; std::string ret; int r = 0, t = k; std::string extra;
  if (!cap_) { cap_ = tmpfile(); if (!cap_) throw std::runtime_error("tmpfile"); getGlobalMessageHandler()->setOutputFile(cap_); mh[0] = getGlobalMessageHandler(); }
  auto vs = [](const JV& v) { return v.b ? VS_VISIBLE : VS_HIDDEN; };
  if (op == "new") { std::string c = s["ctor"].s; mh[k] = c == "def" ? new MessageHandling() : c == "file" ? new MessageHandling(cap_) : c == "vis" ? new MessageHandling(vs(s["e"]), vs(s["w"]), vs(s["i"])) : new MessageHandling(cap_, vs(s["e"]), vs(s["w"]), vs(s["i"])); }
  else if (op == "copy") { t = s["to"].i; mh[t] = new MessageHandling(*mh[k]); }
  else if (op == "assign") { t = s["to"].i; *mh[t] = *mh[k]; }
  else if (op == "throw") { returnValue c = (returnValue)rcode(s["code"].s); std::string a = s.S("add", ""); const char* ap = a.empty() ? 0 : a.c_str(); VisibilityStatus v = vs(s["vis"]); std::string w = s["cls"].s;
    returnValue x = w == "E" ? mh[k]->throwError(c, ap, "f", "g", 1, v) : w == "W" ? mh[k]->throwWarning(c, ap, "f", "g", 1, v) : mh[k]->throwInfo(c, ap, "f", "g", 1, v); r = x; }
  else if (op == "macro") { returnValue c = (returnValue)rcode(s["code"].s); std::string w = s["cls"].s; r = w == "E" ? THROWERROR(c) : w == "W" ? THROWWARNING(c) : THROWINFO(c); }
  else if (op == "setvis") { std::string w = s["cls"].s; if (w == "E") mh[k]->setErrorVisibilityStatus(vs(s["vis"])); else if (w == "W") mh[k]->setWarningVisibilityStatus(vs(s["vis"])); else mh[k]->setInfoVisibilityStatus(vs(s["vis"])); }
  else if (op == "count") r = mh[k]->setErrorCount(s["v"].i);
  else if (op == "reset") { r = mh[k]->reset(); extra = std::string(",\"wasstd\":") + (mh[k]->getOutputFile() == stdout ? "true" : "false"); mh[k]->setOutputFile(cap_); }
  else if (op == "level") { FILE* f = mh[0]->getOutputFile(); QProblemB* p = new QProblemB(1); mh[0]->setOutputFile(cap_); Options o; o.printLevel = (PrintLevel)s["v"].i; r = p->setOptions(o); captured(); mh[0]->setErrorCount(0); mh[0]->setOutputFile(f); }   // never deleted: that resets the handler
  else if (op == "nofile") mh[k]->setOutputFile(s["on"].b ? 0 : cap_);
  else if (op == "text") { extra = ",\"text\":" + Q(MessageHandling::getErrorCodeMessage((returnValue)rcode(s["code"].s))); }
  else if (op == "list") { r = mh[k]->listAllMessages(); }
  else if (op == "simple") { returnValue c = (returnValue)rcode(s["code"].s); std::ostringstream o; o << ",\"simple\":" << (long)getSimpleStatus(c, BT_FALSE); extra = o.str(); getSimpleStatus(c, BT_TRUE); }
  else if (op == "obs") {} else throw std::runtime_error("op " + op);
  MessageHandling* m = mh[t]; std::ostringstream o; o << "\"ret\":\"" << rn(r) << "\",\"e\":" << (m->getErrorVisibilityStatus() == VS_VISIBLE ? "true" : "false") << ",\"w\":" << (m->getWarningVisibilityStatus() == VS_VISIBLE ? "true" : "false") << ",\"i\":" << (m->getInfoVisibilityStatus() == VS_VISIBLE ? "true" : "false") << ",\"cnt\":" << m->getErrorCount() << ",\"fil\":" << Q(m->getOutputFile() == cap_ ? "cap" : m->getOutputFile() == 0 ? "null" : m->getOutputFile() == stdout ? "std" : "?") << ",\"out\":" << captured() << extra;
  return o.str(); }
// ---- free functions: residuals of KKT conditions, norms
static std::string stepFn(const JV& s) {
  std::string op = s["op"].s; auto arr = [](const JV& v) { real_t* p = new real_t[v.a.size()]; for (size_t i = 0; i < v.a.size(); ++i) { long x = v[i].i; p[i] = x >= 1000000 ? INFTY : x <= -1000000 ? -INFTY : (real_t)x; } return p; };
  auto cap = [](real_t v) -> long { return !(v < 9999999.0) ? 9999999 : v != std::floor(v) ? -7 : (long)v; };
  if (op == "norm") { real_t* x = arr(s["x"]); real_t v = REFER_NAMESPACE_QPOASES getNorm(x, (int_t)s["x"].a.size(), (int_t)s["type"].i); delete[] x; long f = (long)std::floor(v + 1e-12); std::ostringstream o; o << "\"ret\":\"SUCCESSFUL_RETURN\",\"fl\":" << f << ",\"exact\":" << (std::fabs(v - f) < 1e-11 ? "true" : "false"); return o.str(); }
  int n = s["n"].i, m = s["m"].i; std::map<std::string, real_t*> P; for (const char* k : {"g", "lb", "ub", "lbA", "ubA", "x", "y", "wb", "wc"}) P[k] = arr(s[k]);
  P["H"] = new real_t[n * n]; P["A"] = new real_t[m * n]; for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) P["H"][i * n + j] = (real_t)s["H"][i][j].i; for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j) P["A"][i * n + j] = (real_t)s["A"][i][j].i;
  for (auto& v : s["nul"].a) { delete[] P[v.s]; P[v.s] = 0; }
  real_t st = -1, fe = -1, cm = -1; BooleanType id = s["ident"].b ? BT_TRUE : BT_FALSE; returnValue r;
  if (op == "violb") r = REFER_NAMESPACE_QPOASES getKktViolation(n, P["H"], P["g"], P["lb"], P["ub"], P["x"], P["y"], st, fe, cm, P["wb"], id);
  else r = REFER_NAMESPACE_QPOASES getKktViolation(n, m, P["H"], P["g"], P["A"], P["lb"], P["ub"], P["lbA"], P["ubA"], P["x"], P["y"], st, fe, cm, P["wb"], P["wc"], id);
  for (auto& kv : P) delete[] kv.second;
  std::ostringstream o; o << "\"ret\":\"" << rn(r) << "\",\"st\":" << cap(st) << ",\"fe\":" << cap(fe) << ",\"cm\":" << cap(cm); return o.str(); }
// ---- data files
static std::string fdir;
static std::string fpath(long k) { return k < 0 ? fdir + "/nodir/f" : fdir + "/f" + std::to_string(k); }
static double tokV(const JV& t) { std::string k = t[0].s; double v = (double)t[1].i; return k == "i" ? v : k == "e" ? v / 8.0 : k == "t" ? v / 10.0 : k == "h" ? v * 1e20 : k == "m" ? v * 1e-12 : k == "v" ? v / 7.0 : INFTY * (v < 0 ? -1 : 1); }
static std::string tokS(double v) {
  std::ostringstream o; auto out = [&](const char* k, double i) { o << "[\"" << k << "\"," << (long)i << "]"; return o.str(); };
  if (v == std::floor(v) && std::fabs(v) < 1e9) return out("i", v); if (v * 8 == std::floor(v * 8) && std::fabs(v) < 1e8) return out("e", v * 8);
  double t = std::floor(v * 10 + 0.5); if (std::fabs(t) < 1e8 && t / 10.0 == v) return out("t", t); double w = std::floor(v * 7 + 0.5); if (std::fabs(w) < 1e8 && w / 7.0 == v) return out("v", w);
  double m = std::floor(v / 1e-12 + 0.5); if (std::fabs(m) < 1e6 && m * 1e-12 == v) return out("m", m); double h = std::floor(v / 1e20 + 0.5); if (std::fabs(h) < 1e6 && h * 1e20 == v) return out("h", h);
  o.precision(17); o << "[\"X " << v << "\",0]"; return o.str(); }
static std::string fileS(long k) {   // the content as lines of tokens
  std::ifstream f(fpath(k)); if (!f) return "[[[\"none\",0]]]"; Arr a; std::string ln; while (std::getline(f, ln)) { std::istringstream is(ln); std::string w; Arr r; while (is >> w) { char* e = 0; double v = strtod(w.c_str(), &e); if (*e) r.add("[\"w\",0]"); else r.add(tokS(v)); } a.add(r.end()); } return a.end(); }
static std::string matS(FILE* f) {   // level 4 variables
  Arr a; fflush(f); fseek(f, 0, SEEK_SET); int h[5]; while (fread(h, 4, 5, f) == 5) { std::ostringstream o; if (h[4] < 1 || h[4] > 100 || h[1] < 0 || h[2] < 0 || h[1] > 1000 || h[2] > 1000) { a.add("[\"badheader\"]"); break; }
    std::string n(h[4], 0); if ((int)fread(&n[0], 1, h[4], f) != h[4]) { a.add("[\"short\"]"); break; } bool z = n.back() == 0; n.resize(h[4] - 1); for (char& ch : n) if (!isalnum((unsigned char)ch) && ch != '_') ch = '?'; Arr d; bool ok = true; for (int i = 0; i < h[1] * h[2]; ++i) { double v; if (fread(&v, 8, 1, f) != 1) { ok = false; break; } d.add(tokS(v)); }
    if (!ok) { a.add("[\"short\"]"); break; } o << "[" << Q(n) << "," << h[0] << "," << h[1] << "," << h[2] << "," << h[3] << "," << (z ? 1 : 0) << "," << d.end() << "]"; a.add(o.str()); } fseek(f, 0, SEEK_END); return a.end(); }
static FILE* matf = 0;
static std::string stepFile(const JV& s) {
  static bool fresh = true; if (fresh) { fresh = false; for (long i = 0; i < 4; ++i) unlink(fpath(i).c_str()); }
  std::string op = s["op"].s; long k = s["f"].i; std::ostringstream o; int r = 0; std::string p = fpath(k); BooleanType ap = s.B("app", false) ? BT_TRUE : BT_FALSE;
  if (op == "wreal") { int R = s["r"].i, C = s["c"].i; real_t* d = new real_t[R * C]; for (int i = 0; i < R * C; ++i) d[i] = tokV(s["d"][i]); r = s.B("vec", false) ? REFER_NAMESPACE_QPOASES writeIntoFile(d, (int_t)C, p.c_str(), ap) : REFER_NAMESPACE_QPOASES writeIntoFile(d, (int_t)R, (int_t)C, p.c_str(), ap); delete[] d; }
  else if (op == "wint") { int C = s["d"].size(); int_t* d = new int_t[C]; for (int i = 0; i < C; ++i) d[i] = s["d"][i][1].i; r = REFER_NAMESPACE_QPOASES writeIntoFile(d, (int_t)C, p.c_str(), ap); delete[] d; }
  else if (op == "text") { std::ofstream f(p); for (size_t i = 0; i < s["lines"].size(); ++i) { for (size_t j = 0; j < s["lines"][i].size(); ++j) { const JV& t = s["lines"][i][j]; char b[64]; if (t[0].s == "w") snprintf(b, 64, "abc"); else if (t[0].s == "i") snprintf(b, 64, "%ld", t[1].i); else snprintf(b, 64, "%.17g", tokV(t)); f << b << (j % 2 ? "\t" : "  "); } f << "\n"; } }
  else if (op == "unlink") unlink(p.c_str());
  else if (op == "rreal") { int R = s["r"].i, C = s["c"].i; real_t* d = new real_t[R * C + 1]; for (int i = 0; i <= R * C; ++i) d[i] = 4444; r = s.B("vec", false) ? REFER_NAMESPACE_QPOASES readFromFile(d, (int_t)(R * C), p.c_str()) : REFER_NAMESPACE_QPOASES readFromFile(d, (int_t)R, (int_t)C, p.c_str()); Arr a; for (int i = 0; i < R * C; ++i) a.add(tokS(d[i])); o << ",\"d\":" << a.end() << ",\"over\":" << (d[R * C] == 4444 ? "false" : "true"); delete[] d; }
  else if (op == "rint") { int C = s["c"].i; int_t* d = new int_t[C + 1]; for (int i = 0; i <= C; ++i) d[i] = 4444; r = REFER_NAMESPACE_QPOASES readFromFile(d, (int_t)C, p.c_str()); Arr a; for (int i = 0; i < C; ++i) a.add(tokS(d[i])); o << ",\"d\":" << a.end() << ",\"over\":" << (d[C] == 4444 ? "false" : "true"); delete[] d; }
  else if (op == "mat") { if (!matf) matf = tmpfile(); int R = s["r"].i, C = s["c"].i; size_t N = s["d"].size(); std::string nm = s["name"].s; std::string bad = s["bad"].s; const char* np = bad == "name" ? 0 : nm.c_str(); FILE* fp = bad == "file" ? 0 : matf;
    if (s.B("int", false)) { int_t* d = new int_t[N + 1]; for (size_t i = 0; i < N; ++i) d[i] = s["d"][i][1].i; r = REFER_NAMESPACE_QPOASES writeIntoMatFile(fp, bad == "data" ? (int_t*)0 : d, (int_t)R, (int_t)C, np); delete[] d; }
    else { real_t* d = new real_t[N + 1]; for (size_t i = 0; i < N; ++i) d[i] = tokV(s["d"][i]); r = REFER_NAMESPACE_QPOASES writeIntoMatFile(fp, bad == "data" ? (real_t*)0 : d, (int_t)R, (int_t)C, np); delete[] d; }
    o << ",\"vars\":" << matS(matf); }
  else throw std::runtime_error("op " + op);
  if (op != "mat") o << ",\"file\":" << fileS(k); return "\"ret\":\"" + rn(r) + "\"" + o.str(); }
static std::string doStep(const JV& s) { if (s["adt"].s == "fn") return stepFn(s); std::string k = s["adt"].s; if (k == "idx") return stepIdx(s); if (k == "lim") return stepLim(s); if (k == "opt") return stepOpt(s); if (k == "file") return stepFile(s); if (k == "msg") return stepMsg(s); throw std::runtime_error("adt " + k); }
int main(int argc, char** argv) { MessageHandling* h = getGlobalMessageHandler(); (void)h; if (argc > 3) fdir = argv[3]; return forkLoop(argc, argv, doStep, [] { il.clear(); lm.clear(); os_.clear(); }); }
