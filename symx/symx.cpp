// symx - symbolic executor for the LLVM IR that rustc emits for a harness plus
// everything it links (the repository's crates, their dependencies, std).
//
//   symx prog.bc --entry h_foo [--jobs N] [--max-steps N] [--qtimeout ms]
//        [--max-paths N] [--time-limit s] [--concrete v,v,...] [--src-prefix P]
//
// Every value a harness obtains from sym_bits() is an SMT bit-vector constant.
// Branches on symbolic conditions fork the state when the solver says both sides
// are satisfiable; sym_assert() asks the solver for a violating assignment.
// Output: JSON lines on stdout, the last one {"summary":...}.
#include <llvm/ADT/DenseMap.h>
#include <llvm/Bitcode/BitcodeReader.h>
#include <llvm/Bitcode/BitcodeWriter.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/CFG.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfo.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/InstrTypes.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>

#include <z3.h>

#include <sys/mman.h>
#include <sys/wait.h>
#include <signal.h>
#include <unistd.h>

#include <algorithm>
#include <atomic>
#include <chrono>
#include <cmath>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>

using namespace llvm;
using std::map;
using std::set;
using std::shared_ptr;
using std::string;
using std::unordered_map;
using std::vector;
typedef unsigned __int128 u128;
typedef __int128 i128;
typedef Z3_ast Ast;

// ------------------------------------------------------------------ options
static uint64_t OPT_maxsteps = 20000000ull; // per path
static unsigned OPT_qtimeout = 20000;
static uint64_t OPT_maxpaths = 10000000ull;
static double OPT_time = 3600;
static unsigned OPT_jobs = 1;
static unsigned OPT_memmb = 3000; // per worker
static string OPT_entry, OPT_srcprefix = "/repo/";
static bool OPT_concrete = false;
static vector<uint64_t> OPT_vals;
static bool OPT_verbose = false;
static unsigned OPT_maxviol = 8;

static double now() {
  return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}
static double T0;

// ------------------------------------------------------------------ z3
static Z3_context Z;
static void zerr(Z3_context c, Z3_error_code e) {
  fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e));
  abort();
}
static unordered_map<unsigned, Z3_sort> bvsorts;
static Z3_sort BV(unsigned w) {
  auto &s = bvsorts[w];
  if (!s) s = Z3_mk_bv_sort(Z, w);
  return s;
}
static Z3_sort F32S, F64S;
static Ast RNE, RTZ, RTP, RTN;

static inline u128 maskw(u128 v, unsigned w) { return w >= 128 ? v : (v & ((((u128)1) << w) - 1)); }
static inline i128 sextw(u128 v, unsigned w) {
  if (w >= 128) return (i128)v;
  u128 m = ((u128)1) << (w - 1);
  v = maskw(v, w);
  return (i128)((v ^ m) - m);
}

// ------------------------------------------------------------------ values
struct Val {
  unsigned w = 0; // width in bits, 0 = none
  Ast e = nullptr; // symbolic: Bool sort when w==1, else BV(w)
  u128 c = 0;
  shared_ptr<vector<Val>> agg;
  Val() {}
  Val(unsigned w, u128 c) : w(w), c(maskw(c, w)) {}
  Val(unsigned w, Ast e) : w(w), e(e) {}
  bool sym() const { return e != nullptr; }
};
static Val mkagg(size_t n) {
  Val v;
  v.agg = std::make_shared<vector<Val>>(n);
  return v;
}

static Ast num(unsigned w, u128 c) {
  if (w <= 64) return Z3_mk_unsigned_int64(Z, (uint64_t)c, BV(w));
  return Z3_mk_concat(Z, Z3_mk_unsigned_int64(Z, (uint64_t)(c >> 64), BV(w - 64)),
                      Z3_mk_unsigned_int64(Z, (uint64_t)c, BV(64)));
}
static bool getnum(Ast a, u128 &out) {
  if (Z3_get_ast_kind(Z, a) != Z3_NUMERAL_AST) return false;
  uint64_t v;
  if (Z3_get_numeral_uint64(Z, a, &v)) {
    out = v;
    return true;
  }
  // wide numeral: parse decimal string
  const char *s = Z3_get_numeral_string(Z, a);
  u128 r = 0;
  for (; *s; ++s) {
    if (*s < '0' || *s > '9') return false;
    r = r * 10 + (*s - '0');
  }
  out = r;
  return true;
}
static Ast ast(const Val &v) {
  if (v.e) return v.e;
  if (v.w == 1) return v.c ? Z3_mk_true(Z) : Z3_mk_false(Z);
  return num(v.w, v.c);
}
// BV-sorted AST also for w==1
static Ast astbv(const Val &v) {
  if (v.w == 1 && v.e) return Z3_mk_ite(Z, v.e, num(1, 1), num(1, 0));
  if (v.w == 1) return num(1, v.c);
  return ast(v);
}
static Val mkbool(Ast b) {
  b = Z3_simplify(Z, b);
  Z3_lbool r = Z3_get_bool_value(Z, b);
  if (r == Z3_L_TRUE) return Val(1, (u128)1);
  if (r == Z3_L_FALSE) return Val(1, (u128)0);
  return Val(1, b);
}
static Val mkbv(unsigned w, Ast a) {
  if (w == 1) return mkbool(Z3_mk_eq(Z, a, num(1, 1)));
  a = Z3_simplify(Z, a);
  u128 c;
  if (getnum(a, c)) return Val(w, c);
  return Val(w, a);
}

// ------------------------------------------------------------------ memory
struct Cell {
  Ast e; // BV(8*n)
  unsigned n;
};
struct Data {
  vector<uint8_t> b;
  map<uint32_t, Cell> sym; // offset -> symbolic cell (non overlapping)
};
enum Kind : uint8_t { HEAP, STACK, GLOBAL, EXTRA };
struct Obj {
  uint64_t base, size;
  Kind kind;
  bool ro = false;
  shared_ptr<Data> d;
  Data &wr() {
    if (d.use_count() > 1) d = std::make_shared<Data>(*d);
    return *d;
  }
};

static void splitCell(Data &d, uint32_t off) {
  auto it = d.sym.find(off);
  Cell c = it->second;
  if (c.n == 1) return;
  d.sym.erase(it);
  for (unsigned i = 0; i < c.n; i++) {
    Ast b = Z3_simplify(Z, Z3_mk_extract(Z, 8 * i + 7, 8 * i, c.e));
    u128 k;
    if (getnum(b, k)) d.b[off + i] = (uint8_t)k;
    else d.sym[off + i] = Cell{b, 1};
  }
}
// make sure no cell straddles position p
static void cutAt(Data &d, uint32_t p) {
  if (d.sym.empty()) return;
  auto it = d.sym.lower_bound(p);
  if (it == d.sym.begin()) return;
  --it;
  if (it->first < p && it->first + it->second.n > p) splitCell(d, it->first);
}
static void clearSym(Data &d, uint32_t off, uint32_t n) {
  if (d.sym.empty()) return;
  cutAt(d, off);
  cutAt(d, off + n);
  auto a = d.sym.lower_bound(off), b = d.sym.lower_bound(off + n);
  d.sym.erase(a, b);
}

// ------------------------------------------------------------------ program info
struct Fn;
struct Op {
  int slot = -1;        // register slot
  const Val *k = nullptr; // constant
};
struct Inst {
  const Instruction *I;
  unsigned opc;
  bool atomic = false; // a point at which another thread may take over
  int dst = -1;
  vector<Op> ops;
};
struct Blk {
  const BasicBlock *B;
  vector<Inst> insts; // phis first
  unsigned nphi = 0;
  bool executed = false;
  Fn *fn;
};
struct Fn {
  const Function *F;
  unsigned nslots = 0;
  vector<std::unique_ptr<Blk>> blks;
  DenseMap<const BasicBlock *, Blk *> bmap;
  DenseMap<const Value *, int> slot;
  bool prepared = false;
  bool executed = false;
};

static LLVMContext LC;
static std::unique_ptr<Module> M;
static const DataLayout *DL;
static map<const Function *, std::unique_ptr<Fn>> fns;
static DenseMap<const Constant *, Val *> kcache;
static unordered_map<const GlobalValue *, uint64_t> gaddr;
static map<uint64_t, const Function *> faddr;
static map<uint64_t, const GlobalVariable *> gbybase;

struct Frame {
  Fn *fn;
  Blk *blk;
  unsigned pc;
  Blk *prev;
  vector<Val> regs;
  vector<uint64_t> allocas;
};

struct SymVar {
  unsigned w;
  Ast a;
};
static vector<SymVar> symvars; // global list by (index,width); shared by paths
static map<std::pair<unsigned, unsigned>, unsigned> symidx; // (position,width)->id

typedef vector<u128> Assign; // by symvar id

struct Thr {
  vector<Frame> stack; // of a thread that is not running
  map<uint64_t, uint64_t> keys;
  vector<Obj> tls; // its copies of thread-local globals
  bool done = false, granted = false;
  int join = -1; // waits for this thread
};

struct State {
  vector<Frame> stack;
  map<uint64_t, Obj> mem;
  vector<Ast> pc;
  vector<unsigned> inputs; // symvar ids in call order
  shared_ptr<Assign> model;
  uint64_t heapnext = 0x100000000ull, stacknext = 0x700000000000ull;
  uint64_t steps = 0;
  uint64_t clock = 1000;
  unsigned depth = 0;
  vector<Val> trace;
  bool expect_panic = false;
  uint64_t ncalls = 0;
  map<uint64_t, uint64_t> tls; // pthread keys
  uint64_t nextkey = 1;
  // threads: empty unless sym_spawn was called
  vector<Thr> thr;
  unsigned cur = 0;
  struct Pre {
    Val at;
    uint64_t to;
  };
  vector<Pre> pre; // preemptions still to come, in order
  unsigned npre = 0;
  uint64_t points = 0;
  // spec > 0: the solver could not tell whether this path is feasible. It is explored all the same (what holds on it
  // holds on a superset), but nothing is reported from it without a model. `model` is then meaningless.
  unsigned spec = 0;
};

// ------------------------------------------------------------------ stats / results
struct Stats {
  uint64_t paths_ok = 0, paths_panic_expected = 0, paths_assume = 0, paths_err = 0, steps = 0, forks = 0,
           queries = 0, qsat = 0, qunsat = 0, qunknown = 0, qcache = 0, switches = 0, speculated = 0, paths_spec = 0, asserts = 0, asserts_solver = 0,
           maxsteps_path = 0, states = 0, concretized = 0;
  double qtime = 0, qmax = 0;
} st;
static map<string, uint64_t> reach; // id -> count
static map<string, uint64_t> incomplete;
static set<string> violkeys;
static map<string, unsigned> violcount;
static map<string, uint64_t> assertmsgs;
static vector<string> samples;
static FILE *OUT;

static string jesc(const string &s) {
  string r = "\"";
  for (char ch : s) {
    unsigned char c = ch;
    if (c == '"' || c == '\\') {
      r += '\\';
      r += ch;
    } else if (c < 0x20) {
      char b[8];
      snprintf(b, 8, "\\u%04x", c);
      r += b;
    } else
      r += ch;
  }
  return r + "\"";
}
static string u128s(u128 v) {
  if (!v) return "0";
  string s;
  while (v) {
    s.insert(s.begin(), '0' + (int)(v % 10));
    v /= 10;
  }
  return s;
}

struct PathEnd {
  string why;
}; // thrown to end a path

// ------------------------------------------------------------------ solver
static unordered_map<Ast, shared_ptr<vector<unsigned>>> symsOf; // sorted symvar ids
static unordered_map<Ast, unsigned> symIdByAst;
static unordered_map<Ast, bool> fpMemo;
static bool sawFP = false;

static shared_ptr<vector<unsigned>> symsIn(Ast a) {
  auto it = symsOf.find(a);
  if (it != symsOf.end()) return it->second;
  set<unsigned> out;
  vector<Ast> wl{a};
  std::unordered_set<Ast> seen;
  bool fp = false;
  while (!wl.empty()) {
    Ast x = wl.back();
    wl.pop_back();
    if (!seen.insert(x).second) continue;
    auto f = symsOf.find(x);
    if (f != symsOf.end()) {
      out.insert(f->second->begin(), f->second->end());
      if (fpMemo[x]) fp = true;
      continue;
    }
    if (Z3_get_ast_kind(Z, x) != Z3_APP_AST) continue;
    Z3_app ap = Z3_to_app(Z, x);
    unsigned n = Z3_get_app_num_args(Z, ap);
    Z3_sort_kind sk = Z3_get_sort_kind(Z, Z3_get_sort(Z, x));
    if (sk == Z3_FLOATING_POINT_SORT) fp = true;
    if (n == 0) {
      auto s = symIdByAst.find(x);
      if (s != symIdByAst.end()) out.insert(s->second);
    }
    for (unsigned i = 0; i < n; i++) wl.push_back(Z3_get_app_arg(Z, ap, i));
  }
  auto v = std::make_shared<vector<unsigned>>(out.begin(), out.end());
  symsOf[a] = v;
  fpMemo[a] = fp;
  return v;
}

static Z3_model modelFor(const shared_ptr<Assign> &as) {
  static shared_ptr<Assign> last;
  static Z3_model lastm = nullptr;
  static size_t lastn = 0;
  if (last == as && lastm && lastn == as->size()) return lastm;
  Z3_model m = Z3_mk_model(Z);
  Z3_model_inc_ref(Z, m);
  for (size_t i = 0; i < as->size() && i < symvars.size(); i++)
    if ((*as)[i]) Z3_add_const_interp(Z, m, Z3_get_app_decl(Z, Z3_to_app(Z, symvars[i].a)), num(symvars[i].w, (*as)[i]));
  if (lastm) Z3_model_dec_ref(Z, lastm);
  last = as;
  lastm = m;
  lastn = as->size();
  return m;
}

static Ast evalIn(State &s, Ast e) {
  if (s.spec) return nullptr;
  Z3_model m = modelFor(s.model);
  Ast r = nullptr;
  if (!Z3_model_eval(Z, m, e, true, &r)) return nullptr;
  return r;
}
static int evalBool(State &s, Ast e) { // 1,0,-1 unknown
  Ast r = evalIn(s, e);
  if (!r) return -1;
  Z3_lbool b = Z3_get_bool_value(Z, r);
  return b == Z3_L_TRUE ? 1 : b == Z3_L_FALSE ? 0 : -1;
}
static bool evalBV(State &s, Ast e, u128 &out) {
  Ast r = evalIn(s, e);
  return r && getnum(r, out);
}

struct QRes {
  int sat; // 1 sat 0 unsat -1 unknown
  vector<std::pair<unsigned, u128>> vals;
};
static map<vector<unsigned>, QRes> qcache;
static Z3_solver solvBV, solvFP;

// Floating-point products and conversions are expensive to encode bit by bit. Replace each by a fresh variable
// constrained by facts that hold for every correctly rounded product (and truncation, and conversion of an
// integer): an over-approximation, so only "unsat" counts.
// A model of an over-approximation is a guess at a model of the real query.
static shared_ptr<Assign> guess;
static void guessFrom(Z3_solver sv, const vector<Ast> &as) {
  if (guess) return;
  Z3_model m = Z3_solver_get_model(Z, sv);
  Z3_model_inc_ref(Z, m);
  auto g = std::make_shared<Assign>();
  std::set<unsigned> ids;
  for (Ast a : as) {
    auto v = symsIn(a);
    ids.insert(v->begin(), v->end());
  }
  for (unsigned x : ids) {
    Ast v = nullptr;
    u128 c = 0;
    if (g->size() <= x) g->resize(x + 1, 0);
    if (Z3_model_eval(Z, m, symvars[x].a, true, &v) && getnum(v, c)) (*g)[x] = c;
  }
  Z3_model_dec_ref(Z, m);
  Z3_model gm = modelFor(g);
  for (Ast a : as) {
    Ast r = nullptr;
    if (!Z3_model_eval(Z, gm, a, true, &r) || Z3_get_bool_value(Z, r) != Z3_L_TRUE) return;
  }
  guess = g;
}
static bool unsatAbstracted(Z3_solver sv, const vector<Ast> &as, bool conversions) {
  vector<Ast> sbv, tofp;
  vector<Ast> muls, wl(as);
  std::unordered_set<Ast> seen;
  while (!wl.empty()) {
    Ast x = wl.back();
    wl.pop_back();
    if (Z3_get_ast_kind(Z, x) != Z3_APP_AST || !seen.insert(x).second) continue;
    Z3_app ap = Z3_to_app(Z, x);
    if (Z3_get_decl_kind(Z, Z3_get_app_decl(Z, ap)) == Z3_OP_FPA_MUL && Z3_get_app_num_args(Z, ap) == 3 &&
        Z3_get_app_arg(Z, ap, 0) == RNE)
      muls.push_back(x);
    else if (conversions && Z3_get_decl_kind(Z, Z3_get_app_decl(Z, ap)) == Z3_OP_FPA_TO_SBV && Z3_get_app_arg(Z, ap, 0) == RTZ)
      sbv.push_back(x);
    else if (conversions && Z3_get_decl_kind(Z, Z3_get_app_decl(Z, ap)) == Z3_OP_FPA_TO_FP && Z3_get_app_num_args(Z, ap) == 2 &&
             Z3_get_app_arg(Z, ap, 0) == RNE && Z3_get_sort_kind(Z, Z3_get_sort(Z, Z3_get_app_arg(Z, ap, 1))) == Z3_BV_SORT)
      tofp.push_back(x);
    for (unsigned i = 0, n = Z3_get_app_num_args(Z, ap); i < n; i++) wl.push_back(Z3_get_app_arg(Z, ap, i));
  }
  size_t nm = muls.size(), nall = nm + sbv.size() + tofp.size();
  if (!nall || nm > 8 || nall > 20 || (conversions && nall == nm)) return false;
  muls.insert(muls.end(), sbv.begin(), sbv.end());
  muls.insert(muls.end(), tofp.begin(), tofp.end());
  static map<Ast, Ast> fresh; // one variable per product, kept for reuse
  vector<Ast> to;
  for (Ast m : muls) {
    Ast &f = fresh[m];
    if (!f) {
      Z3_inc_ref(Z, m);
      f = Z3_mk_fresh_const(Z, "prod", Z3_get_sort(Z, m));
      Z3_inc_ref(Z, f);
    }
    to.push_back(f);
  }
  auto sub = [&](Ast a) { return Z3_substitute(Z, a, muls.size(), muls.data(), to.data()); };
  auto And = [](std::initializer_list<Ast> l) { return Z3_mk_and(Z, l.size(), l.begin()); };
  auto fin = [&](Ast x) { return Z3_mk_not(Z, Z3_mk_or(Z, 2, (Ast[]){Z3_mk_fpa_is_nan(Z, x), Z3_mk_fpa_is_infinite(Z, x)})); };
  auto le = [](Ast a, Ast b) { return Z3_mk_fpa_leq(Z, a, b); };
  Z3_solver_reset(Z, sv);
  for (Ast a : as) Z3_solver_assert(Z, sv, sub(a));
  struct P {
    Ast c, oc, x, r;
  };
  vector<P> ps;
  auto pow2 = [&](Z3_sort so, unsigned e, bool neg) { return Z3_mk_fpa_numeral_double(Z, neg ? -std::ldexp(1.0, e) : std::ldexp(1.0, e), so); };
  auto bvpow2 = [&](Z3_sort so, unsigned e, bool neg) {
    unsigned w = Z3_get_bv_sort_size(Z, so);
    u128 v = (u128)1 << e;
    return num(w, neg ? (u128)0 - v : v);
  };
  for (size_t i = nm; i < nm + sbv.size(); i++) { // truncation is monotone
    auto x = [&](size_t k) { return sub(Z3_get_app_arg(Z, Z3_to_app(Z, muls[k]), 1)); };
    Z3_sort bs = Z3_get_sort(Z, to[i]), so = Z3_get_sort(Z, x(i));
    unsigned w = Z3_get_bv_sort_size(Z, bs), prec = so == F32S ? 24 : 53;
    auto inr = [&](Ast v) { return And({le(pow2(so, w - 2, true), v), le(v, pow2(so, w - 2, false))}); };
    Ast xi = x(i), z = Z3_mk_fpa_zero(Z, so, false), zb = num(w, 0);
    Z3_solver_assert(Z, sv, Z3_mk_implies(Z, And({inr(xi), le(z, xi)}), Z3_mk_bvsle(Z, zb, to[i])));
    Z3_solver_assert(Z, sv, Z3_mk_implies(Z, And({inr(xi), le(xi, z)}), Z3_mk_bvsle(Z, to[i], zb)));
    Z3_solver_assert(Z, sv, Z3_mk_implies(Z, inr(xi), And({Z3_mk_bvsle(Z, to[i], bvpow2(bs, w - 2, false)), Z3_mk_bvsle(Z, bvpow2(bs, w - 2, true), to[i])})));
    for (unsigned k = 0; k + 1 < w; k++) { // magnitudes
      if (k > 66 && k + 2 < w) continue;
      Ast p = pow2(so, k, false), n = pow2(so, k, true);
      Z3_solver_assert(Z, sv, Z3_mk_implies(Z, inr(xi), And({Z3_mk_iff(Z, le(p, xi), Z3_mk_bvsle(Z, bvpow2(bs, k, false), to[i])),
                                                             Z3_mk_iff(Z, le(xi, n), Z3_mk_bvsle(Z, to[i], bvpow2(bs, k, true)))})));
    }
    for (size_t j = nm; j < nm + sbv.size(); j++) {
      Ast xj = x(j);
      if (i == j || Z3_get_sort(Z, xj) != so || Z3_get_sort(Z, to[j]) != bs) continue;
      Z3_solver_assert(Z, sv, Z3_mk_implies(Z, And({inr(xi), inr(xj), le(xi, xj)}), Z3_mk_bvsle(Z, to[i], to[j])));
    }
    for (size_t j = nm + sbv.size(); j < nall; j++) { // against an exactly converted integer
      Ast d = sub(Z3_get_app_arg(Z, Z3_to_app(Z, muls[j]), 1));
      unsigned wd = Z3_get_bv_sort_size(Z, Z3_get_sort(Z, d));
      if (Z3_get_sort(Z, to[j]) != so || wd > w) continue;
      Ast exact = inr(xi);
      if (wd < w) d = Z3_mk_sign_ext(Z, w - wd, d);
      if (wd > prec + 1) exact = And({exact, Z3_mk_bvsle(Z, bvpow2(bs, prec, true), d), Z3_mk_bvsle(Z, d, bvpow2(bs, prec, false))});
      // rounding is monotone: a float below the converted integer is below the integer
      Z3_solver_assert(Z, sv, Z3_mk_implies(Z, And({inr(xi), Z3_mk_fpa_lt(Z, xi, to[j])}), Z3_mk_bvsle(Z, to[i], d)));
      Z3_solver_assert(Z, sv, Z3_mk_implies(Z, And({inr(xi), Z3_mk_fpa_lt(Z, to[j], xi)}), Z3_mk_bvsle(Z, d, to[i])));
      Z3_solver_assert(Z, sv, Z3_mk_implies(Z, And({exact, le(xi, to[j])}), Z3_mk_bvsle(Z, to[i], d)));
      Z3_solver_assert(Z, sv, Z3_mk_implies(Z, And({exact, le(to[j], xi)}), Z3_mk_bvsle(Z, d, to[i])));
    }
  }
  for (size_t j = nm + sbv.size(); j < nall; j++) { // converted integers: finite, sign and magnitude kept, monotone
    auto arg = [&](size_t k) { return sub(Z3_get_app_arg(Z, Z3_to_app(Z, muls[k]), 1)); };
    Ast d = arg(j), f = to[j];
    Z3_sort bs = Z3_get_sort(Z, d), so = Z3_get_sort(Z, f);
    if (so != F64S && so != F32S) return false;
    unsigned w = Z3_get_bv_sort_size(Z, bs);
    if (w > 128) return false;
    Ast z = Z3_mk_fpa_zero(Z, so, false), zb = num(w, 0);
    if (w < 128 || so == F64S) Z3_solver_assert(Z, sv, And({le(pow2(so, w - 1, true), f), le(f, pow2(so, w - 1, false))}));
    if (w > 65)
      Z3_solver_assert(Z, sv, Z3_mk_implies(Z, And({Z3_mk_bvsle(Z, bvpow2(bs, 64, true), d), Z3_mk_bvsle(Z, d, bvpow2(bs, 64, false))}),
                                            And({le(pow2(so, 64, true), f), le(f, pow2(so, 64, false))})));
    Z3_solver_assert(Z, sv, Z3_mk_implies(Z, Z3_mk_bvsle(Z, zb, d), le(z, f)));
    Z3_solver_assert(Z, sv, Z3_mk_implies(Z, Z3_mk_bvsle(Z, d, zb), le(f, z)));
    Z3_solver_assert(Z, sv, Z3_mk_iff(Z, Z3_mk_eq(Z, d, zb), Z3_mk_fpa_is_zero(Z, f)));
    for (unsigned k = 0; k + 1 < w && k < 127; k++) {
      Z3_solver_assert(Z, sv, Z3_mk_ite(Z, Z3_mk_bvsle(Z, bvpow2(bs, k, false), d), le(pow2(so, k, false), f), le(f, pow2(so, k, false))));
      Z3_solver_assert(Z, sv, Z3_mk_ite(Z, Z3_mk_bvsle(Z, d, bvpow2(bs, k, true)), le(f, pow2(so, k, true)), le(pow2(so, k, true), f)));
    }
    for (size_t k = nm + sbv.size(); k < nall; k++)
      if (k != j && Z3_get_sort(Z, arg(k)) == bs && Z3_get_sort(Z, to[k]) == so)
        Z3_solver_assert(Z, sv, Z3_mk_implies(Z, Z3_mk_bvsle(Z, d, arg(k)), le(f, to[k])));
  }
  for (size_t i = 0; i < nm; i++)
    for (int o = 0; o < 2; o++) {
      Z3_app ap = Z3_to_app(Z, muls[i]);
      Ast c = Z3_get_app_arg(Z, ap, 1 + o), x = Z3_get_app_arg(Z, ap, 2 - o);
      ps.push_back({sub(c), c, sub(x), to[i]});
    }
  for (size_t i = 0; i < ps.size(); i++) {
    P &p = ps[i];
    Z3_sort so = Z3_get_sort(Z, p.c);
    Ast zero = Z3_mk_fpa_zero(Z, so, false), one = Z3_mk_fpa_numeral_double(Z, 1.0, so);
    Ast f = And({fin(p.c), fin(p.x)});
    Ast unit = And({f, le(zero, p.x), le(p.x, one)});
    // a factor below one makes a number of at least one smaller
    Ast below = And({f, le(zero, p.x), Z3_mk_fpa_lt(Z, p.x, one)});
    Z3_solver_assert(Z, sv, Z3_mk_implies(Z, And({below, le(one, p.c)}), Z3_mk_fpa_lt(Z, p.r, p.c)));
    Z3_solver_assert(Z, sv, Z3_mk_implies(Z, And({below, le(p.c, Z3_mk_fpa_neg(Z, one))}), Z3_mk_fpa_lt(Z, p.c, p.r)));
    Z3_solver_assert(Z, sv, Z3_mk_implies(Z, And({unit, le(zero, p.c)}), And({le(zero, p.r), le(p.r, p.c)})));
    Z3_solver_assert(Z, sv, Z3_mk_implies(Z, And({unit, le(p.c, zero)}), And({le(p.c, p.r), le(p.r, zero)})));
    Z3_solver_assert(Z, sv, Z3_mk_implies(Z, And({f, Z3_mk_fpa_eq(Z, p.x, one)}), Z3_mk_fpa_eq(Z, p.r, p.c)));
    Z3_solver_assert(Z, sv, Z3_mk_implies(Z, And({f, Z3_mk_fpa_is_zero(Z, p.x)}), Z3_mk_fpa_is_zero(Z, p.r)));
    for (size_t j = 0; j < ps.size(); j++)
      if (i != j && p.oc == ps[j].oc && p.r != ps[j].r) {
        Ast pre = And({f, fin(ps[j].x), le(p.x, ps[j].x)});
        Z3_solver_assert(Z, sv, Z3_mk_implies(Z, And({pre, le(zero, p.c)}), le(p.r, ps[j].r)));
        Z3_solver_assert(Z, sv, Z3_mk_implies(Z, And({pre, le(p.c, zero)}), le(ps[j].r, p.r)));
      }
  }
  Z3_lbool r = Z3_solver_check(Z, sv);
  if (r == Z3_L_TRUE) guessFrom(sv, as);
  if (getenv("SYMX_ABSDBG")) {
    fprintf(stderr, "abs conv=%d %d(-1 unsat, 0 unknown) prods=%zu sbv=%zu tofp=%zu\n", conversions, (int)r, nm, sbv.size(), tofp.size());
    if (r == Z3_L_TRUE) {
      fprintf(stderr, "%s\n", Z3_model_to_string(Z, Z3_solver_get_model(Z, sv)));
      for (size_t i = 0; i < nall; i++) fprintf(stderr, "%s := %s\n", strdup(Z3_ast_to_string(Z, to[i])), strdup(Z3_ast_to_string(Z, muls[i])));
      for (Ast a : as) fprintf(stderr, "ASSERT %s\n", Z3_ast_to_string(Z, a));
    }
  }
  return r == Z3_L_FALSE;
}
#include "intmul.inc"
static void setTimeout(Z3_solver sv, unsigned ms) {
  Z3_params ps = Z3_mk_params(Z);
  Z3_params_inc_ref(Z, ps);
  Z3_params_set_uint(Z, ps, Z3_mk_string_symbol(Z, "timeout"), ms);
  Z3_solver_set_params(Z, sv, ps);
  Z3_params_dec_ref(Z, ps);
}
static double queryEnd; // a query's stages share its time
static unsigned msLeft() {
  double l = std::min(queryEnd, T0 + OPT_time + 2) - now();
  return l < 0.2 ? 200 : (unsigned)(l * 1000);
}
static void maybeShare();
static QRes query(State &s, Ast extra, unsigned limit = 0) {
  // independence slice
  auto es = symsIn(extra);
  bool fp = fpMemo[extra];
  std::set<unsigned> need(es->begin(), es->end());
  vector<Ast> sel;
  vector<bool> taken(s.pc.size(), false);
  bool ch = true;
  if (s.spec) // no model: nothing may be left out
    for (Ast a : s.pc) {
      auto cs = symsIn(a);
      need.insert(cs->begin(), cs->end());
      if (fpMemo[a]) fp = true;
      sel.push_back(a);
      ch = false;
    }
  while (ch) {
    ch = false;
    for (size_t i = 0; i < s.pc.size(); i++)
      if (!taken[i]) {
        auto cs = symsIn(s.pc[i]);
        bool hit = false;
        for (unsigned x : *cs)
          if (need.count(x)) {
            hit = true;
            break;
          }
        if (hit) {
          taken[i] = true;
          ch = true;
          sel.push_back(s.pc[i]);
          if (fpMemo[s.pc[i]]) fp = true;
          need.insert(cs->begin(), cs->end());
        }
      }
  }
  vector<unsigned> key;
  for (Ast a : sel) key.push_back(Z3_get_ast_id(Z, a));
  std::sort(key.begin(), key.end());
  key.push_back(Z3_get_ast_id(Z, extra));
  auto it = qcache.find(key);
  if (it != qcache.end()) {
    st.qcache++;
    return it->second;
  }
  Z3_solver sv = fp ? solvFP : solvBV;
  Z3_solver_reset(Z, sv);
  for (Ast a : sel) Z3_solver_assert(Z, sv, a);
  Z3_solver_assert(Z, sv, extra);
  maybeShare();
  double t = now();
  queryEnd = t + (limit ? std::min(limit, OPT_qtimeout) : OPT_qtimeout) / 1000.0;
  Z3_lbool r = Z3_L_UNDEF;
  guess = nullptr;
  if (fp) {
    vector<Ast> all(sel);
    all.push_back(extra);
    setTimeout(sv, msLeft());
    if (unsatAbstracted(sv, all, true)) r = Z3_L_FALSE;
    else if (!guess && unsatAbstracted(sv, all, false)) r = Z3_L_FALSE;
    else if (guess) r = Z3_L_TRUE;
    else {
      Z3_solver_reset(Z, sv);
      for (Ast a : all) Z3_solver_assert(Z, sv, a);
    }
  }
  if (r == Z3_L_UNDEF && !fp) {
    vector<Ast> all(sel);
    all.push_back(extra);
    if (hasIntProduct(all)) {
      setTimeout(sv, std::min(2000u, msLeft()));
      r = Z3_solver_check(Z, sv);
      if (r == Z3_L_UNDEF) {
        setTimeout(sv, msLeft());
        if (unsatIntProducts(sv, all)) r = Z3_L_FALSE;
        else if (guess) r = Z3_L_TRUE;
        else {
          Z3_solver_reset(Z, sv);
          for (Ast a : all) Z3_solver_assert(Z, sv, a);
        }
      }
    }
  }
  if (r == Z3_L_UNDEF) {
    setTimeout(sv, msLeft());
    r = Z3_solver_check(Z, sv);
  }
  t = now() - t;
  if (r == Z3_L_UNDEF)
    if (const char *d = getenv("SYMX_DUMP")) {
      static int n;
      std::ofstream f(string(d) + "/q" + std::to_string(getpid()) + "_" + std::to_string(n++) + ".smt2");
      f << Z3_solver_to_string(Z, sv) << "(check-sat)\n";
    }
  st.qtime += t;
  if (t > st.qmax) st.qmax = t;
  st.queries++;
  QRes q;
  if (r == Z3_L_TRUE) {
    q.sat = 1;
    st.qsat++;
    if (guess) {
      for (unsigned x : need) q.vals.push_back({x, x < guess->size() ? (*guess)[x] : 0});
      guess = nullptr;
    } else {
      Z3_model m = Z3_solver_get_model(Z, sv);
      Z3_model_inc_ref(Z, m);
      for (unsigned x : need) {
        Ast v = nullptr;
        u128 c = 0;
        if (Z3_model_eval(Z, m, symvars[x].a, true, &v) && getnum(v, c)) q.vals.push_back({x, c});
      }
      Z3_model_dec_ref(Z, m);
    }
  } else if (r == Z3_L_FALSE) {
    q.sat = 0;
    st.qunsat++;
  } else {
    q.sat = -1;
    if (limit) st.speculated++;
    else st.qunknown++;
  }
  if (q.sat >= 0 || !limit) qcache[key] = q;
  return q;
}
static shared_ptr<Assign> merged(State &s, const QRes &q) {
  auto a = std::make_shared<Assign>(*s.model);
  for (auto &p : q.vals) {
    if (a->size() <= p.first) a->resize(p.first + 1, 0);
    (*a)[p.first] = p.second;
  }
  return a;
}

// ------------------------------------------------------------------ violations
static string demname(const Function *F) {
  string n = demangle(F->getName().str());
  // strip ::h<hash>
  size_t p = n.rfind("::h");
  if (p != string::npos && n.size() - p == 19) n = n.substr(0, p);
  return n;
}
static string locOf(const Instruction *I) {
  const DebugLoc &d = I->getDebugLoc();
  if (!d) return "";
  string r;
  for (const DILocation *l = d.get(); l; l = l->getInlinedAt()) {
    if (!r.empty()) r += " < ";
    r += l->getFilename().str() + ":" + std::to_string(l->getLine());
    if (r.size() > 600) break;
  }
  return r;
}
// innermost location inside the repository (or harness), for keys and reports
static string repoLoc(State &s) {
  for (size_t i = s.stack.size(); i-- > 0;) {
    Frame &f = s.stack[i];
    const Instruction *I = f.blk->insts[f.pc < f.blk->insts.size() ? f.pc : f.blk->insts.size() - 1].I;
    const DebugLoc &d = I->getDebugLoc();
    if (!d) continue;
    for (const DILocation *l = d.get(); l; l = l->getInlinedAt()) {
      string fn = l->getFilename().str();
      string dir = l->getDirectory().str();
      string full = (!fn.empty() && fn[0] == '/') ? fn : dir + "/" + fn;
      if (full.rfind(OPT_srcprefix, 0) == 0) return full.substr(OPT_srcprefix.size()) + ":" + std::to_string(l->getLine());
    }
  }
  return "";
}
static string stackOf(State &s) {
  string r;
  for (size_t i = s.stack.size(); i-- > 0;) {
    Frame &f = s.stack[i];
    const Instruction *I = f.blk->insts[f.pc < f.blk->insts.size() ? f.pc : f.blk->insts.size() - 1].I;
    if (!r.empty()) r += " | ";
    r += demname(f.fn->F) + " @ " + locOf(I);
    if (r.size() > 4000) break;
  }
  return r;
}
static string inputsJson(State &s, const Assign &a) {
  string r = "[";
  for (size_t i = 0; i < s.inputs.size(); i++) {
    unsigned id = s.inputs[i];
    u128 v = id < a.size() ? a[id] : 0;
    if (i) r += ",";
    r += u128s(v);
  }
  return r + "]";
}
static void report(State &s, const string &kind, const string &msg, const Assign &a) {
  string loc = repoLoc(s);
  string key = kind + "|" + msg + "|" + loc;
  if (violcount[key]++ >= OPT_maxviol) return;
  fprintf(OUT, "{\"violation\":{\"kind\":%s,\"msg\":%s,\"loc\":%s,\"inputs\":%s,\"stack\":%s}}\n", jesc(kind).c_str(),
          jesc(msg).c_str(), jesc(loc).c_str(), inputsJson(s, a).c_str(), jesc(stackOf(s)).c_str());
  fflush(OUT);
}
static unsigned limitcount = 0;
[[noreturn]] static void incompl(State &s, const string &msg);
// gives a speculative state its model; ends the path when there is none
static void confirmState(State &s, const char *what) {
  if (!s.spec) return;
  QRes q = query(s, Z3_mk_true(Z));
  if (q.sat == 0) throw PathEnd{"infeasible"};
  if (q.sat < 0) incompl(s, string("solver unknown (") + what + ")");
  s.model = merged(s, q);
  s.spec = 0;
}
[[noreturn]] static void fail(State &s, const string &kind, const string &msg) {
  confirmState(s, "failure");
  report(s, kind, msg, *s.model);
  st.paths_err++;
  throw PathEnd{"violation"};
}
[[noreturn]] static void incompl(State &s, const string &msg) {
  incomplete[msg]++;
  if (msg == "step limit per path" && !s.spec && limitcount++ < 3) {
    fprintf(OUT, "{\"limit\":{\"inputs\":%s,\"stack\":%s}}\n", inputsJson(s, *s.model).c_str(), jesc(stackOf(s)).c_str());
    fflush(OUT);
  }
  if (OPT_verbose) fprintf(stderr, "incomplete: %s at %s\n", msg.c_str(), stackOf(s).c_str());
  throw PathEnd{"incomplete"};
}

// ------------------------------------------------------------------ worklist
static vector<State> work;
static void pushState(State &&s) { work.push_back(std::move(s)); }

static void addPC(State &s, Ast c) {
  s.pc.push_back(c);
}
static Ast mkNot(Ast c) { return Z3_simplify(Z, Z3_mk_not(Z, c)); }

// Decide a symbolic Bool for state s. Returns the side taken by s (1/0); if the
// other side is feasible too, `other` gets the forked state (with its pc/model).
static const unsigned MAXSPEC = 12;
static unsigned branchLimit() { return std::max(3000u, std::min(15000u, OPT_qtimeout / 4)); }
static int decide(State &s, Ast c, bool &forked, State &other) {
  forked = false;
  int side = evalBool(s, c);
  if (side < 0) {
    if (s.spec > MAXSPEC) incompl(s, "solver unknown (branch)");
    QRes q = query(s, c, branchLimit());
    if (q.sat == 1) {
      s.model = merged(s, q);
      s.spec = 0;
      side = 1;
    } else if (q.sat == 0)
      side = 0; // as far as it is feasible at all
    else { // both ways, unless the other is impossible
      QRes q2 = query(s, mkNot(c), branchLimit());
      if (q2.sat == 0) return 1;
      forked = true;
      st.forks++;
      other = s;
      other.depth++;
      other.spec++;
      if (q2.sat == 1) {
        other.model = merged(s, q2);
        other.spec = 0;
      }
      addPC(other, mkNot(c));
      addPC(s, c);
      s.depth++;
      s.spec++;
      return 1;
    }
    if (side == 0 && s.spec) {
      addPC(s, mkNot(c));
      return 0;
    }
  }
  Ast same = side ? c : mkNot(c), opp = side ? mkNot(c) : c;
  QRes q = query(s, opp, branchLimit());
  if (q.sat != 0) {
    forked = true;
    st.forks++;
    other = s;
    other.depth++;
    if (q.sat == 1) other.model = merged(s, q);
    else other.spec = 1;
    addPC(other, opp);
    addPC(s, same);
    s.depth++;
  }
  return side;
}

// ------------------------------------------------------------------ constants
static uint64_t globalAddr(const GlobalValue *g) {
  auto it = gaddr.find(g);
  if (it == gaddr.end()) {
    if (auto *ga = dyn_cast<GlobalAlias>(g)) return globalAddr(cast<GlobalValue>(ga->getAliasee()->stripPointerCasts()));
    fprintf(stderr, "no address for %s\n", g->getName().str().c_str());
    abort();
  }
  return it->second;
}
static unsigned typeBits(Type *T) {
  if (T->isPointerTy()) return 64;
  if (T->isFloatTy()) return 32;
  if (T->isDoubleTy()) return 64;
  if (T->isIntegerTy()) return T->getIntegerBitWidth();
  if (T->isHalfTy()) return 16;
  return 0;
}
static Val zeroVal(Type *T, bool undef = false) {
  if (unsigned w = typeBits(T)) return Val(w, (u128)0);
  if (auto *S = dyn_cast<StructType>(T)) {
    Val v = mkagg(S->getNumElements());
    for (unsigned i = 0; i < S->getNumElements(); i++) (*v.agg)[i] = zeroVal(S->getElementType(i));
    return v;
  }
  if (auto *A = dyn_cast<ArrayType>(T)) {
    Val v = mkagg(A->getNumElements());
    for (auto &x : *v.agg) x = zeroVal(A->getElementType());
    return v;
  }
  if (auto *V = dyn_cast<FixedVectorType>(T)) {
    Val v = mkagg(V->getNumElements());
    for (auto &x : *v.agg) x = zeroVal(V->getElementType());
    return v;
  }
  return Val();
}
static const Val &constVal(const Constant *C);
static Val evalConst(const Constant *C);
static u128 apToU(const APInt &a) {
  u128 r = a.extractBitsAsZExtValue(std::min(64u, a.getBitWidth()), 0);
  if (a.getBitWidth() > 64) r |= ((u128)a.extractBitsAsZExtValue(a.getBitWidth() - 64, 64)) << 64;
  return r;
}
static Val evalConst(const Constant *C) {
  Type *T = C->getType();
  if (auto *I = dyn_cast<ConstantInt>(C)) return Val(I->getBitWidth(), apToU(I->getValue()));
  if (auto *F = dyn_cast<ConstantFP>(C)) return Val(typeBits(T), apToU(F->getValueAPF().bitcastToAPInt()));
  if (isa<ConstantPointerNull>(C)) return Val(64, (u128)0);
  if (isa<UndefValue>(C) || isa<ConstantAggregateZero>(C)) return zeroVal(T);
  if (auto *G = dyn_cast<GlobalValue>(C)) return Val(64, (u128)globalAddr(G));
  if (auto *D = dyn_cast<ConstantDataSequential>(C)) {
    Val v = mkagg(D->getNumElements());
    for (unsigned i = 0; i < D->getNumElements(); i++) (*v.agg)[i] = evalConst(D->getElementAsConstant(i));
    return v;
  }
  if (auto *A = dyn_cast<ConstantAggregate>(C)) {
    Val v = mkagg(A->getNumOperands());
    for (unsigned i = 0; i < A->getNumOperands(); i++) (*v.agg)[i] = evalConst(A->getOperand(i));
    return v;
  }
  if (auto *E = dyn_cast<ConstantExpr>(C)) {
    switch (E->getOpcode()) {
    case Instruction::GetElementPtr: {
      auto *G = cast<GEPOperator>(E);
      APInt off(64, 0);
      if (!G->accumulateConstantOffset(*DL, off)) {
        fprintf(stderr, "gep constexpr\n");
        abort();
      }
      Val b = evalConst(E->getOperand(0));
      return Val(64, b.c + (u128)off.getZExtValue());
    }
    case Instruction::PtrToInt:
    case Instruction::IntToPtr:
    case Instruction::Trunc:
    case Instruction::ZExt:
      return Val(typeBits(T), evalConst(E->getOperand(0)).c);
    case Instruction::BitCast:
    case Instruction::AddrSpaceCast:
      return evalConst(E->getOperand(0));
    case Instruction::Add:
      return Val(typeBits(T), evalConst(E->getOperand(0)).c + evalConst(E->getOperand(1)).c);
    case Instruction::Sub:
      return Val(typeBits(T), evalConst(E->getOperand(0)).c - evalConst(E->getOperand(1)).c);
    case Instruction::And:
      return Val(typeBits(T), evalConst(E->getOperand(0)).c & evalConst(E->getOperand(1)).c);
    case Instruction::Or:
      return Val(typeBits(T), evalConst(E->getOperand(0)).c | evalConst(E->getOperand(1)).c);
    case Instruction::ICmp: {
      u128 a = evalConst(E->getOperand(0)).c, b = evalConst(E->getOperand(1)).c;
      bool r = false;
      switch (E->getPredicate()) {
      case CmpInst::ICMP_EQ: r = a == b; break;
      case CmpInst::ICMP_NE: r = a != b; break;
      case CmpInst::ICMP_ULT: r = a < b; break;
      case CmpInst::ICMP_UGT: r = a > b; break;
      default: fprintf(stderr, "icmp constexpr\n"); abort();
      }
      return Val(1, (u128)r);
    }
    default:
      break;
    }
    string s;
    raw_string_ostream os(s);
    C->print(os);
    fprintf(stderr, "unsupported constexpr %s\n", s.c_str());
    abort();
  }
  string s;
  raw_string_ostream os(s);
  C->print(os);
  fprintf(stderr, "unsupported const %s\n", s.c_str());
  abort();
}
static const Val &constVal(const Constant *C) {
  Val *&p = kcache[C];
  if (!p) p = new Val(evalConst(C));
  return *p;
}
// write a constant initialiser into bytes
static void initBytes(const Constant *C, uint8_t *p) {
  Type *T = C->getType();
  if (isa<UndefValue>(C) || isa<ConstantAggregateZero>(C) || isa<ConstantPointerNull>(C)) return;
  if (auto *D = dyn_cast<ConstantDataSequential>(C)) {
    StringRef r = D->getRawDataValues();
    memcpy(p, r.data(), r.size());
    return;
  }
  if (auto *S = dyn_cast<ConstantStruct>(C)) {
    const StructLayout *L = DL->getStructLayout(S->getType());
    for (unsigned i = 0; i < S->getNumOperands(); i++) initBytes(S->getOperand(i), p + L->getElementOffset(i));
    return;
  }
  if (auto *A = dyn_cast<ConstantArray>(C)) {
    uint64_t es = DL->getTypeAllocSize(A->getType()->getElementType());
    for (unsigned i = 0; i < A->getNumOperands(); i++) initBytes(A->getOperand(i), p + es * i);
    return;
  }
  Val v = evalConst(C);
  unsigned n = (unsigned)DL->getTypeStoreSize(T);
  if (v.agg) {
    fprintf(stderr, "vector global init\n");
    abort();
  }
  u128 c = v.c;
  memcpy(p, &c, n);
}

// ------------------------------------------------------------------ object access
static vector<uint64_t> tlsAddrs; // thread-local globals
// Threads run one at a time; atomic instructions are the points at which another one may take over.
static bool isSchedPoint(const Instruction &I) {
  if (auto *L = dyn_cast<LoadInst>(&I)) return L->isAtomic() && L->getOrdering() != AtomicOrdering::Unordered;
  if (auto *S = dyn_cast<StoreInst>(&I)) return S->isAtomic() && S->getOrdering() != AtomicOrdering::Unordered;
  return isa<AtomicRMWInst>(I) || isa<AtomicCmpXchgInst>(I) || isa<FenceInst>(I);
}
static Obj *findObj(State &s, uint64_t addr) {
  auto it = s.mem.upper_bound(addr);
  if (it != s.mem.begin()) {
    --it;
    Obj &o = it->second;
    if (addr >= o.base && addr < o.base + o.size) return &o;
  }
  // lazily materialise a global
  auto g = gbybase.upper_bound(addr);
  if (g != gbybase.begin()) {
    --g;
    const GlobalVariable *gv = g->second;
    uint64_t sz = std::max<uint64_t>(1, DL->getTypeAllocSize(gv->getValueType()));
    if (addr >= g->first && addr < g->first + sz && !s.mem.count(g->first)) {
      static unordered_map<const GlobalVariable *, shared_ptr<Data>> init;
      auto &d = init[gv];
      if (!d) {
        d = std::make_shared<Data>();
        d->b.assign(sz, 0);
        if (gv->hasInitializer()) initBytes(gv->getInitializer(), d->b.data());
      }
      Obj o;
      o.base = g->first;
      o.size = sz;
      o.kind = GLOBAL;
      o.ro = gv->isConstant();
      o.d = d;
      auto r = s.mem.emplace(o.base, o);
      return &r.first->second;
    }
  }
  return nullptr;
}
static Obj *access(State &s, uint64_t addr, uint64_t n, bool write, const char *what) {
  Obj *o = findObj(s, addr);
  if (!o || addr + n > o->base + o->size) {
    char b[160];
    if (addr < 4096) snprintf(b, sizeof b, "%s of %llu bytes at null-ish pointer", what, (unsigned long long)n);
    else if (o) snprintf(b, sizeof b, "%s of %llu bytes runs past its object", what, (unsigned long long)n);
    else snprintf(b, sizeof b, "%s of %llu bytes outside any live object", what, (unsigned long long)n);
    fail(s, "memory", b);
  }
  if (write && o->ro) fail(s, "memory", "write to constant memory");
  return o;
}
static void storeScalar(State &s, uint64_t addr, const Val &v, unsigned nbytes) {
  Obj *o = access(s, addr, nbytes, true, "store");
  Data &d = o->wr();
  uint32_t off = addr - o->base;
  clearSym(d, off, nbytes);
  if (!v.sym()) {
    u128 c = v.c;
    memcpy(&d.b[off], &c, nbytes);
  } else {
    Ast e = astbv(v);
    if (v.w < nbytes * 8) e = Z3_mk_zero_ext(Z, nbytes * 8 - v.w, e);
    d.sym[off] = Cell{e, nbytes};
  }
}
static Val loadScalar(State &s, uint64_t addr, unsigned w, unsigned nbytes) {
  Obj *o = access(s, addr, nbytes, false, "load");
  const Data *d = o->d.get();
  uint32_t off = addr - o->base;
  bool anysym = false;
  if (!d->sym.empty()) {
    auto it = d->sym.lower_bound(off);
    if (it != d->sym.end() && it->first < off + nbytes) anysym = true;
    else if (it != d->sym.begin()) {
      --it;
      if (it->first + it->second.n > off) anysym = true;
    }
  }
  if (!anysym) {
    u128 c = 0;
    memcpy(&c, &d->b[off], nbytes);
    return Val(w, c);
  }
  auto it = d->sym.find(off);
  Ast e = nullptr;
  if (it != d->sym.end() && it->second.n == nbytes) e = it->second.e;
  else {
    // assemble from bytes
    for (unsigned i = 0; i < nbytes; i++) {
      Ast b;
      auto jt = d->sym.upper_bound(off + i);
      bool found = false;
      if (jt != d->sym.begin()) {
        --jt;
        if (jt->first + jt->second.n > off + i) {
          unsigned k = off + i - jt->first;
          b = Z3_mk_extract(Z, 8 * k + 7, 8 * k, jt->second.e);
          found = true;
        }
      }
      if (!found) b = num(8, d->b[off + i]);
      e = e ? Z3_mk_concat(Z, b, e) : b;
    }
  }
  if (w < nbytes * 8) e = Z3_mk_extract(Z, w - 1, 0, e);
  return mkbv(w, e);
}
static void storeVal(State &s, uint64_t addr, const Val &v, Type *T) {
  if (typeBits(T)) {
    storeScalar(s, addr, v, (unsigned)DL->getTypeStoreSize(T));
    return;
  }
  if (auto *V = dyn_cast<FixedVectorType>(T)) {
    unsigned eb = typeBits(V->getElementType());
    if (eb % 8) { // <N x i1> etc: pack
      u128 acc = 0;
      Ast e = nullptr;
      bool sym = false;
      for (auto &x : *v.agg) sym |= x.sym();
      unsigned n = v.agg->size();
      if (!sym) {
        for (unsigned i = 0; i < n; i++) acc |= (*v.agg)[i].c << (i * eb);
        storeScalar(s, addr, Val(n * eb, acc), (unsigned)DL->getTypeStoreSize(T));
      } else {
        for (unsigned i = 0; i < n; i++) {
          Ast b = astbv((*v.agg)[i]);
          e = e ? Z3_mk_concat(Z, b, e) : b;
        }
        storeScalar(s, addr, mkbv(n * eb, e), (unsigned)DL->getTypeStoreSize(T));
      }
      return;
    }
    for (unsigned i = 0; i < v.agg->size(); i++) storeScalar(s, addr + i * eb / 8, (*v.agg)[i], eb / 8);
    return;
  }
  if (auto *S = dyn_cast<StructType>(T)) {
    const StructLayout *L = DL->getStructLayout(S);
    for (unsigned i = 0; i < S->getNumElements(); i++)
      storeVal(s, addr + L->getElementOffset(i), (*v.agg)[i], S->getElementType(i));
    return;
  }
  if (auto *A = dyn_cast<ArrayType>(T)) {
    uint64_t es = DL->getTypeAllocSize(A->getElementType());
    for (unsigned i = 0; i < A->getNumElements(); i++) storeVal(s, addr + es * i, (*v.agg)[i], A->getElementType());
    return;
  }
  incompl(s, "store of unsupported type");
}
static Val loadVal(State &s, uint64_t addr, Type *T) {
  if (unsigned w = typeBits(T)) return loadScalar(s, addr, w, (unsigned)DL->getTypeStoreSize(T));
  if (auto *V = dyn_cast<FixedVectorType>(T)) {
    unsigned eb = typeBits(V->getElementType());
    unsigned n = V->getNumElements();
    Val r = mkagg(n);
    if (eb % 8) {
      Val p = loadScalar(s, addr, n * eb, (unsigned)DL->getTypeStoreSize(T));
      for (unsigned i = 0; i < n; i++)
        (*r.agg)[i] = p.sym() ? mkbv(eb, Z3_mk_extract(Z, i * eb + eb - 1, i * eb, p.e)) : Val(eb, p.c >> (i * eb));
      return r;
    }
    for (unsigned i = 0; i < n; i++) (*r.agg)[i] = loadScalar(s, addr + i * eb / 8, eb, eb / 8);
    return r;
  }
  if (auto *S = dyn_cast<StructType>(T)) {
    Val r = mkagg(S->getNumElements());
    const StructLayout *L = DL->getStructLayout(S);
    for (unsigned i = 0; i < S->getNumElements(); i++)
      (*r.agg)[i] = loadVal(s, addr + L->getElementOffset(i), S->getElementType(i));
    return r;
  }
  if (auto *A = dyn_cast<ArrayType>(T)) {
    Val r = mkagg(A->getNumElements());
    uint64_t es = DL->getTypeAllocSize(A->getElementType());
    for (unsigned i = 0; i < A->getNumElements(); i++) (*r.agg)[i] = loadVal(s, addr + es * i, A->getElementType());
    return r;
  }
  incompl(s, "load of unsupported type");
}
static uint64_t allocObj(State &s, uint64_t size, uint64_t align, Kind k, uint8_t fill) {
  if (align < 16) align = 16;
  uint64_t &nx = k == STACK ? s.stacknext : s.heapnext;
  nx = (nx + align - 1) & ~(align - 1);
  Obj o;
  o.base = nx;
  o.size = size ? size : 1;
  o.kind = k;
  o.d = std::make_shared<Data>();
  o.d->b.assign(o.size, fill);
  nx += o.size + 32;
  s.mem.emplace(o.base, o);
  return o.base;
}
static void memCopy(State &s, uint64_t dst, uint64_t src, uint64_t n) {
  if (!n || dst == src) return;
  access(s, src, n, false, "memcpy read");
  access(s, dst, n, true, "memcpy write");
  Obj *so = findObj(s, src);
  vector<uint8_t> tmp(so->d->b.begin() + (src - so->base), so->d->b.begin() + (src - so->base) + n);
  uint32_t soff = src - so->base;
  map<uint32_t, Cell> cells;
  if (!so->d->sym.empty()) {
    Data &sd = so->wr();
    cutAt(sd, soff);
    cutAt(sd, soff + n);
    for (auto it = sd.sym.lower_bound(soff); it != sd.sym.end() && it->first < soff + n; ++it)
      cells[it->first - soff] = it->second;
    // splitting may have turned bytes concrete
    memcpy(tmp.data(), &sd.b[soff], n);
  }
  Obj *o = findObj(s, dst);
  Data &dd = o->wr();
  uint32_t doff = dst - o->base;
  clearSym(dd, doff, n);
  memcpy(&dd.b[doff], tmp.data(), n);
  for (auto &c : cells) dd.sym[doff + c.first] = c.second;
}

// ------------------------------------------------------------------ preparing functions
static Fn *getFn(const Function *F) {
  auto &p = fns[F];
  if (!p) {
    p.reset(new Fn);
    p->F = F;
  }
  Fn *f = p.get();
  if (f->prepared) return f;
  f->prepared = true;
  int n = 0;
  for (auto &A : F->args()) f->slot[&A] = n++;
  for (auto &B : *F) {
    for (auto &I : B)
      if (!I.getType()->isVoidTy()) f->slot[&I] = n++;
    auto b = std::make_unique<Blk>();
    b->B = &B;
    b->fn = f;
    f->bmap[&B] = b.get();
    f->blks.push_back(std::move(b));
  }
  f->nslots = n;
  for (auto &bp : f->blks) {
    for (auto &I : *bp->B) {
      if (isa<DbgInfoIntrinsic>(&I)) continue;
      Inst in;
      in.I = &I;
      in.opc = I.getOpcode();
      in.atomic = isSchedPoint(I);
      if (!I.getType()->isVoidTy()) in.dst = f->slot[&I];
      for (unsigned i = 0; i < I.getNumOperands(); i++) {
        Op o;
        const Value *v = I.getOperand(i);
        if (auto *C = dyn_cast<Constant>(v)) {
          if (isa<CallBase>(&I) && isa<Function>(C) && cast<CallBase>(&I)->isCallee(&I.getOperandUse(i))) {
            // direct callee: no value needed
          } else if (!isa<InlineAsm>(v))
            o.k = &constVal(C);
        } else if (isa<BasicBlock>(v) || isa<MetadataAsValue>(v) || isa<InlineAsm>(v)) {
        } else
          o.slot = f->slot[v];
        in.ops.push_back(o);
      }
      if (isa<PHINode>(&I)) bp->nphi++;
      bp->insts.push_back(std::move(in));
    }
  }
  return f;
}

// ------------------------------------------------------------------ interpreter
struct Machine {
  State s;

  Frame &fr() { return s.stack.back(); }
  Val get(const Op &o) { return o.k ? *o.k : fr().regs[o.slot]; }
  const Val &ref(const Op &o) { return o.k ? *o.k : fr().regs[o.slot]; }

  // concretise the operand: returns a concrete value for it in this state,
  // forking off a state in which it has another value (which will re-execute
  // the current instruction)
  uint64_t conc(const Op &o) {
    const Val &v = ref(o);
    if (!v.sym()) return (uint64_t)v.c;
    u128 c;
    Ast e = v.w == 1 ? astbv(v) : v.e;
    confirmState(s, "value");
    if (!evalBV(s, e, c)) incompl(s, "cannot evaluate a value in the model");
    unsigned w = v.w;
    Ast eq = Z3_simplify(Z, Z3_mk_eq(Z, e, num(w, c)));
    st.concretized++;
    QRes q = query(s, mkNot(eq));
    if (q.sat == -1) incomplete["solver unknown (concretisation)"]++;
    if (q.sat == 1) {
      State other = s;
      st.forks++;
      other.depth++;
      s.depth++;
      other.model = merged(s, q);
      addPC(other, mkNot(eq));
      addPC(s, eq);
      pushState(std::move(other));
    }
    if (o.slot >= 0) fr().regs[o.slot] = Val(w, c);
    return (uint64_t)c;
  }

  void gotoBlock(const BasicBlock *B) {
    Frame &f = fr();
    Blk *nb = f.fn->bmap[B];
    Blk *pb = f.blk;
    if (nb->nphi) {
      vector<Val> vals(nb->nphi);
      for (unsigned i = 0; i < nb->nphi; i++) {
        auto *P = cast<PHINode>(nb->insts[i].I);
        int k = P->getBasicBlockIndex(pb->B);
        vals[i] = get(nb->insts[i].ops[k]);
      }
      for (unsigned i = 0; i < nb->nphi; i++) f.regs[nb->insts[i].dst] = std::move(vals[i]);
    }
    f.prev = pb;
    f.blk = nb;
    f.pc = nb->nphi;
    nb->executed = true;
  }

  void pushCall(const Function *F, vector<Val> &args) {
    if (s.stack.size() > 2000) fail(s, "stack", "call depth over 2000 frames (stack overflow)");
    Fn *f = getFn(F);
    f->executed = true;
    Frame nf;
    nf.fn = f;
    nf.blk = f->blks[0].get();
    nf.blk->executed = true;
    nf.pc = 0;
    nf.prev = nullptr;
    nf.regs.resize(f->nslots);
    for (size_t i = 0; i < args.size() && i < F->arg_size(); i++) nf.regs[i] = args[i];
    // byval arguments: copy
    for (auto &A : F->args())
      if (A.hasByValAttr() && A.getArgNo() < args.size()) {
        uint64_t n = DL->getTypeAllocSize(A.getParamByValType());
        uint64_t p = allocObj(s, n, 16, STACK, 0);
        memCopy(s, p, (uint64_t)args[A.getArgNo()].c, n);
        nf.regs[A.getArgNo()] = Val(64, (u128)p);
        nf.allocas.push_back(p);
      }
    s.stack.push_back(std::move(nf));
  }
  // ---- threads
  bool runnable(unsigned t) { return !s.thr[t].done && (s.thr[t].join < 0 || s.thr[s.thr[t].join].done); }
  int nextThread(unsigned skip = 0) { // the skip-th runnable thread after the current one, or -1
    unsigned n = s.thr.size(), k = 0;
    for (unsigned i = 1; i < n; i++) k += runnable((s.cur + i) % n);
    if (!k) return -1;
    skip %= k;
    for (unsigned i = 1; i < n; i++)
      if (runnable((s.cur + i) % n) && !skip--) return (s.cur + i) % n;
    return -1;
  }
  void switchTo(unsigned t) {
    Thr &o = s.thr[s.cur], &n = s.thr[t];
    o.stack.swap(s.stack);
    o.keys.swap(s.tls);
    for (uint64_t a : tlsAddrs) {
      auto it = s.mem.find(a);
      if (it == s.mem.end()) continue;
      o.tls.push_back(it->second);
      s.mem.erase(it);
    }
    s.cur = t;
    n.stack.swap(s.stack);
    n.keys.swap(s.tls);
    for (auto &x : n.tls) s.mem.emplace(x.base, x);
    n.tls.clear();
    n.join = -1;
    st.switches++;
  }
  // true: another thread runs now
  bool schedPoint() {
    if (s.thr[s.cur].granted) {
      s.thr[s.cur].granted = false;
      return false;
    }
    if (nextThread() < 0) return false;
    s.points++;
    if (s.npre >= s.pre.size()) return false;
    Val at = s.pre[s.npre].at;
    Val hit = icmp(CmpInst::ICMP_ULE, at, Val(at.w, (u128)s.points));
    bool side = hit.c != 0;
    if (hit.sym()) {
      bool forked;
      State other;
      side = decide(s, hit.e, forked, other);
      if (forked) {
        Machine m{std::move(other)};
        m.takePoint(!side);
        pushState(std::move(m.s));
      }
    }
    return takePoint(side);
  }
  bool takePoint(bool preempt) {
    if (!preempt) {
      s.thr[s.cur].granted = true; // the instruction itself comes next
      return true;
    }
    uint64_t to = s.pre[s.npre++].to;
    s.thr[s.cur].granted = true;
    switchTo(nextThread(to));
    return true;
  }
  void yieldThread() {
    if (s.thr.empty()) return;
    int t = nextThread();
    if (t >= 0) switchTo(t);
  }
  void advanceAfterCall() {
    // current frame's pc points at the call; step over it
    Frame &f = fr();
    const Instruction *I = f.blk->insts[f.pc].I;
    if (auto *IV = dyn_cast<InvokeInst>(I)) gotoBlock(IV->getNormalDest());
    else f.pc++;
  }
  void setResult(const Val &v) {
    Frame &f = fr();
    int d = f.blk->insts[f.pc].dst;
    if (d >= 0) f.regs[d] = v;
  }

  // ---- scalar operations
  static bool cmpI(CmpInst::Predicate p, u128 a, u128 b, unsigned w) {
    i128 sa = sextw(a, w), sb = sextw(b, w);
    switch (p) {
    case CmpInst::ICMP_EQ: return a == b;
    case CmpInst::ICMP_NE: return a != b;
    case CmpInst::ICMP_UGT: return a > b;
    case CmpInst::ICMP_UGE: return a >= b;
    case CmpInst::ICMP_ULT: return a < b;
    case CmpInst::ICMP_ULE: return a <= b;
    case CmpInst::ICMP_SGT: return sa > sb;
    case CmpInst::ICMP_SGE: return sa >= sb;
    case CmpInst::ICMP_SLT: return sa < sb;
    default: return sa <= sb;
    }
  }
  Val icmp(CmpInst::Predicate p, const Val &a, const Val &b) {
    if (!a.sym() && !b.sym()) return Val(1, (u128)cmpI(p, a.c, b.c, a.w));
    if (a.w == 1 && (p == CmpInst::ICMP_EQ || p == CmpInst::ICMP_NE)) {
      Ast e = Z3_mk_iff(Z, ast(a), ast(b));
      return mkbool(p == CmpInst::ICMP_EQ ? e : Z3_mk_not(Z, e));
    }
    Ast x = astbv(a), y = astbv(b);
    if (a.w > 64) { // wide: the values' ranges may decide it
      Itv i = itvOf(x), j = itvOf(y);
      if (i.ok && j.ok) {
        bool pos = i.lo >= 0 && j.lo >= 0;
        auto lt = [](Itv &m, Itv &n) { return m.hi < n.lo ? 1 : m.lo >= n.hi ? 0 : -1; };
        int r = -1;
        if (p == CmpInst::ICMP_SLT || (pos && p == CmpInst::ICMP_ULT)) r = lt(i, j);
        if (p == CmpInst::ICMP_SGT || (pos && p == CmpInst::ICMP_UGT)) r = lt(j, i);
        if (p == CmpInst::ICMP_SGE || (pos && p == CmpInst::ICMP_UGE)) r = lt(i, j) < 0 ? -1 : !lt(i, j);
        if (p == CmpInst::ICMP_SLE || (pos && p == CmpInst::ICMP_ULE)) r = lt(j, i) < 0 ? -1 : !lt(j, i);
        if (r >= 0) return Val(1, (u128)r);
        unsigned k = std::max(itvBits(i), itvBits(j));
        if (k < a.w) x = Z3_mk_extract(Z, k - 1, 0, x), y = Z3_mk_extract(Z, k - 1, 0, y);
        // unsigned order on sign-extended values is that of the narrow ones
      }
    }
    switch (p) {
    case CmpInst::ICMP_EQ: return mkbool(Z3_mk_eq(Z, x, y));
    case CmpInst::ICMP_NE: return mkbool(Z3_mk_not(Z, Z3_mk_eq(Z, x, y)));
    case CmpInst::ICMP_UGT: return mkbool(Z3_mk_bvugt(Z, x, y));
    case CmpInst::ICMP_UGE: return mkbool(Z3_mk_bvuge(Z, x, y));
    case CmpInst::ICMP_ULT: return mkbool(Z3_mk_bvult(Z, x, y));
    case CmpInst::ICMP_ULE: return mkbool(Z3_mk_bvule(Z, x, y));
    case CmpInst::ICMP_SGT: return mkbool(Z3_mk_bvsgt(Z, x, y));
    case CmpInst::ICMP_SGE: return mkbool(Z3_mk_bvsge(Z, x, y));
    case CmpInst::ICMP_SLT: return mkbool(Z3_mk_bvslt(Z, x, y));
    default: return mkbool(Z3_mk_bvsle(Z, x, y));
    }
  }
  static double bitsToD(const Val &v) {
    if (v.w == 32) {
      uint32_t b = (uint32_t)v.c;
      float f;
      memcpy(&f, &b, 4);
      return f;
    }
    uint64_t b = (uint64_t)v.c;
    double d;
    memcpy(&d, &b, 8);
    return d;
  }
  static Val dToBits(double d, unsigned w) {
    if (w == 32) {
      float f = (float)d;
      uint32_t b;
      memcpy(&b, &f, 4);
      return Val(32, (u128)b);
    }
    uint64_t b;
    memcpy(&b, &d, 8);
    return Val(64, (u128)b);
  }
  static Z3_sort fps(unsigned w) { return w == 32 ? F32S : F64S; }
  static Ast toFP(const Val &v) {
    Ast a = ast(v);
    if (v.e && Z3_get_ast_kind(Z, a) == Z3_APP_AST) {
      Z3_app ap = Z3_to_app(Z, a);
      if (Z3_get_decl_kind(Z, Z3_get_app_decl(Z, ap)) == Z3_OP_FPA_TO_IEEE_BV) {
        Ast x = Z3_get_app_arg(Z, ap, 0);
        if (Z3_get_sort(Z, x) == fps(v.w)) return x;
      }
    }
    return Z3_mk_fpa_to_fp_bv(Z, a, fps(v.w));
  }
  static Val fromFP(unsigned w, Ast f) {
    f = Z3_simplify(Z, f);
    return mkbv(w, Z3_mk_fpa_to_ieee_bv(Z, f));
  }
  Val fcmp(CmpInst::Predicate p, const Val &a, const Val &b) {
    if (!a.sym() && !b.sym()) {
      double x = bitsToD(a), y = bitsToD(b);
      bool un = std::isnan(x) || std::isnan(y), r = false;
      switch (p) {
      case CmpInst::FCMP_FALSE: r = false; break;
      case CmpInst::FCMP_OEQ: r = !un && x == y; break;
      case CmpInst::FCMP_OGT: r = !un && x > y; break;
      case CmpInst::FCMP_OGE: r = !un && x >= y; break;
      case CmpInst::FCMP_OLT: r = !un && x < y; break;
      case CmpInst::FCMP_OLE: r = !un && x <= y; break;
      case CmpInst::FCMP_ONE: r = !un && x != y; break;
      case CmpInst::FCMP_ORD: r = !un; break;
      case CmpInst::FCMP_UNO: r = un; break;
      case CmpInst::FCMP_UEQ: r = un || x == y; break;
      case CmpInst::FCMP_UGT: r = un || x > y; break;
      case CmpInst::FCMP_UGE: r = un || x >= y; break;
      case CmpInst::FCMP_ULT: r = un || x < y; break;
      case CmpInst::FCMP_ULE: r = un || x <= y; break;
      case CmpInst::FCMP_UNE: r = un || x != y; break;
      default: r = true;
      }
      return Val(1, (u128)r);
    }
    Ast x = toFP(a), y = toFP(b);
    Ast un = Z3_mk_or(Z, 2, (Ast[]){Z3_mk_fpa_is_nan(Z, x), Z3_mk_fpa_is_nan(Z, y)});
    Ast r;
    switch (p) {
    case CmpInst::FCMP_FALSE: r = Z3_mk_false(Z); break;
    case CmpInst::FCMP_OEQ: case CmpInst::FCMP_UEQ: r = Z3_mk_fpa_eq(Z, x, y); break;
    case CmpInst::FCMP_OGT: case CmpInst::FCMP_UGT: r = Z3_mk_fpa_gt(Z, x, y); break;
    case CmpInst::FCMP_OGE: case CmpInst::FCMP_UGE: r = Z3_mk_fpa_geq(Z, x, y); break;
    case CmpInst::FCMP_OLT: case CmpInst::FCMP_ULT: r = Z3_mk_fpa_lt(Z, x, y); break;
    case CmpInst::FCMP_OLE: case CmpInst::FCMP_ULE: r = Z3_mk_fpa_leq(Z, x, y); break;
    case CmpInst::FCMP_ONE: r = Z3_mk_and(Z, 2, (Ast[]){Z3_mk_not(Z, un), Z3_mk_not(Z, Z3_mk_fpa_eq(Z, x, y))}); break;
    case CmpInst::FCMP_UNE: r = Z3_mk_not(Z, Z3_mk_fpa_eq(Z, x, y)); break;
    case CmpInst::FCMP_ORD: r = Z3_mk_not(Z, un); break;
    case CmpInst::FCMP_UNO: r = un; break;
    default: r = Z3_mk_true(Z);
    }
    switch (p) {
    case CmpInst::FCMP_UEQ: case CmpInst::FCMP_UGT: case CmpInst::FCMP_UGE: case CmpInst::FCMP_ULT: case CmpInst::FCMP_ULE:
      r = Z3_mk_or(Z, 2, (Ast[]){r, un});
      break;
    default:;
    }
    return mkbool(r);
  }
  Val binop(unsigned opc, const Val &a, const Val &b) {
    unsigned w = a.w;
    if (!a.sym() && !b.sym()) {
      u128 x = a.c, y = b.c;
      switch (opc) {
      case Instruction::Add: return Val(w, x + y);
      case Instruction::Sub: return Val(w, x - y);
      case Instruction::Mul: return Val(w, x * y);
      case Instruction::UDiv: if (!y) fail(s, "ub", "division by zero"); return Val(w, x / y);
      case Instruction::URem: if (!y) fail(s, "ub", "division by zero"); return Val(w, x % y);
      case Instruction::SDiv: if (!y) fail(s, "ub", "division by zero"); return Val(w, (u128)(sextw(x, w) / sextw(y, w)));
      case Instruction::SRem: if (!y) fail(s, "ub", "division by zero"); return Val(w, (u128)(sextw(x, w) % sextw(y, w)));
      case Instruction::Shl: return Val(w, y >= w ? 0 : x << (unsigned)y);
      case Instruction::LShr: return Val(w, y >= w ? 0 : x >> (unsigned)y);
      case Instruction::AShr: return Val(w, (u128)(sextw(x, w) >> (unsigned)(y >= w ? w - 1 : y)));
      case Instruction::And: return Val(w, x & y);
      case Instruction::Or: return Val(w, x | y);
      case Instruction::Xor: return Val(w, x ^ y);
      case Instruction::FAdd: return fbin(w, bitsToD(a), bitsToD(b), 0);
      case Instruction::FSub: return fbin(w, bitsToD(a), bitsToD(b), 1);
      case Instruction::FMul: return fbin(w, bitsToD(a), bitsToD(b), 2);
      case Instruction::FDiv: return fbin(w, bitsToD(a), bitsToD(b), 3);
      case Instruction::FRem: return w == 32 ? dToBits(fmodf((float)bitsToD(a), (float)bitsToD(b)), 32) : dToBits(fmod(bitsToD(a), bitsToD(b)), 64);
      }
      incompl(s, "binop");
    }
    if (w == 1) {
      Ast x = ast(a), y = ast(b);
      switch (opc) {
      case Instruction::And: case Instruction::Mul: return mkbool(Z3_mk_and(Z, 2, (Ast[]){x, y}));
      case Instruction::Or: return mkbool(Z3_mk_or(Z, 2, (Ast[]){x, y}));
      case Instruction::Xor: case Instruction::Add: case Instruction::Sub: return mkbool(Z3_mk_xor(Z, x, y));
      }
      incompl(s, "i1 binop");
    }
    // cheap identities
    if (!b.sym()) {
      if (b.c == 0) switch (opc) {
        case Instruction::Add: case Instruction::Sub: case Instruction::Shl: case Instruction::LShr:
        case Instruction::AShr: case Instruction::Or: case Instruction::Xor: return a;
        case Instruction::And: case Instruction::Mul: return Val(w, (u128)0);
        case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem:
          fail(s, "ub", "division by zero");
        }
    }
    switch (opc) {
    case Instruction::FAdd: return fromFP(w, Z3_mk_fpa_add(Z, RNE, toFP(a), toFP(b)));
    case Instruction::FSub: return fromFP(w, Z3_mk_fpa_sub(Z, RNE, toFP(a), toFP(b)));
    case Instruction::FMul: return fromFP(w, Z3_mk_fpa_mul(Z, RNE, toFP(a), toFP(b)));
    case Instruction::FDiv: return fromFP(w, Z3_mk_fpa_div(Z, RNE, toFP(a), toFP(b)));
    }
    Ast x = ast(a), y = ast(b);
    if (!b.sym() && (opc == Instruction::SDiv || opc == Instruction::SRem) && b.c && !(b.c & (b.c - 1)) && b.c != (u128)1 << (w - 1)) {
      // by a power of two: shifts, rounding towards zero
      unsigned k = 0;
      while (((u128)1 << k) != b.c) k++;
      Ast bias = Z3_mk_bvand(Z, Z3_mk_bvashr(Z, x, num(w, w - 1)), num(w, b.c - 1));
      Ast q = Z3_mk_bvashr(Z, Z3_mk_bvadd(Z, x, bias), num(w, k));
      return mkbv(w, opc == Instruction::SDiv ? q : Z3_mk_bvsub(Z, x, Z3_mk_bvshl(Z, q, num(w, k))));
    }
    switch (opc) {
    case Instruction::Add: return mkbv(w, Z3_mk_bvadd(Z, x, y));
    case Instruction::Sub: return mkbv(w, Z3_mk_bvsub(Z, x, y));
    case Instruction::Mul: return mkbv(w, Z3_mk_bvmul(Z, x, y));
    case Instruction::UDiv: return mkbv(w, Z3_mk_bvudiv(Z, x, y));
    case Instruction::URem: return mkbv(w, Z3_mk_bvurem(Z, x, y));
    case Instruction::SDiv: return mkbv(w, Z3_mk_bvsdiv(Z, x, y));
    case Instruction::SRem: return mkbv(w, Z3_mk_bvsrem(Z, x, y));
    case Instruction::Shl: return mkbv(w, Z3_mk_bvshl(Z, x, y));
    case Instruction::LShr: return mkbv(w, Z3_mk_bvlshr(Z, x, y));
    case Instruction::AShr: return mkbv(w, Z3_mk_bvashr(Z, x, y));
    case Instruction::And: return mkbv(w, Z3_mk_bvand(Z, x, y));
    case Instruction::Or: return mkbv(w, Z3_mk_bvor(Z, x, y));
    case Instruction::Xor: return mkbv(w, Z3_mk_bvxor(Z, x, y));
    }
    incompl(s, "binop " + std::to_string(opc));
  }
  static Val fbin(unsigned w, double x, double y, int op) {
    if (w == 32) {
      float a = (float)x, b = (float)y, r = op == 0 ? a + b : op == 1 ? a - b : op == 2 ? a * b : a / b;
      uint32_t bb;
      memcpy(&bb, &r, 4);
      return Val(32, (u128)bb);
    }
    return dToBits(op == 0 ? x + y : op == 1 ? x - y : op == 2 ? x * y : x / y, 64);
  }
  Val selectV(const Val &c, const Val &a, const Val &b) {
    if (!c.sym()) return c.c ? a : b;
    if (a.agg) {
      Val r = mkagg(a.agg->size());
      for (size_t i = 0; i < a.agg->size(); i++) (*r.agg)[i] = selectV(c, (*a.agg)[i], (*b.agg)[i]);
      return r;
    }
    if (a.w == 0) return a;
    if (!a.sym() && !b.sym() && a.c == b.c) return a;
    if (a.w == 1) return mkbool(Z3_mk_ite(Z, c.e, ast(a), ast(b)));
    return mkbv(a.w, Z3_mk_ite(Z, c.e, ast(a), ast(b)));
  }
  Val castOp(unsigned opc, const Val &a, Type *ST, Type *DT) {
    unsigned w = typeBits(DT);
    switch (opc) {
    case Instruction::Trunc:
      if (!a.sym()) return Val(w, a.c);
      return mkbv(w, Z3_mk_extract(Z, w - 1, 0, a.e));
    case Instruction::ZExt:
      if (!a.sym()) return Val(w, a.c);
      if (a.w == 1) return mkbv(w, Z3_mk_ite(Z, a.e, num(w, 1), num(w, 0)));
      return mkbv(w, Z3_mk_zero_ext(Z, w - a.w, a.e));
    case Instruction::SExt:
      if (!a.sym()) return Val(w, (u128)sextw(a.c, a.w));
      if (a.w == 1) return mkbv(w, Z3_mk_ite(Z, a.e, num(w, ~(u128)0 & maskw(~(u128)0, w)), num(w, 0)));
      return mkbv(w, Z3_mk_sign_ext(Z, w - a.w, a.e));
    case Instruction::PtrToInt:
    case Instruction::IntToPtr:
      if (a.w == w) return a;
      if (a.w > w) return a.sym() ? mkbv(w, Z3_mk_extract(Z, w - 1, 0, a.e)) : Val(w, a.c);
      return a.sym() ? mkbv(w, Z3_mk_zero_ext(Z, w - a.w, astbv(a))) : Val(w, a.c);
    case Instruction::FPTrunc:
    case Instruction::FPExt:
      if (!a.sym()) return dToBits(bitsToD(a), w);
      return fromFP(w, Z3_mk_fpa_to_fp_float(Z, RNE, toFP(a), fps(w)));
    case Instruction::UIToFP:
      if (!a.sym()) return w == 32 ? dToBitsF((float)a.c) : dToBits((double)a.c, 64);
      return fromFP(w, Z3_mk_fpa_to_fp_unsigned(Z, RNE, astbv(a), fps(w)));
    case Instruction::SIToFP:
      if (!a.sym()) return w == 32 ? dToBitsF((float)sextw(a.c, a.w)) : dToBits((double)sextw(a.c, a.w), 64);
      {
        Ast x = astbv(a);
        if (a.w > 64) {
          Itv i = itvOf(x);
          if (i.ok && itvBits(i) + 1 < a.w) x = Z3_simplify(Z, Z3_mk_extract(Z, itvBits(i), 0, x));
        }
        return fromFP(w, Z3_mk_fpa_to_fp_signed(Z, RNE, x, fps(w)));
      }
    case Instruction::FPToUI:
      if (!a.sym()) return Val(w, (u128)bitsToD(a));
      return mkbv(w, Z3_mk_fpa_to_ubv(Z, RTZ, toFP(a), w));
    case Instruction::FPToSI:
      if (!a.sym()) return Val(w, (u128)(i128)bitsToD(a));
      return mkbv(w, Z3_mk_fpa_to_sbv(Z, RTZ, toFP(a), w));
    }
    incompl(s, "cast");
  }
  static Val dToBitsF(float f) {
    uint32_t b;
    memcpy(&b, &f, 4);
    return Val(32, (u128)b);
  }
  // flatten to bits (little endian lanes), and back: for bitcasts
  Val flatten(const Val &v) {
    if (!v.agg) return v;
    unsigned w = 0;
    bool sym = false;
    for (auto &x : *v.agg) {
      w += x.w;
      sym |= x.sym();
    }
    if (!sym) {
      if (w > 128) incompl(s, "wide bitcast");
      u128 c = 0;
      unsigned sh = 0;
      for (auto &x : *v.agg) {
        c |= x.c << sh;
        sh += x.w;
      }
      return Val(w, c);
    }
    Ast e = nullptr;
    for (auto &x : *v.agg) {
      Ast b = astbv(x);
      e = e ? Z3_mk_concat(Z, b, e) : b;
    }
    return mkbv(w, e);
  }
  Val bitcast(const Val &v, Type *DT) {
    if (!v.agg && typeBits(DT)) return v;
    Val f = flatten(v);
    if (typeBits(DT)) return f;
    auto *V = cast<FixedVectorType>(DT);
    unsigned eb = typeBits(V->getElementType()), n = V->getNumElements();
    Val r = mkagg(n);
    for (unsigned i = 0; i < n; i++)
      (*r.agg)[i] = f.sym() ? mkbv(eb, Z3_mk_extract(Z, i * eb + eb - 1, i * eb, f.e)) : Val(eb, f.c >> (i * eb));
    return r;
  }
  template <class F> Val lanes(const Val &a, F f) {
    if (!a.agg) return f(a);
    Val r = mkagg(a.agg->size());
    for (size_t i = 0; i < a.agg->size(); i++) (*r.agg)[i] = f((*a.agg)[i]);
    return r;
  }
  template <class F> Val lanes2(const Val &a, const Val &b, F f) {
    if (!a.agg) return f(a, b);
    Val r = mkagg(a.agg->size());
    for (size_t i = 0; i < a.agg->size(); i++) (*r.agg)[i] = f((*a.agg)[i], (*b.agg)[i]);
    return r;
  }

#include "calls.inc"

  // Execute one instruction. Throws PathEnd when the path ends.
  void step() {
    Frame &f = fr();
    Inst &in = f.blk->insts[f.pc];
    const Instruction *I = in.I;
    s.steps++;
    if (in.atomic && !s.thr.empty() && schedPoint()) return;
    switch (in.opc) {
    case Instruction::Ret: {
      Val rv;
      if (I->getNumOperands()) rv = get(in.ops[0]);
      for (uint64_t a : f.allocas) s.mem.erase(a);
      s.stack.pop_back();
      if (s.stack.empty()) {
        if (s.thr.empty() || s.cur == 0) throw PathEnd{"ok"};
        s.thr[s.cur].done = true;
        int t = nextThread();
        if (t < 0) fail(s, "deadlock", "no thread can go on");
        switchTo(t);
        return;
      }
      setResult(rv);
      advanceAfterCall();
      return;
    }
    case Instruction::Br: {
      auto *B = cast<BranchInst>(I);
      if (B->isUnconditional()) {
        gotoBlock(B->getSuccessor(0));
        return;
      }
      Val c = get(in.ops[0]);
      int side;
      if (!c.sym()) side = c.c != 0;
      else {
        bool forked;
        State other;
        side = decide(s, c.e, forked, other);
        if (forked) {
          Machine m{std::move(other)};
          m.gotoBlock(B->getSuccessor(side ? 1 : 0));
          pushState(std::move(m.s));
        }
      }
      gotoBlock(B->getSuccessor(side ? 0 : 1));
      return;
    }
    case Instruction::Switch: {
      auto *S = cast<SwitchInst>(I);
      Val c = get(in.ops[0]);
      if (!c.sym()) {
        for (auto &cs : S->cases())
          if (apToU(cs.getCaseValue()->getValue()) == c.c) {
            gotoBlock(cs.getCaseSuccessor());
            return;
          }
        gotoBlock(S->getDefaultDest());
        return;
      }
      // group cases by destination
      vector<std::pair<const BasicBlock *, vector<Ast>>> groups;
      vector<Ast> all;
      for (auto &cs : S->cases()) {
        Ast eq = Z3_mk_eq(Z, astbv(c), num(c.w, apToU(cs.getCaseValue()->getValue())));
        all.push_back(eq);
        bool f2 = false;
        for (auto &g : groups)
          if (g.first == cs.getCaseSuccessor()) {
            g.second.push_back(eq);
            f2 = true;
          }
        if (!f2) groups.push_back({cs.getCaseSuccessor(), {eq}});
      }
      for (auto &g : groups) {
        Ast cond = Z3_simplify(Z, g.second.size() == 1 ? g.second[0] : Z3_mk_or(Z, g.second.size(), g.second.data()));
        bool forked = false;
        State other;
        int side;
        Z3_lbool b = Z3_get_bool_value(Z, cond);
        if (b != Z3_L_UNDEF) side = b == Z3_L_TRUE;
        else side = decide(s, cond, forked, other);
        if (side) {
          if (forked) pushState(std::move(other)); // re-executes the switch with cond excluded
          gotoBlock(g.first);
          return;
        }
        if (forked) {
          Machine m{std::move(other)};
          m.gotoBlock(g.first);
          pushState(std::move(m.s));
        }
      }
      gotoBlock(S->getDefaultDest());
      return;
    }
    case Instruction::Unreachable:
      fail(s, "ub", "unreachable code executed");
    case Instruction::Alloca: {
      auto *A = cast<AllocaInst>(I);
      uint64_t n = DL->getTypeAllocSize(A->getAllocatedType());
      uint64_t cnt = conc(in.ops[0]);
      uint64_t p = allocObj(s, n * cnt, A->getAlign().value(), STACK, 0xA5);
      f.allocas.push_back(p);
      f.regs[in.dst] = Val(64, (u128)p);
      f.pc++;
      return;
    }
    case Instruction::Load: {
      uint64_t a = conc(in.ops[0]);
      Val v = loadVal(s, a, I->getType());
      fr().regs[in.dst] = std::move(v);
      fr().pc++;
      return;
    }
    case Instruction::Store: {
      uint64_t a = conc(in.ops[1]);
      storeVal(s, a, get(in.ops[0]), I->getOperand(0)->getType());
      fr().pc++;
      return;
    }
    case Instruction::GetElementPtr: {
      auto *G = cast<GetElementPtrInst>(I);
      if (G->getType()->isVectorTy()) incompl(s, "vector gep");
      Val base = get(in.ops[0]);
      uint64_t off = 0;
      Ast soff = nullptr;
      unsigned k = 1;
      for (gep_type_iterator gi = gep_type_begin(G), ge = gep_type_end(G); gi != ge; ++gi, ++k) {
        Val ix = get(in.ops[k]);
        if (StructType *ST = gi.getStructTypeOrNull()) {
          off += DL->getStructLayout(ST)->getElementOffset((unsigned)ix.c);
        } else {
          uint64_t es = DL->getTypeAllocSize(gi.getIndexedType());
          if (!ix.sym()) off += (uint64_t)(int64_t)sextw(ix.c, ix.w) * es;
          else {
            Ast x = ix.w < 64 ? Z3_mk_sign_ext(Z, 64 - ix.w, astbv(ix)) : ix.e;
            x = Z3_mk_bvmul(Z, x, num(64, es));
            soff = soff ? Z3_mk_bvadd(Z, soff, x) : x;
          }
        }
      }
      Val r;
      if (!base.sym() && !soff) r = Val(64, base.c + off);
      else {
        Ast x = ast(base);
        if (soff) x = Z3_mk_bvadd(Z, x, soff);
        if (off) x = Z3_mk_bvadd(Z, x, num(64, off));
        r = mkbv(64, x);
      }
      f.regs[in.dst] = r;
      f.pc++;
      return;
    }
    case Instruction::ICmp: {
      auto p = cast<ICmpInst>(I)->getPredicate();
      f.regs[in.dst] = lanes2(ref(in.ops[0]), ref(in.ops[1]), [&](const Val &a, const Val &b) { return icmp(p, a, b); });
      f.pc++;
      return;
    }
    case Instruction::FCmp: {
      auto p = cast<FCmpInst>(I)->getPredicate();
      f.regs[in.dst] = lanes2(ref(in.ops[0]), ref(in.ops[1]), [&](const Val &a, const Val &b) { return fcmp(p, a, b); });
      f.pc++;
      return;
    }
    case Instruction::FNeg: {
      f.regs[in.dst] = lanes(ref(in.ops[0]), [&](const Val &a) {
        u128 sb = ((u128)1) << (a.w - 1);
        return a.sym() ? mkbv(a.w, Z3_mk_bvxor(Z, a.e, num(a.w, sb))) : Val(a.w, a.c ^ sb);
      });
      f.pc++;
      return;
    }
    case Instruction::Select: {
      Val c = get(in.ops[0]);
      if (c.agg) {
        Val a = get(in.ops[1]), b = get(in.ops[2]);
        Val r = mkagg(c.agg->size());
        for (size_t i = 0; i < c.agg->size(); i++) (*r.agg)[i] = selectV((*c.agg)[i], (*a.agg)[i], (*b.agg)[i]);
        f.regs[in.dst] = r;
      } else
        f.regs[in.dst] = selectV(c, ref(in.ops[1]), ref(in.ops[2]));
      f.pc++;
      return;
    }
    case Instruction::Freeze:
      f.regs[in.dst] = get(in.ops[0]);
      f.pc++;
      return;
    case Instruction::BitCast:
      f.regs[in.dst] = bitcast(get(in.ops[0]), I->getType());
      f.pc++;
      return;
    case Instruction::ExtractValue: {
      Val v = get(in.ops[0]);
      for (unsigned i : cast<ExtractValueInst>(I)->indices()) {
        Val t = (*v.agg)[i];
        v = t;
      }
      f.regs[in.dst] = v;
      f.pc++;
      return;
    }
    case Instruction::InsertValue: {
      Val v = get(in.ops[0]);
      Val x = get(in.ops[1]);
      auto ids = cast<InsertValueInst>(I)->getIndices();
      std::function<Val(const Val &, unsigned)> ins = [&](const Val &a, unsigned k) -> Val {
        if (k == ids.size()) return x;
        Val r;
        r.agg = std::make_shared<vector<Val>>(*a.agg);
        (*r.agg)[ids[k]] = ins((*a.agg)[ids[k]], k + 1);
        return r;
      };
      f.regs[in.dst] = ins(v, 0);
      f.pc++;
      return;
    }
    case Instruction::ExtractElement: {
      uint64_t i = conc(in.ops[1]);
      f.regs[in.dst] = (*ref(in.ops[0]).agg)[i];
      f.pc++;
      return;
    }
    case Instruction::InsertElement: {
      uint64_t i = conc(in.ops[2]);
      Val r;
      r.agg = std::make_shared<vector<Val>>(*ref(in.ops[0]).agg);
      (*r.agg)[i] = get(in.ops[1]);
      f.regs[in.dst] = r;
      f.pc++;
      return;
    }
    case Instruction::ShuffleVector: {
      auto *SV = cast<ShuffleVectorInst>(I);
      const Val &a = ref(in.ops[0]), &b = ref(in.ops[1]);
      auto mask = SV->getShuffleMask();
      Val r = mkagg(mask.size());
      for (size_t i = 0; i < mask.size(); i++) {
        int k = mask[i];
        if (k < 0) (*r.agg)[i] = Val((*a.agg)[0].w, (u128)0);
        else if ((size_t)k < a.agg->size()) (*r.agg)[i] = (*a.agg)[k];
        else (*r.agg)[i] = (*b.agg)[k - a.agg->size()];
      }
      f.regs[in.dst] = r;
      f.pc++;
      return;
    }
    case Instruction::Fence:
      f.pc++;
      return;
    case Instruction::AtomicRMW: {
      auto *R = cast<AtomicRMWInst>(I);
      uint64_t a = conc(in.ops[0]);
      Val old = loadVal(s, a, I->getType());
      Val v = get(in.ops[1]), nv;
      switch (R->getOperation()) {
      case AtomicRMWInst::Xchg: nv = v; break;
      case AtomicRMWInst::Add: nv = binop(Instruction::Add, old, v); break;
      case AtomicRMWInst::Sub: nv = binop(Instruction::Sub, old, v); break;
      case AtomicRMWInst::And: nv = binop(Instruction::And, old, v); break;
      case AtomicRMWInst::Or: nv = binop(Instruction::Or, old, v); break;
      case AtomicRMWInst::Xor: nv = binop(Instruction::Xor, old, v); break;
      default: incompl(s, "atomicrmw");
      }
      storeVal(s, a, nv, I->getType());
      fr().regs[in.dst] = old;
      fr().pc++;
      return;
    }
    case Instruction::AtomicCmpXchg: {
      uint64_t a = conc(in.ops[0]);
      Val cmp = get(in.ops[1]), nv = get(in.ops[2]);
      Type *T = I->getOperand(1)->getType();
      Val old = loadVal(s, a, T);
      Val eq = icmp(CmpInst::ICMP_EQ, old, cmp);
      storeVal(s, a, selectV(eq, nv, old), T);
      Val r = mkagg(2);
      (*r.agg)[0] = old;
      (*r.agg)[1] = eq;
      fr().regs[in.dst] = r;
      fr().pc++;
      return;
    }
    case Instruction::Call:
    case Instruction::Invoke:
      doCall(in);
      return;
    case Instruction::PHI:
      incompl(s, "stray phi");
    case Instruction::LandingPad:
    case Instruction::Resume:
      incompl(s, "landingpad reached");
    default:
      break;
    }
    if (I->isBinaryOp()) {
      unsigned opc = in.opc;
      Val r = lanes2(ref(in.ops[0]), ref(in.ops[1]), [&](const Val &a, const Val &b) { return binop(opc, a, b); });
      fr().regs[in.dst] = std::move(r);
      fr().pc++;
      return;
    }
    if (I->isCast()) {
      Type *ST = I->getOperand(0)->getType(), *DT = I->getType();
      unsigned opc = in.opc;
      Type *S0 = ST->getScalarType(), *D0 = DT->getScalarType();
      Val r = lanes(ref(in.ops[0]), [&](const Val &a) { return castOp(opc, a, S0, D0); });
      fr().regs[in.dst] = std::move(r);
      fr().pc++;
      return;
    }
    incompl(s, string("instruction ") + I->getOpcodeName());
  }

  void run() {
    try {
      while (true) {
        if (s.steps >= OPT_maxsteps) incompl(s, "step limit per path");
        if ((s.steps & 0xfff) == 0 && now() - T0 > OPT_time) incompl(s, "time limit");
        step();
      }
    } catch (PathEnd &e) {
      if (e.why == "moved") return;
      st.steps += s.steps;
      if (s.steps > st.maxsteps_path) st.maxsteps_path = s.steps;
      if (s.spec && (e.why == "ok" || e.why == "panic-expected")) st.paths_spec++;
      else if (e.why == "ok") {
        st.paths_ok++;
        if (samples.size() < 4 || (st.paths_ok % 97 == 0 && samples.size() < 8)) samples.push_back(inputsJson(s, *s.model));
        if (OPT_concrete) {
          string t;
          for (auto &v : s.trace) {
            u128 c = v.c;
            if (v.sym()) c = 0;
            if (!t.empty()) t += ",";
            t += u128s(c);
          }
          fprintf(OUT, "{\"trace\":[%s]}\n", t.c_str());
        }
      } else if (e.why == "assume")
        st.paths_assume++;
      else if (e.why == "panic-expected")
        st.paths_panic_expected++;
    }
  }
};

#include "handlers.inc"

// ------------------------------------------------------------------ coverage / output
static void collectCoverage(map<string, set<unsigned>> &lines, set<string> &funcs) {
  for (auto &p : fns) {
    if (!p.second->executed) continue;
    for (auto &b : p.second->blks) {
      if (!b->executed) continue;
      for (auto &in : b->insts) {
        const DebugLoc &d = in.I->getDebugLoc();
        if (!d) continue;
        for (const DILocation *l = d.get(); l; l = l->getInlinedAt()) {
          string fn = l->getFilename().str();
          string full = (!fn.empty() && fn[0] == '/') ? fn : l->getDirectory().str() + "/" + fn;
          if (full.rfind(OPT_srcprefix, 0) != 0) continue;
          lines[full.substr(OPT_srcprefix.size())].insert(l->getLine());
          if (auto *sp = l->getScope()->getSubprogram()) {
            string n = sp->getLinkageName().str();
            n = n.empty() ? sp->getName().str() : demangle(n);
            size_t q = n.rfind("::h");
            if (q != string::npos && n.size() - q == 19) n = n.substr(0, q);
            funcs.insert(n);
          }
        }
      }
    }
  }
}
static void emitSummary() {
  map<string, set<unsigned>> lines;
  set<string> funcs;
  collectCoverage(lines, funcs);
  std::ostringstream o;
  o << "{\"summary\":{";
  o << "\"paths_ok\":" << st.paths_ok << ",\"paths_expected_panic\":" << st.paths_panic_expected
    << ",\"paths_assume\":" << st.paths_assume << ",\"paths_violation\":" << st.paths_err << ",\"steps\":" << st.steps
    << ",\"forks\":" << st.forks << ",\"queries\":" << st.queries << ",\"sat\":" << st.qsat << ",\"unsat\":" << st.qunsat
    << ",\"unknown\":" << st.qunknown << ",\"speculated\":" << st.speculated << ",\"paths_spec\":" << st.paths_spec << ",\"qcache\":" << st.qcache << ",\"solver_s\":" << st.qtime
    << ",\"solver_max_s\":" << st.qmax << ",\"asserts\":" << st.asserts << ",\"asserts_solver\":" << st.asserts_solver
    << ",\"switches\":" << st.switches << ",\"max_steps_path\":" << st.maxsteps_path << ",\"concretized\":" << st.concretized;
  o << ",\"reach\":{";
  bool first = true;
  for (auto &p : reach) {
    o << (first ? "" : ",") << jesc(p.first) << ":" << p.second;
    first = false;
  }
  o << "},\"incomplete\":{";
  first = true;
  for (auto &p : incomplete) {
    o << (first ? "" : ",") << jesc(p.first) << ":" << p.second;
    first = false;
  }
  o << "},\"asserted\":{";
  first = true;
  for (auto &p : assertmsgs) {
    o << (first ? "" : ",") << jesc(p.first) << ":" << p.second;
    first = false;
  }
  o << "},\"samples\":[";
  for (size_t i = 0; i < samples.size(); i++) o << (i ? "," : "") << samples[i];
  o << "],\"functions\":[";
  first = true;
  for (auto &f : funcs) {
    o << (first ? "" : ",") << jesc(f);
    first = false;
  }
  o << "],\"lines\":{";
  first = true;
  for (auto &p : lines) {
    o << (first ? "" : ",") << jesc(p.first) << ":[";
    bool f2 = true;
    for (unsigned l : p.second) {
      o << (f2 ? "" : ",") << l;
      f2 = false;
    }
    o << "]";
    first = false;
  }
  o << "},\"wall_s\":" << (now() - T0) << "}}";
  fprintf(OUT, "%s\n", o.str().c_str());
  fflush(OUT);
}

static size_t rssMB() {
  std::ifstream f("/proc/self/statm");
  size_t a = 0, b = 0;
  f >> a >> b;
  return b * 4096 / 1048576;
}

// Phase 2: worker processes claim states from the shared list; whenever fewer than --jobs are running, a
// worker with other states waiting forks a new worker for half of them. Each worker writes its own file.
struct Shared {
  std::atomic<unsigned> next, active, files, finished;
};
static Shared *sh;
static size_t shared_n;
static string shared_dir;
static double last_share;
static void beginWorker(bool first) {
  OUT = fopen((shared_dir + "/" + std::to_string(sh->files.fetch_add(1))).c_str(), "w");
  if (!OUT) _exit(4);
  last_share = now();
  if (first) return; // figures so far are emitted once, by the first worker
  st = Stats();
  reach.clear();
  incomplete.clear();
  assertmsgs.clear();
  samples.clear();
}
static void maybeShare() {
  if (!sh || work.empty() || sh->next.load() < shared_n || now() - last_share < 0.01) return;
  unsigned a = sh->active.load();
  if (a >= OPT_jobs || !sh->active.compare_exchange_strong(a, a + 1)) return;
  fflush(OUT);
  pid_t pid = fork();
  if (pid < 0) {
    sh->active.fetch_sub(1);
    return;
  }
  size_t half = (work.size() + 1) / 2; // the child gets the shallower half
  if (pid == 0) {
    work.resize(half);
    beginWorker(false);
    throw PathEnd{"moved"};
  }
  work.erase(work.begin(), work.begin() + half);
  last_share = now();
}
static int runWorkers() {
  auto *mem = (Shared *)mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  new (mem) Shared();
  vector<State> shared_work;
  shared_work.swap(work);
  shared_n = shared_work.size();
  std::sort(shared_work.begin(), shared_work.end(), [](const State &x, const State &y) { return x.depth < y.depth; });
  char dir[] = "/tmp/symx.XXXXXX";
  if (!mkdtemp(dir)) return 2;
  shared_dir = dir;
  int alive[2];
  if (pipe(alive)) return 2;
  fflush(OUT);
  signal(SIGCHLD, SIG_IGN);
  unsigned initial = std::min<size_t>(OPT_jobs, shared_n);
  mem->active.store(initial);
  for (unsigned j = 0; j < initial; j++) {
    pid_t pid = fork();
    if (pid < 0) return 2;
    if (pid) continue;
    close(alive[0]);
    sh = mem;
    beginWorker(j == 0);
    while (true) {
      if (work.empty()) {
        unsigned i = sh->next.load();
        if (i < shared_n) i = sh->next.fetch_add(1);
        if (i >= shared_n) break;
        work.push_back(std::move(shared_work[i]));
      }
      Machine m;
      m.s = std::move(work.back());
      work.pop_back();
      m.run();
      bool full = rssMB() > OPT_memmb;
      if (full || now() - T0 > OPT_time || st.paths_ok > OPT_maxpaths) {
        if (!work.empty() || sh->next.load() < shared_n) incomplete[full ? "memory limit" : "path/time limit"] += work.size() + 1;
        break;
      }
      try {
        if (work.size() >= 2) maybeShare();
      } catch (PathEnd &) {
      }
    }
    emitSummary();
    if (fclose(OUT)) _exit(4);
    sh->finished.fetch_add(1);
    sh->active.fetch_sub(1);
    _exit(0);
  }
  close(alive[1]);
  char t[65536];
  while (read(alive[0], t, sizeof t) > 0)
    ; // until the last worker is gone
  unsigned nf = mem->files.load(), fin = mem->finished.load();
  for (unsigned i = 0; i < nf; i++) {
    string n = shared_dir + "/" + std::to_string(i);
    if (FILE *f = fopen(n.c_str(), "r")) {
      size_t k;
      while ((k = fread(t, 1, sizeof t, f)) > 0) fwrite(t, 1, k, OUT);
      fclose(f);
      unlink(n.c_str());
    }
  }
  rmdir(dir);
  bool bad = fin != nf || nf < initial;
  if (bad) fprintf(OUT, "\n{\"crash\":\"worker died (%u of %u finished)\"}\n", fin, nf);
  fflush(OUT);
  return bad ? 3 : 0;
}

// Writes the module with a call of sym_point() before every atomic instruction and sym_yield() at every pause, so
// that the native runner can follow a schedule found here.
static int writeInstrumented(const string &out) {
  auto *FT = FunctionType::get(Type::getVoidTy(LC), false);
  auto point = M->getOrInsertFunction("sym_point", FT), yield = M->getOrInsertFunction("sym_yield", FT);
  for (auto &F : *M)
    for (auto &B : F)
      for (auto &I : B) {
        if (isSchedPoint(I)) CallInst::Create(point, "", &I);
        if (auto *C = dyn_cast<CallInst>(&I))
          if (C->getCalledFunction() && C->getCalledFunction()->getName() == "llvm.x86.sse2.pause") CallInst::Create(yield, "", &I);
      }
  StripDebugInfo(*M);
  std::error_code ec;
  raw_fd_ostream o(out, ec);
  if (ec) return 2;
  WriteBitcodeToFile(*M, o);
  return 0;
}

int main(int argc, char **argv) {
  T0 = now();
  OUT = stdout;
  string file, instrument;
  for (int i = 1; i < argc; i++) {
    string a = argv[i];
    auto nx = [&]() -> string { return i + 1 < argc ? argv[++i] : ""; };
    if (a == "--entry") OPT_entry = nx();
    else if (a == "--jobs") OPT_jobs = atoi(nx().c_str());
    else if (a == "--max-steps") OPT_maxsteps = strtoull(nx().c_str(), 0, 10);
    else if (a == "--max-paths") OPT_maxpaths = strtoull(nx().c_str(), 0, 10);
    else if (a == "--qtimeout") OPT_qtimeout = atoi(nx().c_str());
    else if (a == "--time-limit") OPT_time = atof(nx().c_str());
    else if (a == "--mem") OPT_memmb = atoi(nx().c_str());
    else if (a == "--src-prefix") OPT_srcprefix = nx();
    else if (a == "--verbose") OPT_verbose = true;
    else if (a == "--instrument") instrument = nx();
    else if (a == "--concrete") {
      OPT_concrete = true;
      std::stringstream ss(nx());
      string t;
      while (std::getline(ss, t, ','))
        if (!t.empty()) OPT_vals.push_back(strtoull(t.c_str(), 0, 10));
    } else file = a;
  }
  SMDiagnostic err;
  M = parseIRFile(file, err, LC);
  if (!M) {
    err.print("symx", errs());
    return 2;
  }
  if (!instrument.empty()) return writeInstrumented(instrument);
  DL = &M->getDataLayout();
  if (auto *G = M->getGlobalVariable("__cxa_thread_atexit_impl")) { // glibc has it (destructors of thread locals are never run here)
    Type *P = PointerType::getUnqual(LC);
    Function *F = Function::Create(FunctionType::get(Type::getInt32Ty(LC), {P, P, P}, false), GlobalValue::ExternalLinkage, "", *M);
    F->takeName(G);
    G->replaceAllUsesWith(F);
    G->eraseFromParent();
  }
  Z3_config cfg = Z3_mk_config();
  Z3_set_param_value(cfg, "model", "true");
  Z = Z3_mk_context(cfg);
  Z3_set_error_handler(Z, zerr);
  F32S = Z3_mk_fpa_sort_32(Z);
  F64S = Z3_mk_fpa_sort_64(Z);
  RNE = Z3_mk_fpa_round_nearest_ties_to_even(Z);
  RTZ = Z3_mk_fpa_round_toward_zero(Z);
  RTP = Z3_mk_fpa_round_toward_positive(Z);
  RTN = Z3_mk_fpa_round_toward_negative(Z);
  solvBV = Z3_mk_solver_for_logic(Z, Z3_mk_string_symbol(Z, "QF_BV"));
  Z3_solver_inc_ref(Z, solvBV);
  solvFP = Z3_mk_solver_for_logic(Z, Z3_mk_string_symbol(Z, "QF_FPBV"));
  Z3_solver_inc_ref(Z, solvFP);
  Z3_params ps = Z3_mk_params(Z);
  Z3_params_inc_ref(Z, ps);
  Z3_params_set_uint(Z, ps, Z3_mk_string_symbol(Z, "timeout"), OPT_qtimeout);
  Z3_solver_set_params(Z, solvBV, ps);
  Z3_solver_set_params(Z, solvFP, ps);

  uint64_t a = 0x10000000ull;
  for (auto &F : *M) {
    gaddr[&F] = a;
    faddr[a] = &F;
    a += 16;
  }
  a = 0x40000000ull;
  for (auto &G : M->globals()) {
    uint64_t sz = std::max<uint64_t>(1, DL->getTypeAllocSize(G.getValueType()));
    uint64_t al = std::max<uint64_t>(16, G.getAlign() ? G.getAlign()->value() : 16);
    a = (a + al - 1) / al * al;
    if (G.isThreadLocal() && !G.isDeclaration()) tlsAddrs.push_back(a);
    if (G.isDeclaration()) {
      // extern weak symbol (statx, gnu_get_libc_version, ...) : absent
      gaddr[&G] = G.hasExternalWeakLinkage() ? 0 : a;
    } else {
      gaddr[&G] = a;
      gbybase[a] = &G;
    }
    a += sz + 32;
  }
  for (auto &F : *M)
    if (F.hasExternalWeakLinkage() && F.isDeclaration()) gaddr[&F] = 0;

  Function *E = M->getFunction(OPT_entry);
  if (!E || E->isDeclaration()) {
    fprintf(stderr, "no entry %s\n", OPT_entry.c_str());
    return 2;
  }
  {
    Machine m;
    m.s.model = std::make_shared<Assign>();
    vector<Val> none;
    m.pushCall(E, none);
    pushState(std::move(m.s));
  }
  // Phase 1: breadth-first until there is enough work to share.
  size_t want = OPT_jobs > 1 ? OPT_jobs * 24 : 0;
  double tload = now() - T0;
  while (!work.empty() && (OPT_jobs <= 1 || (work.size() < want && now() - T0 < 1.0 + tload))) {
    size_t idx = work.size() - 1;
    if (OPT_jobs > 1) { // shallowest first
      for (size_t i = 0; i < work.size(); i++)
        if (work[i].depth < work[idx].depth) idx = i;
    }
    Machine m;
    std::swap(work[idx], work.back());
    m.s = std::move(work.back());
    work.pop_back();
    if (OPT_jobs > 1) {
      // run only until this state forks, to keep the frontier shallow
      size_t before = work.size();
      bool done = false;
      try {
        while (work.size() == before) {
          if (m.s.steps >= OPT_maxsteps) incompl(m.s, "step limit per path");
          if ((m.s.steps & 0xfff) == 0 && now() - T0 > OPT_time) incompl(m.s, "time limit");
          m.step();
        }
      } catch (PathEnd &e) {
        done = true;
        st.steps += m.s.steps;
        if (m.s.steps > st.maxsteps_path) st.maxsteps_path = m.s.steps;
        if (m.s.spec && (e.why == "ok" || e.why == "panic-expected")) st.paths_spec++;
        else if (e.why == "ok") {
          st.paths_ok++;
          if (samples.size() < 4) samples.push_back(inputsJson(m.s, *m.s.model));
        } else if (e.why == "assume") st.paths_assume++;
        else if (e.why == "panic-expected") st.paths_panic_expected++;
      }
      if (!done) work.push_back(std::move(m.s));
    } else
      m.run();
    if (st.paths_ok > OPT_maxpaths || now() - T0 > OPT_time) {
      if (!work.empty()) incomplete["path/time limit"] += work.size();
      break;
    }
    if (rssMB() > OPT_memmb && OPT_jobs <= 1) {
      incomplete["memory limit"] += work.size();
      break;
    }
  }
  if (OPT_jobs > 1 && !work.empty() && now() - T0 <= OPT_time) return runWorkers();
  emitSummary();
  return 0;
}
