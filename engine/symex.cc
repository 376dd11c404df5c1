// symex: an exhaustive symbolic executor for LLVM IR (LLVM 18, opaque pointers).
//
// The program is the IR clang emits for the real sources of the repository
// plus a harness.  Inputs requested through verif_sym / verif_choose are
// symbolic bit-vectors; the engine explores every feasible path, Z3 decides
// the feasibility of each branch and every assertion, and every access is
// checked against the bounds and lifetime of the object it falls in.
#include "expr.h"

#include <fcntl.h>
#include <pthread.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>

#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DerivedTypes.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/GlobalVariable.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>

#include <map>
#include <set>

using namespace llvm;

static ExprPool EP;
static Solver SV;

// ---------------------------------------------------------------- values
struct Val {
  u64 c;
  Expr* e;
};
static inline Val CV(u64 v) { return Val{v, nullptr}; }
static inline Expr* toE(const Val& v, unsigned w) { return v.e ? v.e : EP.konst(v.c, w); }
static inline Val fromE(Expr* e) {
  if (e->k == EConst) return CV(e->val);
  return Val{0, e};
}

// ---------------------------------------------------------------- memory
struct SymB { Expr* e; u8 idx; };
struct Obj {
  u32 rc;
  u32 size;
  u8 kind;  // 0 heap(malloc) 1 heap(new) 2 stack 3 global 4 const global 5 heap(new[])
  u32 raceW, raceWClk;  // (unused when race detection is off)
  u8* b;
  SymB* s;
};
static Obj* newObj(u32 size, u8 kind) {
  Obj* o = (Obj*)calloc(1, sizeof(Obj));
  o->rc = 1;
  o->size = size;
  o->kind = kind;
  o->b = (u8*)malloc(size ? size : 1);
  return o;
}
static void unref(Obj* o) {
  if (o && --o->rc == 0) {
    free(o->b);
    free(o->s);
    free(o);
  }
}
static Obj* cloneObj(Obj* o) {
  Obj* n = newObj(o->size, o->kind);
  memcpy(n->b, o->b, o->size);
  if (o->s) {
    n->s = (SymB*)malloc(sizeof(SymB) * (o->size ? o->size : 1));
    memcpy(n->s, o->s, sizeof(SymB) * o->size);
  }
  return n;
}

constexpr u32 kPage = 128;
struct Page {
  u32 rc;
  Obj* o[kPage];
};
constexpr u64 kFnBase = 0xF0000000ull;

struct Mem {
  std::vector<Page*> pages;
  u32 next = 0x10;
  Mem() {}
  Mem(const Mem& m) : pages(m.pages), next(m.next) {
    for (Page* p : pages) if (p) p->rc++;
  }
  Mem& operator=(const Mem&) = delete;
  ~Mem() { for (Page* p : pages) drop(p); }
  static void drop(Page* p) {
    if (p && --p->rc == 0) {
      for (Obj* o : p->o) unref(o);
      free(p);
    }
  }
  Obj* get(u32 id) const {
    u32 pg = id / kPage;
    if (pg >= pages.size() || !pages[pg]) return nullptr;
    return pages[pg]->o[id % kPage];
  }
  Obj** slotw(u32 id) {
    u32 pg = id / kPage;
    if (pg >= pages.size()) pages.resize(pg + 1, nullptr);
    Page* p = pages[pg];
    if (!p) {
      p = (Page*)calloc(1, sizeof(Page));
      p->rc = 1;
      pages[pg] = p;
    } else if (p->rc > 1) {
      Page* n = (Page*)malloc(sizeof(Page));
      memcpy(n, p, sizeof(Page));
      n->rc = 1;
      for (Obj* o : n->o) if (o) o->rc++;
      p->rc--;
      pages[pg] = n;
      p = n;
    }
    return &p->o[id % kPage];
  }
  Obj* getw(u32 id) {
    Obj** s = slotw(id);
    Obj* o = *s;
    if (o && o->rc > 1) {
      Obj* n = cloneObj(o);
      o->rc--;
      *s = n;
      o = n;
    }
    return o;
  }
  u32 add(Obj* o) {
    u32 id = next++;
    *slotw(id) = o;
    return id;
  }
  void del(u32 id) {
    Obj** s = slotw(id);
    unref(*s);
    *s = nullptr;
  }
};

// ---------------------------------------------------------------- decoded code
enum Op : u8 {
  OAdd, OSub, OMul, OUDiv, OSDiv, OURem, OSRem, OAnd, OOr, OXor, OShl, OLShr, OAShr,
  OICmp, OFCmp, OFAdd, OFSub, OFMul, OFDiv, OFRem, OFNeg,
  OTrunc, OZExt, OSExt, OSIToFP, OUIToFP, OFPToSI, OFPToUI, OFPExt, OFPTrunc, OMov,
  OLoad, OStore, OGep, OAlloca, OBr, OCondBr, OSwitch, ORet, OCall, OSelect, OUnreach,
  OIntr, OCmpXchg, OAtomicRMW, OPack, OExtractDyn, OInsertDyn, ONop
};

struct Inst {
  Op op;
  u8 w, w2;   // result / operand width
  u8 sub;
  int32_t dst;
  int32_t a, b, c;
  u32 aux, aux2;
  const void* p;
};

struct Edge {
  u32 target;
  u32 movBeg, movEnd;
};
struct FuncInfo;
struct CallInfo {
  const Function* callee = nullptr;  // direct
  int32_t fnOp = 0;                  // indirect operand
  std::vector<int32_t> args;         // leaf operands
  std::vector<u32> byvalSize;        // per leaf, nonzero for byval pointers
  u32 nret = 0;
  u32 ext = 0;  // external/intrinsic id
  unsigned retw = 0;
  std::vector<u8> argw;
};
struct SwitchInfo {
  std::vector<std::pair<u64, u32>> cases;
  u32 def;
};
struct FuncInfo {
  const Function* f;
  u32 idx;
  bool decoded = false;
  u32 nregs = 0;
  std::vector<Inst> code;
  std::vector<Edge> edges;
  std::vector<std::pair<int32_t, int32_t>> movs;
  std::vector<std::unique_ptr<CallInfo>> calls;
  std::vector<std::unique_ptr<SwitchInfo>> switches;
  std::vector<std::vector<std::pair<int32_t, u64>>> geps;
  std::string name;
};

static Module* M;
static const DataLayout* DL;
static std::vector<Val> consts;
static std::unordered_map<const Function*, FuncInfo*> finfo;
static std::vector<FuncInfo*> flist;
static std::unordered_map<const GlobalVariable*, u64> gaddr;
static std::vector<const Function*> fnByIdx;
static std::unordered_map<const Function*, u64> fnAddr;

// ---------------------------------------------------------------- externals
enum Ext : u32 {
  XNone, XMalloc, XCalloc, XRealloc, XFree, XNew, XDelete, XMemcpy, XMemmove, XMemset, XMemcmp, XStrlen, XMemchr,
  XAbort, XAtexit, XPureVirtual, XThrow, XMath1, XMath2, XIgnore0,
  XSym, XChoose, XAssert, XAssume, XFail, XReach, XKnown, XNote, XCoCreate, XCoSwitch, XStop, XConcretize, XCase,
  XInteresting,
  ISat, IOverflow, IMinMax, IAbs, IBswap, ICtpop, ICtlz, ICttz, IFshl, IFshr, IFpRound, IFabs, ISqrt, IFma, IMath1,
  ICopysign, IFMinMax, ITrap, ICopy0, IConst0, IObjSize, IUnsupported, IVecReduce, IIsFpClass, XExit, XPrint, XIsSym
};

// ---------------------------------------------------------------- states
struct Frame {
  FuncInfo* f;
  u32 pc;
  u32 base;
  int32_t dst;
  u32 nret;
  u32 allocaBeg;
};
struct Thread {
  std::vector<Frame> frames;
  std::vector<Val> regs;
  std::vector<u32> allocas;
};
struct Input {
  u8 kind;  // 0 sym, 1 choose
  u8 w;
  u32 var;  // variable index (sym)
  u64 val;  // concrete (choose)
  u32 name; // interned
};

struct State {
  std::vector<Thread> th;
  u32 cur = 0;
  Mem mem;
  std::vector<Expr*> cons;
  std::unordered_set<Expr*> consSet;
  std::shared_ptr<Model> model;
  std::vector<Input> inputs;
  std::vector<u64> dec;
  size_t forced = 0;     // read cursor into dec
  u32 nsym = 0;
  u64 steps = 0;
  std::vector<u32> notes;
  u32 caseId = 0;
};

struct Shared {
  pthread_mutex_t mu;
  u64 paths, insts, forks, queries, cacheHits, unknowns, asserts, assertQueries, violations, killedAssume, unsupported, truncated, known;
  u64 sat, unsat, chooses, syms;
  double solverTime;
  int idle, workers;
  int stop;
  int witnesses, maxWitness;
  u64 qlen;   // number of jobs
  u64 qtop;   // words used in the job stack
  u64 lost;
  u8 cov[65536];  // function coverage
  u64 q[1];
};
static Shared* SH;
static size_t SHQ = 0;

static std::vector<std::string> strtab;
static std::unordered_map<std::string, u32> strid;
static u32 intern(const std::string& s) {
  auto it = strid.find(s);
  if (it != strid.end()) return it->second;
  u32 id = strtab.size();
  strtab.push_back(s);
  strid[s] = id;
  return id;
}

struct PathEnd { int why; };  // 0 done, 1 infeasible/assume, 2 violation, 3 unsupported, 4 truncated
static std::vector<std::unique_ptr<State>> stackS;
static std::string outPath;
static u64 maxSteps = 20000000;
static double deadline = 1e18;
static int maxViol = 4;
static bool verbose = false;
static std::set<std::string> reached, unsupportedSeen, knownSeen;
static std::map<std::string, int> violSeen;
static FILE* outF;

static std::string jesc(const std::string& s) {
  std::string r;
  for (char ch : s) {
    if (ch == '"' || ch == '\\') { r += '\\'; r += ch; }
    else if ((unsigned char)ch < 32) { char b[8]; snprintf(b, 8, "\\u%04x", ch); r += b; }
    else r += ch;
  }
  return r;
}
static void emit(const std::string& line) {
  std::string l = line + "\n";
  if (write(fileno(outF), l.data(), l.size()) < 0) {}
}

static std::string where(State& S) {
  std::string r;
  if (S.th.empty()) return r;
  auto& fr = S.th[S.cur].frames;
  int n = 0;
  for (int i = (int)fr.size() - 1; i >= 0 && n < 14; i--, n++) {
    std::string d = demangle(fr[i].f->f->getName().str());
    if (d.size() > 140) d = d.substr(0, 140) + "...";
    if (!r.empty()) r += " < ";
    r += d;
  }
  return r;
}

static std::shared_ptr<Model>& ensureModel(State& S);

static std::string inputsJson(State& S, Model* m) {
  std::string j = "[";
  for (size_t i = 0; i < S.inputs.size(); i++) {
    auto& in = S.inputs[i];
    u64 v = in.kind == 1 ? in.val : (m->get(in.var) & mask(in.w));
    if (i) j += ",";
    j += "[" + std::to_string(in.kind) + "," + std::to_string(in.w) + ",\"" + std::to_string(v) + "\",\"" + jesc(strtab[in.name]) + "\"]";
  }
  return j + "]";
}
static void violation(State& S, const std::string& msg, Model* m) {
  __sync_fetch_and_add(&SH->violations, 1);
  int& n = violSeen[msg];
  if (n++ >= 3) return;
  std::string j = "{\"t\":\"violation\",\"msg\":\"" + jesc(msg) + "\",\"where\":\"" + jesc(where(S)) + "\",\"case\":" + std::to_string(S.caseId) + ",\"inputs\":[";
  for (size_t i = 0; i < S.inputs.size(); i++) {
    auto& in = S.inputs[i];
    u64 v = in.kind == 1 ? in.val : (m->get(in.var) & mask(in.w));
    if (i) j += ",";
    j += "[" + std::to_string(in.kind) + "," + std::to_string(in.w) + ",\"" + std::to_string(v) + "\",\"" + jesc(strtab[in.name]) + "\"]";
  }
  j += "]}";
  emit(j);
  if ((int)__sync_add_and_fetch(&SH->truncated, 0) < 0) {}
  if ((int)SH->violations >= maxViol) SH->stop = 1;
}

static void addCons(State& S, Expr* e) {
  if (e->k == EConst) return;
  if (e->k == EAnd && e->w == 1) { addCons(S, e->a); addCons(S, e->b); return; }
  if (S.consSet.insert(e).second) S.cons.push_back(e);
}

// Constraints transitively sharing variables with q.
static std::vector<Expr*> slice(State& S, Expr* q) {
  std::unordered_set<u32> vars(q->vars->begin(), q->vars->end());
  std::vector<Expr*> out;
  std::vector<char> used(S.cons.size(), 0);
  bool ch = true;
  while (ch) {
    ch = false;
    for (size_t i = 0; i < S.cons.size(); i++) {
      if (used[i]) continue;
      bool hit = false;
      for (u32 v : *S.cons[i]->vars) if (vars.count(v)) { hit = true; break; }
      if (hit) {
        used[i] = 1;
        ch = true;
        out.push_back(S.cons[i]);
        for (u32 v : *S.cons[i]->vars) vars.insert(v);
      }
    }
  }
  out.push_back(q);
  return out;
}

static std::shared_ptr<Model>& ensureModel(State& S) {
  if (!S.model) {
    auto m = std::make_shared<Model>();
    SatRes r = SV.check(S.cons, m.get());
    if (r == UNSAT) throw PathEnd{1};
    if (r == UNKNOWN) { __sync_fetch_and_add(&SH->unknowns, 1); throw PathEnd{4}; }
    S.model = m;
  }
  return S.model;
}

static std::unique_ptr<State> cloneState(State& S) {
  return std::make_unique<State>(S);
}

// Position in the decision log where the current instruction started.
static size_t instDec = 0;
// Register state at instruction start is unchanged until all decisions of the
// instruction have been taken, so a clone re-executes the same instruction.

static bool forcedNext(State& S, u64* out) {
  if (S.forced < S.dec.size()) { *out = S.dec[S.forced++]; return true; }
  return false;
}
static void logDec(State& S, u64 v) { S.dec.push_back(v); S.forced = S.dec.size(); }

static void pushFork(State& S, u64 decision, Expr* cons, std::shared_ptr<Model> m) {
  auto n = cloneState(S);
  n->dec.push_back(decision);
  n->forced = instDec;
  if (cons) addCons(*n, cons);
  n->model = m;
  stackS.push_back(std::move(n));
  __sync_fetch_and_add(&SH->forks, 1);
}

static bool decide(State& S, Expr* cond) {
  if (cond->k == EConst) return cond->val;
  u64 d;
  if (forcedNext(S, &d)) {
    Expr* c = d ? cond : EP.notb(cond);
    if (S.model && !EP.eval(c, *S.model)) S.model = nullptr;
    addCons(S, c);
    return d;
  }
  auto& m = ensureModel(S);
  bool mv = EP.eval(cond, *m);
  Expr* mine = mv ? cond : EP.notb(cond);
  Expr* other = mv ? EP.notb(cond) : cond;
  if (S.consSet.count(mine)) { logDec(S, mv); return mv; }
  auto nm = std::make_shared<Model>(*m);
  SatRes r = SV.check(slice(S, other), nm.get());
  if (r == SAT) {
    pushFork(S, !mv, other, nm);
    addCons(S, mine);
  } else if (r == UNKNOWN) {
    __sync_fetch_and_add(&SH->unknowns, 1);
    addCons(S, mine);
  }
  logDec(S, mv);
  return mv;
}

static u64 concretize(State& S, Expr* e) {
  if (e->k == EConst) return e->val;
  for (int n = 0;; n++) {
    u64 v;
    if (!forcedNext(S, &v)) {
      v = EP.eval(e, *ensureModel(S));
      logDec(S, v);
    }
    if (decide(S, EP.bin(EEq, e, EP.konst(v, e->w)))) return v;
    if (n > 4096) throw PathEnd{4};
  }
}
static u64 cval(State& S, const Val& v) { return v.e ? concretize(S, v.e) : v.c; }

static void unsupported(State& S, const std::string& what) {
  if (unsupportedSeen.insert(what).second)
    emit("{\"t\":\"unsupported\",\"msg\":\"" + jesc(what) + "\",\"where\":\"" + jesc(where(S)) + "\"}");
  throw PathEnd{3};
}
static void memerr(State& S, const std::string& what) {
  violation(S, "memory-error: " + what, ensureModel(S).get());
  throw PathEnd{2};
}

// ---------------------------------------------------------------- accesses
static Obj* resolve(State& S, u64 addr, u64 n, bool write, const char* what) {
  u32 id = addr >> 32;
  u32 off = (u32)addr;
  Obj* o = S.mem.get(id);
  if (!o) {
    if (id == 0) memerr(S, std::string(what) + " through a null pointer");
    if (id >= kFnBase) memerr(S, std::string(what) + " of code");
    memerr(S, std::string(what) + (id < S.mem.next ? " of freed or out-of-scope memory" : " through a wild pointer"));
  }
  if ((u64)off + n > o->size) memerr(S, std::string(what) + " out of bounds");
  if (write) {
    if (o->kind == 4) memerr(S, "write to constant memory");
    if (o->rc > 1 || S.mem.pages[id / kPage]->rc > 1) o = S.mem.getw(id);
  }
  return o;
}

static Val loadN(State& S, u64 addr, unsigned n) {
  Obj* o = resolve(S, addr, n, false, "read");
  u32 off = (u32)addr;
  if (o->s) {
    SymB* s = o->s + off;
    bool any = false;
    for (unsigned i = 0; i < n; i++) if (s[i].e) { any = true; break; }
    if (any) {
      Expr* e0 = s[0].e;
      if (e0 && e0->w == n * 8) {
        bool same = true;
        for (unsigned i = 0; i < n; i++) if (s[i].e != e0 || s[i].idx != i) { same = false; break; }
        if (same) return Val{0, e0};
      }
      Expr* r = nullptr;
      for (unsigned i = 0; i < n;) {
        // group runs
        Expr* part;
        if (!s[i].e) {
          unsigned j = i;
          u64 v = 0;
          while (j < n && !s[j].e) { v |= (u64)o->b[off + j] << (8 * (j - i)); j++; }
          part = EP.konst(v, 8 * (j - i));
          i = j;
        } else {
          unsigned j = i + 1;
          while (j < n && s[j].e == s[i].e && s[j].idx == s[i].idx + (j - i)) j++;
          part = EP.extract(s[i].e, s[i].idx * 8, (j - i) * 8);
          i = j;
        }
        r = r ? EP.concat(part, r) : part;
      }
      return fromE(r);
    }
  }
  u64 v = 0;
  memcpy(&v, o->b + off, n);
  return CV(v);
}

static void storeN(State& S, u64 addr, unsigned n, const Val& v) {
  Obj* o = resolve(S, addr, n, true, "write");
  u32 off = (u32)addr;
  if (v.e) {
    Expr* e = v.e;
    if (e->w < n * 8) e = EP.zext(e, n * 8);
    if (!o->s) o->s = (SymB*)calloc(o->size ? o->size : 1, sizeof(SymB));
    for (unsigned i = 0; i < n; i++) { o->s[off + i].e = e; o->s[off + i].idx = i; }
    return;
  }
  memcpy(o->b + off, &v.c, n);
  if (o->s) memset(o->s + off, 0, n * sizeof(SymB));
}

static void copyMem(State& S, u64 d, u64 s, u64 n) {
  if (!n) return;
  Obj* so = resolve(S, s, n, false, "memcpy read");
  so->rc++;
  u32 soff = (u32)s, doff = (u32)d;
  Obj* dob;
  try { dob = resolve(S, d, n, true, "memcpy write"); } catch (...) { so->rc--; throw; }
  memmove(dob->b + doff, so->b + soff, n);
  if (so->s) {
    if (!dob->s) dob->s = (SymB*)calloc(dob->size ? dob->size : 1, sizeof(SymB));
    memmove(dob->s + doff, so->s + soff, n * sizeof(SymB));
  } else if (dob->s) {
    memset(dob->s + doff, 0, n * sizeof(SymB));
  }
  unref(so);
}
static u64 allocObj(State& S, u64 size, u8 kind) {
  if (size > (1u << 28)) memerr(S, "allocation of an absurd size");
  Obj* o = newObj((u32)size, kind);
  memset(o->b, kind == 3 ? 0 : 0xbe, size);
  u32 id = S.mem.add(o);
  return (u64)id << 32;
}
static std::string readStr(State& S, u64 a) {
  std::string r;
  while (r.size() < 4096) {
    Val v = loadN(S, a + r.size(), 1);
    u64 c = v.e ? EP.eval(v.e, *ensureModel(S)) : v.c;
    if (!c) break;
    r += (char)c;
  }
  return r;
}

// ---------------------------------------------------------------- decode
static unsigned bitw(Type* t) {
  if (t->isPointerTy()) return 64;
  if (t->isIntegerTy()) return t->getIntegerBitWidth();
  if (t->isDoubleTy()) return 64;
  if (t->isFloatTy()) return 32;
  if (t->isX86_FP80Ty()) return 64;  // unsupported, never read exactly
  return 64;
}
static void leafTypes(Type* t, u64 off, std::vector<std::pair<Type*, u64>>& out) {
  if (t->isVoidTy() || t->isLabelTy() || t->isMetadataTy() || t->isTokenTy()) return;
  if (auto* st = dyn_cast<StructType>(t)) {
    const StructLayout* sl = DL->getStructLayout(st);
    for (unsigned i = 0; i < st->getNumElements(); i++) leafTypes(st->getElementType(i), off + sl->getElementOffset(i), out);
  } else if (auto* at = dyn_cast<ArrayType>(t)) {
    u64 es = DL->getTypeAllocSize(at->getElementType());
    for (u64 i = 0; i < at->getNumElements(); i++) leafTypes(at->getElementType(), off + i * es, out);
  } else if (auto* vt = dyn_cast<FixedVectorType>(t)) {
    u64 es = DL->getTypeStoreSize(vt->getElementType());
    for (u64 i = 0; i < vt->getNumElements(); i++) leafTypes(vt->getElementType(), off + i * es, out);
  } else if (t->isIntegerTy() && t->getIntegerBitWidth() > 64) {
    // represented as 64-bit limbs (only moves, loads, stores, trunc, lshr by 64k)
    unsigned w = t->getIntegerBitWidth();
    for (unsigned i = 0; i < w; i += 64) out.push_back({Type::getIntNTy(t->getContext(), std::min(64u, w - i)), off + i / 8});
  } else {
    out.push_back({t, off});
  }
}
static u32 nleaves(Type* t) {
  std::vector<std::pair<Type*, u64>> v;
  leafTypes(t, 0, v);
  return v.size();
}

static std::unordered_map<u64, int32_t> constIdx;
static int32_t constOp(u64 v) {
  auto it = constIdx.find(v);
  if (it != constIdx.end()) return it->second;
  consts.push_back(CV(v));
  int32_t r = -(int32_t)consts.size();
  constIdx[v] = r;
  return r;
}
static u64 addrOfFn(const Function* f) {
  auto it = fnAddr.find(f);
  if (it != fnAddr.end()) return it->second;
  u64 a = (kFnBase + fnByIdx.size()) << 32;
  fnByIdx.push_back(f);
  fnAddr[f] = a;
  return a;
}

static void evalConst(const Constant* c, std::vector<u64>& out);
static u64 evalScalar(const Constant* c) {
  std::vector<u64> v;
  evalConst(c, v);
  if (v.size() != 1) { errs() << "const not scalar: " << *c << "\n"; return 0; }
  return v[0];
}
static void evalConst(const Constant* c, std::vector<u64>& out) {
  Type* t = c->getType();
  if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c) || isa<ConstantPointerNull>(c)) {
    u32 n = nleaves(t);
    for (u32 i = 0; i < n; i++) out.push_back(0);
    return;
  }
  if (auto* ci = dyn_cast<ConstantInt>(c)) {
    unsigned w = t->getIntegerBitWidth();
    if (w <= 64) { out.push_back(ci->getZExtValue()); return; }
    const APInt& ap = ci->getValue();
    for (unsigned i = 0; i < w; i += 64) out.push_back(ap.extractBitsAsZExtValue(std::min(64u, w - i), i));
    return;
  }
  if (auto* cf = dyn_cast<ConstantFP>(c)) {
    if (t->isX86_FP80Ty()) { out.push_back(0); return; }
    out.push_back(cf->getValueAPF().bitcastToAPInt().getZExtValue());
    return;
  }
  if (auto* cds = dyn_cast<ConstantDataSequential>(c)) {
    for (unsigned i = 0; i < cds->getNumElements(); i++) evalConst(cds->getElementAsConstant(i), out);
    return;
  }
  if (auto* ca = dyn_cast<ConstantAggregate>(c)) {
    for (unsigned i = 0; i < ca->getNumOperands(); i++) evalConst(ca->getOperand(i), out);
    return;
  }
  if (auto* f = dyn_cast<Function>(c)) { out.push_back(addrOfFn(f)); return; }
  if (auto* g = dyn_cast<GlobalVariable>(c)) { out.push_back(gaddr[g]); return; }
  if (auto* ga = dyn_cast<GlobalAlias>(c)) { evalConst(ga->getAliasee(), out); return; }
  if (auto* de = dyn_cast<DSOLocalEquivalent>(c)) { evalConst(de->getGlobalValue(), out); return; }
  if (auto* ce = dyn_cast<ConstantExpr>(c)) {
    switch (ce->getOpcode()) {
      case Instruction::GetElementPtr: {
        auto* gep = cast<GEPOperator>(ce);
        APInt off(64, 0);
        if (!gep->accumulateConstantOffset(*DL, off)) errs() << "gep const?\n";
        out.push_back(evalScalar(cast<Constant>(gep->getPointerOperand())) + off.getSExtValue());
        return;
      }
      case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::AddrSpaceCast: {
        unsigned w = bitw(t);
        out.push_back(evalScalar(ce->getOperand(0)) & mask(w));
        return;
      }
      case Instruction::Trunc: out.push_back(evalScalar(ce->getOperand(0)) & mask(bitw(t))); return;
      case Instruction::Sub: out.push_back((evalScalar(ce->getOperand(0)) - evalScalar(ce->getOperand(1))) & mask(bitw(t))); return;
      case Instruction::Add: out.push_back((evalScalar(ce->getOperand(0)) + evalScalar(ce->getOperand(1))) & mask(bitw(t))); return;
      case Instruction::Xor: out.push_back((evalScalar(ce->getOperand(0)) ^ evalScalar(ce->getOperand(1))) & mask(bitw(t))); return;
      case Instruction::ICmp: {
        u64 a = evalScalar(ce->getOperand(0)), b = evalScalar(ce->getOperand(1));
        switch (ce->getPredicate()) {
          case CmpInst::ICMP_EQ: out.push_back(a == b); return;
          case CmpInst::ICMP_NE: out.push_back(a != b); return;
          case CmpInst::ICMP_ULT: out.push_back(a < b); return;
          case CmpInst::ICMP_UGT: out.push_back(a > b); return;
          default: break;
        }
        break;
      }
      default: break;
    }
  }
  errs() << "unsupported constant: " << *c << "\n";
  u32 n = nleaves(t);
  for (u32 i = 0; i < n; i++) out.push_back(0);
}

static FuncInfo* getFn(const Function* f) {
  auto it = finfo.find(f);
  if (it != finfo.end()) return it->second;
  auto* fi = new FuncInfo;
  fi->f = f;
  fi->idx = flist.size();
  fi->name = f->getName().str();
  flist.push_back(fi);
  finfo[f] = fi;
  return fi;
}

static const std::unordered_map<std::string, u32>& extMap() {
  static std::unordered_map<std::string, u32> m = {
      {"malloc", XMalloc}, {"calloc", XCalloc}, {"realloc", XRealloc}, {"free", XFree},
      {"_Znwm", XNew}, {"_Znam", XNew}, {"_ZnwmSt11align_val_t", XNew}, {"_ZnamSt11align_val_t", XNew},
      {"_ZnwmRKSt9nothrow_t", XNew}, {"_ZnamRKSt9nothrow_t", XNew}, {"_ZnwmSt11align_val_tRKSt9nothrow_t", XNew},
      {"aligned_alloc", XNone},
      {"_ZdlPv", XDelete}, {"_ZdaPv", XDelete}, {"_ZdlPvm", XDelete}, {"_ZdaPvm", XDelete},
      {"_ZdlPvSt11align_val_t", XDelete}, {"_ZdlPvmSt11align_val_t", XDelete}, {"_ZdaPvSt11align_val_t", XDelete},
      {"_ZdlPvRKSt9nothrow_t", XDelete}, {"_ZdaPvRKSt9nothrow_t", XDelete},
      {"memcpy", XMemcpy}, {"memmove", XMemmove}, {"memset", XMemset}, {"memcmp", XMemcmp}, {"bcmp", XMemcmp},
      {"strlen", XStrlen}, {"memchr", XMemchr}, {"abort", XAbort}, {"__cxa_atexit", XAtexit}, {"__cxa_thread_atexit", XAtexit},
      {"__cxa_pure_virtual", XPureVirtual}, {"exit", XExit}, {"_exit", XExit},
      {"pow", XMath2}, {"fmod", XMath2}, {"exp", XMath1}, {"log", XMath1}, {"log2", XMath1}, {"sqrt", XMath1}, {"floor", XMath1}, {"ceil", XMath1}, {"log10", XMath1},
      {"verif_sym", XSym}, {"verif_choose_", XChoose}, {"verif_assert_", XAssert}, {"verif_assume", XAssume},
      {"verif_fail", XFail}, {"verif_reach", XReach}, {"verif_known", XKnown}, {"verif_note", XNote},
      {"verif_co_create", XCoCreate}, {"verif_co_switch", XCoSwitch}, {"verif_stop", XStop}, {"verif_concrete", XConcretize},
      {"verif_case", XCase}, {"verif_print", XPrint}, {"verif_is_sym", XIsSym},
  };
  return m;
}

struct Decoder {
  FuncInfo* fi;
  std::unordered_map<const Value*, int32_t> slot;
  std::unordered_map<const BasicBlock*, u32> bbpc;
  struct Fix { u32 edge; const BasicBlock* from; const BasicBlock* to; };
  std::vector<Fix> fixes;

  void ops(const Value* v, std::vector<int32_t>& out) {
    if (auto* c = dyn_cast<Constant>(v)) {
      std::vector<u64> vals;
      evalConst(c, vals);
      for (u64 x : vals) out.push_back(constOp(x));
      return;
    }
    auto it = slot.find(v);
    u32 n = nleaves(v->getType());
    if (it == slot.end()) {
      if (isa<MetadataAsValue>(v) || isa<InlineAsm>(v) || isa<BasicBlock>(v)) return;
      errs() << "no slot for " << *v << "\n";
      abort();
    }
    for (u32 i = 0; i < n; i++) out.push_back(it->second + i);
  }
  int32_t op1(const Value* v) {
    std::vector<int32_t> o;
    ops(v, o);
    return o.empty() ? constOp(0) : o[0];
  }
  Inst& add(Op op, int32_t dst, unsigned w, int32_t a = 0, int32_t b = 0, int32_t c = 0, unsigned w2 = 0, unsigned sub = 0) {
    Inst i{};
    i.op = op; i.dst = dst; i.w = w; i.a = a; i.b = b; i.c = c; i.w2 = w2; i.sub = sub;
    fi->code.push_back(i);
    return fi->code.back();
  }
  u32 edge(const BasicBlock* from, const BasicBlock* to) {
    fi->edges.push_back(Edge{0, 0, 0});
    fixes.push_back({(u32)fi->edges.size() - 1, from, to});
    return fi->edges.size() - 1;
  }

  void run() {
    const Function* f = fi->f;
    u32 n = 0;
    for (auto& a : f->args()) { slot[&a] = n; n += nleaves(a.getType()); }
    for (auto& bb : *f)
      for (auto& i : bb) {
        u32 k = nleaves(i.getType());
        if (k) { slot[&i] = n; n += k; }
      }
    fi->nregs = n;
    for (auto& bb : *f) {
      bbpc[&bb] = fi->code.size();
      for (auto& i : bb) one(i);
    }
    for (auto& fx : fixes) {
      Edge& e = fi->edges[fx.edge];
      e.target = bbpc[fx.to];
      e.movBeg = fi->movs.size();
      for (auto& phi : fx.to->phis()) {
        std::vector<int32_t> src;
        ops(phi.getIncomingValueForBlock(fx.from), src);
        for (size_t k = 0; k < src.size(); k++)
          if (slot[&phi] + (int)k != src[k]) fi->movs.push_back({slot[&phi] + (int)k, src[k]});
      }
      e.movEnd = fi->movs.size();
    }
    fi->decoded = true;
  }

  void one(const Instruction& I) {
    int32_t d = slot.count(&I) ? slot[&I] : -1;
    Type* T = I.getType();
    switch (I.getOpcode()) {
      case Instruction::PHI: return;
      case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::SDiv:
      case Instruction::URem: case Instruction::SRem: case Instruction::And: case Instruction::Or: case Instruction::Xor:
      case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: case Instruction::FAdd: case Instruction::FSub:
      case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem: {
        static const std::map<unsigned, Op> mp = {
            {Instruction::Add, OAdd}, {Instruction::Sub, OSub}, {Instruction::Mul, OMul}, {Instruction::UDiv, OUDiv},
            {Instruction::SDiv, OSDiv}, {Instruction::URem, OURem}, {Instruction::SRem, OSRem}, {Instruction::And, OAnd},
            {Instruction::Or, OOr}, {Instruction::Xor, OXor}, {Instruction::Shl, OShl}, {Instruction::LShr, OLShr},
            {Instruction::AShr, OAShr}, {Instruction::FAdd, OFAdd}, {Instruction::FSub, OFSub}, {Instruction::FMul, OFMul},
            {Instruction::FDiv, OFDiv}, {Instruction::FRem, OFRem}};
        if (T->isIntegerTy() && T->getIntegerBitWidth() > 64) { wide(I, d); return; }
        std::vector<int32_t> a, b;
        ops(I.getOperand(0), a);
        ops(I.getOperand(1), b);
        unsigned w = bitw(T->getScalarType());
        for (size_t k = 0; k < a.size(); k++) add(mp.at(I.getOpcode()), d + k, w, a[k], b[k]);
        return;
      }
      case Instruction::FNeg: {
        std::vector<int32_t> a;
        ops(I.getOperand(0), a);
        unsigned w = bitw(T->getScalarType());
        for (size_t k = 0; k < a.size(); k++) add(OXor, d + k, w, a[k], constOp(1ull << (w - 1)));
        return;
      }
      case Instruction::ICmp: case Instruction::FCmp: {
        std::vector<int32_t> a, b;
        ops(I.getOperand(0), a);
        ops(I.getOperand(1), b);
        auto& C = cast<CmpInst>(I);
        Type* ot = I.getOperand(0)->getType();
        if (ot->isIntegerTy() && ot->getIntegerBitWidth() > 64) { wide(I, d); return; }
        unsigned w = bitw(ot->getScalarType());
        for (size_t k = 0; k < a.size(); k++)
          add(isa<ICmpInst>(I) ? OICmp : OFCmp, d + k, 1, a[k], b[k], 0, w, (unsigned)C.getPredicate());
        return;
      }
      case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: case Instruction::SIToFP: case Instruction::UIToFP:
      case Instruction::FPToSI: case Instruction::FPToUI: case Instruction::FPExt: case Instruction::FPTrunc: {
        static const std::map<unsigned, Op> mp = {
            {Instruction::Trunc, OTrunc}, {Instruction::ZExt, OZExt}, {Instruction::SExt, OSExt}, {Instruction::SIToFP, OSIToFP},
            {Instruction::UIToFP, OUIToFP}, {Instruction::FPToSI, OFPToSI}, {Instruction::FPToUI, OFPToUI},
            {Instruction::FPExt, OFPExt}, {Instruction::FPTrunc, OFPTrunc}};
        Type* ot = I.getOperand(0)->getType();
        if ((T->isIntegerTy() && T->getIntegerBitWidth() > 64) || (ot->isIntegerTy() && ot->getIntegerBitWidth() > 64) ||
            T->isX86_FP80Ty() || ot->isX86_FP80Ty()) {
          wide(I, d);
          return;
        }
        std::vector<int32_t> a;
        ops(I.getOperand(0), a);
        for (size_t k = 0; k < a.size(); k++)
          add(mp.at(I.getOpcode()), d + k, bitw(T->getScalarType()), a[k], 0, 0, bitw(ot->getScalarType()));
        return;
      }
      case Instruction::PtrToInt: case Instruction::IntToPtr: {
        unsigned w = bitw(T), w2 = bitw(I.getOperand(0)->getType());
        int32_t a = op1(I.getOperand(0));
        if (w < w2) add(OTrunc, d, w, a, 0, 0, w2);
        else if (w > w2) add(OZExt, d, w, a, 0, 0, w2);
        else add(OMov, d, w, a);
        return;
      }
      case Instruction::Freeze: case Instruction::AddrSpaceCast: {
        std::vector<int32_t> a;
        ops(I.getOperand(0), a);
        for (size_t k = 0; k < a.size(); k++) add(OMov, d + k, 64, a[k]);
        return;
      }
      case Instruction::BitCast: {
        std::vector<int32_t> a;
        ops(I.getOperand(0), a);
        std::vector<std::pair<Type*, u64>> lt, lf;
        leafTypes(T, 0, lt);
        leafTypes(I.getOperand(0)->getType(), 0, lf);
        if (lt.size() == lf.size()) {
          for (size_t k = 0; k < a.size(); k++) add(OMov, d + k, 64, a[k]);
          return;
        }
        auto* ci = new CallInfo;
        ci->args = a;
        for (auto& x : lf) ci->argw.push_back(bitw(x.first));
        ci->nret = lt.size();
        ci->retw = bitw(lt[0].first);
        fi->calls.emplace_back(ci);
        add(OPack, d, ci->retw).p = ci;
        return;
      }
      case Instruction::Load: {
        std::vector<std::pair<Type*, u64>> l;
        leafTypes(T, 0, l);
        int32_t a = op1(I.getOperand(0));
        for (size_t k = 0; k < l.size(); k++) {
          auto& in = add(OLoad, d + k, bitw(l[k].first), a);
          in.aux = l[k].second;
          in.aux2 = (bitw(l[k].first) + 7) / 8;
          if (in.aux2 == 3) in.aux2 = 3;
        }
        return;
      }
      case Instruction::Store: {
        std::vector<std::pair<Type*, u64>> l;
        leafTypes(I.getOperand(0)->getType(), 0, l);
        std::vector<int32_t> v;
        ops(I.getOperand(0), v);
        int32_t a = op1(I.getOperand(1));
        for (size_t k = 0; k < l.size(); k++) {
          auto& in = add(OStore, -1, bitw(l[k].first), a, v[k]);
          in.aux = l[k].second;
          in.aux2 = (bitw(l[k].first) + 7) / 8;
        }
        return;
      }
      case Instruction::GetElementPtr: {
        auto& G = cast<GetElementPtrInst>(I);
        if (T->isVectorTy()) { bad(I); return; }
        u64 off = 0;
        std::vector<std::pair<int32_t, u64>> terms;
        for (auto gi = gep_type_begin(G), ge = gep_type_end(G); gi != ge; ++gi) {
          const Value* idx = gi.getOperand();
          if (StructType* st = gi.getStructTypeOrNull()) {
            off += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(idx)->getZExtValue());
          } else {
            u64 es = DL->getTypeAllocSize(gi.getIndexedType());
            if (auto* ci = dyn_cast<ConstantInt>(idx)) off += (u64)(ci->getSExtValue() * (i64)es);
            else {
              int32_t o = op1(idx);
              unsigned w = bitw(idx->getType());
              if (w != 64) {
                // sign extend into a temporary
                int32_t t = fi->nregs++;
                add(OSExt, t, 64, o, 0, 0, w);
                o = t;
              }
              terms.push_back({o, es});
            }
          }
        }
        int32_t base = op1(G.getPointerOperand());
        if (terms.empty()) {
          if (off == 0) add(OMov, d, 64, base);
          else add(OAdd, d, 64, base, constOp(off));
          return;
        }
        fi->geps.push_back(terms);
        auto& in = add(OGep, d, 64, base, constOp(off));
        in.aux = fi->geps.size() - 1;
        return;
      }
      case Instruction::Alloca: {
        auto& A = cast<AllocaInst>(I);
        auto& in = add(OAlloca, d, 64, op1(A.getArraySize()));
        in.aux = DL->getTypeAllocSize(A.getAllocatedType());
        return;
      }
      case Instruction::Br: {
        auto& B = cast<BranchInst>(I);
        if (B.isUnconditional()) {
          u32 e = edge(I.getParent(), B.getSuccessor(0));
          add(OBr, -1, 0).aux = e;
        } else {
          int32_t c = op1(B.getCondition());
          u32 e1 = edge(I.getParent(), B.getSuccessor(0)), e2 = edge(I.getParent(), B.getSuccessor(1));
          auto& in = add(OCondBr, -1, 1, c);
          in.aux = e1;
          in.aux2 = e2;
        }
        return;
      }
      case Instruction::Switch: {
        auto& SI = cast<SwitchInst>(I);
        auto* si = new SwitchInfo;
        for (auto& c : SI.cases()) si->cases.push_back({c.getCaseValue()->getZExtValue(), edge(I.getParent(), c.getCaseSuccessor())});
        si->def = edge(I.getParent(), SI.getDefaultDest());
        fi->switches.emplace_back(si);
        add(OSwitch, -1, bitw(SI.getCondition()->getType()), op1(SI.getCondition())).p = si;
        return;
      }
      case Instruction::Ret: {
        auto* ci = new CallInfo;
        if (auto* v = cast<ReturnInst>(I).getReturnValue()) ops(v, ci->args);
        fi->calls.emplace_back(ci);
        add(ORet, -1, 0).p = ci;
        return;
      }
      case Instruction::Select: {
        std::vector<int32_t> a, b, c;
        ops(I.getOperand(0), c);
        ops(I.getOperand(1), a);
        ops(I.getOperand(2), b);
        std::vector<std::pair<Type*, u64>> l;
        leafTypes(T, 0, l);
        for (size_t k = 0; k < a.size(); k++) {
          auto& in = add(OSelect, d + k, bitw(l[k].first), c.size() == 1 ? c[0] : c[k], a[k], b[k]);
          in.sub = l[k].first->isPointerTy();
        }
        return;
      }
      case Instruction::Unreachable: add(OUnreach, -1, 0); return;
      case Instruction::Fence: return;
      case Instruction::ExtractValue: {
        auto& E = cast<ExtractValueInst>(I);
        std::vector<int32_t> a;
        ops(E.getAggregateOperand(), a);
        u32 off = leafIndex(E.getAggregateOperand()->getType(), E.getIndices());
        u32 n = nleaves(T);
        for (u32 k = 0; k < n; k++) add(OMov, d + k, 64, a[off + k]);
        return;
      }
      case Instruction::InsertValue: {
        auto& E = cast<InsertValueInst>(I);
        std::vector<int32_t> a, v;
        ops(E.getAggregateOperand(), a);
        ops(E.getInsertedValueOperand(), v);
        u32 off = leafIndex(T, E.getIndices());
        for (size_t k = 0; k < a.size(); k++) add(OMov, d + k, 64, k >= off && k < off + v.size() ? v[k - off] : a[k]);
        return;
      }
      case Instruction::ExtractElement: {
        std::vector<int32_t> a;
        ops(I.getOperand(0), a);
        if (auto* ci = dyn_cast<ConstantInt>(I.getOperand(1))) { add(OMov, d, 64, a[ci->getZExtValue() % a.size()]); return; }
        bad(I);
        return;
      }
      case Instruction::InsertElement: {
        std::vector<int32_t> a, v;
        ops(I.getOperand(0), a);
        ops(I.getOperand(1), v);
        if (auto* ci = dyn_cast<ConstantInt>(I.getOperand(2))) {
          for (size_t k = 0; k < a.size(); k++) add(OMov, d + k, 64, k == ci->getZExtValue() ? v[0] : a[k]);
          return;
        }
        bad(I);
        return;
      }
      case Instruction::ShuffleVector: {
        auto& V = cast<ShuffleVectorInst>(I);
        std::vector<int32_t> a, b;
        ops(I.getOperand(0), a);
        ops(I.getOperand(1), b);
        auto m = V.getShuffleMask();
        for (size_t k = 0; k < m.size(); k++) {
          int32_t s = m[k] < 0 ? constOp(0) : m[k] < (int)a.size() ? a[m[k]] : b[m[k] - a.size()];
          add(OMov, d + k, 64, s);
        }
        return;
      }
      case Instruction::AtomicCmpXchg: {
        auto& A = cast<AtomicCmpXchgInst>(I);
        auto& in = add(OCmpXchg, d, bitw(A.getCompareOperand()->getType()), op1(A.getPointerOperand()), op1(A.getCompareOperand()), op1(A.getNewValOperand()));
        (void)in;
        return;
      }
      case Instruction::AtomicRMW: {
        auto& A = cast<AtomicRMWInst>(I);
        add(OAtomicRMW, d, bitw(T), op1(A.getPointerOperand()), op1(A.getValOperand()), 0, 0, (unsigned)A.getOperation());
        return;
      }
      case Instruction::Call: call(cast<CallInst>(I), d); return;
      default: bad(I); return;
    }
  }

  void bad(const Instruction& I) {
    std::string s;
    raw_string_ostream os(s);
    os << "instruction " << I;
    auto* str = new std::string(os.str());
    auto& in = add(OIntr, -1, 0);
    in.aux = IUnsupported;
    in.p = str;
  }
  // Wide integers: only trunc/zext/lshr-by-64 shapes.
  void wide(const Instruction& I, int32_t d) {
    Type* T = I.getType();
    std::vector<int32_t> a;
    ops(I.getOperand(0), a);
    if (I.getOpcode() == Instruction::Trunc && T->isIntegerTy() && T->getIntegerBitWidth() <= 64) {
      unsigned w = bitw(T);
      if (w == 64) add(OMov, d, 64, a[0]); else add(OTrunc, d, w, a[0], 0, 0, 64);
      return;
    }
    if (I.getOpcode() == Instruction::ZExt && T->isIntegerTy(128)) {
      unsigned w2 = bitw(I.getOperand(0)->getType());
      if (w2 == 64) add(OMov, d, 64, a[0]); else add(OZExt, d, 64, a[0], 0, 0, w2);
      add(OMov, d + 1, 64, constOp(0));
      return;
    }
    if (T->isIntegerTy(128) && (I.getOpcode() == Instruction::LShr || I.getOpcode() == Instruction::Shl)) {
      if (auto* ci = dyn_cast<ConstantInt>(I.getOperand(1)))
        if (ci->getValue() == 64) {
          bool l = I.getOpcode() == Instruction::LShr;
          add(OMov, d, 64, l ? a[1] : constOp(0));
          add(OMov, d + 1, 64, l ? constOp(0) : a[0]);
          return;
        }
    }
    if (T->isIntegerTy(128) && (I.getOpcode() == Instruction::Or || I.getOpcode() == Instruction::And || I.getOpcode() == Instruction::Xor)) {
      std::vector<int32_t> b;
      ops(I.getOperand(1), b);
      Op op = I.getOpcode() == Instruction::Or ? OOr : I.getOpcode() == Instruction::And ? OAnd : OXor;
      for (int k = 0; k < 2; k++) add(op, d + k, 64, a[k], b[k]);
      return;
    }
    bad(I);
  }
  u32 leafIndex(Type* t, ArrayRef<unsigned> idx) {
    u32 off = 0;
    for (unsigned i : idx) {
      if (auto* st = dyn_cast<StructType>(t)) {
        for (unsigned k = 0; k < i; k++) off += nleaves(st->getElementType(k));
        t = st->getElementType(i);
      } else {
        auto* at = cast<ArrayType>(t);
        off += i * nleaves(at->getElementType());
        t = at->getElementType();
      }
    }
    return off;
  }

  void call(const CallInst& C, int32_t d) {
    const Value* cv = C.getCalledOperand();
    if (isa<InlineAsm>(cv)) {
      if (C.getType()->isVoidTy()) { return; }  // compiler barriers
      bad(C);
      return;
    }
    auto* ci = new CallInfo;
    fi->calls.emplace_back(ci);
    ci->nret = nleaves(C.getType());
    if (ci->nret) {
      std::vector<std::pair<Type*, u64>> l;
      leafTypes(C.getType(), 0, l);
      ci->retw = bitw(l[0].first);
    }
    const Function* f = dyn_cast<Function>(cv->stripPointerCasts());
    if (auto* ga = dyn_cast<GlobalAlias>(cv)) f = dyn_cast<Function>(ga->getAliasee()->stripPointerCasts());
    for (unsigned i = 0; i < C.arg_size(); i++) {
      const Value* a = C.getArgOperand(i);
      if (a->getType()->isMetadataTy()) continue;
      std::vector<std::pair<Type*, u64>> l;
      leafTypes(a->getType(), 0, l);
      size_t before = ci->args.size();
      ops(a, ci->args);
      for (size_t k = 0; k < l.size(); k++) {
        ci->argw.push_back(bitw(l[k].first));
        ci->byvalSize.push_back(C.isByValArgument(i) ? (u32)DL->getTypeAllocSize(C.getParamByValType(i)) : 0);
      }
      (void)before;
    }
    if (f && f->isIntrinsic()) { intrinsic(C, f, ci, d); return; }
    if (f && f->isDeclaration()) {
      auto it = extMap().find(f->getName().str());
      u32 id = it == extMap().end() ? (u32)IUnsupported : it->second;
      StringRef nm = f->getName();
      if (id == IUnsupported) {
        if (nm.starts_with("_ZSt") && (nm.contains("__throw_") || nm.contains("__glibcxx_assert_fail"))) id = XThrow;
      }
      auto& in = add(OIntr, d, ci->retw);
      in.aux = id;
      in.aux2 = fi->calls.size() - 1;
      in.p = id == IUnsupported ? (const void*)new std::string("external " + nm.str()) : (const void*)f;
      return;
    }
    ci->callee = f;
    if (!f) ci->fnOp = op1(cv);
    auto& in = add(OCall, d, ci->retw);
    in.p = ci;
  }

  void intrinsic(const CallInst& C, const Function* f, CallInfo* ci, int32_t d) {
    Intrinsic::ID id = f->getIntrinsicID();
    u32 x = IUnsupported;
    u8 sub = 0;
    switch (id) {
      case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::dbg_declare: case Intrinsic::dbg_value:
      case Intrinsic::dbg_label: case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::invariant_end:
      case Intrinsic::var_annotation: case Intrinsic::donothing: case Intrinsic::prefetch: case Intrinsic::stackrestore: case Intrinsic::sideeffect:
        return;
      case Intrinsic::invariant_start: case Intrinsic::stacksave: add(OMov, d, 64, constOp(0)); return;
      case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group:
      case Intrinsic::ptr_annotation: case Intrinsic::annotation: case Intrinsic::ssa_copy: case Intrinsic::threadlocal_address:
        add(OMov, d, 64, ci->args[0]);
        return;
      case Intrinsic::is_constant: add(OMov, d, 1, constOp(0)); return;
      case Intrinsic::objectsize: add(OMov, d, 64, constOp(~0ull)); return;
      case Intrinsic::ptrmask: add(OAnd, d, 64, ci->args[0], ci->args[1]); return;
      case Intrinsic::memcpy: case Intrinsic::memcpy_inline: x = XMemcpy; d = -1; break;
      case Intrinsic::memmove: x = XMemmove; d = -1; break;
      case Intrinsic::memset: case Intrinsic::memset_inline: x = XMemset; d = -1; break;
      case Intrinsic::uadd_with_overflow: x = IOverflow; sub = 0; break;
      case Intrinsic::usub_with_overflow: x = IOverflow; sub = 1; break;
      case Intrinsic::umul_with_overflow: x = IOverflow; sub = 2; break;
      case Intrinsic::sadd_with_overflow: x = IOverflow; sub = 3; break;
      case Intrinsic::ssub_with_overflow: x = IOverflow; sub = 4; break;
      case Intrinsic::smul_with_overflow: x = IOverflow; sub = 5; break;
      case Intrinsic::umin: x = IMinMax; sub = 0; break;
      case Intrinsic::umax: x = IMinMax; sub = 1; break;
      case Intrinsic::smin: x = IMinMax; sub = 2; break;
      case Intrinsic::smax: x = IMinMax; sub = 3; break;
      case Intrinsic::uadd_sat: x = ISat; sub = 0; break;
      case Intrinsic::usub_sat: x = ISat; sub = 1; break;
      case Intrinsic::sadd_sat: x = ISat; sub = 2; break;
      case Intrinsic::ssub_sat: x = ISat; sub = 3; break;
      case Intrinsic::abs: x = IAbs; break;
      case Intrinsic::bswap: x = IBswap; break;
      case Intrinsic::ctpop: x = ICtpop; break;
      case Intrinsic::ctlz: x = ICtlz; break;
      case Intrinsic::cttz: x = ICttz; break;
      case Intrinsic::fshl: x = IFshl; break;
      case Intrinsic::fshr: x = IFshr; break;
      case Intrinsic::floor: x = IFpRound; sub = 0; break;
      case Intrinsic::ceil: x = IFpRound; sub = 1; break;
      case Intrinsic::trunc: x = IFpRound; sub = 2; break;
      case Intrinsic::rint: case Intrinsic::nearbyint: case Intrinsic::roundeven: x = IFpRound; sub = 3; break;
      case Intrinsic::round: x = IFpRound; sub = 4; break;
      case Intrinsic::fabs: x = IFabs; break;
      case Intrinsic::sqrt: x = ISqrt; break;
      case Intrinsic::fmuladd: case Intrinsic::fma: x = IFma; break;
      case Intrinsic::pow: x = XMath2; break;
      case Intrinsic::exp: case Intrinsic::log: case Intrinsic::log2: case Intrinsic::exp2: case Intrinsic::log10: x = XMath1; break;
      case Intrinsic::minnum: x = IFMinMax; sub = 0; break;
      case Intrinsic::maxnum: x = IFMinMax; sub = 1; break;
      case Intrinsic::copysign: x = ICopysign; break;
      case Intrinsic::is_fpclass: x = IIsFpClass; break;
      case Intrinsic::trap: case Intrinsic::ubsantrap: case Intrinsic::debugtrap: x = ITrap; break;
      case Intrinsic::vector_reduce_add: x = IVecReduce; sub = OAdd; break;
      case Intrinsic::vector_reduce_or: x = IVecReduce; sub = OOr; break;
      case Intrinsic::vector_reduce_and: x = IVecReduce; sub = OAnd; break;
      case Intrinsic::vector_reduce_xor: x = IVecReduce; sub = OXor; break;
      default: break;
    }
    if (C.getType()->isVectorTy() && x >= ISat && x != IUnsupported) { x = IUnsupported; }
    auto& in = add(OIntr, d, ci->retw, 0, 0, 0, ci->argw.empty() ? 0 : ci->argw[0], sub);
    in.aux = x;
    in.aux2 = fi->calls.size() - 1;
    in.p = x == IUnsupported ? (const void*)new std::string("intrinsic " + f->getName().str()) : (const void*)f;
  }
};

static void decodeFn(FuncInfo* fi) {
  Decoder d{fi};
  d.run();
}

// ---------------------------------------------------------------- execution
static const EK op2ek[] = {EAdd, ESub, EMul, EUDiv, ESDiv, EURem, ESRem, EAnd, EOr, EXor, EShl, ELShr, EAShr};

static Expr* icmpE(unsigned p, Expr* a, Expr* b) {
  switch (p) {
    case CmpInst::ICMP_EQ: return EP.bin(EEq, a, b);
    case CmpInst::ICMP_NE: return EP.notb(EP.bin(EEq, a, b));
    case CmpInst::ICMP_UGT: return EP.bin(EUlt, b, a);
    case CmpInst::ICMP_UGE: return EP.bin(EUle, b, a);
    case CmpInst::ICMP_ULT: return EP.bin(EUlt, a, b);
    case CmpInst::ICMP_ULE: return EP.bin(EUle, a, b);
    case CmpInst::ICMP_SGT: return EP.bin(ESlt, b, a);
    case CmpInst::ICMP_SGE: return EP.bin(ESle, b, a);
    case CmpInst::ICMP_SLT: return EP.bin(ESlt, a, b);
    default: return EP.bin(ESle, a, b);
  }
}
static bool icmpC(unsigned p, u64 a, u64 b, unsigned w) {
  i64 x = sx(a, w), y = sx(b, w);
  switch (p) {
    case CmpInst::ICMP_EQ: return a == b;
    case CmpInst::ICMP_NE: return a != b;
    case CmpInst::ICMP_UGT: return a > b;
    case CmpInst::ICMP_UGE: return a >= b;
    case CmpInst::ICMP_ULT: return a < b;
    case CmpInst::ICMP_ULE: return a <= b;
    case CmpInst::ICMP_SGT: return x > y;
    case CmpInst::ICMP_SGE: return x >= y;
    case CmpInst::ICMP_SLT: return x < y;
    default: return x <= y;
  }
}

// Checks `cond` on this path; reports a violation when it can be false.
static void doAssert(State& S, Expr* cond, const std::string& msg) {
  __sync_fetch_and_add(&SH->asserts, 1);
  if (cond->k == EConst) {
    if (!cond->val) {
      if (S.forced < S.dec.size()) throw PathEnd{2};
      violation(S, msg, ensureModel(S).get());
      throw PathEnd{2};
    }
    return;
  }
  if (S.consSet.count(cond)) return;
  bool replaying = S.forced < S.dec.size();
  if (!replaying) {
    __sync_fetch_and_add(&SH->assertQueries, 1);
    Expr* neg = EP.notb(cond);
    auto nm = std::make_shared<Model>(*ensureModel(S));
    bool bad = false;
    if (EP.eval(neg, *nm)) bad = true;
    else {
      SatRes r = SV.check(slice(S, neg), nm.get());
      if (r == SAT) bad = true;
      if (r == UNKNOWN) __sync_fetch_and_add(&SH->unknowns, 1);
    }
    if (bad) {
      violation(S, msg, nm.get());
      if (SV.check(slice(S, cond), nullptr) != SAT) throw PathEnd{2};
    }
  }
  addCons(S, cond);
  if (S.model && !EP.eval(cond, *S.model)) S.model = nullptr;
}

static void pushCall(State& S, const Function* f, const std::vector<Val>& args, int32_t dst, u32 nret) {
  FuncInfo* fi = getFn(f);
  if (!fi->decoded) {
    if (f->isDeclaration()) unsupported(S, "call to undefined " + f->getName().str());
    decodeFn(fi);
  }
  if (fi->idx < sizeof(SH->cov)) SH->cov[fi->idx] = 1;
  Thread& t = S.th[S.cur];
  u32 base = t.regs.size();
  if (t.frames.size() > 2000) unsupported(S, "recursion too deep");
  t.regs.resize(base + fi->nregs, Val{0, nullptr});
  u32 n = std::min<size_t>(args.size(), fi->nregs);
  for (u32 i = 0; i < n; i++) t.regs[base + i] = args[i];
  t.frames.push_back(Frame{fi, 0, base, dst, nret, (u32)t.allocas.size()});
}

static void doIntr(State& S, Thread& t, Frame& fr, const Inst& in, CallInfo* ci);

#define OPV(x) ((x) >= 0 ? R[x] : consts[-(x) - 1])

static void execFree(State& S, u64 p) {
  if (!p) return;
  u32 id = p >> 32;
  Obj* o = S.mem.get(id);
  if (!o) memerr(S, id < S.mem.next ? "double free" : "free of a wild pointer");
  if ((u32)p != 0 || o->kind >= 2) memerr(S, "free of a non-heap pointer");
  S.mem.del(id);
}

// Runs the current state until its path ends.
static void run(State& S) {
  u64 stepBase = 0;
  for (;;) {
    Thread* t = &S.th[S.cur];
    Frame* fr = &t->frames.back();
    const Inst* code = fr->f->code.data();
    Val* R = t->regs.data() + fr->base;
    for (;;) {
      const Inst& in = code[fr->pc];
      if (++stepBase >= 4096) {
        S.steps += stepBase;
        __sync_fetch_and_add(&SH->insts, stepBase);
        stepBase = 0;
        if (S.steps > maxSteps) {
          if (unsupportedSeen.insert("step limit").second)
            emit("{\"t\":\"unsupported\",\"msg\":\"step limit\",\"where\":\"" + jesc(where(S)) + "\"}");
          throw PathEnd{4};
        }
        if (SH->stop) throw PathEnd{5};
        if (now_s() > deadline) { SH->stop = 2; throw PathEnd{5}; }
      }
      instDec = S.forced;
      switch (in.op) {
        case OAdd: case OSub: case OMul: case OAnd: case OOr: case OXor: case OShl: case OLShr: case OAShr: {
          Val a = OPV(in.a), b = OPV(in.b);
          if (!a.e && !b.e) {
            u64 r;
            switch (in.op) {
              case OAdd: r = a.c + b.c; break;
              case OSub: r = a.c - b.c; break;
              case OMul: r = a.c * b.c; break;
              case OAnd: r = a.c & b.c; break;
              case OOr: r = a.c | b.c; break;
              case OXor: r = a.c ^ b.c; break;
              case OShl: r = b.c >= in.w ? 0 : a.c << b.c; break;
              case OLShr: r = b.c >= in.w ? 0 : a.c >> b.c; break;
              default: r = (u64)(sx(a.c, in.w) >> (b.c >= in.w ? in.w - 1 : b.c)); break;
            }
            R[in.dst] = CV(r & mask(in.w));
          } else {
            R[in.dst] = fromE(EP.bin(op2ek[in.op], toE(a, in.w), toE(b, in.w)));
          }
          fr->pc++;
          break;
        }
        case OUDiv: case OSDiv: case OURem: case OSRem: {
          Val a = OPV(in.a), b = OPV(in.b);
          if (b.e) {
            doAssert(S, EP.notb(EP.bin(EEq, b.e, EP.konst(0, in.w))), "arithmetic: division by zero");
          } else if (!b.c) {
            violation(S, "arithmetic: division by zero", ensureModel(S).get());
            throw PathEnd{2};
          }
          R[in.dst] = fromE(EP.bin(op2ek[in.op], toE(a, in.w), toE(b, in.w)));
          fr->pc++;
          break;
        }
        case OICmp: {
          Val a = OPV(in.a), b = OPV(in.b);
          if (!a.e && !b.e) R[in.dst] = CV(icmpC(in.sub, a.c, b.c, in.w2));
          else R[in.dst] = fromE(icmpE(in.sub, toE(a, in.w2), toE(b, in.w2)));
          fr->pc++;
          break;
        }
        case OFCmp: {
          Val a = OPV(in.a), b = OPV(in.b);
          if (!a.e && !b.e) R[in.dst] = CV(fcmp_bits(in.sub, asD(a.c, in.w2), asD(b.c, in.w2)));
          else R[in.dst] = fromE(EP.bin(EFCmp, toE(a, in.w2), toE(b, in.w2), in.sub));
          fr->pc++;
          break;
        }
        case OFAdd: case OFSub: case OFMul: case OFDiv: case OFRem: {
          static const EK k[] = {EFAdd, EFSub, EFMul, EFDiv, EFRem};
          Val a = OPV(in.a), b = OPV(in.b);
          EK ek = k[in.op - OFAdd];
          if (!a.e && !b.e) R[in.dst] = CV(evalOp(ek, in.w, 0, in.w, a.c, in.w, b.c, 0));
          else R[in.dst] = fromE(EP.bin(ek, toE(a, in.w), toE(b, in.w)));
          fr->pc++;
          break;
        }
        case OTrunc: {
          Val a = OPV(in.a);
          R[in.dst] = a.e ? fromE(EP.extract(a.e, 0, in.w)) : CV(a.c & mask(in.w));
          fr->pc++;
          break;
        }
        case OZExt: {
          Val a = OPV(in.a);
          R[in.dst] = a.e ? fromE(EP.zext(a.e, in.w)) : a;
          fr->pc++;
          break;
        }
        case OSExt: {
          Val a = OPV(in.a);
          R[in.dst] = a.e ? fromE(EP.sext(a.e, in.w)) : CV((u64)sx(a.c, in.w2) & mask(in.w));
          fr->pc++;
          break;
        }
        case OSIToFP: case OUIToFP: case OFPToSI: case OFPToUI: case OFPExt: case OFPTrunc: {
          static const EK k[] = {ESIToFP, EUIToFP, EFPToSI, EFPToUI, EFPExt, EFPTrunc};
          Val a = OPV(in.a);
          EK ek = k[in.op - OSIToFP];
          if (!a.e) R[in.dst] = CV(evalOp(ek, in.w, 0, in.w2, a.c, 0, 0, 0));
          else R[in.dst] = fromE(EP.un(ek, a.e, in.w));
          fr->pc++;
          break;
        }
        case OMov: R[in.dst] = OPV(in.a); fr->pc++; break;
        case OLoad: {
          Val a = OPV(in.a);
          u64 addr = a.e ? concretize(S, a.e) : a.c;
          Val v = loadN(S, addr + in.aux, in.aux2);
          if (in.w != in.aux2 * 8) {
            if (v.e) v = fromE(EP.extract(v.e, 0, in.w)); else v.c &= mask(in.w);
          }
          R[in.dst] = v;
          fr->pc++;
          break;
        }
        case OStore: {
          Val a = OPV(in.a);
          u64 addr = a.e ? concretize(S, a.e) : a.c;
          storeN(S, addr + in.aux, in.aux2, OPV(in.b));
          fr->pc++;
          break;
        }
        case OGep: {
          Val b = OPV(in.a);
          u64 off = consts[-in.b - 1].c;
          Expr* se = b.e;
          u64 c = b.e ? off : b.c + off;
          for (auto& tm : fr->f->geps[in.aux]) {
            Val x = OPV(tm.first);
            if (!x.e) c += x.c * tm.second;
            else {
              Expr* m = EP.bin(EMul, x.e, EP.konst(tm.second, 64));
              se = se ? EP.bin(EAdd, se, m) : m;
            }
          }
          R[in.dst] = se ? fromE(EP.bin(EAdd, se, EP.konst(c, 64))) : CV(c);
          fr->pc++;
          break;
        }
        case OAlloca: {
          u64 n = cval(S, OPV(in.a));
          u64 p = allocObj(S, n * in.aux, 2);
          t->allocas.push_back(p >> 32);
          R[in.dst] = CV(p);
          fr->pc++;
          break;
        }
        case OBr: case OCondBr: case OSwitch: {
          u32 e;
          if (in.op == OBr) e = in.aux;
          else if (in.op == OCondBr) {
            Val c = OPV(in.a);
            bool b = c.e ? decide(S, c.e) : c.c & 1;
            e = b ? in.aux : in.aux2;
          } else {
            auto* si = (const SwitchInfo*)in.p;
            Val c = OPV(in.a);
            e = si->def;
            if (!c.e) {
              for (auto& cs : si->cases) if (cs.first == c.c) { e = cs.second; break; }
            } else {
              for (auto& cs : si->cases)
                if (decide(S, EP.bin(EEq, c.e, EP.konst(cs.first, in.w)))) { e = cs.second; break; }
            }
          }
          const Edge& ed = fr->f->edges[e];
          u32 n = ed.movEnd - ed.movBeg;
          if (n == 1) {
            auto& mv = fr->f->movs[ed.movBeg];
            R[mv.first] = OPV(mv.second);
          } else if (n) {
            Val tmp[64];
            std::vector<Val> big;
            Val* p = tmp;
            if (n > 64) { big.resize(n); p = big.data(); }
            for (u32 i = 0; i < n; i++) p[i] = OPV(fr->f->movs[ed.movBeg + i].second);
            for (u32 i = 0; i < n; i++) R[fr->f->movs[ed.movBeg + i].first] = p[i];
          }
          fr->pc = ed.target;
          break;
        }
        case OSelect: {
          Val c = OPV(in.a);
          if (!c.e) R[in.dst] = (c.c & 1) ? OPV(in.b) : OPV(in.c);
          else if (in.sub) R[in.dst] = decide(S, c.e) ? OPV(in.b) : OPV(in.c);
          else R[in.dst] = fromE(EP.ite(c.e, toE(OPV(in.b), in.w), toE(OPV(in.c), in.w)));
          fr->pc++;
          break;
        }
        case OUnreach:
          violation(S, "undefined-behaviour: unreachable code reached", ensureModel(S).get());
          throw PathEnd{2};
        case ORet: {
          auto* ci = (const CallInfo*)in.p;
          Val tmp[16];
          std::vector<Val> big;
          u32 n = ci->args.size();
          Val* p = tmp;
          if (n > 16) { big.resize(n); p = big.data(); }
          for (u32 i = 0; i < n; i++) p[i] = OPV(ci->args[i]);
          Frame f = *fr;
          for (u32 i = f.allocaBeg; i < t->allocas.size(); i++) S.mem.del(t->allocas[i]);
          t->allocas.resize(f.allocaBeg);
          t->regs.resize(f.base);
          t->frames.pop_back();
          if (t->frames.empty()) {
            if (S.cur == 0) { S.steps += stepBase; __sync_fetch_and_add(&SH->insts, stepBase); throw PathEnd{0}; }
            unsupported(S, "a coroutine returned");
          }
          fr = &t->frames.back();
          code = fr->f->code.data();
          R = t->regs.data() + fr->base;
          if (f.dst >= 0) for (u32 i = 0; i < f.nret && i < n; i++) R[f.dst + i] = p[i];
          break;
        }
        case OCall: {
          auto* ci = (CallInfo*)in.p;
          const Function* f = ci->callee;
          if (!f) {
            u64 a = cval(S, OPV(ci->fnOp));
            u64 id = a >> 32;
            if (id < kFnBase || id - kFnBase >= fnByIdx.size() || (u32)a) memerr(S, "call through an invalid function pointer");
            f = fnByIdx[id - kFnBase];
            if (f->isDeclaration()) {
              auto it = extMap().find(f->getName().str());
              if (it == extMap().end()) unsupported(S, "indirect call to external " + f->getName().str());
              Inst tmp = in;
              tmp.op = OIntr; tmp.aux = it->second; tmp.p = f;
              doIntr(S, *t, *fr, tmp, ci);
              goto reload;
            }
          }
          std::vector<Val> args;
          args.reserve(ci->args.size());
          for (int32_t a : ci->args) args.push_back(OPV(a));
          u32 firstTmp = t->allocas.size();
          for (size_t i = 0; i < args.size(); i++)
            if (ci->byvalSize[i]) {
              u64 src = cval(S, args[i]);
              u64 p = allocObj(S, ci->byvalSize[i], 2);
              t->allocas.push_back(p >> 32);
              copyMem(S, p, src, ci->byvalSize[i]);
              args[i] = CV(p);
            }
          fr->pc++;
          pushCall(S, f, args, in.dst, ci->nret);
          S.th[S.cur].frames.back().allocaBeg = firstTmp;
          goto reload;
        }
        case OIntr: {
          if (in.aux == IUnsupported) unsupported(S, *(const std::string*)in.p);
          doIntr(S, *t, *fr, in, fr->f->calls[in.aux2].get());
          goto reload;
        }
        case OCmpXchg: {
          u64 p = cval(S, OPV(in.a));
          unsigned n = in.w / 8;
          Val old = loadN(S, p, n);
          Expr* eq = EP.bin(EEq, toE(old, in.w), toE(OPV(in.b), in.w));
          bool ok = decide(S, eq);
          if (ok) storeN(S, p, n, OPV(in.c));
          R[in.dst] = old;
          R[in.dst + 1] = CV(ok);
          fr->pc++;
          break;
        }
        case OAtomicRMW: {
          u64 p = cval(S, OPV(in.a));
          unsigned n = in.w / 8;
          Val old = loadN(S, p, n);
          Expr *o = toE(old, in.w), *v = toE(OPV(in.b), in.w), *r;
          switch ((AtomicRMWInst::BinOp)in.sub) {
            case AtomicRMWInst::Xchg: r = v; break;
            case AtomicRMWInst::Add: r = EP.bin(EAdd, o, v); break;
            case AtomicRMWInst::Sub: r = EP.bin(ESub, o, v); break;
            case AtomicRMWInst::And: r = EP.bin(EAnd, o, v); break;
            case AtomicRMWInst::Or: r = EP.bin(EOr, o, v); break;
            case AtomicRMWInst::Xor: r = EP.bin(EXor, o, v); break;
            default: unsupported(S, "atomicrmw");
          }
          storeN(S, p, n, fromE(r));
          R[in.dst] = old;
          fr->pc++;
          break;
        }
        case OPack: {
          auto* ci = (const CallInfo*)in.p;
          // Concatenate little-endian leaves then split.  Works on chunks
          // because the total may exceed 64 bits.
          std::vector<std::pair<Expr*, unsigned>> bits;  // byte/bit pieces
          unsigned g = std::min<unsigned>(ci->argw[0], ci->retw);
          std::vector<Expr*> pieces;
          for (size_t i = 0; i < ci->args.size(); i++) {
            Expr* e = toE(OPV(ci->args[i]), ci->argw[i]);
            for (unsigned o = 0; o < ci->argw[i]; o += g) pieces.push_back(EP.extract(e, o, g));
          }
          unsigned per = ci->retw / g;
          for (u32 i = 0; i < ci->nret; i++) {
            Expr* r = nullptr;
            for (unsigned k = 0; k < per; k++) {
              Expr* pc = pieces[i * per + k];
              r = r ? EP.concat(pc, r) : pc;
            }
            R[in.dst + i] = fromE(r);
          }
          fr->pc++;
          break;
        }
        default: unsupported(S, "opcode");
      }
      continue;
    reload:
      break;
    }
  }
}

static void setRet(Thread& t, const Inst& in, Val v) {
  if (in.dst >= 0) t.regs[t.frames.back().base + in.dst] = v;
}

static void doIntr(State& S, Thread& t, Frame& fr, const Inst& in, CallInfo* ci) {
  Val* R = t.regs.data() + fr.base;
  auto A = [&](unsigned i) -> Val { return OPV(ci->args[i]); };
  auto W = [&](unsigned i) -> unsigned { return ci->argw[i]; };
  const unsigned w = in.w;
  switch (in.aux) {
    case XMalloc: { u64 n = cval(S, A(0)); setRet(t, in, CV(allocObj(S, n, 0))); break; }
    case XNew: { u64 n = cval(S, A(0)); setRet(t, in, CV(allocObj(S, n, 1))); break; }
    case XCalloc: {
      u64 n = cval(S, A(0)), k = cval(S, A(1));
      u64 p = allocObj(S, n * k, 0);
      memset(S.mem.get(p >> 32)->b, 0, n * k);
      setRet(t, in, CV(p));
      break;
    }
    case XRealloc: {
      u64 p = cval(S, A(0)), n = cval(S, A(1));
      u64 q = allocObj(S, n, 0);
      if (p) {
        Obj* o = S.mem.get(p >> 32);
        if (!o) memerr(S, "realloc of freed memory");
        copyMem(S, q, p, std::min<u64>(n, o->size));
        execFree(S, p);
      }
      setRet(t, in, CV(q));
      break;
    }
    case XFree: case XDelete: { u64 p = cval(S, A(0)); execFree(S, p); break; }
    case XMemcpy: case XMemmove: {
      u64 d = cval(S, A(0)), s = cval(S, A(1)), n = cval(S, A(2));
      copyMem(S, d, s, n);
      setRet(t, in, CV(d));
      break;
    }
    case XMemset: {
      u64 d = cval(S, A(0)), n = cval(S, A(2));
      Val v = A(1);
      if (n) {
        Obj* o = resolve(S, d, n, true, "memset");
        if (v.e) {
          Expr* b = EP.extract(v.e, 0, 8);
          for (u64 i = 0; i < n; i++) storeN(S, d + i, 1, fromE(b));
        } else {
          memset(o->b + (u32)d, (int)v.c, n);
          if (o->s) memset(o->s + (u32)d, 0, n * sizeof(SymB));
        }
      }
      setRet(t, in, CV(d));
      break;
    }
    case XMemcmp: {
      u64 a = cval(S, A(0)), b = cval(S, A(1)), n = cval(S, A(2));
      // Fork-free when concrete.
      Expr* r = EP.konst(0, 32);
      if (n) { resolve(S, a, n, false, "memcmp read"); resolve(S, b, n, false, "memcmp read"); }
      for (u64 i = n; i-- > 0;) {
        Val x = loadN(S, a + i, 1), y = loadN(S, b + i, 1);
        if (!x.e && !y.e) {
          if (x.c != y.c) r = EP.konst(x.c < y.c ? 0xffffffffu : 1, 32);
        } else {
          Expr *ex = toE(x, 8), *ey = toE(y, 8);
          r = EP.ite(EP.bin(EEq, ex, ey), r, EP.ite(EP.bin(EUlt, ex, ey), EP.konst(0xffffffffu, 32), EP.konst(1, 32)));
        }
      }
      setRet(t, in, fromE(r));
      break;
    }
    case XStrlen: {
      u64 a = cval(S, A(0)), n = 0;
      for (;; n++) {
        Val v = loadN(S, a + n, 1);
        u64 c = v.e ? concretize(S, v.e) : v.c;
        if (!c) break;
      }
      setRet(t, in, CV(n));
      break;
    }
    case XMemchr: {
      u64 a = cval(S, A(0)), n = cval(S, A(2));
      u64 ch = cval(S, A(1)) & 0xff, r = 0;
      for (u64 i = 0; i < n; i++) {
        Val v = loadN(S, a + i, 1);
        u64 c = v.e ? concretize(S, v.e) : v.c;
        if (c == ch) { r = a + i; break; }
      }
      setRet(t, in, CV(r));
      break;
    }
    case XAbort: violation(S, "abort() called", ensureModel(S).get()); throw PathEnd{2};
    case XExit: throw PathEnd{0};
    case XAtexit: setRet(t, in, CV(0)); break;
    case XPureVirtual: memerr(S, "pure virtual call");
    case XThrow: {
      violation(S, "std exception: " + demangle(((const Function*)in.p)->getName().str()), ensureModel(S).get());
      throw PathEnd{2};
    }
    case ITrap: violation(S, "trap", ensureModel(S).get()); throw PathEnd{2};
    case XMath1: case XMath2: {
      std::string n = ((const Function*)in.p)->getName().str();
      if (n.compare(0, 5, "llvm.") == 0) { n = n.substr(5); n = n.substr(0, n.find('.')); }
      if (n == "sqrt" && A(0).e) { setRet(t, in, fromE(EP.un(EFSqrt, A(0).e, w))); break; }
      if ((n == "floor" || n == "ceil") && A(0).e) { setRet(t, in, fromE(EP.un(EFRint, A(0).e, w, n == "ceil"))); break; }
      if (n == "pow" && A(0).e && w == 64) {
        double y = asD(cval(S, A(1)), w);
        if (y == 0) { setRet(t, in, CV(fromD(1.0, 64))); break; }
        if (y == 1) { setRet(t, in, A(0)); break; }
        if (y == 2) { setRet(t, in, fromE(EP.bin(EFMul, A(0).e, A(0).e))); break; }
      }
      u64 a = cval(S, A(0));
      double x = asD(a, w), y = in.aux == XMath2 ? asD(cval(S, A(1)), w) : 0, r;
      if (n == "pow") r = std::pow(x, y);
      else if (n == "fmod") r = std::fmod(x, y);
      else if (n == "exp") r = std::exp(x);
      else if (n == "exp2") r = std::exp2(x);
      else if (n == "log") r = std::log(x);
      else if (n == "log2") r = std::log2(x);
      else if (n == "log10") r = std::log10(x);
      else if (n == "sqrt") r = std::sqrt(x);
      else if (n == "floor") r = std::floor(x);
      else if (n == "ceil") r = std::ceil(x);
      else { unsupported(S, "math " + n); r = 0; }
      setRet(t, in, CV(fromD(r, w)));
      break;
    }
    case XSym: {
      u64 bits = cval(S, A(0));
      std::string nm = readStr(S, cval(S, A(1)));
      u32 idx = S.nsym++;
      // One variable identity per (position, width).
      u32 vid = idx * 65 + (u32)bits;
      Expr* v = EP.var(vid, bits);
      SV.varExpr[vid] = v;
      S.inputs.push_back(Input{0, (u8)bits, vid, 0, intern(nm)});
      __sync_fetch_and_add(&SH->syms, 1);
      setRet(t, in, fromE(EP.zext(v, 64)));
      break;
    }
    case XChoose: {
      u64 n = cval(S, A(0));
      std::string nm = readStr(S, cval(S, A(1)));
      if (n == 0) unsupported(S, "choose(0)");
      u64 v;
      if (n == 1) v = 0;
      else if (!forcedNext(S, &v)) {
        for (u64 i = n; i-- > 1;) pushFork(S, i, nullptr, S.model);
        logDec(S, 0);
        v = 0;
      }
      S.inputs.push_back(Input{1, 64, 0, v, intern(nm)});
      __sync_fetch_and_add(&SH->chooses, 1);
      setRet(t, in, CV(v));
      break;
    }
    case XAssert: {
      std::string msg = readStr(S, cval(S, A(1)));
      Val c = A(0);
      Expr* e = toE(c, W(0));
      doAssert(S, W(0) == 1 ? e : EP.notb(EP.bin(EEq, e, EP.konst(0, W(0)))), msg);
      break;
    }
    case XAssume: {
      Val c = A(0);
      Expr* e = toE(c, W(0));
      Expr* cond = W(0) == 1 ? e : EP.notb(EP.bin(EEq, e, EP.konst(0, W(0))));
      if (cond->k == EConst) { if (!cond->val) throw PathEnd{1}; break; }
      if (S.consSet.count(cond)) break;
      if (S.forced < S.dec.size()) {
        addCons(S, cond);
        if (S.model && !EP.eval(cond, *S.model)) S.model = nullptr;
        break;
      }
      auto m = ensureModel(S);
      if (!EP.eval(cond, *m)) {
        auto nm = std::make_shared<Model>(*m);
        SatRes r = SV.check(slice(S, cond), nm.get());
        if (r == UNSAT) throw PathEnd{1};
        if (r == UNKNOWN) { __sync_fetch_and_add(&SH->unknowns, 1); throw PathEnd{4}; }
        S.model = nm;
      }
      addCons(S, cond);
      break;
    }
    case XFail: {
      std::string msg = readStr(S, cval(S, A(0)));
      violation(S, msg, ensureModel(S).get());
      throw PathEnd{2};
    }
    case XReach: {
      std::string m = readStr(S, cval(S, A(0)));
      if (reached.insert(m).second) {
        // The witness must be a feasible path.
        ensureModel(S);
        emit("{\"t\":\"reach\",\"msg\":\"" + jesc(m) + "\"}");
      }
      break;
    }
    case XKnown: {
      std::string m = readStr(S, cval(S, A(0)));
      __sync_fetch_and_add(&SH->known, 1);
      if (knownSeen.insert(m).second) {
        auto mm = ensureModel(S);
        std::string j = "{\"t\":\"known\",\"msg\":\"" + jesc(m) + "\",\"case\":" + std::to_string(S.caseId) + ",\"inputs\":[";
        for (size_t i = 0; i < S.inputs.size(); i++) {
          auto& ip = S.inputs[i];
          u64 v = ip.kind == 1 ? ip.val : (mm->get(ip.var) & mask(ip.w));
          if (i) j += ",";
          j += "[" + std::to_string(ip.kind) + "," + std::to_string(ip.w) + ",\"" + std::to_string(v) + "\",\"" + jesc(strtab[ip.name]) + "\"]";
        }
        emit(j + "]}");
      }
      throw PathEnd{0};
    }
    case XNote: { if (verbose) fprintf(stderr, "note: %s\n", readStr(S, cval(S, A(0))).c_str()); break; }
    case XPrint: {
      if (verbose) {
        Val v = A(1);
        fprintf(stderr, "print %s = %llu%s\n", readStr(S, cval(S, A(0))).c_str(), (unsigned long long)(v.e ? EP.eval(v.e, *ensureModel(S)) : v.c), v.e ? " (sym)" : "");
      }
      break;
    }
    case XStop: throw PathEnd{0};
    case XIsSym: { setRet(t, in, CV(A(0).e ? 1 : 0)); break; }
    case XCase: { S.caseId = cval(S, A(0)); break; }
    case XConcretize: { u64 v = cval(S, A(0)); setRet(t, in, CV(v)); break; }
    case XCoCreate: {
      u64 fn = cval(S, A(0)), arg = cval(S, A(1));
      u64 id = fn >> 32;
      if (id < kFnBase) memerr(S, "bad thread function");
      const Function* f = fnByIdx[id - kFnBase];
      u32 nt = S.th.size();
      fr.pc++;
      setRet(t, in, CV(nt));
      S.th.emplace_back();  // invalidates t/fr
      u32 save = S.cur;
      S.cur = nt;
      pushCall(S, f, {CV(arg)}, -1, 0);
      S.cur = save;
      return;
    }
    case XCoSwitch: {
      u64 n = cval(S, A(0));
      if (n >= S.th.size()) unsupported(S, "co_switch");
      fr.pc++;
      S.cur = n;
      return;
    }
    case IOverflow: {
      unsigned aw = W(0);
      Expr *a = toE(A(0), aw), *b = toE(A(1), aw), *r, *o;
      bool sgn = in.sub >= 3;
      int k = in.sub % 3;
      r = EP.bin(k == 0 ? EAdd : k == 1 ? ESub : EMul, a, b);
      Expr* zero = EP.konst(0, aw);
      if (!sgn) {
        if (k == 0) o = EP.bin(EUlt, r, a);
        else if (k == 1) o = EP.bin(EUlt, a, b);
        else if (ExprPool::isc(a) && ExprPool::isc(b)) {
          unsigned __int128 p = (unsigned __int128)a->val * b->val;
          o = EP.konst(p > mask(aw), 1);
        } else {
          // b != 0 && r / b != a
          if (ExprPool::isc(a)) std::swap(a, b);
          o = ExprPool::isc(b) && b->val ? EP.bin(EUlt, EP.konst(mask(aw) / b->val, aw), a)
                        : EP.bin(EAnd, EP.notb(EP.bin(EEq, b, zero)), EP.notb(EP.bin(EEq, EP.bin(EUDiv, r, b), a)));
        }
      } else {
        if (k == 0) {
          Expr *sa = EP.bin(ESlt, a, zero), *sb = EP.bin(ESlt, b, zero), *sr = EP.bin(ESlt, r, zero);
          o = EP.bin(EAnd, EP.bin(EEq, sa, sb), EP.notb(EP.bin(EEq, sr, sa)));
        } else if (k == 1) {
          Expr *sa = EP.bin(ESlt, a, zero), *sb = EP.bin(ESlt, b, zero), *sr = EP.bin(ESlt, r, zero);
          o = EP.bin(EAnd, EP.notb(EP.bin(EEq, sa, sb)), EP.notb(EP.bin(EEq, sr, sa)));
        } else {
          if (aw <= 32) {
            Expr* p = EP.bin(EMul, EP.sext(a, 64), EP.sext(b, 64));
            o = EP.notb(EP.bin(EEq, p, EP.sext(r, 64)));
          } else if (ExprPool::isc(a) && ExprPool::isc(b)) {
            __int128 p = (__int128)sx(a->val, aw) * sx(b->val, aw);
            o = EP.konst(p != (__int128)sx(r->val, aw), 1);
          } else {
            if (ExprPool::isc(a)) std::swap(a, b);
            if (ExprPool::isc(b) && sx(b->val, 64) > 0) {
              i64 c = sx(b->val, 64);
              o = EP.bin(EOr, EP.bin(ESlt, EP.konst((u64)(INT64_MAX / c), 64), a), EP.bin(ESlt, a, EP.konst((u64)(INT64_MIN / c), 64)));
            } else {
              u64 bv = concretize(S, b);
              i64 c = sx(bv, 64);
              if (c > 0) o = EP.bin(EOr, EP.bin(ESlt, EP.konst((u64)(INT64_MAX / c), 64), a), EP.bin(ESlt, a, EP.konst((u64)(INT64_MIN / c), 64)));
              else if (c == 0) o = EP.konst(0, 1);
              else { u64 av = concretize(S, a); __int128 p = (__int128)(i64)av * c; o = EP.konst(p != (__int128)(i64)p, 1); }
            }
          }
        }
      }
      t.regs[fr.base + in.dst] = fromE(r);
      t.regs[fr.base + in.dst + 1] = fromE(o);
      break;
    }
    case IMinMax: {
      Expr *a = toE(A(0), w), *b = toE(A(1), w);
      Expr* lt = EP.bin(in.sub >= 2 ? ESlt : EUlt, a, b);
      setRet(t, in, fromE((in.sub & 1) ? EP.ite(lt, b, a) : EP.ite(lt, a, b)));
      break;
    }
    case ISat: {
      Expr *a = toE(A(0), w), *b = toE(A(1), w);
      if (in.sub == 0) {
        Expr* r = EP.bin(EAdd, a, b);
        setRet(t, in, fromE(EP.ite(EP.bin(EUlt, r, a), EP.konst(~0ull, w), r)));
      } else if (in.sub == 1) {
        setRet(t, in, fromE(EP.ite(EP.bin(EUlt, a, b), EP.konst(0, w), EP.bin(ESub, a, b))));
      } else {
        Expr *r = EP.bin(in.sub == 2 ? EAdd : ESub, a, b), *zero = EP.konst(0, w);
        Expr *sa = EP.bin(ESlt, a, zero), *sb = EP.bin(ESlt, b, zero), *sr = EP.bin(ESlt, r, zero);
        Expr* same = EP.bin(EEq, sa, sb);
        Expr* o = EP.bin(EAnd, in.sub == 2 ? same : EP.notb(same), EP.notb(EP.bin(EEq, sr, sa)));
        Expr* lim = EP.ite(sa, EP.konst(1ull << (w - 1), w), EP.konst(mask(w) >> 1, w));
        setRet(t, in, fromE(EP.ite(o, lim, r)));
      }
      break;
    }
    case IAbs: {
      Expr* a = toE(A(0), w);
      setRet(t, in, fromE(EP.ite(EP.bin(ESlt, a, EP.konst(0, w)), EP.bin(ESub, EP.konst(0, w), a), a)));
      break;
    }
    case IBswap: {
      Expr *a = toE(A(0), w), *r = nullptr;
      for (unsigned i = 0; i < w; i += 8) {
        Expr* b = EP.extract(a, i, 8);
        r = r ? EP.concat(r, b) : b;
      }
      setRet(t, in, fromE(r));
      break;
    }
    case ICtpop: {
      Val v = A(0);
      if (!v.e) { setRet(t, in, CV(__builtin_popcountll(v.c & mask(w)))); break; }
      Expr* r = EP.konst(0, w);
      for (unsigned i = 0; i < w; i++) r = EP.bin(EAdd, r, EP.zext(EP.extract(v.e, i, 1), w));
      setRet(t, in, fromE(r));
      break;
    }
    case ICtlz: case ICttz: {
      Val v = A(0);
      if (!v.e) {
        u64 x = v.c & mask(w);
        u64 r = x == 0 ? w : in.aux == ICtlz ? __builtin_clzll(x) - (64 - w) : __builtin_ctzll(x);
        setRet(t, in, CV(r));
        break;
      }
      Expr* r = EP.konst(w, w);
      for (unsigned i = 0; i < w; i++) {
        unsigned bit = in.aux == ICtlz ? i : w - 1 - i;
        r = EP.ite(EP.extract(v.e, bit, 1), EP.konst(in.aux == ICtlz ? w - 1 - bit : bit, w), r);
      }
      setRet(t, in, fromE(r));
      break;
    }
    case IFshl: case IFshr: {
      u64 c = cval(S, A(2)) % w;
      Expr *a = toE(A(0), w), *b = toE(A(1), w), *r;
      if (c == 0) r = in.aux == IFshl ? a : b;
      else {
        unsigned sh = in.aux == IFshl ? c : w - c;
        r = EP.bin(EOr, EP.bin(EShl, a, EP.konst(sh, w)), EP.bin(ELShr, b, EP.konst(w - sh, w)));
      }
      setRet(t, in, fromE(r));
      break;
    }
    case IFpRound: setRet(t, in, fromE(EP.un(EFRint, toE(A(0), w), w, in.sub))); break;
    case IFabs: setRet(t, in, fromE(EP.bin(EAnd, toE(A(0), w), EP.konst(mask(w - 1), w)))); break;
    case ISqrt: setRet(t, in, fromE(EP.un(EFSqrt, toE(A(0), w), w))); break;
    case IFma: setRet(t, in, fromE(EP.bin(EFAdd, EP.bin(EFMul, toE(A(0), w), toE(A(1), w)), toE(A(2), w)))); break;
    case ICopysign: {
      Expr *a = toE(A(0), w), *b = toE(A(1), w);
      setRet(t, in, fromE(EP.bin(EOr, EP.bin(EAnd, a, EP.konst(mask(w - 1), w)), EP.bin(EAnd, b, EP.konst(1ull << (w - 1), w)))));
      break;
    }
    case IFMinMax: {
      Expr *a = toE(A(0), w), *b = toE(A(1), w);
      Expr* anan = EP.bin(EFCmp, a, a, 8);
      Expr* bnan = EP.bin(EFCmp, b, b, 8);
      Expr* lt = EP.bin(EFCmp, a, b, 4);
      Expr* r = in.sub ? EP.ite(lt, b, a) : EP.ite(lt, a, b);
      setRet(t, in, fromE(EP.ite(anan, b, EP.ite(bnan, a, r))));
      break;
    }
    case IIsFpClass: {
      unsigned aw = W(0);
      u64 m = cval(S, A(1));
      Expr* a = toE(A(0), aw);
      unsigned mant = aw == 64 ? 52 : 23, ex = aw == 64 ? 11 : 8;
      Expr *fr_ = EP.extract(a, 0, mant), *ee = EP.extract(a, mant, ex), *sg = EP.extract(a, aw - 1, 1);
      Expr *emax = EP.bin(EEq, ee, EP.konst(~0ull, ex)), *e0 = EP.bin(EEq, ee, EP.konst(0, ex)), *f0 = EP.bin(EEq, fr_, EP.konst(0, mant));
      Expr *nan = EP.bin(EAnd, emax, EP.notb(f0)), *inf = EP.bin(EAnd, emax, f0), *zer = EP.bin(EAnd, e0, f0), *sub = EP.bin(EAnd, e0, EP.notb(f0));
      Expr* nor = EP.bin(EAnd, EP.notb(emax), EP.notb(e0));
      Expr *q = EP.extract(a, mant - 1, 1), *ng = sg, *ps = EP.notb(sg);
      Expr* cls[10] = {EP.bin(EAnd, nan, EP.notb(q)), EP.bin(EAnd, nan, q), EP.bin(EAnd, inf, ng), EP.bin(EAnd, nor, ng), EP.bin(EAnd, sub, ng),
                       EP.bin(EAnd, zer, ng), EP.bin(EAnd, zer, ps), EP.bin(EAnd, sub, ps), EP.bin(EAnd, nor, ps), EP.bin(EAnd, inf, ps)};
      Expr* r = EP.konst(0, 1);
      for (int i = 0; i < 10; i++) if (m >> i & 1) r = EP.bin(EOr, r, cls[i]);
      setRet(t, in, fromE(r));
      break;
    }
    case IVecReduce: {
      Expr* r = toE(A(0), w);
      for (size_t i = 1; i < ci->args.size(); i++) r = EP.bin(op2ek[in.sub], r, toE(A(i), w));
      setRet(t, in, fromE(r));
      break;
    }
    default: unsupported(S, "builtin " + std::to_string(in.aux));
  }
  t.frames.back().pc++;
}

// ---------------------------------------------------------------- driver
static void lockSh() { pthread_mutex_lock(&SH->mu); }
static void unlockSh() { pthread_mutex_unlock(&SH->mu); }

static bool donate(const std::vector<u64>& d) {
  lockSh();
  bool ok = SH->qtop + d.size() + 1 < SHQ;
  if (ok) {
    memcpy(SH->q + SH->qtop, d.data(), d.size() * 8);
    SH->qtop += d.size();
    SH->q[SH->qtop++] = d.size();
    SH->qlen++;
  }
  unlockSh();
  return ok;
}
static bool takeJob(std::vector<u64>& d) {
  lockSh();
  bool ok = SH->qlen > 0;
  if (ok) {
    u64 n = SH->q[--SH->qtop];
    SH->qtop -= n;
    d.assign(SH->q + SH->qtop, SH->q + SH->qtop + n);
    SH->qlen--;
  }
  unlockSh();
  return ok;
}

static void flushStats() {
  static u64 q, h, a, b;
  static double t;
  lockSh();
  SH->queries += SV.queries - q; q = SV.queries;
  SH->cacheHits += SV.cacheHits - h; h = SV.cacheHits;
  SH->sat += SV.sat - a; a = SV.sat;
  SH->unsat += SV.unsat - b; b = SV.unsat;
  SH->solverTime += SV.time - t; t = SV.time;
  unlockSh();
}

static void explore(std::unique_ptr<State> init) {
  stackS.push_back(std::move(init));
  while (!stackS.empty()) {
    if (SH->stop) { SH->lost += stackS.size(); stackS.clear(); return; }
    std::unique_ptr<State> S = std::move(stackS.back());
    stackS.pop_back();
    if (SH->idle > 0 && !stackS.empty() && SH->qlen < (u64)SH->workers) {
      if (donate(stackS.front()->dec)) stackS.erase(stackS.begin());
    }
    int why;
    flushStats();
    try { run(*S); why = 0; } catch (PathEnd& pe) { why = pe.why; }
    switch (why) {
      case 0:
        // The k-th completed paths (k a power of two) are emitted with a model of
        // their path condition, for replay against the native build.
        { u64 k = __sync_add_and_fetch(&SH->paths, 1);
          if ((k & (k - 1)) == 0 && SH->witnesses < SH->maxWitness) {
            __sync_fetch_and_add(&SH->witnesses, 1);
            emit("{\"t\":\"path\",\"case\":" + std::to_string(S->caseId) + ",\"inputs\":" + inputsJson(*S, ensureModel(*S).get()) + "}");
          } }
        break;
      case 1: __sync_fetch_and_add(&SH->killedAssume, 1); break;
      case 2: __sync_fetch_and_add(&SH->paths, 1); break;
      case 3: __sync_fetch_and_add(&SH->unsupported, 1); break;
      case 4: __sync_fetch_and_add(&SH->truncated, 1); break;
      default: __sync_fetch_and_add(&SH->lost, 1); break;
    }
  }
}

static void worker(State& init) {
  SV.init();
  SV.pool = &EP;
  bool idle = true;
  for (;;) {
    std::vector<u64> d;
    if (SH->stop) break;
    if (takeJob(d)) {
      if (idle) { __sync_fetch_and_sub(&SH->idle, 1); idle = false; }
      auto s = cloneState(init);
      size_t pre = s->dec.size();
      (void)pre;
      s->dec = d;
      s->model = nullptr;
      explore(std::move(s));
    } else {
      if (!idle) { __sync_fetch_and_add(&SH->idle, 1); idle = true; }
      lockSh();
      bool done = SH->idle == SH->workers && SH->qlen == 0;
      unlockSh();
      if (done) break;
      usleep(300);
    }
  }
  flushStats();
}

int main(int argc, char** argv) {
  std::string file, entry = "verif_main";
  int jobs = 1, nwit = 0;
  double tlimit = 600;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    if (a == "-o") outPath = argv[++i];
    else if (a == "-e") entry = argv[++i];
    else if (a == "-j") jobs = atoi(argv[++i]);
    else if (a == "-t") tlimit = atof(argv[++i]);
    else if (a == "-s") maxSteps = strtoull(argv[++i], nullptr, 10);
    else if (a == "-m") maxViol = atoi(argv[++i]);
    else if (a == "-z") SV.timeoutMs = atoi(argv[++i]);
    else if (a == "-w") nwit = atoi(argv[++i]);
    else if (a == "-v") verbose = true;
    else file = a;
  }
  LLVMContext ctx;
  SMDiagnostic err;
  auto mod = parseIRFile(file, err, ctx);
  if (!mod) { err.print("symex", errs()); return 2; }
  M = mod.get();
  DL = &M->getDataLayout();
  size_t shsz = 256u << 20;
  SH = (Shared*)mmap(nullptr, shsz, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  SHQ = (shsz - sizeof(Shared)) / 8 - 16;
  pthread_mutexattr_t at;
  pthread_mutexattr_init(&at);
  pthread_mutexattr_setpshared(&at, PTHREAD_PROCESS_SHARED);
  pthread_mutex_init(&SH->mu, &at);
  outF = outPath.empty() ? stdout : fopen(outPath.c_str(), "w");
  if (!outF) { perror("out"); return 2; }
  if (!outPath.empty()) { fclose(outF); outF = fopen(outPath.c_str(), "a"); }
  double t0 = now_s();
  deadline = t0 + tlimit;
  intern("");

  auto S = std::make_unique<State>();
  // Globals.
  for (auto& g : M->globals()) {
    u64 sz = g.getValueType()->isSized() ? (u64)DL->getTypeAllocSize(g.getValueType()) : 64;
    if (g.isDeclaration() && sz < 64) sz = 64;
    u64 a = allocObj(*S, sz, 3);
    gaddr[&g] = a;
  }
  for (auto& f : *M) addrOfFn(&f);
  for (auto& g : M->globals()) {
    if (!g.hasInitializer()) continue;
    std::vector<u64> vals;
    std::vector<std::pair<Type*, u64>> l;
    if (g.getName() == "llvm.global_ctors" || g.getName() == "llvm.used" || g.getName() == "llvm.compiler.used") continue;
    evalConst(g.getInitializer(), vals);
    leafTypes(g.getValueType(), 0, l);
    Obj* o = S->mem.get(gaddr[&g] >> 32);
    for (size_t i = 0; i < l.size() && i < vals.size(); i++) {
      unsigned n = (bitw(l[i].first) + 7) / 8;
      memcpy(o->b + l[i].second, &vals[i], n);
    }
    if (g.isConstant()) o->kind = 4;
  }
  // Constructors then the entry point, as calls from a synthetic frame chain.
  Function* ent = M->getFunction(entry);
  if (!ent || ent->isDeclaration()) { errs() << "no entry " << entry << "\n"; return 2; }
  std::vector<std::pair<u64, const Function*>> ctors;
  if (auto* gc = M->getGlobalVariable("llvm.global_ctors")) {
    if (auto* ca = dyn_cast<ConstantArray>(gc->getInitializer()))
      for (auto& op : ca->operands()) {
        auto* cs = cast<ConstantStruct>(op);
        if (auto* f = dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts()))
          ctors.push_back({cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), f});
      }
    std::stable_sort(ctors.begin(), ctors.end(), [](auto& a, auto& b) { return a.first < b.first; });
  }
  S->th.emplace_back();
  SH->workers = jobs;
  SH->maxWitness = nwit;
  for (auto& c : ctors) {
    pushCall(*S, c.second, {}, -1, 0);
    try { run(*S); } catch (PathEnd& pe) {
      if (pe.why != 0) { errs() << "constructor failed: " << c.second->getName() << " why " << pe.why << "\n"; return 2; }
    }
    S->th[0].frames.clear(); S->th[0].regs.clear(); S->th[0].allocas.clear();
  }
  S->steps = 0;
  pushCall(*S, ent, {}, -1, 0);
  SH->idle = jobs;
  donate({});
  std::vector<pid_t> pids;
  for (int i = 0; i < jobs; i++) {
    pid_t p = fork();
    if (p == 0) {
      worker(*S);
      // Function names seen by this worker.
      std::string j = "{\"t\":\"fns\",\"names\":[";
      bool first = true;
      for (auto* fi : flist) {
        if (!fi->decoded) continue;
        if (!first) j += ",";
        first = false;
        j += "\"" + jesc(fi->name) + "\"";
      }
      emit(j + "]}");
      _exit(0);
    }
    pids.push_back(p);
  }
  int bad = 0;
  size_t alive = pids.size();
  while (alive) {
    int st;
    pid_t p = waitpid(-1, &st, WNOHANG);
    if (p == 0) {
      if (now_s() > deadline + 30) { for (pid_t q : pids) kill(q, SIGKILL); bad++; }
      usleep(2000);
      continue;
    }
    if (p < 0) break;
    alive--;
    if (!WIFEXITED(st) || WEXITSTATUS(st)) {
      bad++;
      if (WIFSIGNALED(st)) fprintf(stderr, "worker died: signal %d\n", WTERMSIG(st));
      SH->stop = 3;
    }
  }
  char buf[4096];
  bool complete = SH->stop == 0 && !bad && SH->unsupported == 0 && SH->truncated == 0 && SH->unknowns == 0 && SH->lost == 0;
  snprintf(buf, sizeof buf,
           "{\"t\":\"summary\",\"complete\":%s,\"paths\":%llu,\"assume_pruned\":%llu,\"instructions\":%llu,\"forks\":%llu,\"queries\":%llu,"
           "\"query_cache_hits\":%llu,\"sat\":%llu,\"unsat\":%llu,\"unknown\":%llu,\"solver_s\":%.3f,\"asserts_checked\":%llu,\"assert_queries\":%llu,\"violations\":%llu,"
           "\"unsupported\":%llu,\"truncated\":%llu,\"unexplored\":%llu,\"known\":%llu,\"symbolic_inputs\":%llu,\"choices\":%llu,\"worker_failures\":%d,\"stop\":%d,\"wall_s\":%.2f}",
           complete ? "true" : "false", (unsigned long long)SH->paths, (unsigned long long)SH->killedAssume, (unsigned long long)SH->insts,
           (unsigned long long)SH->forks, (unsigned long long)SH->queries, (unsigned long long)SH->cacheHits, (unsigned long long)SH->sat,
           (unsigned long long)SH->unsat, (unsigned long long)SH->unknowns, SH->solverTime, (unsigned long long)SH->asserts,
           (unsigned long long)SH->assertQueries, (unsigned long long)SH->violations, (unsigned long long)SH->unsupported,
           (unsigned long long)SH->truncated, (unsigned long long)(SH->lost + SH->qlen), (unsigned long long)SH->known,
           (unsigned long long)SH->syms, (unsigned long long)SH->chooses, bad, SH->stop, now_s() - t0);
  emit(buf);
  if (verbose || outPath.empty()) fprintf(stderr, "%s\n", buf);
  return bad ? 2 : 0;
}
