// symx: symbolic executor for LLVM IR. See DESIGN.md.
#include "ex.h"
#include <malloc.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/prctl.h>
#include <unistd.h>
#include <fcntl.h>
#include <time.h>
#include <set>
#include <memory>
#include <unordered_set>
using namespace llvm;

static ExCtx X;
static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

// ------------------------------------------------------------------ options / stats
static std::string outDir = ".", entryName = "harness"; static std::vector<u64> params; static double deadline = 1e18; static u64 maxSteps = 2000000000ULL; static unsigned maxCand = 3; static u64 rlimit = 60000000; static int maxSamples = 3; static u64 sampleSeed = 1;
static bool noFork = false; static bool verbose = false; static u64 pathLimit = ~0ULL; static bool nonTermIsViolation = true; static int logicQFFD = 1;
struct Shared { volatile int tokens; volatile int stop; volatile int seq; volatile int cands; volatile int pad[12]; };
static Shared* sh; // per job
static Shared* glob; // token pool shared with other jobs
struct Stats { u64 paths = 0, infeasible = 0, queries = 0, sat = 0, unsat = 0, unknown = 0, branches = 0, forks = 0, asserts = 0, assertsTriv = 0, assertsSolver = 0, steps = 0, truncated = 0, unsupported = 0, conc = 0, choose = 0, fastfalsify = 0, maxSteps = 0; double solver = 0; } S;
static std::map<std::string, u64> reachLabels; static std::set<std::string> truncMsgs;

// ------------------------------------------------------------------ values and program
struct Val { E e; u64 c; };
static inline Val C(u64 c) { return Val{nullptr, c}; }
static inline E toE(const Val& v, unsigned w) { return v.e ? v.e : X.cst(v.c, w); }
static inline Val fromE(E e) { if (e->k == KCONST) return C(e->c); return Val{e, 0}; }

enum Op : u8 { OPC_BIN, OPC_ICMP, OPC_SEL, OPC_BR, OPC_CBR, OPC_SW, OPC_RET, OPC_CALL, OPC_CALLI, OPC_EXT, OPC_LOAD, OPC_STORE, OPC_ALLOCA, OPC_TRUNC, OPC_ZEXT, OPC_SEXT, OPC_MOV, OPC_ADDI, OPC_GEPX, OPC_UNREACH, OPC_INTR, OPC_UNSUP, OPC_LOADAGG, OPC_STOREAGG };
enum Bin : u8 { B_ADD, B_SUB, B_MUL, B_UDIV, B_SDIV, B_UREM, B_SREM, B_SHL, B_LSHR, B_ASHR, B_AND, B_OR, B_XOR };
struct Fn;
struct Edge { u32 target; std::vector<std::pair<u32, int>> moves; u32 bb; };
struct Ins { u8 op, sub; u8 w, w2; u32 dst; int a, b, c; i64 imm; Fn* callee; std::vector<int>* args; std::vector<u8>* aw; std::vector<Edge>* edges; std::vector<u64>* cases; u32 line; const char* name; };
struct Fn { std::string name; Function* F; std::vector<Ins> code; std::vector<Val> consts; u32 nslots = 0; u32 nargs = 0; bool translated = false, decl = false; int ext = -1; u64 addr = 0; std::string file; bool lib = false; std::vector<u8> bbHit; u32 nbb = 0; u8 retw = 0; u32 retn = 0; struct BV { u32 slot; u64 n, al; }; std::vector<BV> byval; };

static LLVMContext LC; static std::unique_ptr<Module> M; static const DataLayout* DL; static unsigned PW = 64; static bool BE = false;
static std::unordered_map<const Function*, Fn*> fnOf; static std::unordered_map<u64, Fn*> fnByAddr; static std::unordered_map<const GlobalVariable*, u64> gaddr;
static E UNDEF; // sentinel
static std::vector<std::string> objNames;

// ------------------------------------------------------------------ memory
enum OK : u8 { OK_GLOBAL, OK_STACK, OK_HEAP, OK_USER, OK_FOREIGN };
struct Page { int rc; u32 n; u8* c; u8* st; E* sym; };
static Page* pgNew(u32 n, u8 st) { Page* p = (Page*)malloc(sizeof(Page)); p->rc = 1; p->n = n; p->c = (u8*)malloc(2 * (size_t)n + 16); p->st = p->c + n + 8; memset(p->c, 0, n); memset(p->st, st, n); p->sym = nullptr; return p; }
static Page* pgCopy(Page* o) { Page* p = (Page*)malloc(sizeof(Page)); p->rc = 1; p->n = o->n; p->c = (u8*)malloc(2 * (size_t)o->n + 16); p->st = p->c + p->n + 8; memcpy(p->c, o->c, o->n); memcpy(p->st, o->st, o->n); if (o->sym) { p->sym = (E*)malloc(sizeof(E) * o->n); memcpy(p->sym, o->sym, sizeof(E) * o->n); } else p->sym = nullptr; return p; }
static void pgFree(Page* p) { if (--p->rc == 0) { free(p->c); free(p->sym); free(p); } }
struct Obj { int rc; u64 base, size; OK kind; u8 live, ro, locked; u8 fill; /*0 zero 1 uninit*/ u32 seq; const char* name; u32 allocLine; Page* dense; std::unordered_map<u64, Page*>* sparse; };
static const u64 DENSE = 65536, PGS = 4096;
static Obj* obCopy(Obj* o) { Obj* n = new Obj(*o); n->rc = 1; if (n->dense) n->dense->rc++; if (o->sparse) { n->sparse = new std::unordered_map<u64, Page*>(*o->sparse); for (auto& x : *n->sparse) x.second->rc++; } return n; }
static void obFree(Obj* o) { if (--o->rc == 0) { if (o->dense) pgFree(o->dense); if (o->sparse) { for (auto& x : *o->sparse) pgFree(x.second); delete o->sparse; } delete o; } }
struct Chunk { int rc; Obj* o[64]; };
static void chFree(Chunk* c) { if (--c->rc == 0) { for (int i = 0; i < 64; i++) if (c->o[i]) obFree(c->o[i]); delete c; } }

struct Frame { Fn* f; u32 pc; u32 base; u32 dst; u8 dstw; u32 allocas; u32 callLine; };
struct Input { u8 kind; u8 w; int var; u64 c; const char* name; }; // kind 0 symbolic, 1 choose
struct Uninit { int var; u32 seq; u64 off; };
typedef std::vector<u64> Model;

struct State {
	std::vector<Val> slots; std::vector<Frame> fr; std::vector<Chunk*> objs; std::vector<u32> freeStack; std::vector<u32> allocaIds; std::vector<u32> gran; // gran: 32-bit granule -> object id
	std::vector<E> pc; std::vector<std::pair<E, u64>> known; std::shared_ptr<Model> model; bool checked = true;
	std::vector<Input> inputs; std::vector<Uninit> uninit; std::vector<std::pair<Val, u8>> obs; std::vector<std::string> trace; u32 nvars = 0; u32 nobj = 0; u32 granNext = 1;
	u64 steps = 0, blocks = 0; u64 hbytes = 0, hblocks = 0, htotal = 0, fbytes = 0, fblocks = 0, ftotal = 0; u32 heapSeq = 0; u64 hAlign = 16, hResid = 0; int pendingChoice = -1; i64 resumeChoice = -1; bool done = false; int nestedCost = 0; u64 ubytes = 0; bool hasWant = false; Val want;
	State() {}
	State(const State& o) : slots(o.slots), fr(o.fr), objs(o.objs), freeStack(o.freeStack), allocaIds(o.allocaIds), gran(o.gran), pc(o.pc), known(o.known), model(o.model), checked(o.checked), inputs(o.inputs), uninit(o.uninit), obs(o.obs), trace(o.trace), nvars(o.nvars), nobj(o.nobj), granNext(o.granNext), steps(o.steps), blocks(o.blocks), hbytes(o.hbytes), hblocks(o.hblocks), htotal(o.htotal), fbytes(o.fbytes), fblocks(o.fblocks), ftotal(o.ftotal), heapSeq(o.heapSeq), hAlign(o.hAlign), hResid(o.hResid), pendingChoice(o.pendingChoice), resumeChoice(o.resumeChoice), done(o.done), nestedCost(o.nestedCost), ubytes(o.ubytes), hasWant(o.hasWant), want(o.want) { for (auto c : objs) c->rc++; }
	~State() { for (auto c : objs) chFree(c); }
};
static State* cur;
static std::vector<State*> pend; static size_t pendBase = 0;

struct Kill {}; // path ends here (infeasible / violation / truncated)
struct Reexec {};
struct EndPath {}; // the run ends here, well

static Obj* getObj(u32 id) { return cur->objs[id >> 6]->o[id & 63]; }
static Obj* getObjW(u32 id) { Chunk*& ch = cur->objs[id >> 6]; if (ch->rc > 1) { Chunk* n = new Chunk; n->rc = 1; for (int i = 0; i < 64; i++) { n->o[i] = ch->o[i]; if (n->o[i]) n->o[i]->rc++; } ch->rc--; ch = n; } Obj*& o = ch->o[id & 63]; if (o->rc > 1) { Obj* n = obCopy(o); o->rc--; o = n; } return o; }
static void setObj(u32 id, Obj* o) { while ((id >> 6) >= cur->objs.size()) { Chunk* c = new Chunk; c->rc = 1; memset(c->o, 0, sizeof c->o); cur->objs.push_back(c); } Chunk*& ch = cur->objs[id >> 6]; if (ch->rc > 1) { Chunk* n = new Chunk; n->rc = 1; for (int i = 0; i < 64; i++) { n->o[i] = ch->o[i]; if (n->o[i]) n->o[i]->rc++; } ch->rc--; ch = n; } if (ch->o[id & 63]) obFree(ch->o[id & 63]); ch->o[id & 63] = o; }
static inline u32 idOf(u64 addr) { if (PW == 64) return (u32)(addr >> 36) - 1; u64 g = addr >> 16; if (g >= cur->gran.size() || cur->gran[g] == 0) return ~0U; return cur->gran[g] - 1; }
static const u64 FNBASE64 = 0x7000000000000000ULL, FNBASE32 = 0xF0000000ULL;

static u64 newObj(OK kind, u64 size, u64 align, u64 resid, u8 fill, const char* name) {
	u32 id; bool recyc = false;
	if (kind == OK_STACK && !cur->freeStack.empty() && PW == 64) { id = cur->freeStack.back(); cur->freeStack.pop_back(); recyc = true; } else id = cur->nobj++;
	(void)recyc;
	Obj* o = new Obj(); o->rc = 1; o->size = size; o->kind = kind; o->live = 1; o->ro = 0; o->locked = 0; o->fill = fill; o->name = name; o->dense = nullptr; o->sparse = nullptr; o->seq = 0; o->allocLine = 0;
	u64 b;
	if (PW == 64) b = ((u64)(id + 1) << 36) + 4096; else {
		// granules of 64K; small stack objects reuse freed ids through freeStack is disabled in 32-bit mode: granules are recycled instead
		u64 need = (size + 512 + 65535) >> 16; if (cur->gran.empty()) cur->gran.assign(0xF000, 0);
		u64 g = cur->granNext; // first fit scan
		if (kind == OK_STACK) { for (g = 0xE000; g + need < 0xF000; g++) if (!cur->gran[g]) break; } else cur->granNext += need;
		if (g + need >= (kind == OK_STACK ? 0xF000u : 0xE000u)) { truncMsgs.insert("32-bit address space exhausted"); S.truncated++; throw Kill(); }
		for (u64 i = 0; i < need; i++) cur->gran[g + i] = id + 1; b = (g << 16) + 256; }
	if (align < 1) align = 1; if (b % align != resid % align) b += (resid % align + align - b % align) % align;
	o->base = b; if (size <= DENSE) o->dense = pgNew(size, fill); else o->sparse = new std::unordered_map<u64, Page*>();
	setObj(id, o); return b; }

// ------------------------------------------------------------------ solver
static Z3_solver sol = nullptr; static std::vector<E> solStack;
static void solNew(); static void solInit() { X.zinit(); solNew(); }
static void solSync(const std::vector<E>& pc) { size_t k = 0; while (k < solStack.size() && k < pc.size() && solStack[k] == pc[k]) k++; if (k < solStack.size()) { Z3_solver_pop(X.z, sol, solStack.size() - k); solStack.resize(k); } for (; k < pc.size(); k++) { Z3_solver_push(X.z, sol); Z3_solver_assert(X.z, sol, X.boolean(pc[k])); solStack.push_back(pc[k]); } }
static void collectVars(E e, std::unordered_set<E>& seen, std::vector<E>& vars) { if (!seen.insert(e).second) return; if (e->k == KVAR) vars.push_back(e); for (u32 i = 0; i < e->nk; i++) collectVars(e->kid[i], seen, vars); }
static std::unordered_map<E, std::vector<E>> varCache;
static const std::vector<E>& varsOf(E e) { auto it = varCache.find(e); if (it != varCache.end()) return it->second; std::vector<E> v; std::unordered_set<E> s; collectVars(e, s, v); return varCache[e] = v; }
static int fullCheck(const std::vector<E>& pc, E cond, Model* out, u64 rl);
static void readModel(Z3_solver s, const std::vector<E>& pc, E cond, Model* out) {
	Z3_model m = Z3_solver_get_model(X.z, s); Z3_model_inc_ref(X.z, m); std::unordered_set<E> vs; for (E e : pc) for (E v : varsOf(e)) vs.insert(v); if (cond) for (E v : varsOf(cond)) vs.insert(v);
	for (E v : vs) { Z3_ast r = nullptr; uint64_t n = 0; if (Z3_model_eval(X.z, m, X.bv(v), 1, &r)) { Z3_inc_ref(X.z, r); if (!Z3_get_numeral_uint64(X.z, r, &n)) n = 0; Z3_dec_ref(X.z, r); } if (v->c >= out->size()) out->resize(v->c + 1, 0); (*out)[v->c] = n; }
	Z3_model_dec_ref(X.z, m); }
// the conjuncts of pc that can interact with cond (transitively sharing a variable)
static void sliceOf(const std::vector<E>& pc, E cond, std::vector<E>& out) {
	if (!cond) { out = pc; return; }
	static std::vector<u32> mark; static u32 ep = 0; ep++; auto touch = [&](E v) { if (v->c >= mark.size()) mark.resize(v->c + 64, 0); if (mark[v->c] == ep) return false; mark[v->c] = ep; return true; };
	for (E v : varsOf(cond)) touch(v); std::vector<char> in(pc.size(), 0); bool ch = true;
	while (ch) { ch = false; for (size_t i = 0; i < pc.size(); i++) if (!in[i]) { auto& vs = varsOf(pc[i]); bool hit = false; for (E v : vs) if (v->c < mark.size() && mark[v->c] == ep) { hit = true; break; } if (hit) { in[i] = 1; for (E v : vs) if (touch(v)) ch = true; } } }
	for (size_t i = 0; i < pc.size(); i++) if (in[i]) out.push_back(pc[i]); }
static std::unordered_map<E, Z3_ast> litOf; static size_t LITMAX = 80;
static void solNew() { if (sol) Z3_solver_dec_ref(X.z, sol); sol = nullptr; litOf.clear(); solStack.clear(); if (logicQFFD == 2 || logicQFFD == 5) sol = Z3_mk_solver_for_logic(X.z, Z3_mk_string_symbol(X.z, "QF_BV")); else if (logicQFFD == 1 || logicQFFD == 3) sol = Z3_mk_solver_for_logic(X.z, Z3_mk_string_symbol(X.z, "QF_FD")); else sol = Z3_mk_simple_solver(X.z); Z3_solver_inc_ref(X.z, sol);
	Z3_params p = Z3_mk_params(X.z); Z3_params_inc_ref(X.z, p); Z3_params_set_uint(X.z, p, Z3_mk_string_symbol(X.z, "rlimit"), (unsigned)rlimit); Z3_solver_set_params(X.z, sol, p); Z3_params_dec_ref(X.z, p); }
static Z3_ast lit(E e) { auto it = litOf.find(e); if (it != litOf.end()) return it->second; char n[32]; snprintf(n, sizeof n, "b%u", e->id); Z3_ast b = X.keep(Z3_mk_const(X.z, Z3_mk_string_symbol(X.z, n), Z3_mk_bool_sort(X.z))); Z3_solver_assert(X.z, sol, Z3_mk_implies(X.z, b, X.boolean(e))); return litOf[e] = b; }
struct QRes { int r; std::vector<std::pair<u32, u64>> m; }; static std::map<std::vector<u32>, QRes> qcache; static u64 qhits = 0;
// returns 1 sat, 0 unsat, -1 unknown for pc && cond; out (a model of pc on entry) is updated to a model of pc && cond
static int query(const std::vector<E>& pc0, E cond, Model* out) {
	if (cond && cond->k == KCONST && cond->c == 0) return 0;
	double t0 = now(); std::vector<E> pc; sliceOf(pc0, cond, pc);
	std::vector<u32> key; for (E e : pc) key.push_back(e->id); std::sort(key.begin(), key.end()); key.push_back(cond ? cond->id : ~0U);
	auto it = qcache.find(key); if (it != qcache.end()) { qhits++; if (it->second.r == 1 && out) for (auto& p : it->second.m) { if (p.first >= out->size()) out->resize(p.first + 1, 0); (*out)[p.first] = p.second; } return it->second.r; }
	S.queries++; Z3_lbool r; int res; Model mm; bool assumeMode = logicQFFD >= 3;
	if (assumeMode) { if (!sol || litOf.size() > LITMAX) solNew(); std::vector<Z3_ast> as; for (E e : pc) as.push_back(lit(e)); if (cond) as.push_back(lit(cond)); r = Z3_solver_check_assumptions(X.z, sol, as.size(), as.data()); res = r == Z3_L_TRUE ? 1 : r == Z3_L_FALSE ? 0 : -1; if (res == 1) readModel(sol, pc, cond, &mm); }
	else { solSync(pc); if (cond) { Z3_solver_push(X.z, sol); Z3_solver_assert(X.z, sol, X.boolean(cond)); }
		r = Z3_solver_check(X.z, sol); res = r == Z3_L_TRUE ? 1 : r == Z3_L_FALSE ? 0 : -1; if (res == 1) readModel(sol, pc, cond, &mm); if (cond) Z3_solver_pop(X.z, sol, 1); }
	if (res == -1) { res = fullCheck(pc, cond, &mm, rlimit * 4ULL); if (assumeMode) solNew(); }
	QRes q; q.r = res; if (res == 1) { std::unordered_set<E> vs; for (E e : pc) for (E v : varsOf(e)) vs.insert(v); if (cond) for (E v : varsOf(cond)) vs.insert(v); for (E v : vs) { u64 x = v->c < mm.size() ? mm[v->c] : 0; q.m.push_back({(u32)v->c, x}); if (out) { if (v->c >= out->size()) out->resize(v->c + 1, 0); (*out)[v->c] = x; } } }
	if (qcache.size() > 200000) qcache.clear(); if (res >= 0) qcache[key] = q;
	if (res == 1) S.sat++; else if (res == 0) S.unsat++; else S.unknown++;
	S.solver += now() - t0; return res; }
static int fullCheck(const std::vector<E>& pc, E cond, Model* out, u64 rl) {
	Z3_solver s = Z3_mk_solver_for_logic(X.z, Z3_mk_string_symbol(X.z, "QF_BV")); Z3_solver_inc_ref(X.z, s); Z3_params p = Z3_mk_params(X.z); Z3_params_inc_ref(X.z, p); Z3_params_set_uint(X.z, p, Z3_mk_string_symbol(X.z, "rlimit"), rl > 4000000000ULL ? 4000000000U : (unsigned)rl); Z3_solver_set_params(X.z, s, p); Z3_params_dec_ref(X.z, p);
	for (E e : pc) Z3_solver_assert(X.z, s, X.boolean(e)); if (cond) Z3_solver_assert(X.z, s, X.boolean(cond)); Z3_lbool r = Z3_solver_check(X.z, s); int res = r == Z3_L_TRUE ? 1 : r == Z3_L_FALSE ? 0 : -1; if (res == 1 && out) readModel(s, pc, cond, out); Z3_solver_dec_ref(X.z, s); return res; }

static u64 knEpoch = 1, pvEpoch = 1;
static void addKnownRaw(E e, u64 v) { e->knEp = knEpoch; e->knVal = v; pvEpoch++; }
static void addKnown(E e, u64 v);
static void deriveEq(E e, u64 v) { // e == v holds
	v &= maskw(e->w); if (e->k == KCONST) return;
	cur->known.push_back({e, v}); addKnownRaw(e, v);
	switch (e->k) {
	case KCONCAT: { unsigned pos = e->w; for (u32 i = 0; i < e->nk; i++) { E x = e->kid[i]; pos -= x->w; deriveEq(x, v >> pos); } break; }
	case KLIN: if (e->nk == 1) { u64 k = e->coef[0]; E t = e->kid[0]; if (k & 1) { u64 inv = k; for (int i = 0; i < 6; i++) inv *= 2 - k * inv; deriveEq(t, (v - e->c) * inv); } else { unsigned s = __builtin_ctzll(k); u64 k2 = k >> s; u64 inv = k2; for (int i = 0; i < 6; i++) inv *= 2 - k2 * inv; u64 r = (((v - e->c) & maskw(e->w)) >> s) * inv & maskw(e->w - s); u64 hi = ~maskw(e->w - s) & maskw(e->w); if ((t->kz & hi) == hi) deriveEq(t, r); } } break;
	case KXOR: if (ExCtx::isC(e->kid[1])) deriveEq(e->kid[0], v ^ e->kid[1]->c); break;
	case KSEXT: deriveEq(e->kid[0], v); break;
	case KAND: if (e->w == 1 && v == 1) { deriveEq(e->kid[0], 1); deriveEq(e->kid[1], 1); } break;
	case KOR: if (e->w == 1 && v == 0) { deriveEq(e->kid[0], 0); deriveEq(e->kid[1], 0); } break;
	case KEQ: if (v == 1) { if (ExCtx::isC(e->kid[1])) deriveEq(e->kid[0], e->kid[1]->c); } break;
	case KULT: if (v == 1) { addKnown(X.ule(e->kid[0], e->kid[1]), 1); addKnown(X.eq(e->kid[0], e->kid[1]), 0); addKnown(X.ult(e->kid[1], e->kid[0]), 0); addKnown(X.ule(e->kid[1], e->kid[0]), 0); } else { addKnown(X.ule(e->kid[1], e->kid[0]), 1); } break;
	case KULE: if (v == 0) { addKnown(X.ult(e->kid[1], e->kid[0]), 1); addKnown(X.eq(e->kid[0], e->kid[1]), 0); addKnown(X.ult(e->kid[0], e->kid[1]), 0); addKnown(X.ule(e->kid[1], e->kid[0]), 1); } else addKnown(X.ult(e->kid[1], e->kid[0]), 0); break;
	default: break; } }
static void addKnown(E e, u64 v) { if (e->k == KCONST) return; cur->known.push_back({e, v}); addKnownRaw(e, v); }
static void restamp() { knEpoch++; pvEpoch++; for (auto& p : cur->known) { p.first->knEp = knEpoch; p.first->knVal = p.second; } }
static E peval(E e) {
	if (e->k == KCONST) return e; if (e->knEp == knEpoch) return X.cst(e->knVal, e->w); if (e->k == KVAR) return e; if (e->pvEp == pvEpoch) return e->pv; 
	bool ch = false; std::vector<E> k(e->nk); for (u32 i = 0; i < e->nk; i++) { k[i] = peval(e->kid[i]); if (k[i] != e->kid[i]) ch = true; }
	E r = ch ? X.build(e, k) : e; if (r != e && r->k != KCONST && r->knEp == knEpoch) r = X.cst(r->knVal, r->w); e->pvEp = pvEpoch; e->pv = r; return r; }

static void useModel() { X.setModel(cur->model.get()); }
static void addPC(E c) { if (c->k == KCONST) return; cur->pc.push_back(c); deriveEq(c, 1); }

// ------------------------------------------------------------------ reporting
static std::string jesc(const std::string& s) { std::string r; for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if ((u8)c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r; }
static std::string where() { std::string r; int n = 0; for (int i = (int)cur->fr.size() - 1; i >= 0 && n < 12; i--, n++) { Frame& f = cur->fr[i]; u32 pc = f.pc; u32 line = pc < f.f->code.size() ? f.f->code[pc].line : 0; if (n) r += " < "; r += f.f->name + ":" + std::to_string(line); } return r; }
static void dumpInputs(FILE* f, const Model* m) {
	X.setModel(m); fprintf(f, "\"inputs\":["); bool first = true;
	for (auto& in : cur->inputs) { u64 v = in.kind == 0 ? (in.var < (int)m->size() ? (*m)[in.var] : 0) & maskw(in.w) : in.c; fprintf(f, "%s[\"%s\",%u,\"%llu\"]", first ? "" : ",", jesc(in.name ? in.name : "").c_str(), in.w, (unsigned long long)v); first = false; }
	fprintf(f, "],\"uninit\":["); first = true; for (auto& u : cur->uninit) { u64 v = u.var < (int)m->size() ? (*m)[u.var] : 0; fprintf(f, "%s[%u,%llu,%u]", first ? "" : ",", u.seq, (unsigned long long)u.off, (unsigned)(v & 255)); first = false; }
	fprintf(f, "]"); }
static u64 violCount = 0;
static std::set<std::string> candSeen;
[[noreturn]] static void violation(const std::string& kind, const std::string& msg, const Model* m) {
	std::string w = where(); std::string key = kind + msg + w.substr(0, 200);
	if (candSeen.insert(key).second) {
		int n = __sync_fetch_and_add(&sh->cands, 1); char fn[512]; snprintf(fn, sizeof fn, "%s/cand-%d.json", outDir.c_str(), n); FILE* f = fopen((std::string(fn) + ".tmp").c_str(), "w");
		fprintf(f, "{\"kind\":\"%s\",\"msg\":\"%s\",\"where\":\"%s\",\"steps\":%llu,", kind.c_str(), jesc(msg).c_str(), jesc(w).c_str(), (unsigned long long)cur->steps); dumpInputs(f, m); fprintf(f, ",\"trace\":["); bool first = true; for (auto& t : cur->trace) { fprintf(f, "%s\"%s\"", first ? "" : ",", jesc(t).c_str()); first = false; } fprintf(f, "]}\n"); fclose(f); rename((std::string(fn) + ".tmp").c_str(), fn);
		if (n + 1 >= (int)maxCand) sh->stop = 1; if (verbose) fprintf(stderr, "CANDIDATE %s: %s at %s\n", kind.c_str(), msg.c_str(), w.c_str()); }
	violCount++; throw Kill(); }
static u64 sampleCount = 0; static u64 rngs = 88172645463325252ULL; static u64 rng() { rngs ^= rngs << 13; rngs ^= rngs >> 7; rngs ^= rngs << 17; return rngs; }
static std::vector<std::string> samples;
static void samplePath() {
	S.paths++; if (maxSamples <= 0) return; size_t slot; if ((int)samples.size() < maxSamples) { slot = samples.size(); samples.push_back(""); } else { u64 r = rng() % S.paths; if (r >= (u64)maxSamples) return; slot = r; }
	char* buf = nullptr; size_t n = 0; FILE* f = open_memstream(&buf, &n); fprintf(f, "{"); dumpInputs(f, cur->model.get()); fprintf(f, ",\"obs\":["); bool first = true; for (auto& o : cur->obs) { u64 v = o.first.e ? X.eval(o.first.e) : o.first.c; fprintf(f, "%s\"%llu\"", first ? "" : ",", (unsigned long long)(v & maskw(o.second))); first = false; } fprintf(f, "],\"steps\":%llu,\"constraints\":%zu}", (unsigned long long)cur->steps, cur->pc.size()); fclose(f); samples[slot] = buf; free(buf); }

static void dump(E e, int d);
static bool dumpOn = getenv("VF_DUMP") != nullptr;
// ------------------------------------------------------------------ forking decisions
static void pushPending(State* s) { pend.push_back(s); S.forks++; }
// a broken program may fork without end over states of many objects: beyond the limit the other sides are left out, and reported as such
static u64 memLimit = 2500ULL << 20; static u64 memUsed() { auto m = mallinfo2(); return m.uordblks + m.hblkhd; }
static bool noRoom() { static unsigned k = 0; static bool full = false; if ((++k & 15) == 0) full = memUsed() > memLimit; if (full) { truncMsgs.insert("memory limit: some branches were not followed"); S.truncated++; } return full; }
// decide a 1-bit condition on the current state; may push the other side as pending (re-executing the current instruction)
static bool branch(E c) {
	c = peval(c); if (c->k == KCONST) return c->c != 0;
	S.branches++; bool side = X.eval(c) != 0; E taken = side ? c : X.not1(c), other = side ? X.not1(c) : c;
	auto m2 = std::make_shared<Model>(*cur->model); int r = query(cur->pc, other, m2.get());
	if (r == 1 && noRoom()) addPC(taken);
	else if (r == 1) { State* n = new State(*cur); n->pc.push_back(other); n->known.push_back({c, side ? 0ULL : 1ULL}); n->model = m2; 
		State* save = cur; cur = n; size_t k = n->known.size(); (void)k; knEpoch++; deriveEq(other, 1); cur = save; restamp(); pushPending(n);
		addPC(taken); }
	else if (r == 0) { // implied: remember, no need to constrain
		cur->known.push_back({c, side ? 1ULL : 0ULL}); addKnownRaw(c, side); deriveEq(taken, 1); }
	else { truncMsgs.insert("solver unknown at branch " + where()); S.truncated++; addPC(taken); }
	return side; }
static u64 concretize(E e) {
	e = peval(e); if (e->k == KCONST) return e->c; S.conc++; if (dumpOn) { fprintf(stderr, "CONC %s\n", where().c_str()); dump(e, 0); for (u32 i = 0; i < e->nk; i++) dump(e->kid[i], 2); }
	if (e->k == KLIN && e->nk == 1 && !(e->coef[0] & 1)) { concretize(e->kid[0]); e = peval(e); if (e->k == KCONST) return e->c; } // a multiple: fix the factor, which others may depend on
	u64 v = X.eval(e); E q = X.eq(e, X.cst(v, e->w)); E ne = X.not1(q); auto m2 = std::make_shared<Model>(*cur->model); int r = query(cur->pc, ne, m2.get());
	if (r == 1 && noRoom()) { addPC(q); deriveEq(e, v); }
	else if (r == 1) { State* n = new State(*cur); n->pc.push_back(ne); n->model = m2; State* save = cur; cur = n; knEpoch++; deriveEq(ne, 1); cur = save; restamp(); pushPending(n); addPC(q); deriveEq(e, v); }
	else if (r == 0) { deriveEq(e, v); }
	else { truncMsgs.insert("solver unknown at concretisation " + where()); S.truncated++; addPC(q); deriveEq(e, v); }
	return v; }
static u64 conc(Val& v) { if (!v.e) return v.c; v = C(concretize(v.e)); return v.c; }

static void assume(E c) { c = peval(c); if (c->k == KCONST) { if (!c->c) { S.infeasible++; throw Kill(); } return; }
	if (!X.eval(c)) { auto m2 = std::make_shared<Model>(*cur->model); int r = query(cur->pc, c, m2.get()); if (r == 0) { S.infeasible++; throw Kill(); } if (r < 0) { truncMsgs.insert("solver unknown at assume"); S.truncated++; throw Kill(); } cur->model = m2; useModel(); }
	addPC(c); }
static void dump(E e, int d) { fprintf(stderr, "%*s#%u k%d w%d c%llx nk%u kz%llx\n", d, "", e->id, e->k, e->w, (unsigned long long)e->c, e->nk, (unsigned long long)e->kz); if (e->coef) { for (u32 i = 0; i < e->nk; i++) fprintf(stderr, " %llx", (unsigned long long)e->coef[i]); fprintf(stderr, "\n"); } }
static void diffE(E a, E b, int d) { if (a == b || d > 60) return; if (a->k != b->k || a->w != b->w || a->nk != b->nk || a->c != b->c) { fprintf(stderr, "differ at depth %d\n", d); dump(a, 2); for (u32 i = 0; i < a->nk; i++) dump(a->kid[i], 6); dump(b, 2); for (u32 i = 0; i < b->nk; i++) dump(b->kid[i], 6); return; } for (u32 i = 0; i < a->nk; i++) if (a->kid[i] != b->kid[i]) { diffE(a->kid[i], b->kid[i], d + 1); return; } fprintf(stderr, "coefs\n"); dump(a, 2); dump(b, 2); }
static void check(E c, const char* kind, const std::string& msg) {
	S.asserts++; c = peval(c); if (c->k == KCONST) { if (c->c) { S.assertsTriv++; return; } violation(kind, msg, cur->model.get()); }
	if (!X.eval(c)) violation(kind, msg, cur->model.get());
	E n = X.not1(c);
	if (c->size > 100) { // cheap falsification before the solver
		for (int t = 0; t < 64; t++) { Model rm(cur->nvars); for (auto& x : rm) x = t == 0 ? ~0ULL : rng() * 0x9E3779B97F4A7C15ULL; X.setModel(&rm); bool ok = true; for (E p : cur->pc) if (!X.eval(p)) { ok = false; break; } if (ok && !X.eval(c)) { S.fastfalsify++; auto mm = std::make_shared<Model>(rm); violation(kind, msg, mm.get()); } }
		useModel(); }
	if (dumpOn && c->size > 100) { E d = c->k == KEQ ? c : n->k == KEQ ? n : nullptr; if (d) diffE(d->kid[0], d->kid[1], 0); else dump(c, 0); }
	S.assertsSolver++; auto m2 = std::make_shared<Model>(*cur->model); int r = query(cur->pc, n, m2.get());
	if (r == 1) { violation(kind, msg, m2.get()); }
	if (r < 0) { truncMsgs.insert(std::string("solver unknown at assertion: ") + msg); S.truncated++; return; }
	cur->known.push_back({c, 1}); addKnownRaw(c, 1); }

// ------------------------------------------------------------------ memory access
static void memErr(const char* what, u64 addr, u64 n) { char b[200]; Obj* o = nullptr; u32 id = idOf(addr); if (id < cur->nobj) o = getObj(id); snprintf(b, sizeof b, "%s of %llu bytes at %llx (%s offset %lld size %llu)", what, (unsigned long long)n, (unsigned long long)addr, o ? (o->kind == OK_STACK ? "stack object" : o->kind == OK_GLOBAL ? "global" : o->kind == OK_HEAP ? "heap block" : "user block") : "no object", o ? (long long)(addr - o->base) : 0LL, o ? (unsigned long long)o->size : 0ULL); violation("memory", b, cur->model.get()); }
static inline Obj* resolve(u64 addr, u64 n, bool w, u32& id) {
	id = idOf(addr); if (id >= cur->nobj) memErr(addr < 4096 ? "null pointer access" : "wild access", addr, n); Obj* o = getObj(id); if (!o) memErr("wild access", addr, n); u64 off = addr - o->base;
	if (!o->live) memErr("use after free", addr, n); if (off > o->size || n > o->size - off) memErr(w ? "out of bounds write" : "out of bounds read", addr, n); if (o->locked) memErr("access to an object the container must not touch", addr, n); if (w && o->ro) memErr("write to read-only memory", addr, n); return o; }
static Val newVar(unsigned w, u32& idx) { idx = cur->nvars++; if (cur->model->size() < cur->nvars) { cur->model = std::make_shared<Model>(*cur->model); cur->model->resize(cur->nvars + 16, 0); useModel(); } else if ((*cur->model)[idx] != 0) { cur->model = std::make_shared<Model>(*cur->model); (*cur->model)[idx] = 0; useModel(); } return Val{X.var(idx, w), 0}; }
static Page* pageR(Obj* o, u64 off, u64& po) { if (o->dense) { po = off; return o->dense; } po = off % PGS; auto it = o->sparse->find(off / PGS); return it == o->sparse->end() ? nullptr : it->second; }
static Page* pageW(Obj* o, u64 off, u64& po) { Page** pp; if (o->dense) { po = off; pp = &o->dense; } else { po = off % PGS; Page*& p = (*o->sparse)[off / PGS]; if (!p) p = pgNew(PGS, o->fill); pp = &p; } if ((*pp)->rc > 1) { Page* n = pgCopy(*pp); (*pp)->rc--; *pp = n; } return *pp; }
static Val loadByte(u64 addr) { u32 id; Obj* o = resolve(addr, 1, false, id); u64 off = addr - o->base, po; Page* p = pageR(o, off, po); u8 st = p ? p->st[po] : o->fill;
	if (st == 0) return C(p ? p->c[po] : 0); if (st == 2) return Val{p->sym[po], 0};
	// uninitialised: fresh symbolic byte
	u32 idx; Val v = newVar(8, idx); Obj* w = getObjW(id); Page* q = pageW(w, off, po); if (!q->sym) q->sym = (E*)calloc(q->n, sizeof(E)); q->sym[po] = v.e; q->st[po] = 2; if (w->kind == OK_HEAP || w->kind == OK_USER) cur->uninit.push_back({(int)idx, w->seq, off}); return v; }
static void storeByte(u64 addr, Val v) { u32 id; resolve(addr, 1, true, id); Obj* o = getObjW(id); u64 po; Page* p = pageW(o, addr - o->base, po); if (!v.e) { p->c[po] = (u8)v.c; p->st[po] = 0; } else { if (!p->sym) p->sym = (E*)calloc(p->n, sizeof(E)); p->sym[po] = v.e; p->st[po] = 2; } }
static Val loadN(u64 addr, unsigned w) {
	unsigned n = (w + 7) / 8; u32 id; Obj* o = resolve(addr, n, false, id); u64 off = addr - o->base, po; Page* p = pageR(o, off, po);
	if (!p && o->fill == 0 && (off % PGS) + n <= PGS) return C(0);
	if (p && po + n <= p->n) { u64 s = 0; memcpy(&s, p->st + po, n); if (s == 0) { u64 v = 0; memcpy(&v, p->c + po, n); if (BE) v = __builtin_bswap64(v) >> (64 - 8 * n); return C(v & maskw(w)); } }
	std::vector<E> b; for (unsigned i = 0; i < n; i++) { unsigned k = BE ? i : n - 1 - i; b.push_back(toE(loadByte(addr + k), 8)); } E e = X.concat(b); if (e->w > w) e = X.trunc(e, w); return fromE(e); }
static void storeN(u64 addr, Val v, unsigned w) {
	unsigned n = (w + 7) / 8; u32 id; resolve(addr, n, true, id); Obj* o = getObjW(id); u64 off = addr - o->base, po;
	if (!v.e) { Page* p = pageW(o, off, po); if (po + n <= p->n) { u64 x = v.c & maskw(w); if (BE) x = __builtin_bswap64(x) >> (64 - 8 * n); memcpy(p->c + po, &x, n); memset(p->st + po, 0, n); return; } for (unsigned i = 0; i < n; i++) storeByte(addr + i, C(((v.c & maskw(w)) >> (8 * (BE ? n - 1 - i : i))) & 255)); return; }
	E e = v.e; if (n * 8 > e->w) e = X.zext(e, n * 8); for (unsigned i = 0; i < n; i++) storeByte(addr + i, fromE(X.extract(e, 8 * (BE ? n - 1 - i : i), 8))); }
// a load at a symbolic offset of a large zero-filled object with few words written: an if-then-else over those words
static bool symLoad(E a, unsigned w, Val& out) {
	a = peval(a); if (a->k == KCONST) return false; u64 v = X.eval(a); u32 id = idOf(v); if (id >= cur->nobj) return false; Obj* o = getObj(id); unsigned n = (w + 7) / 8;
	if (!o || !o->live || o->locked || o->size < 512 || (!o->dense && o->fill != 0) || w != n * 8 || (n & (n - 1)) || v - o->base > o->size - n) return false;
	E off = X.sub(a, X.cst(o->base, PW)); if (n > 1 && (off->kz & (n - 1)) != n - 1) return false; if (o->base % n) return false;
	std::set<u64> ws; auto scan = [&](Page* p, u64 b) { u32 i = 0; while (i < p->n) { if (i + 8 <= p->n) { u64 x, y; memcpy(&x, p->c + i, 8); memcpy(&y, p->st + i, 8); if (!(x | y)) { i += 8; continue; } } if (p->st[i] == 1) return false; if (p->c[i] || p->st[i]) { ws.insert((b + i) / n * n); if (ws.size() > 64) return false; } i++; } return true; };
	if (o->dense) { if (!scan(o->dense, 0)) return false; } else { if (o->sparse->size() > 64) return false; for (auto& x : *o->sparse) if (!scan(x.second, x.first * PGS)) return false; }
	u64 base = o->base, size = o->size; if (!branch(X.ule(off, X.cst(size - n, PW)))) return false;
	bool ptrs = false; if (w == PW) for (u64 k : ws) { Val x = loadN(base + k, w); if (x.e || (x.c > 65536 && idOf(x.c) < cur->nobj)) ptrs = true; }
	if (ptrs) { for (u64 k : ws) if (branch(X.eq(off, X.cst(k, PW)))) { out = loadN(base + k, w); return true; } out = C(0); return true; } // one path per pointer
	if (ws.size() > 24) return false;
	E r = X.cst(0, w); for (u64 k : ws) { Val x = loadN(base + k, w); r = X.ite(X.eq(off, X.cst(k, PW)), toE(x, w), r); } out = fromE(peval(r)); return true; }
// the object a symbolic pointer is in, after splitting off the values outside it
static Obj* symObj(E p, u64 n) { p = peval(p); u64 v = X.eval(p); u32 id = idOf(v); if (id >= cur->nobj) return nullptr; Obj* o = getObj(id); if (!o || v - o->base > o->size) return nullptr; u64 b = o->base, sz = o->size; if (p->k != KCONST) branch(X.ule(X.sub(p, X.cst(b, PW)), X.cst(sz, PW))); return getObj(id); }
static std::string readStr(u64 addr) { std::string s; for (int i = 0; i < 300; i++) { Val v = loadByte(addr + i); if (v.e || !v.c) break; s += (char)v.c; } return s; }
static const char* readName(u64 addr) { static std::map<std::string, const char*> pool; if (!addr) return ""; std::string s = readStr(addr); auto it = pool.find(s); if (it != pool.end()) return it->second; return pool[s] = strdup(s.c_str()); }
static void memfill(u64 addr, Val b, u64 n) { if (!n) return; u32 id; resolve(addr, n, true, id); if (n > DENSE && !b.e) { Obj* o = getObjW(id); if (addr == o->base && n == o->size) { if (o->sparse) { for (auto& x : *o->sparse) pgFree(x.second); o->sparse->clear(); if (b.c == 0) { o->fill = 0; return; } } } }
	if (!b.e) { Obj* o = getObjW(id); u64 off = addr - o->base; while (n) { u64 po; Page* p = pageW(o, off, po); u64 k = std::min<u64>(n, p->n - po); memset(p->c + po, (int)b.c, k); memset(p->st + po, 0, k); off += k; n -= k; } return; }
	for (u64 i = 0; i < n; i++) storeByte(addr + i, b); }
static void memcopy(u64 d, u64 s, u64 n) { if (!n) return; u32 id; resolve(s, n, false, id); resolve(d, n, true, id);
	std::vector<Val> t(n); // uninitialised bytes are copied as uninitialised
	std::vector<u8> un(n); for (u64 i = 0; i < n; i++) { u32 i2; Obj* o = resolve(s + i, 1, false, i2); u64 po; Page* p = pageR(o, s + i - o->base, po); u8 st = p ? p->st[po] : o->fill; if (st == 1) un[i] = 1; else t[i] = st == 0 ? C(p ? p->c[po] : 0) : Val{p->sym[po], 0}; }
	for (u64 i = 0; i < n; i++) { if (un[i]) { u32 i2; resolve(d + i, 1, true, i2); Obj* o = getObjW(i2); u64 po; Page* p = pageW(o, d + i - o->base, po); p->st[po] = 1; } else storeByte(d + i, t[i]); } }

// ------------------------------------------------------------------ translation
static u64 evalConst(const Constant* c);
static u64 fnAddr(Fn* f) { return f->addr; }
static unsigned tyW(Type* t) { if (t->isIntegerTy()) return t->getIntegerBitWidth(); if (t->isPointerTy()) return PW; return 0; }
static void flatTy(Type* t, std::vector<unsigned>& out) { if (auto* s = dyn_cast<StructType>(t)) { for (auto* e : s->elements()) flatTy(e, out); } else if (auto* a = dyn_cast<ArrayType>(t)) { for (u64 i = 0; i < a->getNumElements(); i++) flatTy(a->getElementType(), out); } else out.push_back(tyW(t)); }
static void flatOff(Type* t, u64 base, std::vector<u64>& out) { if (auto* s = dyn_cast<StructType>(t)) { auto* l = DL->getStructLayout(s); for (unsigned i = 0; i < s->getNumElements(); i++) flatOff(s->getElementType(i), base + l->getElementOffset(i), out); } else if (auto* a = dyn_cast<ArrayType>(t)) { for (u64 i = 0; i < a->getNumElements(); i++) flatOff(a->getElementType(), base + i * DL->getTypeAllocSize(a->getElementType()), out); } else out.push_back(base); }
static unsigned flatN(Type* t) { std::vector<unsigned> v; flatTy(t, v); return v.size(); }
static unsigned flatIdx(Type* t, ArrayRef<unsigned> idx) { unsigned r = 0; for (unsigned i : idx) { if (auto* s = dyn_cast<StructType>(t)) { for (unsigned k = 0; k < i; k++) r += flatN(s->getElementType(k)); t = s->getElementType(i); } else { auto* a = cast<ArrayType>(t); r += i * flatN(a->getElementType()); t = a->getElementType(); } } return r; }
struct Unsup { std::string m; };
static u64 evalConst(const Constant* c) {
	if (auto* i = dyn_cast<ConstantInt>(c)) { if (i->getBitWidth() > 64) throw Unsup{"wide integer"}; return i->getZExtValue(); }
	if (isa<ConstantPointerNull>(c)) return 0; if (isa<ConstantAggregateZero>(c)) return 0;
	if (auto* f = dyn_cast<Function>(c)) { auto it = fnOf.find(f); if (it == fnOf.end()) throw Unsup{"function address"}; return it->second->addr; }
	if (auto* g = dyn_cast<GlobalVariable>(c)) { auto it = gaddr.find(g); if (it == gaddr.end()) throw Unsup{"global " + g->getName().str()}; return it->second; }
	if (auto* a = dyn_cast<GlobalAlias>(c)) return evalConst(a->getAliasee());
	if (auto* ce = dyn_cast<ConstantExpr>(c)) {
		switch (ce->getOpcode()) {
		case Instruction::GetElementPtr: { APInt off(PW, 0); cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off); return (evalConst(ce->getOperand(0)) + off.getSExtValue()) & maskw(PW); }
		case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::Trunc: case Instruction::ZExt: return evalConst(ce->getOperand(0)) & maskw(tyW(ce->getType()));
		case Instruction::Add: return (evalConst(ce->getOperand(0)) + evalConst(ce->getOperand(1))) & maskw(tyW(ce->getType()));
		case Instruction::Sub: return (evalConst(ce->getOperand(0)) - evalConst(ce->getOperand(1))) & maskw(tyW(ce->getType()));
		default: throw Unsup{"constant expression"}; } }
	throw Unsup{"constant"}; }

enum Ext { X_SYM = 1, X_RANGE, X_CHOOSE, X_PARAM, X_ASSUME, X_ASSERT, X_OBSERVE, X_REACH, X_MALLOC, X_CALLOC, X_REALLOC, X_FREE, X_UALLOC, X_UFREE, X_UREALLOC, X_HBYTES, X_HBLOCKS, X_HTOTAL, X_HALIGN, X_INHEAP, X_CONC, X_COST, X_LOCK, X_ISNATIVE, X_INJ, X_ABORT, X_ASSERTFAIL, X_MEMCPY, X_MEMMOVE, X_MEMSET, X_MEMCMP, X_STRLEN, X_STRCMP, X_LIBCMALLOC, X_LIBCCALLOC, X_LIBCREALLOC, X_LIBCFREE, X_FBLOCKS, X_TRACE, X_PUTS, X_KNOWNEQ, X_ITE, X_RO, X_BLKBASE, X_BLKSIZE, X_ANY, X_ULIVE, X_HBIG, X_STRCHR, X_ABS, X_SPLIT, X_WANT, X_ALALLOC, X_PMEMALIGN, X_VALLOC, X_REALLOCARR, X_MEMCHR, X_STRNLEN };
static std::map<std::string, int> extNames = { {"vf_sym", X_SYM}, {"vf_range", X_RANGE}, {"vf_choose", X_CHOOSE}, {"vf_param", X_PARAM}, {"vf_assume", X_ASSUME}, {"vf_assert_", X_ASSERT}, {"vf_observe", X_OBSERVE}, {"vf_reach", X_REACH}, {"vf_malloc", X_MALLOC}, {"vf_calloc", X_CALLOC}, {"vf_realloc", X_REALLOC}, {"vf_free", X_FREE}, {"vf_alloc", X_UALLOC}, {"vf_release", X_UFREE}, {"vf_heap_bytes", X_HBYTES}, {"vf_heap_blocks", X_HBLOCKS}, {"vf_heap_total", X_HTOTAL}, {"vf_heap_align", X_HALIGN}, {"vf_in_heap", X_INHEAP}, {"vf_concrete", X_CONC}, {"vf_cost", X_COST}, {"vf_lock", X_LOCK}, {"vf_is_native", X_ISNATIVE}, {"vf_assert_injective", X_INJ}, {"abort", X_ABORT}, {"exit", X_ABORT}, {"__assert_fail", X_ASSERTFAIL}, {"memcpy", X_MEMCPY}, {"memmove", X_MEMMOVE}, {"memset", X_MEMSET}, {"memcmp", X_MEMCMP}, {"bcmp", X_MEMCMP}, {"strlen", X_STRLEN}, {"strcmp", X_STRCMP}, {"malloc", X_LIBCMALLOC}, {"calloc", X_LIBCCALLOC}, {"realloc", X_LIBCREALLOC}, {"free", X_LIBCFREE}, {"vf_foreign_blocks", X_FBLOCKS}, {"vf_trace", X_TRACE}, {"puts", X_PUTS}, {"vf_ite", X_ITE}, {"vf_ro", X_RO}, {"vf_block_base", X_BLKBASE}, {"vf_block_size", X_BLKSIZE}, {"vf_any", X_ANY}, {"abs", X_ABS}, {"vf_split", X_SPLIT}, {"vf_want", X_WANT}, {"aligned_alloc", X_ALALLOC}, {"memalign", X_ALALLOC}, {"posix_memalign", X_PMEMALIGN}, {"valloc", X_VALLOC}, {"reallocarray", X_REALLOCARR}, {"memchr", X_MEMCHR}, {"strnlen", X_STRNLEN}, {"fflush", X_PUTS}, {"printf", X_PUTS}, {"fprintf", X_PUTS}, {"fputs", X_PUTS}, {"putchar", X_PUTS} };

enum Intr { I_MEMCPY, I_MEMMOVE, I_MEMSET, I_CTLZ, I_CTTZ, I_BSWAP, I_CTPOP, I_FSHL, I_FSHR, I_UMULO, I_UADDO, I_USUBO, I_SADDO, I_SSUBO, I_SMULO, I_EXPECT, I_NOP, I_UMAX, I_UMIN, I_SMAX, I_SMIN, I_ABS, I_OBJSIZE, I_ISCONST, I_TRAP, I_ZERO, I_BITREV };

struct Trans {
	Fn* fn; Function* F; std::unordered_map<const Value*, u32> slot; std::unordered_map<const BasicBlock*, u32> bbpc; std::unordered_map<const BasicBlock*, u32> bbi;
	int kst(Val v) { fn->consts.push_back(v); return -(int)fn->consts.size(); }
	int ref(const Value* v, unsigned sub = 0) { auto it = slot.find(v); if (it != slot.end()) return it->second + sub; if (isa<UndefValue>(v)) { Type* t = v->getType(); std::vector<unsigned> ws; flatTy(t, ws); return kst(Val{UNDEF, ws[sub]}); }
		if (auto* c = dyn_cast<Constant>(v)) { if (c->getType()->isAggregateType()) { if (isa<ConstantAggregateZero>(c)) return kst(C(0)); std::vector<const Constant*> fl; flatC(c, fl); return ref(fl[sub]); } return kst(C(evalConst(c))); } throw Unsup{"operand"}; }
	void flatC(const Constant* c, std::vector<const Constant*>& o) { if (c->getType()->isAggregateType()) { for (unsigned i = 0; i < (c->getType()->isStructTy() ? c->getType()->getStructNumElements() : c->getType()->getArrayNumElements()); i++) flatC(c->getAggregateElement(i), o); } else o.push_back(c); }
	Ins mk(u8 op) { Ins i; memset((void*)&i, 0, sizeof i); i.op = op; return i; }
	Edge edge(const BasicBlock* from, const BasicBlock* to) { Edge e; e.target = 0; e.bb = bbi[to]; for (auto& p : to->phis()) { unsigned n = flatN(p.getType()); const Value* in = p.getIncomingValueForBlock(from); for (unsigned k = 0; k < n; k++) e.moves.push_back({slot[&p] + k, ref(in, k)}); } return e; }
	void run(); void ins(Instruction& I, BasicBlock& B); void intrinsic(CallInst& ci, Ins& in); };
static u64 fnCount = 0;
static Fn* getFn(Function* f) { auto it = fnOf.find(f); return it == fnOf.end() ? nullptr : it->second; }
static unsigned chkW(Type* t) { unsigned w = tyW(t); if (w == 0 || w > 64) { std::string s; raw_string_ostream o(s); t->print(o); throw Unsup{"type " + s}; } return w; }
void Trans::run() {
	F = fn->F; for (auto& a : F->args()) { slot[&a] = fn->nslots; if (a.hasByValAttr()) fn->byval.push_back({fn->nslots, DL->getTypeAllocSize(a.getParamByValType()), std::max<u64>(a.getParamAlign().valueOrOne().value(), 4)}); fn->nslots += flatN(a.getType()); } fn->nargs = fn->nslots;
	u32 bi = 0; for (auto& B : *F) { bbi[&B] = bi++; for (auto& I : B) if (!I.getType()->isVoidTy()) { slot[&I] = fn->nslots; fn->nslots += std::max(1u, flatN(I.getType())); } } fn->nbb = bi; fn->bbHit.assign(bi, 0);
	if (!F->getReturnType()->isVoidTy()) { fn->retn = flatN(F->getReturnType()); }
	std::vector<std::pair<u32, const BasicBlock*>> fix;
	for (auto& B : *F) { bbpc[&B] = fn->code.size(); for (auto& I : B) { if (isa<PHINode>(I) || isa<DbgInfoIntrinsic>(I)) continue; size_t at = fn->code.size(); try { ins(I, B); } catch (Unsup& u) { fn->code.resize(at); Ins i = mk(OPC_UNSUP); i.name = strdup(u.m.c_str()); fn->code.push_back(i); } unsigned ln = I.getDebugLoc() ? I.getDebugLoc().getLine() : 0; for (size_t k = at; k < fn->code.size(); k++) fn->code[k].line = ln; } }
	std::vector<u32> pcOf(bi); for (auto& B : *F) pcOf[bbi[&B]] = bbpc[&B];
	for (auto& i : fn->code) if (i.edges) for (auto& e : *i.edges) e.target = pcOf[e.bb];
	fn->translated = true; fnCount++; }
void Trans::ins(Instruction& I, BasicBlock& B) {
	Ins in = mk(OPC_UNSUP); if (!I.getType()->isVoidTy()) in.dst = slot[&I];
	if (auto* b = dyn_cast<BinaryOperator>(&I)) { in.op = OPC_BIN; in.w = chkW(I.getType()); in.a = ref(b->getOperand(0)); in.b = ref(b->getOperand(1));
		switch (b->getOpcode()) { case Instruction::Add: in.sub = B_ADD; break; case Instruction::Sub: in.sub = B_SUB; break; case Instruction::Mul: in.sub = B_MUL; break; case Instruction::UDiv: in.sub = B_UDIV; break; case Instruction::SDiv: in.sub = B_SDIV; break; case Instruction::URem: in.sub = B_UREM; break; case Instruction::SRem: in.sub = B_SREM; break; case Instruction::Shl: in.sub = B_SHL; break; case Instruction::LShr: in.sub = B_LSHR; break; case Instruction::AShr: in.sub = B_ASHR; break; case Instruction::And: in.sub = B_AND; break; case Instruction::Or: in.sub = B_OR; break; case Instruction::Xor: in.sub = B_XOR; break; default: throw Unsup{"binop"}; }
		fn->code.push_back(in); return; }
	if (auto* c = dyn_cast<ICmpInst>(&I)) { in.op = OPC_ICMP; in.w = chkW(c->getOperand(0)->getType()); in.sub = c->getPredicate(); in.a = ref(c->getOperand(0)); in.b = ref(c->getOperand(1)); fn->code.push_back(in); return; }
	if (auto* s = dyn_cast<SelectInst>(&I)) { unsigned n = flatN(I.getType()); for (unsigned k = 0; k < n; k++) { Ins i2 = in; i2.op = OPC_SEL; std::vector<unsigned> ws; flatTy(I.getType(), ws); i2.w = ws[k]; i2.dst = in.dst + k; i2.a = ref(s->getCondition()); i2.b = ref(s->getTrueValue(), k); i2.c = ref(s->getFalseValue(), k); fn->code.push_back(i2); } return; }
	if (auto* b = dyn_cast<BranchInst>(&I)) { in.edges = new std::vector<Edge>; if (b->isUnconditional()) { in.op = OPC_BR; in.edges->push_back(edge(&B, b->getSuccessor(0))); } else { in.op = OPC_CBR; in.a = ref(b->getCondition()); in.edges->push_back(edge(&B, b->getSuccessor(0))); in.edges->push_back(edge(&B, b->getSuccessor(1))); } fn->code.push_back(in); return; }
	if (auto* s = dyn_cast<SwitchInst>(&I)) { in.op = OPC_SW; in.w = chkW(s->getCondition()->getType()); in.a = ref(s->getCondition()); in.edges = new std::vector<Edge>; in.cases = new std::vector<u64>; in.edges->push_back(edge(&B, s->getDefaultDest())); for (auto& c : s->cases()) { in.cases->push_back(c.getCaseValue()->getZExtValue()); in.edges->push_back(edge(&B, c.getCaseSuccessor())); } fn->code.push_back(in); return; }
	if (auto* r = dyn_cast<ReturnInst>(&I)) { in.op = OPC_RET; in.args = new std::vector<int>; if (r->getReturnValue()) { unsigned n = flatN(r->getReturnValue()->getType()); for (unsigned k = 0; k < n; k++) in.args->push_back(ref(r->getReturnValue(), k)); } fn->code.push_back(in); return; }
	if (isa<UnreachableInst>(&I)) { in.op = OPC_UNREACH; fn->code.push_back(in); return; }
	if (auto* l = dyn_cast<LoadInst>(&I)) { int a = ref(l->getPointerOperand()); std::vector<unsigned> ws; std::vector<u64> of; flatTy(l->getType(), ws); flatOff(l->getType(), 0, of); for (size_t k = 0; k < ws.size(); k++) { Ins i2 = in; i2.op = OPC_LOAD; if (!ws[k] || ws[k] > 64) throw Unsup{"load type"}; i2.w = ws[k]; i2.a = a; i2.imm = of[k]; i2.dst = in.dst + k; fn->code.push_back(i2); } return; }
	if (auto* s = dyn_cast<StoreInst>(&I)) { Type* t = s->getValueOperand()->getType(); int p = ref(s->getPointerOperand()); std::vector<unsigned> ws; std::vector<u64> of; flatTy(t, ws); flatOff(t, 0, of); for (size_t k = 0; k < ws.size(); k++) { Ins i2 = in; i2.op = OPC_STORE; if (!ws[k] || ws[k] > 64) throw Unsup{"store type"}; i2.w = ws[k]; i2.a = p; i2.b = ref(s->getValueOperand(), k); i2.imm = of[k]; fn->code.push_back(i2); } return; }
	if (auto* a = dyn_cast<AllocaInst>(&I)) { in.op = OPC_ALLOCA; in.imm = DL->getTypeAllocSize(a->getAllocatedType()); in.a = ref(a->getArraySize()); in.w = tyW(a->getArraySize()->getType()); in.w2 = std::min<u64>(a->getAlign().value(), 128); fn->code.push_back(in); return; }
	if (auto* g = dyn_cast<GetElementPtrInst>(&I)) {
		if (g->getType()->isVectorTy()) throw Unsup{"vector gep"}; int base = ref(g->getPointerOperand()); i64 coff = 0; struct VI { const Value* v; i64 sc; }; std::vector<VI> vis;
		for (auto gi = gep_type_begin(g), ge = gep_type_end(g); gi != ge; ++gi) { const Value* op = gi.getOperand(); if (StructType* st = gi.getStructTypeOrNull()) { coff += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(op)->getZExtValue()); } else { i64 sz = DL->getTypeAllocSize(gi.getIndexedType()); if (auto* ci = dyn_cast<ConstantInt>(op)) coff += ci->getSExtValue() * sz; else vis.push_back({op, sz}); } }
		Ins i2 = in; i2.op = OPC_ADDI; i2.w = PW; i2.a = base; i2.imm = coff; fn->code.push_back(i2);
		for (auto& v : vis) { Ins i3 = in; i3.op = OPC_GEPX; i3.w = PW; i3.a = (int)in.dst; i3.b = ref(v.v); i3.w2 = chkW(v.v->getType()); i3.imm = v.sc; fn->code.push_back(i3); } return; }
	if (auto* c = dyn_cast<CastInst>(&I)) { unsigned sw = chkW(c->getSrcTy()), dw = chkW(c->getDestTy()); in.a = ref(c->getOperand(0)); in.w = dw; in.w2 = sw; switch (c->getOpcode()) { case Instruction::Trunc: in.op = OPC_TRUNC; break; case Instruction::ZExt: in.op = OPC_ZEXT; break; case Instruction::SExt: in.op = OPC_SEXT; break; case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: in.op = dw < sw ? OPC_TRUNC : dw > sw ? OPC_ZEXT : OPC_MOV; break; default: throw Unsup{"cast"}; } fn->code.push_back(in); return; }
	if (auto* f = dyn_cast<FreezeInst>(&I)) { in.op = OPC_MOV; in.a = ref(f->getOperand(0)); fn->code.push_back(in); return; }
	if (auto* e = dyn_cast<ExtractValueInst>(&I)) { unsigned base = flatIdx(e->getAggregateOperand()->getType(), e->getIndices()); unsigned n = flatN(I.getType()); for (unsigned k = 0; k < n; k++) { Ins i2 = in; i2.op = OPC_MOV; i2.a = ref(e->getAggregateOperand(), base + k); i2.dst = in.dst + k; fn->code.push_back(i2); } return; }
	if (auto* e = dyn_cast<InsertValueInst>(&I)) { Type* at = I.getType(); unsigned base = flatIdx(at, e->getIndices()), m = flatN(e->getInsertedValueOperand()->getType()), n = flatN(at); for (unsigned k = 0; k < n; k++) { Ins i2 = in; i2.op = OPC_MOV; i2.a = (k >= base && k < base + m) ? ref(e->getInsertedValueOperand(), k - base) : ref(e->getAggregateOperand(), k); i2.dst = in.dst + k; fn->code.push_back(i2); } return; }
	if (auto* ci = dyn_cast<CallInst>(&I)) {
		if (ci->isInlineAsm()) { throw Unsup{"inline asm"}; }
		in.args = new std::vector<int>; in.aw = new std::vector<u8>; if (!I.getType()->isVoidTy()) in.w = tyW(I.getType());
		Function* cf = ci->getCalledFunction(); if (!cf) if (auto* st = dyn_cast<Function>(ci->getCalledOperand()->stripPointerCasts())) cf = st;
		if (cf && cf->isIntrinsic()) { intrinsic(*ci, in); return; }
		for (auto& a : ci->args()) { std::vector<unsigned> ws; flatTy(a->getType(), ws); for (unsigned k = 0; k < ws.size(); k++) { in.args->push_back(ref(a, k)); in.aw->push_back(ws[k]); } }
		if (cf) { Fn* f = getFn(cf); in.callee = f; in.name = f->name.c_str(); if (f->decl) { in.op = OPC_EXT; in.sub = f->ext < 0 ? 0 : f->ext; } else in.op = OPC_CALL; } else { in.op = OPC_CALLI; in.a = ref(ci->getCalledOperand()); }
		fn->code.push_back(in); return; }
	throw Unsup{std::string("instruction ") + I.getOpcodeName()}; }
void Trans::intrinsic(CallInst& ci, Ins& in) {
	in.op = OPC_INTR; unsigned n = ci.arg_size(); for (unsigned k = 0; k < n; k++) { if (ci.getArgOperand(k)->getType()->isMetadataTy()) return; }
	switch (ci.getIntrinsicID()) {
	case Intrinsic::memcpy: case Intrinsic::memcpy_inline: in.sub = I_MEMCPY; break; case Intrinsic::memmove: in.sub = I_MEMMOVE; break; case Intrinsic::memset: in.sub = I_MEMSET; break;
	case Intrinsic::ctlz: in.sub = I_CTLZ; break; case Intrinsic::cttz: in.sub = I_CTTZ; break; case Intrinsic::bswap: in.sub = I_BSWAP; break; case Intrinsic::ctpop: in.sub = I_CTPOP; break; case Intrinsic::bitreverse: in.sub = I_BITREV; break; case Intrinsic::fshl: in.sub = I_FSHL; break; case Intrinsic::fshr: in.sub = I_FSHR; break;
	case Intrinsic::umul_with_overflow: in.sub = I_UMULO; break; case Intrinsic::uadd_with_overflow: in.sub = I_UADDO; break; case Intrinsic::usub_with_overflow: in.sub = I_USUBO; break; case Intrinsic::sadd_with_overflow: in.sub = I_SADDO; break; case Intrinsic::ssub_with_overflow: in.sub = I_SSUBO; break; case Intrinsic::smul_with_overflow: in.sub = I_SMULO; break;
	case Intrinsic::expect: in.sub = I_EXPECT; break; case Intrinsic::umax: in.sub = I_UMAX; break; case Intrinsic::umin: in.sub = I_UMIN; break; case Intrinsic::smax: in.sub = I_SMAX; break; case Intrinsic::smin: in.sub = I_SMIN; break; case Intrinsic::abs: in.sub = I_ABS; break; case Intrinsic::objectsize: in.sub = I_OBJSIZE; break; case Intrinsic::is_constant: in.sub = I_ISCONST; break; case Intrinsic::trap: in.sub = I_TRAP; break;
	case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::stacksave: case Intrinsic::stackrestore: case Intrinsic::donothing: case Intrinsic::prefetch: case Intrinsic::experimental_noalias_scope_decl: if (ci.getType()->isVoidTy()) return; in.sub = I_ZERO; break;
	default: throw Unsup{"intrinsic " + ci.getCalledFunction()->getName().str()}; }
	for (unsigned k = 0; k < n; k++) { in.args->push_back(ref(ci.getArgOperand(k))); in.aw->push_back(tyW(ci.getArgOperand(k)->getType())); }
	if (in.sub >= I_UMULO && in.sub <= I_SMULO) in.w = tyW(ci.getArgOperand(0)->getType());
	fn->code.push_back(in); }

static void initMem(u64 addr, const Constant* c) {
	Type* t = c->getType();
	if (isa<ConstantAggregateZero>(c) || isa<ConstantPointerNull>(c)) { memfill(addr, C(0), DL->getTypeStoreSize(t)); return; }
	if (isa<UndefValue>(c)) return;
	if (auto* d = dyn_cast<ConstantDataSequential>(c)) { u64 es = DL->getTypeAllocSize(d->getElementType()); for (unsigned i = 0; i < d->getNumElements(); i++) { if (!d->getElementType()->isIntegerTy()) throw Unsup{"fp data"}; storeN(addr + i * es, C(d->getElementAsInteger(i)), es * 8); } return; }
	if (auto* s = dyn_cast<ConstantStruct>(c)) { auto* l = DL->getStructLayout(s->getType()); memfill(addr, C(0), DL->getTypeAllocSize(t)); for (unsigned i = 0; i < s->getNumOperands(); i++) initMem(addr + l->getElementOffset(i), s->getOperand(i)); return; }
	if (auto* a = dyn_cast<ConstantArray>(c)) { u64 es = DL->getTypeAllocSize(a->getType()->getElementType()); for (unsigned i = 0; i < a->getNumOperands(); i++) initMem(addr + i * es, a->getOperand(i)); return; }
	unsigned w = tyW(t); if (!w) throw Unsup{"global initialiser"}; storeN(addr, C(evalConst(c)), ((w + 7) / 8) * 8); }

// ------------------------------------------------------------------ interpreter
static u64 fnUnsup = 0; static std::set<std::string> unsupMsgs; static std::unordered_set<Fn*> fnUsed;
[[noreturn]] static void unsupported(const std::string& m) { unsupMsgs.insert(m + " at " + where()); S.unsupported++; throw Kill(); }
static Val undefVal(unsigned w) { u32 idx; return newVar(w, idx); }
#define R(r) ((r) >= 0 ? sl[(r)] : kconst(fn, (r)))
static inline Val kconst(Fn* fn, int r) { Val v = fn->consts[-r - 1]; if (v.e == UNDEF) return undefVal((unsigned)v.c); return v; }

static Val binop(unsigned sub, unsigned w, Val a, Val b) {
	u64 m = maskw(w);
	if (sub == B_SHL || sub == B_LSHR || sub == B_ASHR) { if (b.e) { check(X.ult(b.e, X.cst(w, w)), "undefined", "shift amount not smaller than the width"); } else if (b.c >= w) violation("undefined", "shift amount not smaller than the width", cur->model.get()); }
	if (sub == B_UDIV || sub == B_SDIV || sub == B_UREM || sub == B_SREM) { if (b.e) check(X.not1(X.eq(b.e, X.cst(0, w))), "undefined", "division by zero"); else if (b.c == 0) violation("undefined", "division by zero", cur->model.get()); }
	if (!a.e && !b.e) { u64 x = a.c, y = b.c, r = 0;
		switch (sub) { case B_ADD: r = x + y; break; case B_SUB: r = x - y; break; case B_MUL: r = x * y; break; case B_UDIV: r = x / y; break; case B_UREM: r = x % y; break; case B_SDIV: { i64 p = sx(x, w), q = sx(y, w); r = q == -1 ? (u64)0 - (u64)p : (u64)(p / q); break; } case B_SREM: { i64 p = sx(x, w), q = sx(y, w); r = q == -1 ? 0 : (u64)(p % q); break; } case B_SHL: r = x << y; break; case B_LSHR: r = x >> y; break; case B_ASHR: r = (u64)(sx(x, w) >> y); break; case B_AND: r = x & y; break; case B_OR: r = x | y; break; case B_XOR: r = x ^ y; break; }
		return C(r & m); }
	E x = toE(a, w), y = toE(b, w); E r = nullptr;
	switch (sub) { case B_ADD: r = X.add(x, y); break; case B_SUB: r = X.sub(x, y); break; case B_MUL: r = X.mul(x, y); break; case B_UDIV: r = X.udiv(x, y); break; case B_UREM: r = X.urem(x, y); break; case B_SDIV: r = X.sdiv(x, y); break; case B_SREM: r = X.srem(x, y); break; case B_SHL: r = X.shl(x, y); break; case B_LSHR: r = X.lshr(x, y); break; case B_ASHR: r = X.ashr(x, y); break; case B_AND: r = X.and_(x, y); break; case B_OR: r = X.or_(x, y); break; case B_XOR: r = X.xor_(x, y); break; }
	return fromE(r); }
static Val icmp(unsigned p, unsigned w, Val a, Val b) {
	if (!a.e && !b.e) { u64 x = a.c, y = b.c; bool r = false; switch (p) { case CmpInst::ICMP_EQ: r = x == y; break; case CmpInst::ICMP_NE: r = x != y; break; case CmpInst::ICMP_UGT: r = x > y; break; case CmpInst::ICMP_UGE: r = x >= y; break; case CmpInst::ICMP_ULT: r = x < y; break; case CmpInst::ICMP_ULE: r = x <= y; break; case CmpInst::ICMP_SGT: r = sx(x, w) > sx(y, w); break; case CmpInst::ICMP_SGE: r = sx(x, w) >= sx(y, w); break; case CmpInst::ICMP_SLT: r = sx(x, w) < sx(y, w); break; case CmpInst::ICMP_SLE: r = sx(x, w) <= sx(y, w); break; } return C(r); }
	E x = toE(a, w), y = toE(b, w); E r = nullptr; switch (p) { case CmpInst::ICMP_EQ: r = X.eq(x, y); break; case CmpInst::ICMP_NE: r = X.not1(X.eq(x, y)); break; case CmpInst::ICMP_UGT: r = X.ult(y, x); break; case CmpInst::ICMP_UGE: r = X.ule(y, x); break; case CmpInst::ICMP_ULT: r = X.ult(x, y); break; case CmpInst::ICMP_ULE: r = X.ule(x, y); break; case CmpInst::ICMP_SGT: r = X.slt(y, x); break; case CmpInst::ICMP_SGE: r = X.sle(y, x); break; case CmpInst::ICMP_SLT: r = X.slt(x, y); break; case CmpInst::ICMP_SLE: r = X.sle(x, y); break; }
	return fromE(r); }
static E ctz(E x, unsigned w) { E r = X.cst(w, w); for (int i = (int)w - 1; i >= 0; i--) r = X.ite(X.extract(x, i, 1), X.cst(i, w), r); return r; }
static E clz(E x, unsigned w) { E r = X.cst(w, w); for (unsigned i = 0; i < w; i++) r = X.ite(X.extract(x, i, 1), X.cst(w - 1 - i, w), r); return r; }

static bool gJobSym = false;
static u64 allocHeap(OK kind, u64 size, u8 fill, u64 align = 16) { u64 lim = PW == 64 ? (1ULL << 36) - 8192 : 0x60000000ULL; if (size > lim) { truncMsgs.insert("allocation larger than the modelled address space"); S.truncated++; throw Kill(); }
	u64 a = newObj(kind, size, kind == OK_HEAP ? cur->hAlign : std::max<u64>(align, 16), kind == OK_HEAP ? cur->hResid : 0, fill, nullptr); Obj* o = getObjW(idOf(a)); if (kind != OK_FOREIGN) o->seq = ++cur->heapSeq; if (kind == OK_HEAP) { cur->hbytes += size; cur->hblocks++; cur->htotal++; } else if (kind == OK_FOREIGN) { cur->fbytes += size; cur->fblocks++; cur->ftotal++; } else cur->ubytes += size; return a; }
static void freeHeap(OK kind, u64 a, const char* what) { if (a == 0) return; u32 id = idOf(a); Obj* o = id < cur->nobj ? getObj(id) : nullptr; char b[160]; 
	if (!o || o->base != a || o->kind != kind) { snprintf(b, sizeof b, "%s of a pointer that was not obtained from the matching allocation function", what); violation("memory", b, cur->model.get()); }
	if (!o->live) { snprintf(b, sizeof b, "%s of memory already released", what); violation("memory", b, cur->model.get()); }
	o = getObjW(id); o->live = 0; if (kind == OK_HEAP) { cur->hbytes -= o->size; cur->hblocks--; } else if (kind == OK_FOREIGN) { cur->fbytes -= o->size; cur->fblocks--; } 
	if (o->dense) { pgFree(o->dense); o->dense = nullptr; } if (o->sparse) { for (auto& x : *o->sparse) pgFree(x.second); delete o->sparse; o->sparse = nullptr; } }
static u64 reallocHeap(OK kind, u64 a, u64 n) { if (!a) return allocHeap(kind, n, 1); u32 id = idOf(a); Obj* o = id < cur->nobj ? getObj(id) : nullptr; if (!o || o->base != a || o->kind != kind || !o->live) violation("memory", "realloc of a pointer that was not obtained from the matching allocation function", cur->model.get()); u64 os = o->size; u64 b = allocHeap(kind, n, 1); memcopy(b, a, std::min(os, n)); freeHeap(kind, a, "realloc"); return b; }

// replace x by y inside e
static E substE(E e, E x, E y, std::unordered_map<E, E>& memo) { if (e == x) return y; if (!e->nk) return e; auto it = memo.find(e); if (it != memo.end()) return it->second; std::vector<E> k(e->nk); bool ch = false; for (u32 i = 0; i < e->nk; i++) { k[i] = substE(e->kid[i], x, y, memo); if (k[i] != e->kid[i]) ch = true; } E r = e; if (ch) { std::vector<u64> cf; if (e->coef) cf.assign(e->coef, e->coef + e->nk); r = e->k == KLIN ? X.build(e, k) : X.intern(e->k, e->w, e->c, k, e->coef ? &cf : nullptr); } memo[e] = r; return r; }
static bool dependsAvoiding(E e, E v, E avoid, std::unordered_map<E, bool>& memo) { if (e == avoid) return false; if (e == v) return true; if (!e->nk) return false; auto it = memo.find(e); if (it != memo.end()) return it->second; bool r = false; for (u32 i = 0; i < e->nk && !r; i++) r = dependsAvoiding(e->kid[i], v, avoid, memo); return memo[e] = r; }
static void collectNodes(E e, std::unordered_set<E>& s, std::vector<E>& o) { if (!s.insert(e).second) return; for (u32 i = 0; i < e->nk; i++) collectNodes(e->kid[i], s, o); o.push_back(e); }
static void injective(E x, E y) { // x: variable, y: expression of x. checks x != x' -> y(x) != y(x')
	S.asserts++; if (x->k != KVAR || y->k == KCONST) { if (y->k == KCONST) violation("assert", "function is not one-to-one: constant result", cur->model.get()); unsupported("injectivity of a non variable"); }
	std::unordered_set<E> s; std::vector<E> nodes; collectNodes(y, s, nodes); std::vector<E> dom; for (E n : nodes) { if (n->w != x->w || n == x || n->k == KCONST) continue; std::unordered_map<E, bool> memo; if (n == y || !dependsAvoiding(y, x, n, memo)) { std::unordered_map<E, bool> m2; if (dependsAvoiding(n, x, nullptr, m2)) dom.push_back(n); } }
	// nodes is post-order so dominators come in order
	E prev = x; std::vector<E> chain; for (E d : dom) { std::unordered_map<E, bool> memo; if (prev != x && dependsAvoiding(d, x, prev, memo)) continue; chain.push_back(d); prev = d; } if (chain.empty() || chain.back() != y) chain.push_back(y);
	E in = x; size_t si = 0; std::vector<std::pair<E, E>> segs; for (E d : chain) { segs.push_back({in, d}); in = d; }
	for (auto& sg : segs) { E p = X.var(900000, sg.first->w), q = X.var(900001, sg.first->w); std::unordered_map<E, E> m1, m2; E fp = substE(sg.second, sg.first, p, m1), fq = substE(sg.second, sg.first, q, m2); Model m; std::vector<E> none; S.assertsSolver++;
		E c = X.and_(X.not1(X.eq(p, q)), X.eq(fp, fq)); if (verbose) fprintf(stderr, "segment %zu of %zu: size %u kind %d\n", si, segs.size(), fp->size, fp->k); int r = query(none, c, &m);
		if (r < 0) { truncMsgs.insert("solver unknown in an injectivity segment"); S.truncated++; }
		if (r == 1) { // pull the collision back through the earlier (bijective) segments
			u64 a = m[900000], b = m[900001]; bool ok = true; for (int k = (int)si - 1; k >= 0 && ok; k--) for (u64* t : {&a, &b}) { std::unordered_map<E, E> m3; E f = substE(segs[k].second, segs[k].first, p, m3); Model mm; if (query(none, X.eq(f, X.cst(*t, f->w)), &mm) != 1) { ok = false; break; } *t = mm[900000]; }
			if (!ok) { truncMsgs.insert("injectivity counterexample could not be pulled back"); S.truncated++; return; }
			Model full(*cur->model); if (full.size() <= x->c) full.resize(x->c + 1); full[x->c] = a; // second key is recorded as next input
			cur->inputs.push_back({1, x->w, -1, b, "collides_with"}); violation("assert", "two different inputs have the same value", &full); }
		si++; }
	char lb[64]; snprintf(lb, sizeof lb, "injective chain of %zu segments", segs.size()); reachLabels[lb]++; }

static bool fork_try();
static void wanted(E n) { if (!cur->hasWant) return; check(X.eq(n, toE(cur->want, 64)), "assert", "memory of a wrong size is obtained"); throw EndPath(); }
static void extcall(Ins& in, Frame& F, Fn* fn) {
	Val* sl = &cur->slots[F.base]; std::vector<Val> a; for (int r : *in.args) a.push_back(R(r)); 
	auto cc = [&](unsigned i) -> u64 { if (!a[i].e) return a[i].c; u64 v = concretize(a[i].e); int r = (*in.args)[i]; if (r >= 0) cur->slots[cur->fr.back().base + r] = C(v); a[i] = C(v); return v; };
	Val ret = C(0); 
	switch (in.sub) {
	case X_SYM: { unsigned w = cc(0); const char* nm = readName(cc(1)); u32 idx; Val v = newVar(w, idx); cur->inputs.push_back({0, (u8)w, (int)idx, 0, nm}); ret = fromE(X.zext(v.e, 64)); break; }
	case X_RANGE: { u64 lo = cc(0), hi = cc(1); const char* nm = readName(cc(2)); if (lo > hi) { S.infeasible++; throw Kill(); } unsigned w = hi ? 64 - __builtin_clzll(hi) : 1; u32 idx; Val v = newVar(w, idx); cur->inputs.push_back({0, (u8)w, (int)idx, 0, nm});
		if (lo) { cur->model = std::make_shared<Model>(*cur->model); (*cur->model)[idx] = lo; useModel(); }
		if (hi != maskw(w)) assume(X.ule(v.e, X.cst(hi, w))); if (lo) assume(X.ule(X.cst(lo, w), v.e)); ret = fromE(X.zext(peval(v.e), 64)); break; }
	case X_CHOOSE: { u64 n = cc(0); const char* nm = readName(cc(1)); if (n == 0) { S.infeasible++; throw Kill(); } u64 i = cur->resumeChoice >= 0 ? (u64)cur->resumeChoice : 0; cur->resumeChoice = -1; S.choose++; if (i + 1 < n && !noRoom()) { State* p = new State(*cur); p->resumeChoice = (i64)i + 1; pushPending(p); } cur->inputs.push_back({1, 64, -1, i, nm}); ret = C(i); break; }
	case X_PARAM: { u64 i = cc(0); ret = C(i < params.size() ? params[i] : cc(1)); break; }
	case X_ANY: { u32 idx; Val v = newVar(64, idx); ret = v; break; }
	case X_ASSUME: { E c = toE(a[0], (*in.aw)[0]); assume(X.not1(X.eq(c, X.cst(0, c->w)))); break; }
	case X_ASSERT: { E c = toE(a[0], (*in.aw)[0]); std::string m = readName(cc(1)); check(X.not1(X.eq(c, X.cst(0, c->w))), "assert", m); break; }
	case X_OBSERVE: { Val v = a[0]; if (v.e) v = fromE(peval(v.e)); cur->obs.push_back({v, (u8)(*in.aw)[0]}); break; }
	case X_REACH: reachLabels[readName(cc(0))]++; break;
	case X_TRACE: { std::string s = readName(cc(0)); char b[80]; if (a[1].e) { u64 v = X.eval(peval(a[1].e)); snprintf(b, sizeof b, " ~%llu", (unsigned long long)v); } else snprintf(b, sizeof b, " %llu", (unsigned long long)a[1].c); if (cur->trace.size() < 400) cur->trace.push_back(s + b); break; }
	case X_WANT: cur->hasWant = true; cur->want = a[0]; break;
	case X_MALLOC: wanted(X.zext(toE(a[0], PW), 64)); ret = C(allocHeap(OK_HEAP, cc(0), 1)); break;
	case X_CALLOC: { if (cur->hasWant) { E n = X.zext(toE(a[0], PW), 64), m = X.zext(toE(a[1], PW), 64); wanted(X.mul(n, m)); } u64 x = cc(0), y = cc(1); u128 t = (u128)x * y; if (t >> PW) violation("memory", "calloc size overflow", cur->model.get()); ret = C(allocHeap(OK_HEAP, (u64)t, 0)); break; }
	case X_REALLOC: ret = C(reallocHeap(OK_HEAP, cc(0), cc(1))); break;
	case X_FREE: freeHeap(OK_HEAP, cc(0), "free"); break;
	case X_UALLOC: ret = C(allocHeap(OK_USER, cc(0), 1)); break;
	case X_UFREE: freeHeap(OK_USER, cc(0), "harness release"); break;
	case X_LIBCMALLOC: ret = C(allocHeap(OK_FOREIGN, cc(0), 1)); break; case X_LIBCCALLOC: { u64 x = cc(0), y = cc(1); ret = C(allocHeap(OK_FOREIGN, x * y, 0)); break; } case X_LIBCREALLOC: ret = C(reallocHeap(OK_FOREIGN, cc(0), cc(1))); break; case X_LIBCFREE: cur->ftotal++; freeHeap(OK_FOREIGN, cc(0), "free() of the C library"); break;
	case X_FBLOCKS: ret = C(cur->ftotal); break;
	case X_HBYTES: ret = C(cur->hbytes); break; case X_HBLOCKS: ret = C(cur->hblocks); break; case X_HTOTAL: ret = C(cur->htotal); break;
	case X_HALIGN: { u64 al = cc(0), re = cc(1); cur->hAlign = al ? al : 16; cur->hResid = re; break; }
	case X_INHEAP: { u64 n = cc(1); if (!a[0].e) { u64 p = a[0].c; u32 id = idOf(p); Obj* o = id < cur->nobj ? getObj(id) : nullptr; u64 off = o ? p - o->base : 0; ret = C(o && o->kind == OK_HEAP && o->live && off <= o->size && n <= o->size - off); break; }
		Obj* o = symObj(a[0].e, n); if (!o || o->kind != OK_HEAP || !o->live || n > o->size) { ret = C(0); break; } ret = fromE(peval(X.zext(X.ule(X.sub(a[0].e, X.cst(o->base, PW)), X.cst(o->size - n, PW)), 32))); break; }
	case X_BLKBASE: { Obj* o; if (!a[0].e) { u32 id = idOf(a[0].c); o = id < cur->nobj ? getObj(id) : nullptr; } else o = symObj(a[0].e, 0); ret = C(o ? o->base : 0); break; }
	case X_BLKSIZE: { Obj* o; if (!a[0].e) { u32 id = idOf(a[0].c); o = id < cur->nobj ? getObj(id) : nullptr; } else o = symObj(a[0].e, 0); ret = C(o ? o->size : 0); break; }
	case X_CONC: ret = C(cc(0)); break;
	case X_COST: ret = C(cur->blocks); break;
	case X_LOCK: { u64 p = cc(0); u64 on = cc(1); u32 id = idOf(p); Obj* o = id < cur->nobj ? getObj(id) : nullptr; if (!o || o->base != p) unsupported("vf_lock of an inner pointer"); getObjW(id)->locked = on != 0; break; }
	case X_RO: { u64 p = cc(0); u64 on = cc(1); u32 id = idOf(p); Obj* o = id < cur->nobj ? getObj(id) : nullptr; if (!o || o->base != p) unsupported("vf_ro of an inner pointer"); getObjW(id)->ro = on != 0; break; }
	case X_ISNATIVE: ret = C(0); break;
	case X_ITE: { E c = toE(a[0], (*in.aw)[0]); ret = fromE(X.ite(X.not1(X.eq(c, X.cst(0, c->w))), toE(a[1], 64), toE(a[2], 64))); break; }
	case X_INJ: { Val x = a[0]; unsigned w = cc(2); if (!x.e) unsupported("injectivity of a constant"); injective(X.trunc(x.e, w), X.trunc(toE(a[1], 64), w)); break; }
	case X_ABORT: violation("abort", "the program aborts", cur->model.get());
	case X_ASSERTFAIL: { std::string e = readName(cc(0)); violation("assert", "library assertion failed: " + e, cur->model.get()); }
	case X_MEMCPY: case X_MEMMOVE: { u64 d = cc(0), s = cc(1), n = cc(2); memcopy(d, s, n); ret = C(d); break; }
	case X_MEMSET: { u64 d = cc(0), n = cc(2); Val b = a[1]; if (b.e) b = fromE(X.trunc(b.e, 8)); else b.c &= 255; memfill(d, b, n); ret = C(d); break; }
	case X_MEMCMP: { u64 p = cc(0), q = cc(1), n = cc(2); E r = X.cst(0, 32); for (i64 i = (i64)n - 1; i >= 0; i--) { E x = toE(loadByte(p + i), 8), y = toE(loadByte(q + i), 8); r = X.ite(X.eq(x, y), r, X.ite(X.ult(x, y), X.cst(~0ULL, 32), X.cst(1, 32))); } ret = fromE(r); break; }
	case X_STRLEN: { u64 p = cc(0), n = 0; for (;; n++) { Val v = loadByte(p + n); if (branch(X.eq(toE(v, 8), X.cst(0, 8)))) break; } ret = C(n); break; }
	case X_STRCMP: { u64 p = cc(0), q = cc(1); for (u64 n = 0;; n++) { E x = toE(loadByte(p + n), 8), y = toE(loadByte(q + n), 8); if (!branch(X.eq(x, y))) { ret = C(branch(X.ult(x, y)) ? 0xffffffff : 1); break; } if (branch(X.eq(x, X.cst(0, 8)))) { ret = C(0); break; } } break; }
	case X_ABS: { E x = toE(a[0], 32); ret = fromE(X.ite(X.slt(x, X.cst(0, 32)), X.sub(X.cst(0, 32), x), x)); break; }
	case X_SPLIT: { E c = toE(a[0], (*in.aw)[0]); ret = C(branch(X.not1(X.eq(c, X.cst(0, c->w))))); break; }
	case X_PUTS: break;
	case X_ALALLOC: ret = C(allocHeap(OK_FOREIGN, cc(1), 1, cc(0))); break; case X_VALLOC: ret = C(allocHeap(OK_FOREIGN, cc(0), 1, 4096)); break;
	case X_PMEMALIGN: { u64 p = cc(0), al = cc(1), n = cc(2); storeN(p, C(allocHeap(OK_FOREIGN, n, 1, al)), PW); ret = C(0); break; }
	case X_REALLOCARR: ret = C(reallocHeap(OK_FOREIGN, cc(0), cc(1) * cc(2))); break;
	case X_MEMCHR: { u64 p = cc(0), n = cc(2), i = 0; E b = X.trunc(toE(a[1], 32), 8); for (; i < n; i++) if (branch(X.eq(toE(loadByte(p + i), 8), b))) break; ret = C(i < n ? p + i : 0); break; }
	case X_STRNLEN: { u64 p = cc(0), m = cc(1), n = 0; for (; n < m; n++) if (branch(X.eq(toE(loadByte(p + n), 8), X.cst(0, 8)))) break; ret = C(n); break; }
	default: unsupported(std::string("external function ") + in.name); }
	if (in.w) { if (!ret.e) ret.c &= maskw(in.w); else if (ret.e->w > in.w) ret = fromE(X.trunc(ret.e, in.w)); else if (ret.e->w < in.w) ret = fromE(X.zext(ret.e, in.w)); cur->slots[cur->fr.back().base + in.dst] = ret; } }

static void intr(Ins& in, Fn* fn, Val* sl) {
	std::vector<Val> a; for (int r : *in.args) a.push_back(R(r)); Val ret = C(0); unsigned w = in.w;
	auto cc = [&](unsigned i) -> u64 { if (!a[i].e) return a[i].c; u64 v = concretize(a[i].e); int r = (*in.args)[i]; if (r >= 0) cur->slots[cur->fr.back().base + r] = C(v); a[i] = C(v); return v; };
	switch (in.sub) {
	case I_MEMCPY: case I_MEMMOVE: { u64 d = cc(0), s = cc(1), n = cc(2); if (in.sub == I_MEMCPY && n && d != s && ((d < s && d + n > s) || (s < d && s + n > d))) violation("undefined", "memcpy of overlapping memory", cur->model.get()); memcopy(d, s, n); return; }
	case I_MEMSET: { u64 d = cc(0), n = cc(2); memfill(d, a[1].e ? a[1] : C(a[1].c & 255), n); return; }
	case I_CTLZ: { if (!a[0].e) { u64 v = a[0].c; if (!v && a[1].c) violation("undefined", "count leading zeros of 0", cur->model.get()); ret = C(v ? __builtin_clzll(v) - (64 - w) : w); } else { if (!a[1].e && a[1].c) check(X.not1(X.eq(a[0].e, X.cst(0, w))), "undefined", "count leading zeros of 0"); ret = fromE(clz(peval(a[0].e), w)); } break; }
	case I_CTTZ: { if (!a[0].e) { u64 v = a[0].c; if (!v && a[1].c) violation("undefined", "count trailing zeros of 0", cur->model.get()); ret = C(v ? __builtin_ctzll(v) : w); } else { if (!a[1].e && a[1].c) check(X.not1(X.eq(a[0].e, X.cst(0, w))), "undefined", "count trailing zeros of 0"); ret = fromE(ctz(peval(a[0].e), w)); } break; }
	case I_BSWAP: { E x = toE(a[0], w); std::vector<E> f; for (unsigned i = 0; i < w / 8; i++) f.push_back(X.extract(x, i * 8, 8)); ret = fromE(X.concat(f)); break; }
	case I_BITREV: { E x = toE(a[0], w); std::vector<E> f; for (unsigned i = 0; i < w; i++) f.push_back(X.extract(x, i, 1)); ret = fromE(X.concat(f)); break; }
	case I_CTPOP: { E x = toE(a[0], w); E r = X.cst(0, w); for (unsigned i = 0; i < w; i++) r = X.add(r, X.zext(X.extract(x, i, 1), w)); ret = fromE(r); break; }
	case I_FSHL: case I_FSHR: { E x = toE(a[0], w), y = toE(a[1], w); u64 s = cc(2) % w; if (in.sub == I_FSHR) s = (w - s) % w, s = (s == 0 && true) ? 0 : s; if (in.sub == I_FSHR && s == 0) { ret = a[1]; break; } if (s == 0) { ret = a[0]; break; } ret = fromE(X.concat({X.extract(x, 0, w - s), X.extract(y, w - s, s)})); break; }
	case I_EXPECT: ret = a[0]; break; case I_ZERO: case I_ISCONST: ret = C(0); break;
	case I_UMAX: ret = fromE(X.ite(X.ult(toE(a[0], w), toE(a[1], w)), toE(a[1], w), toE(a[0], w))); break; case I_UMIN: ret = fromE(X.ite(X.ult(toE(a[0], w), toE(a[1], w)), toE(a[0], w), toE(a[1], w))); break;
	case I_SMAX: ret = fromE(X.ite(X.slt(toE(a[0], w), toE(a[1], w)), toE(a[1], w), toE(a[0], w))); break; case I_SMIN: ret = fromE(X.ite(X.slt(toE(a[0], w), toE(a[1], w)), toE(a[0], w), toE(a[1], w))); break;
	case I_ABS: { E x = toE(a[0], w); ret = fromE(X.ite(X.slt(x, X.cst(0, w)), X.sub(X.cst(0, w), x), x)); break; }
	case I_OBJSIZE: ret = C(maskw(w)); break;
	case I_TRAP: violation("abort", "trap", cur->model.get());
	case I_UADDO: { E x = toE(a[0], w), y = toE(a[1], w), s = X.add(x, y); sl[in.dst] = fromE(s); sl[in.dst + 1] = fromE(X.ult(s, x)); return; }
	case I_USUBO: { E x = toE(a[0], w), y = toE(a[1], w); sl[in.dst] = fromE(X.sub(x, y)); sl[in.dst + 1] = fromE(X.ult(x, y)); return; }
	case I_UMULO: { u64 p = cc(0), q = cc(1); sl = &cur->slots[cur->fr.back().base]; u128 t = (u128)p * q; sl[in.dst] = C((u64)t & maskw(w)); sl[in.dst + 1] = C((t >> w) != 0); return; }
	default: unsupported("intrinsic"); }
	cur->slots[cur->fr.back().base + in.dst] = ret; }

static void enter(Fn* f, const std::vector<Val>& args, u32 dst, u8 dstw) {
	if (!f->translated) { Trans t; t.fn = f; try { t.run(); } catch (Unsup& u) { unsupported(f->name + ": " + u.m); } }
	if (args.size() != f->nargs) unsupported("call of " + f->name + " with a different number of arguments");
	if (cur->fr.size() > 20000) violation("nontermination", "recursion deeper than 20000 calls", cur->model.get());
	std::vector<u64> bv; for (auto& v : f->byval) { Val p = args[v.slot]; bv.push_back(p.e ? concretize(p.e) : p.c); }
	fnUsed.insert(f); if (!f->bbHit.empty()) f->bbHit[0] = 1; Frame n; n.f = f; n.pc = 0; n.base = cur->slots.size(); n.dst = dst; n.dstw = dstw; n.allocas = cur->allocaIds.size(); n.callLine = 0; cur->slots.resize(n.base + f->nslots, C(0)); for (size_t i = 0; i < args.size(); i++) cur->slots[n.base + i] = args[i]; 
	cur->fr.push_back(n); cur->blocks++; for (size_t i = 0; i < bv.size(); i++) { auto& v = f->byval[i]; u64 ad = newObj(OK_STACK, v.n, v.al, 0, 1, nullptr); cur->allocaIds.push_back(idOf(ad)); cur->slots[n.base + v.slot] = C(ad); memcopy(ad, bv[i], v.n); } }
static void releaseStack(u32 id) { Obj* o = getObjW(id); o->live = 0; if (o->dense) { pgFree(o->dense); o->dense = nullptr; } if (o->sparse) { for (auto& x : *o->sparse) pgFree(x.second); delete o->sparse; o->sparse = nullptr; } if (PW == 64) cur->freeStack.push_back(id); else { u64 g = o->base >> 16, need = (o->size + 512 + 65535) >> 16; for (u64 i = 0; i < need; i++) cur->gran[g + i] = 0; } }
static inline void takeEdge(Edge& e, Frame& F, Fn* fn, Val* sl) {
	size_t n = e.moves.size(); if (n == 1) { Val v = R(e.moves[0].second); cur->slots[F.base + e.moves[0].first] = v; } else if (n) { Val tmp[64]; std::vector<Val> big; Val* t = tmp; if (n > 64) { big.resize(n); t = big.data(); } for (size_t i = 0; i < n; i++) t[i] = R(e.moves[i].second); for (size_t i = 0; i < n; i++) sl[e.moves[i].first] = t[i]; }
	F.pc = e.target; fn->bbHit[e.bb] = 1; cur->blocks++; }

static void runPath() { // runs cur until it ends; throws Kill
	u64 tick = 0;
	for (;;) {
		Frame& F = cur->fr.back(); Fn* fn = F.f; Val* sl = &cur->slots[F.base]; Ins& in = fn->code[F.pc];
		if (++cur->steps > maxSteps) { violation("nontermination", "step bound exceeded", cur->model.get()); }
		if ((tick & 0x3fffff) == 0x3fffff && memUsed() > 2 * memLimit) { truncMsgs.insert("memory limit: a path was not completed"); S.truncated++; throw Kill(); }
		if ((++tick & 0xffff) == 0) { if (sh->stop) { truncMsgs.insert("stopped"); throw Kill(); } if (now() > deadline) { sh->stop = 2; truncMsgs.insert("time budget reached"); S.truncated++; throw Kill(); } }
		S.steps++;
		switch (in.op) {
		case OPC_BIN: { Val a = R(in.a), b = R(in.b);
			if (!a.e && !b.e) { u64 m = maskw(in.w); switch (in.sub) { case B_ADD: sl[in.dst] = C((a.c + b.c) & m); F.pc++; continue; case B_SUB: sl[in.dst] = C((a.c - b.c) & m); F.pc++; continue; case B_AND: sl[in.dst] = C(a.c & b.c); F.pc++; continue; case B_OR: sl[in.dst] = C(a.c | b.c); F.pc++; continue; case B_XOR: sl[in.dst] = C(a.c ^ b.c); F.pc++; continue; default: break; } }
			Val r = binop(in.sub, in.w, a, b); sl[in.dst] = r; F.pc++; break; }
		case OPC_ICMP: { Val a = R(in.a), b = R(in.b); sl[in.dst] = icmp(in.sub, in.w, a, b); F.pc++; break; }
		case OPC_SEL: { Val c = R(in.a); if (c.e) { E p = peval(c.e); if (p->k == KCONST) c = C(p->c); else c = Val{p, 0}; } if (!c.e) sl[in.dst] = c.c ? R(in.b) : R(in.c); else { Val x = R(in.b), y = R(in.c); sl[in.dst] = fromE(X.ite(c.e, toE(x, in.w), toE(y, in.w))); } F.pc++; break; }
		case OPC_BR: takeEdge((*in.edges)[0], F, fn, sl); break;
		case OPC_CBR: { Val c = R(in.a); bool t = c.e ? branch(c.e) : c.c != 0; takeEdge((*in.edges)[t ? 0 : 1], F, fn, sl); break; }
		case OPC_SW: { Val c = R(in.a); size_t k = 0; if (!c.e) { for (size_t i = 0; i < in.cases->size(); i++) if ((*in.cases)[i] == c.c) { k = i + 1; break; } } else { for (size_t i = 0; i < in.cases->size(); i++) if (branch(X.eq(c.e, X.cst((*in.cases)[i], in.w)))) { k = i + 1; break; } } takeEdge((*in.edges)[k], F, fn, sl); break; }
		case OPC_RET: { u32 dst = F.dst; std::vector<Val> rv; Val r1 = C(0); size_t n = in.args->size(); if (n == 1) r1 = R((*in.args)[0]); else for (int r : *in.args) rv.push_back(R(r)); u32 base = F.base; u32 al = F.allocas; while (cur->allocaIds.size() > al) { releaseStack(cur->allocaIds.back()); cur->allocaIds.pop_back(); } cur->fr.pop_back(); cur->slots.resize(base); if (cur->fr.empty()) { cur->done = true; return; } Frame& P = cur->fr.back(); if (dst != ~0U) { if (n == 1) cur->slots[P.base + dst] = r1; else for (size_t i = 0; i < n; i++) cur->slots[P.base + dst + i] = rv[i]; } P.pc++; break; }
		case OPC_CALL: { std::vector<Val> a; a.reserve(in.args->size()); for (int r : *in.args) a.push_back(R(r)); enter(in.callee, a, in.w || in.callee->F->getReturnType()->isVoidTy() == false ? in.dst : ~0U, in.w); break; }
		case OPC_CALLI: { Val t = R(in.a); u64 ad = t.e ? concretize(t.e) : t.c; if (t.e && in.a >= 0) cur->slots[F.base + in.a] = C(ad); auto it = fnByAddr.find(ad); if (it == fnByAddr.end()) violation("memory", "call through an invalid function pointer", cur->model.get()); Fn* cf = it->second; std::vector<Val> a; for (int r : *in.args) a.push_back(R(r)); if (cf->decl) { Ins tmp = in; tmp.op = OPC_EXT; tmp.sub = cf->ext < 0 ? 0 : cf->ext; tmp.name = cf->name.c_str(); if (cf->F->getReturnType()->isVoidTy()) tmp.w = 0; extcall(tmp, F, fn); cur->fr.back().pc++; break; } enter(cf, a, cf->F->getReturnType()->isVoidTy() ? ~0U : in.dst, in.w); break; }
		case OPC_EXT: { u64 fc = cur->fr.size(); extcall(in, F, fn); (void)fc; cur->fr.back().pc++; break; }
		case OPC_INTR: intr(in, fn, sl); cur->fr.back().pc++; break;
		case OPC_LOAD: { Val a = R(in.a); u64 ad; if (a.e) { Val sv; if (symLoad(X.add(a.e, X.cst((u64)in.imm, PW)), in.w, sv)) { cur->slots[F.base + in.dst] = sv; F.pc++; break; } ad = concretize(a.e); if (in.a >= 0) sl[in.a] = C(ad); } else ad = a.c; Val v = loadN((ad + in.imm) & maskw(PW), in.w); cur->slots[F.base + in.dst] = v; F.pc++; break; }
		case OPC_STORE: { Val a = R(in.a); u64 ad; if (a.e) { ad = concretize(a.e); if (in.a >= 0) sl[in.a] = C(ad); } else ad = a.c; Val v = R(in.b); storeN((ad + in.imm) & maskw(PW), v, in.w); F.pc++; break; }
		case OPC_ALLOCA: { Val n = R(in.a); u64 k = conc(n); u64 ad = newObj(OK_STACK, in.imm * k, std::max<u64>(in.w2, 1), 0, 1, nullptr); cur->allocaIds.push_back(idOf(ad)); cur->slots[F.base + in.dst] = C(ad); F.pc++; break; }
		case OPC_TRUNC: { Val a = R(in.a); sl[in.dst] = a.e ? fromE(X.trunc(a.e, in.w)) : C(a.c & maskw(in.w)); F.pc++; break; }
		case OPC_ZEXT: { Val a = R(in.a); sl[in.dst] = a.e ? fromE(X.zext(a.e, in.w)) : a; F.pc++; break; }
		case OPC_SEXT: { Val a = R(in.a); sl[in.dst] = a.e ? fromE(X.sext(a.e, in.w)) : C((u64)sx(a.c, in.w2) & maskw(in.w)); F.pc++; break; }
		case OPC_MOV: sl[in.dst] = R(in.a); F.pc++; break;
		case OPC_ADDI: { Val a = R(in.a); sl[in.dst] = a.e ? fromE(X.add(a.e, X.cst((u64)in.imm, PW))) : C((a.c + (u64)in.imm) & maskw(PW)); F.pc++; break; }
		case OPC_GEPX: { Val a = R(in.a), b = R(in.b); if (!a.e && !b.e) sl[in.dst] = C((a.c + (u64)(sx(b.c, in.w2) * in.imm)) & maskw(PW)); else { E i = toE(b, in.w2); i = in.w2 < PW ? X.sext(i, PW) : in.w2 > PW ? X.trunc(i, PW) : i; sl[in.dst] = fromE(X.add(toE(a, PW), X.mulc(i, (u64)in.imm))); } F.pc++; break; }
		case OPC_UNREACH: violation("undefined", "unreachable code reached", cur->model.get());
		default: unsupported(in.name ? in.name : "instruction"); }
	} }

// ------------------------------------------------------------------ driver
static double tStart; static std::vector<pid_t> kids; static bool isChild = false; static u64 lastForkPaths = 0;
static void resetStatsForChild() { S = Stats(); reachLabels.clear(); truncMsgs.clear(); samples.clear(); unsupMsgs.clear(); for (auto& p : fnOf) std::fill(p.second->bbHit.begin(), p.second->bbHit.end(), 0); fnUsed.clear(); }
static void writeStats() {
	int n = __sync_fetch_and_add(&sh->seq, 1); char fn[512]; snprintf(fn, sizeof fn, "%s/stats-%d.json", outDir.c_str(), n); FILE* f = fopen(fn, "w");
	fprintf(f, "{\"paths\":%llu,\"infeasible\":%llu,\"queries\":%llu,\"sat\":%llu,\"unsat\":%llu,\"unknown\":%llu,\"branches\":%llu,\"forks\":%llu,\"asserts\":%llu,\"asserts_by_simplification\":%llu,\"asserts_by_solver\":%llu,\"steps\":%llu,\"truncated\":%llu,\"unsupported\":%llu,\"concretizations\":%llu,\"choices\":%llu,\"violations\":%llu,\"max_path_steps\":%llu,\"solver_s\":%.3f,\"wall_s\":%.3f,\"pending\":%zu,", (unsigned long long)S.paths, (unsigned long long)S.infeasible, (unsigned long long)S.queries, (unsigned long long)S.sat, (unsigned long long)S.unsat, (unsigned long long)S.unknown, (unsigned long long)S.branches, (unsigned long long)S.forks, (unsigned long long)S.asserts, (unsigned long long)S.assertsTriv, (unsigned long long)S.assertsSolver, (unsigned long long)S.steps, (unsigned long long)S.truncated, (unsigned long long)S.unsupported, (unsigned long long)S.conc, (unsigned long long)S.choose, (unsigned long long)violCount, (unsigned long long)S.maxSteps, S.solver, now() - tStart, pend.size());
	fprintf(f, "\"reach\":{"); bool first = true; for (auto& r : reachLabels) { fprintf(f, "%s\"%s\":%llu", first ? "" : ",", jesc(r.first).c_str(), (unsigned long long)r.second); first = false; }
	fprintf(f, "},\"notes\":["); first = true; for (auto& m : truncMsgs) { fprintf(f, "%s\"%s\"", first ? "" : ",", jesc(m).c_str()); first = false; } fprintf(f, "],\"unsupported_msgs\":["); first = true; for (auto& m : unsupMsgs) { fprintf(f, "%s\"%s\"", first ? "" : ",", jesc(m).c_str()); first = false; }
	fprintf(f, "],\"functions\":{"); first = true; for (auto& p : fnOf) { Fn* q = p.second; if (!fnUsed.count(q) || !q->lib) continue; std::string h; for (u8 b : q->bbHit) h += b ? '1' : '0'; fprintf(f, "%s\"%s\":\"%s\"", first ? "" : ",", jesc(q->name).c_str(), h.c_str()); first = false; }
	fprintf(f, "},\"samples\":["); first = true; for (auto& s : samples) { fprintf(f, "%s%s", first ? "" : ",", s.c_str()); first = false; } fprintf(f, "]}\n"); fclose(f); }
static bool takeToken() { for (;;) { int t = glob->tokens; if (t <= 0) return false; if (__sync_bool_compare_and_swap(&glob->tokens, t, t - 1)) return true; } }
static void splitWork() {
	if (noFork || pend.empty() || sh->stop) return; if (glob->tokens <= 0) return; if (!takeToken()) return; fflush(stdout); fflush(stderr);
	size_t k = pend.size() > 1 ? std::max<size_t>(1, pend.size() / 2) : 1; pid_t p = fork(); if (p < 0) { __sync_fetch_and_add(&glob->tokens, 1); return; }
	if (p == 0) { isChild = true; kids.clear(); resetStatsForChild(); rngs ^= (u64)getpid() * 0x9E3779B97F4A7C15ULL; std::vector<State*> mine(pend.begin(), pend.begin() + k); pend = mine; tStart = now(); return; }
	std::vector<State*> rest(pend.begin() + k, pend.end()); for (size_t i = 0; i < k; i++) delete pend[i]; pend = rest; kids.push_back(p); }
static void explore() {
	double lastSplit = now();
	while (!pend.empty()) {
		if (sh->stop) break; if (now() > deadline) { sh->stop = 2; truncMsgs.insert("time budget reached"); S.truncated++; break; }
		if (S.paths + S.infeasible >= pathLimit) { truncMsgs.insert("path limit"); break; }
		if (pend.size() >= 2 && now() - lastSplit > 0.02) { splitWork(); lastSplit = now(); if (pend.empty()) break; }
		cur = pend.back(); pend.pop_back(); useModel(); restamp();
		try { runPath(); samplePath(); if (cur->steps > S.maxSteps) S.maxSteps = cur->steps; } catch (EndPath&) { samplePath(); if (cur->steps > S.maxSteps) S.maxSteps = cur->steps; } catch (Kill&) {} catch (Unsup& u) { unsupMsgs.insert(u.m); S.unsupported++; }
		delete cur; cur = nullptr;
		if (sh->stop == 1) break; }
	__sync_fetch_and_add(&glob->tokens, 1);
}
static void crashHandler(int s) { fprintf(stderr, "symx: signal %d in %s\n", s, cur ? "path" : "driver"); if (glob && isChild) __sync_fetch_and_add(&glob->tokens, 1); _exit(3); }
int main(int argc, char** argv) {
	tStart = now(); std::string bc, tokfile; double tlimit = 1e9; for (int i = 1; i < argc; i++) { std::string a = argv[i]; auto nx = [&]() { return std::string(argv[++i]); };
		if (a == "-o") outDir = nx(); else if (a == "-e") entryName = nx(); else if (a == "-p") params.push_back(strtoull(nx().c_str(), 0, 0)); else if (a == "-t") tlimit = atof(nx().c_str()); else if (a == "-tok") tokfile = nx(); else if (a == "-mem") memLimit = strtoull(nx().c_str(), 0, 0) << 20; else if (a == "-steps") maxSteps = strtoull(nx().c_str(), 0, 0); else if (a == "-cand") maxCand = atoi(nx().c_str()); else if (a == "-rlimit") rlimit = strtoull(nx().c_str(), 0, 0); else if (a == "-samples") maxSamples = atoi(nx().c_str()); else if (a == "-nofork") noFork = true; else if (a == "-v") verbose = true; else if (a == "-paths") pathLimit = strtoull(nx().c_str(), 0, 0); else if (a == "-seed") { rngs ^= strtoull(nx().c_str(), 0, 0) * 0x2545F4914F6CDD1DULL; if (!rngs) rngs = 1; } else if (a == "-logic") logicQFFD = atoi(nx().c_str()); else bc = a; }
	deadline = now() + tlimit; { struct rlimit rl; rl.rlim_cur = 512u << 20; rl.rlim_max = RLIM_INFINITY; getrlimit(RLIMIT_STACK, &rl); if (rl.rlim_cur != RLIM_INFINITY && rl.rlim_cur < (512u << 20)) { rl.rlim_cur = 512u << 20; if (setrlimit(RLIMIT_STACK, &rl) == 0 && !getenv("SYMX_RE")) { setenv("SYMX_RE", "1", 1); execv("/proc/self/exe", argv); } } }
	signal(SIGSEGV, crashHandler); signal(SIGABRT, crashHandler); signal(SIGFPE, crashHandler);
	sh = (Shared*)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); memset((void*)sh, 0, sizeof *sh); glob = sh; if (!tokfile.empty()) { int fd = open(tokfile.c_str(), O_RDWR); if (fd >= 0) { glob = (Shared*)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); if (glob == MAP_FAILED) glob = sh; } }
	SMDiagnostic err; M = parseIRFile(bc, err, LC); if (!M) { err.print("symx", errs()); return 2; } DL = &M->getDataLayout(); PW = DL->getPointerSizeInBits(0); BE = DL->isBigEndian();
	UNDEF = X.intern(KVAR, 1, 0xffffffffffULL, {}, nullptr); cur = new State(); cur->model = std::make_shared<Model>(64, 0); useModel(); solInit();
	u64 fa = PW == 64 ? FNBASE64 : FNBASE32; for (auto& f : *M) { if (f.isIntrinsic()) continue; Fn* n = new Fn; n->name = f.getName().str(); n->F = &f; n->addr = fa; fa += 16; n->decl = f.isDeclaration(); auto it = extNames.find(n->name); if (it != extNames.end()) { n->ext = it->second; n->decl = true; } if (!f.isDeclaration()) { if (auto* sp = f.getSubprogram()) n->lib = sp->getFile()->getFilename().contains("tommy") || sp->getFile()->getDirectory().contains("tommyds"); } fnOf[&f] = n; fnByAddr[n->addr] = n; }
	try { for (auto& g : M->globals()) { if (g.getName().starts_with("llvm.")) continue; u64 sz = DL->getTypeAllocSize(g.getValueType()); u64 al = g.getAlign() ? g.getAlign()->value() : 16; gaddr[&g] = newObj(OK_GLOBAL, sz, std::max<u64>(al, 16), 0, g.isDeclaration() ? 1 : 0, strdup(g.getName().str().c_str())); }
		for (auto& g : M->globals()) if (g.hasInitializer() && !g.getName().starts_with("llvm.")) { initMem(gaddr[&g], g.getInitializer()); }
		for (auto& g : M->globals()) if (g.isConstant() && !g.getName().starts_with("llvm.")) getObjW(idOf(gaddr[&g]))->ro = 1;
	} catch (Unsup& u) { fprintf(stderr, "symx: unsupported global: %s\n", u.m.c_str()); return 2; }
	Function* ef = M->getFunction(entryName); if (!ef) { fprintf(stderr, "symx: no function %s\n", entryName.c_str()); return 2; }
	try { enter(getFn(ef), {}, ~0U, 0); } catch (Kill&) { fprintf(stderr, "symx: cannot start\n"); return 2; }
	// force translation of all library functions so that block totals are known
	for (auto& p : fnOf) if (p.second->lib && !p.second->translated) { Trans t; t.fn = p.second; try { t.run(); } catch (Unsup&) { p.second->translated = false; p.second->code.clear(); p.second->nslots = 0; p.second->consts.clear(); } }
	prctl(PR_SET_CHILD_SUBREAPER, 1); pend.push_back(cur); cur = nullptr; explore();
	// finished workers end at once; the ones they started become children of this process
	if (!isChild) for (int st; wait(&st) > 0 || errno == EINTR; ) { if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) truncMsgs.insert("a worker process died"), S.truncated++; }
	writeStats(); if (!isChild) __sync_fetch_and_sub(&glob->tokens, 1); // the driver gives the core of this job back
	_exit(0); }
