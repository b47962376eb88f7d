#include <atomic>
#include <sys/mman.h>
// symx: path-wise symbolic execution of LLVM bitcode with Z3.
//   symx FILE.bc [-j N] [-t SECONDS] [-s MAXSTEPS_PER_PATH] [-r REPOPREFIX]
// Output: one JSON object per line (violation, reach, problem, stats).
#include "expr.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <map>
#include <set>
#include <deque>
#include <sys/wait.h>
#include <unistd.h>
#include <time.h>
using namespace llvm;
typedef uint64_t u64;

static const DataLayout * DL;
static Module * M;
static std::string repoPrefix = "/repo/";
static double tLimit = 600, tStart;
static u64 maxSteps = 3000000;
static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

// ---------------------------------------------------------------- values
struct Val {
	u64 c = 0;
	E e = nullptr;
	std::vector<Val> * agg = nullptr;
	Val() {}
	explicit Val(u64 v) : c(v) {}
	Val(E x) { if (isK(x)) c = x->v; else e = x; }
};
static inline E toE(const Val & v, unsigned w) { return v.e ? v.e : K(w, v.c); }

static unsigned widthOf(Type * t)
{
	if (t->isIntegerTy()) return t->getIntegerBitWidth();
	if (t->isPointerTy() || t->isDoubleTy()) return 64;
	if (t->isFloatTy()) return 32;
	return 0;
}
static void die(const std::string & s);

// ---------------------------------------------------------------- memory
struct Obj {
	u64 base, size;
	int ref = 0;
	bool heap, stack, ro;
	uint32_t name;
	std::vector<uint8_t> c;
	std::vector<E> e;        // per byte, null = concrete (allocated on demand)
	std::vector<uint8_t> un; // uninitialised flags (empty: all initialised)
};
struct ORef {
	Obj * o = nullptr;
	ORef() {}
	ORef(Obj * x) : o(x) { if (o) ++o->ref; }
	ORef(const ORef & x) : o(x.o) { if (o) ++o->ref; }
	ORef(ORef && x) : o(x.o) { x.o = nullptr; }
	ORef & operator=(ORef x) { std::swap(o, x.o); return *this; }
	~ORef() { if (o && !--o->ref) delete o; }
};
static std::vector<std::string> objNames{"?"};

// ---------------------------------------------------------------- compiled code
struct Opnd { int slot; Val k; };   // slot >= 0 register, else constant
struct Inst {
	Instruction * I;
	int dst;
	unsigned w;
	std::vector<Opnd> ops;
	std::vector<int> succ;
	// getelementptr
	int64_t off = 0;
	std::vector<std::pair<int, u64>> scale;
	Function * callee = nullptr;
	int builtin = -1;
};
struct Block { std::vector<Inst> in; unsigned nphi = 0; };
struct Fn {
	Function * F;
	std::vector<Block> b;
	unsigned nregs = 0;
	int id;
	bool repo = false;
	std::vector<uint8_t> cov;
};
static std::map<Function *, Fn *> fns;
static std::map<u64, Function *> fnAddr;
static std::map<const GlobalValue *, u64> gaddr;

struct Frame {
	Fn * f;
	int bb = 0, prev = -1;
	unsigned ip = 0;
	std::vector<Val> r;
	std::vector<u64> allocas;
	int dst = -1;            // caller's destination register
	std::vector<Val> va;     // variable arguments
};
struct Co { std::vector<Frame> st; bool done = false; };
struct Nd { E e; u64 c; unsigned w; };
struct State {
	std::vector<Co> co;
	int cur = 0;
	std::map<u64, ORef> mem;
	std::vector<E> pc;
	std::vector<u64> model;
	std::vector<Nd> nd;
	u64 nextAddr = 0x100000;
	u64 steps = 0;
	unsigned nun = 0;
	std::vector<uint32_t> labels;  // REACH and OBS events of this path
	std::vector<Val> obs;
	Frame & top() { return co[cur].st.back(); }
};

// ---------------------------------------------------------------- results
struct Stats {
	u64 paths = 0, steps = 0, queries = 0, cacheHits = 0, checks = 0, forks = 0, assumed = 0, truncated = 0;
	double solver = 0;
} st;
static std::map<std::string, int> reported;
static std::vector<std::string> knownWhat;
static bool isKnown(const std::string & w) { for (auto & k : knownWhat) if (w.find(k) != std::string::npos) return true; return false; }
static FILE * out;
static std::atomic<int> * outLock;  // shared: lines of several workers must not mix
static void flushOut()
{
	while (outLock->exchange(1)) usleep(100);
	fflush(out);
	outLock->store(0);
}
static double firstViolation = 0;
static bool inconclusive;

static std::string jstr(const std::string & s)
{
	std::string r = "\"";
	for (char c : s) { if (c == '"' || c == '\\') r += '\\'; if (c == '\n') r += "\\n"; else if ((unsigned char)c < 32) r += ' '; else r += c; }
	return r + "\"";
}
static std::string locOf(State & s)
{
	// innermost frame with a location
	auto & fr = s.co[s.cur].st;
	for (size_t i = fr.size(); i-- > 0;) {
		Frame & f = fr[i];
		Instruction * I = f.f->b[f.bb].in[std::min<size_t>(f.ip ? f.ip - 1 : 0, f.f->b[f.bb].in.size() - 1)].I;
		if (const DebugLoc & d = I->getDebugLoc()) {
			auto * sc = cast<DIScope>(d.getScope());
			std::string fn = sc->getFilename().str();
			if (fn.find("/symx/rt.c") != std::string::npos) continue;
			if (fn[0] != '/') fn = sc->getDirectory().str() + "/" + fn;
			return fn + ":" + std::to_string(d.getLine());
		}
	}
	return "?";
}
static void emit(State & s, const char * kind, const std::string & what, const std::vector<u64> & model)
{
	std::string loc = locOf(s);
	std::string key = std::string(kind) + what + (kind[0] == 'r' ? "" : loc);
	if (++reported[key] > (kind[0] == 'r' ? 1 : 3)) return;
	std::string nd;
	for (auto & n : s.nd) {
		if (!nd.empty()) nd += ",";
		nd += std::to_string(n.e ? eval(n.e, model) : n.c);
	}
	fprintf(out, "{\"kind\":\"%s\",\"what\":%s,\"loc\":%s,\"nd\":[%s]}\n", kind, jstr(what).c_str(), jstr(loc).c_str(), nd.c_str());
	flushOut();
	if (!strcmp(kind, "violation") && !firstViolation && !isKnown(what)) firstViolation = now();
}
static void problem(const std::string & what)
{
	if (++reported["problem" + what] > 1) return;
	fprintf(out, "{\"kind\":\"problem\",\"what\":%s}\n", jstr(what).c_str());
	flushOut();
	inconclusive = true;
}
static void die(const std::string & s) { problem(s); flushOut(); _exit(9); }

// ---------------------------------------------------------------- solver
static Z3_solver zs, zsf;
struct CacheVal { bool sat; std::vector<std::pair<uint32_t, u64>> m; };
static std::unordered_map<std::string, CacheVal> cache;

static std::vector<u64> * lastModel;
// is pc && c satisfiable? on sat, model is s.model updated for the relevant slice
static bool sat(State & s, E c, std::vector<u64> & model)
{
	if (isK(c)) { model = s.model; return c->v; }
	++stampCtr;
	// slice
	std::vector<E> sl{c};
	static std::vector<uint8_t> inSlice;
	auto mark = [&](E e) { for (auto v : *e->vars) { if (v >= inSlice.size()) inSlice.resize(v + 64); inSlice[v] = 1; } };
	std::fill(inSlice.begin(), inSlice.end(), 0);
	mark(c);
	std::vector<E> rest(s.pc);
	for (bool ch = true; ch;) {
		ch = false;
		for (auto & p : rest) {
			if (!p) continue;
			bool hit = false;
			for (auto v : *p->vars) if (v < inSlice.size() && inSlice[v]) { hit = true; break; }
			if (hit) { mark(p); sl.push_back(p); p = nullptr; ch = true; }
		}
	}
	std::sort(sl.begin() + 1, sl.end(), [](E a, E b) { return a->id < b->id; });
	std::string key;
	for (E e : sl) key.append((const char *)&e->id, 4);
	auto it = cache.find(key);
	if (it == cache.end()) {
		double t0 = now();
		++st.queries;
		std::vector<Z3_ast> as;
		for (E e : sl) as.push_back(zbool(e));
		bool fp = usesFp;
		Z3_solver z = fp ? zsf : zs;
		Z3_solver_push(zc, z);
		for (auto a : as) Z3_solver_assert(zc, z, a);
		Z3_lbool r = Z3_solver_check(zc, z);
		if (r == Z3_L_UNDEF) {
			problem(std::string("solver gave up: ") + Z3_solver_get_reason_unknown(zc, z));
		}
		CacheVal cv;
		cv.sat = r == Z3_L_TRUE;
		if (r == Z3_L_TRUE) {
			Z3_model m = Z3_solver_get_model(zc, z);
			Z3_model_inc_ref(zc, m);
			std::map<uint32_t, unsigned> ws;
			for (uint32_t v = 0; v < inSlice.size(); ++v) {
				if (!inSlice[v]) continue;
				// find the variable expression
				extern std::vector<E> varExprs;
				E ve = varExprs[v];
				Z3_ast ev;
				u64 val = 0;
				if (Z3_model_eval(zc, m, zbv(ve), true, &ev)) Z3_get_numeral_uint64(zc, ev, (uint64_t *)&val);
				cv.m.push_back({v, val});
			}
			Z3_model_dec_ref(zc, m);
		}
		Z3_solver_pop(zc, z, 1);
		st.solver += now() - t0;
		it = cache.emplace(std::move(key), std::move(cv)).first;
	} else
		++st.cacheHits;
	if (!it->second.sat) return false;
	model = s.model;
	for (auto & p : it->second.m) {
		if (p.first >= model.size()) model.resize(p.first + 16);
		model[p.first] = p.second;
	}
	return true;
}
std::vector<E> varExprs;
static std::unordered_map<u64, E> varIndex;
static E var(u64 kind, u64 n, unsigned w)
{
	u64 key = n << 10 | kind << 8 | w;
	auto it = varIndex.find(key);
	if (it != varIndex.end()) return it->second;
	E e = raw(VAR, w, nullptr, nullptr, nullptr, varExprs.size());
	varExprs.push_back(e);
	varIndex[key] = e;
	return e;
}
static bool holds(State & s, E c) { return eval(c, s.model); }
static void addPc(State & s, E c)
{
	if (isK(c)) return;
	if (c->op == AND && c->w == 1) { addPc(s, c->a); addPc(s, c->b); return; }
	s.pc.push_back(c);
}

static std::deque<State *> work;
/** split on a condition; returns 1/0 for the side this state follows, the
 * other side (if feasible) goes to the work list. */
static State * fork2(State & s, const std::vector<u64> & model, E c)
{
	State * n = new State(s);
	n->model = model;
	addPc(*n, c);
	work.push_back(n);
	++st.forks;
	return n;
}
/** follow one side of c; the alternative is forked before the current
 * instruction has changed anything (the instruction is executed again there) */
static bool branch(State & s, E c, State ** other)
{
	*other = nullptr;
	if (isK(c)) return c->v;
	bool side = holds(s, c);
	E neg = mkNot(c);
	std::vector<u64> m;
	if (sat(s, side ? neg : c, m))
		*other = fork2(s, m, side ? neg : c);
	addPc(s, side ? c : neg);
	return side;
}

struct PathEnd {};
[[noreturn]] static void endPath() { throw PathEnd(); }

static unsigned maxSamples = 4;
static u64 rnd = 88172645463325252ull, finished;
static std::vector<std::string> labelNames{""};
static std::vector<std::pair<u64, std::string>> samples;
static uint32_t labelId(const std::string & l)
{
	for (size_t i = 1; i < labelNames.size(); ++i) if (labelNames[i] == l) return i;
	labelNames.push_back(l);
	return labelNames.size() - 1;
}
/** regular end of a path: keep a random sample of the paths, with everything
 * observed on them, for comparison with a native run */
[[noreturn]] static void finish(State & s)
{
	++finished;
	rnd ^= rnd << 13; rnd ^= rnd >> 7; rnd ^= rnd << 17;
	if (samples.size() < maxSamples || rnd % finished < maxSamples) {
		std::string t = "{\"kind\":\"path\",\"nd\":[";
		for (size_t i = 0; i < s.nd.size(); ++i) t += (i ? "," : "") + std::to_string(s.nd[i].e ? eval(s.nd[i].e, s.model) : s.nd[i].c);
		t += "],\"trace\":[";
		size_t o = 0;
		for (size_t i = 0; i < s.labels.size(); ++i) {
			if (i) t += ",";
			if (s.labels[i]) t += jstr("REACHED " + labelNames[s.labels[i]]);
			else { Val & v = s.obs[o++]; t += "\"OBS " + std::to_string(v.e ? eval(v.e, s.model) : v.c) + "\""; }
		}
		t += "]}\n";
		if (samples.size() < maxSamples) samples.push_back({0, t});
		else samples[rnd / 7 % maxSamples] = {0, t};
	}
	endPath();
}

static void violation(State & s, const std::string & what) { emit(s, "violation", what, s.model); endPath(); }

/** property: c must hold on every value */
static void require(State & s, E c, const std::string & what)
{
	++st.checks;
	if (isK(c)) { if (!c->v) violation(s, what); return; }
	E neg = mkNot(c);
	if (!holds(s, c)) {
		emit(s, "violation", what, s.model);
		std::vector<u64> m;
		if (!sat(s, c, m)) endPath();
		s.model = m;
	} else {
		std::vector<u64> m;
		if (sat(s, neg, m)) emit(s, "violation", what, m);
		else return; // implied
	}
	addPc(s, c);
}

/** one concrete value for v; forks for all the others */
static u64 concretize(State & s, Val & v, unsigned w)
{
	if (!v.e) return v.c;
	u64 x = eval(v.e, s.model);
	E c = mk(EQ, 1, v.e, K(w, x));
	std::vector<u64> m;
	if (sat(s, mkNot(c), m)) {
		// the alternative re-executes this instruction
		State * n = fork2(s, m, mkNot(c));
		Frame & f = n->top();
		--f.ip;
	}
	addPc(s, c);
	v = Val(x);
	return x;
}

// ---------------------------------------------------------------- memory access
static Obj * alloc(State & s, u64 size, uint32_t name, bool heap, bool stack, bool uninit)
{
	Obj * o = new Obj;
	o->base = s.nextAddr;
	o->size = size;
	o->heap = heap; o->stack = stack; o->ro = false;
	o->name = name;
	o->c.assign(size, 0);
	if (uninit) o->un.assign(size, 1);
	s.nextAddr += (size + 64 + 63) & ~63ull;
	s.mem[o->base] = ORef(o);
	return o;
}
static ORef * find(State & s, u64 a)
{
	auto it = s.mem.upper_bound(a);
	if (it == s.mem.begin()) return nullptr;
	--it;
	Obj * o = it->second.o;
	if (a > o->base + o->size) return nullptr;
	return &it->second;
}
static Obj * writable(ORef & r)
{
	if (r.o->ref > 1) {
		Obj * n = new Obj(*r.o);
		n->ref = 0;
		r = ORef(n);
	}
	return r.o;
}
static Val loadAt(State & s, ORef & r, u64 off, unsigned bytes)
{
	Obj * o = r.o;
	if (!o->un.empty()) {
		bool any = false;
		for (unsigned i = 0; i < bytes; ++i) any |= o->un[off + i];
		if (any) {
			o = writable(r);
			if (o->e.empty()) o->e.assign(o->size, nullptr);
			for (unsigned i = 0; i < bytes; ++i)
				if (o->un[off + i]) { o->un[off + i] = 0; o->e[off + i] = var(1, s.nun++, 8); }
		}
	}
	bool sym = false;
	if (!o->e.empty()) for (unsigned i = 0; i < bytes; ++i) if (o->e[off + i]) { sym = true; break; }
	if (!sym) {
		u64 v = 0;
		memcpy(&v, &o->c[off], bytes);
		return Val(v);
	}
	E e = nullptr;
	for (unsigned i = bytes; i-- > 0;) {
		E b = o->e[off + i] ? o->e[off + i] : K(8, o->c[off + i]);
		e = e ? mk(CONCAT, e->w + 8, e, b) : b;
	}
	return Val(e);
}
static void storeAt(ORef & r, u64 off, unsigned bytes, const Val & v, E guard = nullptr)
{
	Obj * o = writable(r);
	if (!guard && !v.e) {
		memcpy(&o->c[off], &v.c, bytes);
		if (!o->e.empty()) for (unsigned i = 0; i < bytes; ++i) o->e[off + i] = nullptr;
	} else {
		if (o->e.empty()) o->e.assign(o->size, nullptr);
		for (unsigned i = 0; i < bytes; ++i) {
			E b = v.e ? (bytes == 1 ? v.e : mkExtract(v.e, i * 8, 8)) : K(8, v.c >> (i * 8) & 0xff);
			if (guard) b = mk(ITE, 8, guard, b, o->e[off + i] ? o->e[off + i] : K(8, o->c[off + i]));
			if (isK(b)) { o->c[off + i] = b->v; o->e[off + i] = nullptr; }
			else o->e[off + i] = b;
		}
	}
	if (!o->un.empty() && !guard) for (unsigned i = 0; i < bytes; ++i) o->un[off + i] = 0;
}
static std::string objDesc(Obj * o)
{
	return (o->heap ? "heap" : o->stack ? "stack" : "global") + std::string(" object of ") + std::to_string(o->size) + " bytes";
}
static void badAccess(State & s, const char * how, u64 a)
{
	ORef * r = find(s, a);
	std::string w = std::string("invalid ") + how;
	if (a < 4096) w += " (null pointer)";
	else if (r) w += " (out of bounds of " + objDesc(r->o) + ")";
	else w += " (no live object)";
	violation(s, w);
}
/** resolve an address to an object and the set of feasible offsets */
struct Res { ORef * r; std::vector<u64> offs; E off; };
static Res resolve(State & s, const Val & p, u64 bytes, const char * how)
{
	Res R;
	R.off = nullptr;
	if (!p.e) {
		R.r = find(s, p.c);
		if (!R.r || p.c + bytes > R.r->o->base + R.r->o->size) badAccess(s, how, p.c);
		R.offs.push_back(p.c - R.r->o->base);
		return R;
	}
	u64 a = eval(p.e, s.model);
	R.r = find(s, a);
	if (!R.r || a + bytes > R.r->o->base + R.r->o->size) badAccess(s, how, a);
	Obj * o = R.r->o;
	E in = mk(ULE, 1, mk(ADD, 64, p.e, K(64, 0 - o->base)), K(64, o->size - bytes));
	std::vector<u64> m;
	if (sat(s, mkNot(in), m)) {
		// other objects or out of bounds: decide there
		State * n = fork2(s, m, mkNot(in));
		--n->top().ip;
	}
	addPc(s, in);
	R.off = mk(ADD, 64, p.e, K(64, 0 - o->base));
	// enumerate feasible offsets
	State t;
	t.pc = s.pc;
	t.model = s.model;
	for (unsigned n = 0;; ++n) {
		u64 x = eval(R.off, t.model);
		R.offs.push_back(x);
		E ne = mkNot(mk(EQ, 1, R.off, K(64, x)));
		std::vector<u64> m2;
		if (!sat(t, ne, m2)) break;
		t.model = m2;
		addPc(t, ne);
		if (n > 4096) die("too many feasible offsets");
	}
	if (R.offs.size() == 1) R.off = nullptr;
	return R;
}
static Val load(State & s, const Val & p, unsigned bytes)
{
	Res R = resolve(s, p, bytes, "read");
	Val v = loadAt(s, *R.r, R.offs[0], bytes);
	if (R.offs.size() == 1) return v;
	E e = toE(v, bytes * 8);
	for (size_t i = 1; i < R.offs.size(); ++i)
		e = mk(ITE, bytes * 8, mk(EQ, 1, R.off, K(64, R.offs[i])), toE(loadAt(s, *R.r, R.offs[i], bytes), bytes * 8), e);
	return Val(e);
}
static void store(State & s, const Val & p, unsigned bytes, const Val & v)
{
	Res R = resolve(s, p, bytes, "write");
	if (R.r->o->ro) violation(s, "write to constant data");
	if (R.offs.size() == 1) { storeAt(*R.r, R.offs[0], bytes, v); return; }
	for (u64 o : R.offs) {
		loadAt(s, *R.r, o, bytes);
		storeAt(*R.r, o, bytes, v, mk(EQ, 1, R.off, K(64, o)));
	}
}
static std::string cstr(State & s, Val p)
{
	std::string r;
	if (p.e) return "?";
	for (;; ++p.c) {
		Val v = load(s, p, 1);
		if (v.e) return r + "?";
		if (!(v.c & 0xff)) return r;
		r += (char)v.c;
	}
}

// ---------------------------------------------------------------- constants
static u64 fnAddress(Function * F)
{
	auto it = gaddr.find(F);
	if (it != gaddr.end()) return it->second;
	u64 a = 0x10000 + 16 * fnAddr.size();
	gaddr[F] = a;
	fnAddr[a] = F;
	return a;
}
static Val constVal(Constant * C);
static u64 constInt(Constant * C) { Val v = constVal(C); return v.c; }
static unsigned undefCtr;
static Val constVal(Constant * C)
{
	if (auto * ci = dyn_cast<ConstantInt>(C)) {
		if (ci->getBitWidth() > 64) return Val(ci->getValue().trunc(64).getZExtValue());
		return Val(ci->getZExtValue());
	}
	if (auto * cf = dyn_cast<ConstantFP>(C)) return Val(cf->getValueAPF().bitcastToAPInt().getLimitedValue());
	if (isa<ConstantPointerNull>(C)) return Val((u64)0);
	if (auto * F = dyn_cast<Function>(C)) return Val(fnAddress(F));
	if (auto * ga = dyn_cast<GlobalAlias>(C)) return constVal(ga->getAliasee());
	if (auto * g = dyn_cast<GlobalVariable>(C)) { auto it = gaddr.find(g); if (it == gaddr.end()) die("global without address: " + g->getName().str()); return Val(it->second); }
	if (isa<UndefValue>(C)) {
		if (C->getType()->isAggregateType()) {
			Val v; v.agg = new std::vector<Val>(C->getType()->getStructNumElements());
			return v;
		}
		return Val((u64)0);
	}
	if (isa<ConstantAggregateZero>(C) && C->getType()->isStructTy()) { Val v; v.agg = new std::vector<Val>(C->getType()->getStructNumElements()); return v; }
	if (auto * cs = dyn_cast<ConstantStruct>(C)) {
		Val v; v.agg = new std::vector<Val>();
		for (unsigned i = 0; i < cs->getNumOperands(); ++i) v.agg->push_back(constVal(cs->getOperand(i)));
		return v;
	}
	if (auto * ce = dyn_cast<ConstantExpr>(C)) {
		unsigned w = widthOf(ce->getType());
		switch (ce->getOpcode()) {
		case Instruction::GetElementPtr: {
			APInt off(64, 0);
			if (!cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off)) die("constant GEP");
			return Val(constInt(ce->getOperand(0)) + off.getSExtValue());
		}
		case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::Trunc:
		case Instruction::AddrSpaceCast:
			return Val(constInt(ce->getOperand(0)) & mask(w));
		case Instruction::ZExt: return constVal(ce->getOperand(0));
		case Instruction::Add: return Val((constInt(ce->getOperand(0)) + constInt(ce->getOperand(1))) & mask(w));
		case Instruction::Sub: return Val((constInt(ce->getOperand(0)) - constInt(ce->getOperand(1))) & mask(w));
		case Instruction::Xor: return Val((constInt(ce->getOperand(0)) ^ constInt(ce->getOperand(1))) & mask(w));
		case Instruction::ICmp: {
			u64 a = constInt(ce->getOperand(0)), b = constInt(ce->getOperand(1));
			switch (cast<ConstantExpr>(ce)->getPredicate()) {
			case CmpInst::ICMP_EQ: return Val((u64)(a == b));
			case CmpInst::ICMP_NE: return Val((u64)(a != b));
			default: die("constant icmp");
			}
		}
		default: die("constant expression " + std::string(ce->getOpcodeName()));
		}
	}
	std::string t; raw_string_ostream os(t); C->print(os);
	die("constant " + t);
	return Val();
}
static void initGlobal(Obj * o, u64 off, Constant * C)
{
	Type * T = C->getType();
	if (isa<UndefValue>(C) || isa<ConstantAggregateZero>(C) || isa<ConstantPointerNull>(C)) return;
	if (auto * cd = dyn_cast<ConstantDataSequential>(C)) {
		unsigned es = DL->getTypeAllocSize(cd->getElementType());
		for (unsigned i = 0; i < cd->getNumElements(); ++i) {
			u64 v = cd->getElementType()->isIntegerTy() ? cd->getElementAsInteger(i) : cd->getElementAsAPFloat(i).bitcastToAPInt().getZExtValue();
			memcpy(&o->c[off + i * es], &v, es);
		}
		return;
	}
	if (isa<ConstantArray>(C)) {
		u64 es = DL->getTypeAllocSize(T->getArrayElementType());
		for (unsigned i = 0; i < C->getNumOperands(); ++i) initGlobal(o, off + i * es, cast<Constant>(C->getOperand(i)));
		return;
	}
	if (isa<ConstantStruct>(C)) {
		const StructLayout * sl = DL->getStructLayout(cast<StructType>(T));
		for (unsigned i = 0; i < C->getNumOperands(); ++i) initGlobal(o, off + (u64)sl->getElementOffset(i), cast<Constant>(C->getOperand(i)));
		return;
	}
	Val v = constVal(C);
	memcpy(&o->c[off], &v.c, DL->getTypeStoreSize(T));
}

// ---------------------------------------------------------------- compile
enum Builtin { B_ND, B_ASSUME, B_CHECK, B_REACH, B_DONE, B_MALLOC, B_CALLOC, B_REALLOC, B_FREE, B_ABORT, B_EXIT, B_ASSERTFAIL,
	B_MEMCPY, B_MEMMOVE, B_MEMSET, B_NOP, B_COCREATE, B_COSWITCH, B_COSELF, B_CODONE, B_ALLOCSIZE, B_CONC, B_LIVE, B_MERGE_AND, B_MERGE_OR, B_SEL, B_OBS, B_FMTD, B_STRTOD };
static const std::map<std::string, int> builtins = {
	{"symx_nd", B_ND}, {"symx_assume", B_ASSUME}, {"symx_check", B_CHECK}, {"symx_reach", B_REACH}, {"symx_done", B_DONE},
	{"malloc", B_MALLOC}, {"calloc", B_CALLOC}, {"realloc", B_REALLOC}, {"free", B_FREE}, {"abort", B_ABORT}, {"exit", B_EXIT}, {"_exit", B_EXIT},
	{"__assert_fail", B_ASSERTFAIL}, {"memcpy", B_MEMCPY}, {"memmove", B_MEMMOVE}, {"memset", B_MEMSET},
	{"symx_co_create", B_COCREATE}, {"symx_co_switch", B_COSWITCH}, {"symx_co_self", B_COSELF}, {"symx_co_done", B_CODONE},
	{"symx_conc", B_CONC}, {"symx_live", B_LIVE}, {"symx_and", B_MERGE_AND}, {"symx_or", B_MERGE_OR}, {"symx_sel", B_SEL}, {"symx_obs", B_OBS}, {"symx_fmtd", B_FMTD}, {"symx_strtod", B_STRTOD},
	{"_Znwm", B_MALLOC}, {"_Znam", B_MALLOC}, {"_ZdlPv", B_FREE}, {"_ZdaPv", B_FREE}, {"_ZdlPvm", B_FREE}, {"__cxa_atexit", B_NOP},
};

static Fn * compile(Function * F)
{
	auto it = fns.find(F);
	if (it != fns.end()) return it->second;
	Fn * f = new Fn;
	fns[F] = f;
	f->F = F;
	f->id = fns.size();
	if (auto * sp = F->getSubprogram()) {
		std::string fn = sp->getFilename().str();
		if (fn[0] != '/') fn = sp->getDirectory().str() + "/" + fn;
		f->repo = fn.compare(0, repoPrefix.size(), repoPrefix) == 0;
	}
	std::map<Value *, int> slot;
	std::map<BasicBlock *, int> bbi;
	for (auto & a : F->args()) slot[&a] = f->nregs++;
	for (auto & B : *F) {
		int n = bbi.size();
		bbi[&B] = n;
		for (auto & I : B) if (!I.getType()->isVoidTy()) slot[&I] = f->nregs++;
	}
	auto opnd = [&](Value * v) {
		Opnd o;
		if (auto * C = dyn_cast<Constant>(v)) { o.slot = -1; o.k = constVal(C); if (isa<UndefValue>(C) && !C->getType()->isAggregateType()) o.slot = -2; }
		else { auto i = slot.find(v); if (i == slot.end()) { o.slot = -1; } else o.slot = i->second; }
		return o;
	};
	f->b.resize(bbi.size());
	f->cov.resize(bbi.size());
	for (auto & B : *F) {
		Block & blk = f->b[bbi[&B]];
		for (auto & I : B) {
			if (isa<DbgInfoIntrinsic>(I)) continue;
			Inst n;
			n.I = &I;
			n.dst = I.getType()->isVoidTy() ? -1 : slot[&I];
			n.w = widthOf(I.getType());
			if (auto * phi = dyn_cast<PHINode>(&I)) {
				++blk.nphi;
				for (unsigned i = 0; i < phi->getNumIncomingValues(); ++i) { n.ops.push_back(opnd(phi->getIncomingValue(i))); n.succ.push_back(bbi[phi->getIncomingBlock(i)]); }
			} else if (auto * gep = dyn_cast<GetElementPtrInst>(&I)) {
				n.ops.push_back(opnd(gep->getPointerOperand()));
				for (auto gi = gep_type_begin(gep), ge = gep_type_end(gep); gi != ge; ++gi) {
					Value * idx = gi.getOperand();
					if (StructType * sty = gi.getStructTypeOrNull()) n.off += (u64)DL->getStructLayout(sty)->getElementOffset(cast<ConstantInt>(idx)->getZExtValue());
					else {
						u64 es = DL->getTypeAllocSize(gi.getIndexedType());
						if (auto * ci = dyn_cast<ConstantInt>(idx)) n.off += ci->getSExtValue() * (int64_t)es;
						else { n.scale.push_back({(int)n.ops.size(), es}); n.succ.push_back(widthOf(idx->getType())); n.ops.push_back(opnd(idx)); }
					}
				}
			} else if (auto * br = dyn_cast<BranchInst>(&I)) {
				if (br->isConditional()) n.ops.push_back(opnd(br->getCondition()));
				for (unsigned i = 0; i < br->getNumSuccessors(); ++i) n.succ.push_back(bbi[br->getSuccessor(i)]);
			} else if (auto * sw = dyn_cast<SwitchInst>(&I)) {
				n.ops.push_back(opnd(sw->getCondition()));
				n.succ.push_back(bbi[sw->getDefaultDest()]);
				for (auto & c : sw->cases()) { n.succ.push_back(bbi[c.getCaseSuccessor()]); n.ops.push_back(opnd(c.getCaseValue())); }
			} else if (auto * cb = dyn_cast<CallBase>(&I)) {
				if (cb->isInlineAsm()) { n.builtin = B_NOP; }
				for (auto & a : cb->args()) { if (a->getType()->isMetadataTy()) n.ops.push_back(Opnd{-1, Val()}); else n.ops.push_back(opnd(a.get())); }
				Value * cv = cb->getCalledOperand()->stripPointerCasts();
				if (auto * ga = dyn_cast<GlobalAlias>(cv)) cv = ga->getAliaseeObject();
				n.callee = dyn_cast<Function>(cv);
				if (n.callee) {
					auto b = builtins.find(n.callee->getName().str());
					if (b != builtins.end()) n.builtin = b->second;
				} else if (!cb->isInlineAsm()) n.ops.push_back(opnd(cv));
				if (auto * inv = dyn_cast<InvokeInst>(&I)) n.succ.push_back(bbi[inv->getNormalDest()]);
			} else {
				for (auto & o : I.operands()) n.ops.push_back(opnd(o.get()));
			}
			blk.in.push_back(std::move(n));
		}
	}
	return f;
}

// ---------------------------------------------------------------- execution
static inline Val get(State & s, Frame & f, const Opnd & o)
{
	if (o.slot >= 0) return f.r[o.slot];
	return o.k;
}
static void setBB(Frame & f, int bb) { f.prev = f.bb; f.bb = bb; f.ip = 0; }

static void enter(State & s, Function * F, const std::vector<Val> & args, int dst)
{
	if (F->isDeclaration()) { problem("call of unmodelled function " + F->getName().str() + " at " + locOf(s)); endPath(); }
	Fn * f = compile(F);
	auto & stk = s.co[s.cur].st;
	if (stk.size() > 400) violation(s, "recursion too deep");
	stk.emplace_back();
	Frame & n = stk.back();
	n.f = f;
	n.r.resize(f->nregs);
	n.dst = dst;
	for (unsigned i = 0; i < F->arg_size() && i < args.size(); ++i) n.r[i] = args[i];
	if (F->isVarArg()) for (unsigned i = F->arg_size(); i < args.size(); ++i) n.va.push_back(args[i]);
	f->cov[0] = 1;
}

static Val binop(unsigned opc, unsigned w, const Val & a, const Val & b)
{
	Op op;
	switch (opc) {
	case Instruction::Add: op = ADD; break;
	case Instruction::Sub: op = SUB; break;
	case Instruction::Mul: op = MUL; break;
	case Instruction::UDiv: op = UDIV; break;
	case Instruction::SDiv: op = SDIV; break;
	case Instruction::URem: op = UREM; break;
	case Instruction::SRem: op = SREM; break;
	case Instruction::And: op = AND; break;
	case Instruction::Or: op = OR; break;
	case Instruction::Xor: op = XOR; break;
	case Instruction::Shl: op = SHL; break;
	case Instruction::LShr: op = LSHR; break;
	case Instruction::AShr: op = ASHR; break;
	case Instruction::FAdd: op = FADD; break;
	case Instruction::FSub: op = FSUB; break;
	case Instruction::FMul: op = FMUL; break;
	case Instruction::FDiv: op = FDIV; break;
	default: die("binary operator");
	}
	if (!a.e && !b.e) return Val(fold(op, w, 0, a.c, w, b.c, w, 0));
	return Val(mk(op, w, toE(a, w), toE(b, w)));
}
static Val icmp(unsigned p, unsigned w, const Val & a, const Val & b)
{
	Op op; bool sw = false, neg = false;
	switch (p) {
	case CmpInst::ICMP_EQ: op = EQ; break;
	case CmpInst::ICMP_NE: op = EQ; neg = true; break;
	case CmpInst::ICMP_ULT: op = ULT; break;
	case CmpInst::ICMP_ULE: op = ULE; break;
	case CmpInst::ICMP_UGT: op = ULT; sw = true; break;
	case CmpInst::ICMP_UGE: op = ULE; sw = true; break;
	case CmpInst::ICMP_SLT: op = SLT; break;
	case CmpInst::ICMP_SLE: op = SLE; break;
	case CmpInst::ICMP_SGT: op = SLT; sw = true; break;
	default: op = SLE; sw = true; break;
	}
	const Val & x = sw ? b : a, & y = sw ? a : b;
	if (!x.e && !y.e) return Val((u64)(fold(op, 1, 0, x.c, w, y.c, w, 0) ^ neg));
	E e = mk(op, 1, toE(x, w), toE(y, w));
	return Val(neg ? mkNot(e) : e);
}

static void copyMem(State & s, Val d, Val a, Val n, bool move)
{
	Frame & f = s.top();
	u64 len = concretize(s, n, 64);
	if (!len) return;
	if (len > (1u << 26)) violation(s, "memory copy of unreasonable size");
	if (d.e) concretize(s, d, 64);
	if (a.e) concretize(s, a, 64);
	Res rs = resolve(s, a, len, "read (memory copy)");
	Res rd = resolve(s, d, len, "write (memory copy)");
	if (rd.r->o->ro) violation(s, "write to constant data");
	u64 so = rs.offs[0], doo = rd.offs[0];
	if (!move && a.c < d.c + len && d.c < a.c + len && a.c != d.c) violation(s, "overlapping memory copy");
	Obj * src = rs.r->o;
	std::vector<uint8_t> c(src->c.begin() + so, src->c.begin() + so + len), un;
	std::vector<E> e;
	if (!src->e.empty()) e.assign(src->e.begin() + so, src->e.begin() + so + len);
	if (!src->un.empty()) un.assign(src->un.begin() + so, src->un.begin() + so + len);
	Obj * dst = writable(*rd.r);
	std::copy(c.begin(), c.end(), dst->c.begin() + doo);
	if (!e.empty() || !dst->e.empty()) {
		if (dst->e.empty()) dst->e.assign(dst->size, nullptr);
		for (u64 i = 0; i < len; ++i) dst->e[doo + i] = e.empty() ? nullptr : e[i];
	}
	if (!un.empty() || !dst->un.empty()) {
		if (dst->un.empty()) dst->un.assign(dst->size, 0);
		for (u64 i = 0; i < len; ++i) dst->un[doo + i] = un.empty() ? 0 : un[i];
	}
	(void)f;
}
static void setMem(State & s, Val d, Val v, Val n)
{
	u64 len = concretize(s, n, 64);
	if (!len) return;
	if (d.e) concretize(s, d, 64);
	Res rd = resolve(s, d, len, "write (memory fill)");
	if (rd.r->o->ro) violation(s, "write to constant data");
	for (u64 i = 0; i < len; ++i) storeAt(*rd.r, rd.offs[0] + i, 1, v);
}
static void freeMem(State & s, Val p)
{
	u64 a = concretize(s, p, 64);
	if (!a) return;
	auto it = s.mem.find(a);
	if (it == s.mem.end() || !it->second.o->heap) violation(s, "invalid or double free");
	s.mem.erase(it);
}

static void ret(State & s, const Val & v)
{
	auto & stk = s.co[s.cur].st;
	Frame & f = stk.back();
	int dst = f.dst;
	for (u64 a : f.allocas) s.mem.erase(a);
	stk.pop_back();
	if (stk.empty()) {
		s.co[s.cur].done = true;
		if (s.cur == 0) finish(s);
		violation(s, "env: coroutine returned");
	}
	if (dst >= 0) stk.back().r[dst] = v;
}

static bool intrinsic(State & s, Frame & f, Inst & in, IntrinsicInst * II)
{
	auto A = [&](unsigned i) { return get(s, f, in.ops[i]); };
	auto set = [&](Val v) { if (in.dst >= 0) f.r[in.dst] = v; };
	unsigned w = in.w;
	switch (II->getIntrinsicID()) {
	case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::stackrestore:
	case Intrinsic::vaend: case Intrinsic::experimental_noalias_scope_decl:
	case Intrinsic::prefetch: case Intrinsic::donothing:
		return true;
	case Intrinsic::vacopy: copyMem(s, A(0), A(1), Val((u64)24), false); return true;
	case Intrinsic::vastart: {
		// everything in the overflow area
		Val ap = A(0);
		std::vector<Val> va = f.va;
		Obj * o = alloc(s, 8 * va.size() + 8, 0, false, true, false);
		f.allocas.push_back(o->base);
		for (size_t i = 0; i < va.size(); ++i) store(s, Val(o->base + 8 * i), 8, va[i].e && va[i].e->w < 64 ? Val(mk(ZEXT, 64, va[i].e)) : va[i]);
		store(s, Val(ap.c), 4, Val((u64)48));
		store(s, Val(ap.c + 4), 4, Val((u64)304));
		store(s, Val(ap.c + 8), 8, Val(o->base));
		store(s, Val(ap.c + 16), 8, Val((u64)0));
		return true;
	}
	case Intrinsic::returnaddress: case Intrinsic::frameaddress: set(Val((u64)0)); return true;
	case Intrinsic::stacksave: set(Val((u64)0)); return true;
	case Intrinsic::memcpy: case Intrinsic::memcpy_inline: copyMem(s, A(0), A(1), A(2), false); return true;
	case Intrinsic::memmove: copyMem(s, A(0), A(1), A(2), true); return true;
	case Intrinsic::memset: setMem(s, A(0), A(1), A(2)); return true;
	case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::launder_invariant_group: case Intrinsic::ptr_annotation: set(A(0)); return true;
	case Intrinsic::is_constant: set(Val((u64)0)); return true;
	case Intrinsic::objectsize: set(Val(A(1).c ? (u64)0 : ~0ull)); return true;
	case Intrinsic::trap: case Intrinsic::debugtrap: violation(s, "trap");
	case Intrinsic::ubsantrap: {
		static const char * const n[] = {"add overflow", "builtin unreachable", "cfi", "division overflow or by zero", "dynamic type cache", "float cast", "function type", "implicit conversion", "invalid builtin", "invalid objc cast", "invalid value (bool or enum)", "missing return", "multiplication overflow", "negation overflow", "nullability arg", "nullability return", "nonnull argument", "nonnull return", "index out of bounds", "pointer overflow", "shift out of bounds", "subtraction overflow", "null or misaligned", "vla bound"};
		unsigned k = A(0).c;
		violation(s, std::string("undefined behaviour: ") + (k < 24 ? n[k] : "?"));
	}
	case Intrinsic::bswap: {
		Val a = A(0);
		if (!a.e) { u64 r = 0; for (unsigned i = 0; i < w / 8; ++i) r = r << 8 | (a.c >> (8 * i) & 0xff); set(Val(r)); return true; }
		E e = nullptr;
		for (unsigned i = 0; i < w / 8; ++i) { E b = mkExtract(a.e, 8 * i, 8); e = e ? mk(CONCAT, e->w + 8, e, b) : b; }
		set(Val(e));
		return true;
	}
	case Intrinsic::sadd_with_overflow: case Intrinsic::uadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::usub_with_overflow:
	case Intrinsic::smul_with_overflow: case Intrinsic::umul_with_overflow: {
		auto id = II->getIntrinsicID();
		unsigned x = II->getArgOperand(0)->getType()->getIntegerBitWidth();
		Val a = A(0), b = A(1), r, o;
		bool sg = id == Intrinsic::sadd_with_overflow || id == Intrinsic::ssub_with_overflow || id == Intrinsic::smul_with_overflow;
		bool add = id == Intrinsic::sadd_with_overflow || id == Intrinsic::uadd_with_overflow;
		bool sub = id == Intrinsic::ssub_with_overflow || id == Intrinsic::usub_with_overflow;
		r = binop(add ? Instruction::Add : sub ? Instruction::Sub : Instruction::Mul, x, a, b);
		if (!a.e && !b.e) {
			__int128 p = sg ? (__int128)sx(a.c, x) : (__int128)a.c, q = sg ? (__int128)sx(b.c, x) : (__int128)b.c;
			__int128 t = add ? p + q : sub ? p - q : p * q;
			o = Val((u64)(t != (sg ? (__int128)sx(r.c, x) : (__int128)r.c)));
		} else if (x <= 32) {
			Op ext = sg ? SEXT : ZEXT;
			E p = mk(ext, 64, toE(a, x)), q = mk(ext, 64, toE(b, x));
			E t = mk(add ? ADD : sub ? SUB : MUL, 64, p, q);
			o = Val(mkNot(mk(EQ, 1, t, mk(ext, 64, toE(r, x)))));
		} else if (!sg && add) o = Val(mk(ULT, 1, toE(r, x), toE(a, x)));
		else if (!sg && sub) o = Val(mk(ULT, 1, toE(a, x), toE(b, x)));
		else if (sg && (add || sub)) {
			E z = K(x, 0), ea = toE(a, x), eb = toE(b, x), er = toE(r, x);
			E na = mk(SLT, 1, ea, z), nb = mk(SLT, 1, eb, z), nr = mk(SLT, 1, er, z);
			E same = add ? mk(EQ, 1, na, nb) : mkNot(mk(EQ, 1, na, nb));
			o = Val(mk(AND, 1, same, mkNot(mk(EQ, 1, na, nr))));
		} else if (!sg) {
			// a*b overflows iff a != 0 && b > max/a
			E ea = toE(a, x), eb = toE(b, x);
			if (isK(ea)) std::swap(ea, eb);
			if (isK(eb)) o = eb->v ? Val(mk(ULT, 1, K(x, mask(x) / eb->v), ea)) : Val((u64)0);
			else o = Val(mk(AND, 1, mkNot(mk(EQ, 1, ea, K(x, 0))), mk(ULT, 1, mk(UDIV, x, K(x, mask(x)), ea), eb)));
		} else {
			E ea = toE(a, x), eb = toE(b, x), er = toE(r, x);
			o = Val(mk(AND, 1, mkNot(mk(EQ, 1, eb, K(x, 0))), mkNot(mk(EQ, 1, mk(SDIV, x, er, eb), ea))));
		}
		Val v; v.agg = new std::vector<Val>{r, o};
		set(v);
		return true;
	}
	case Intrinsic::umax: case Intrinsic::umin: case Intrinsic::smax: case Intrinsic::smin: {
		auto id = II->getIntrinsicID();
		Val a = A(0), b = A(1);
		Val c = icmp(id == Intrinsic::umax ? CmpInst::ICMP_UGT : id == Intrinsic::umin ? CmpInst::ICMP_ULT : id == Intrinsic::smax ? CmpInst::ICMP_SGT : CmpInst::ICMP_SLT, w, a, b);
		if (!c.e) set(c.c ? a : b); else set(Val(mk(ITE, w, c.e, toE(a, w), toE(b, w))));
		return true;
	}
	case Intrinsic::abs: {
		Val a = A(0);
		Val c = icmp(CmpInst::ICMP_SLT, w, a, Val((u64)0)), n = binop(Instruction::Sub, w, Val((u64)0), a);
		if (!c.e) set(c.c ? n : a); else set(Val(mk(ITE, w, c.e, toE(n, w), toE(a, w))));
		return true;
	}
	case Intrinsic::fabs: {
		Val a = A(0);
		set(binop(Instruction::And, w, a, Val(mask(w) >> 1)));
		return true;
	}
	case Intrinsic::fmuladd: set(binop(Instruction::FAdd, w, binop(Instruction::FMul, w, A(0), A(1)), A(2))); return true;
	case Intrinsic::is_fpclass: {
		Val a = A(0);
		unsigned m = A(1).c, x = widthOf(II->getArgOperand(0)->getType());
		unsigned mb = x == 64 ? 52 : 23;
		E e = toE(a, x);
		E man = mkExtract(e, 0, mb), ex = mkExtract(e, mb, x - 1 - mb), sg = mkExtract(e, x - 1, 1);
		E exOnes = mk(EQ, 1, ex, K(ex->w, mask(ex->w))), exZ = mk(EQ, 1, ex, K(ex->w, 0)), manZ = mk(EQ, 1, man, K(mb, 0));
		E q = mkExtract(man, mb - 1, 1), r = K(1, 0);
		auto And = [](E p, E q) { return mk(AND, 1, p, q); };
		E nan = And(exOnes, mkNot(manZ)), inf = And(exOnes, manZ), zero = And(exZ, manZ), sub = And(exZ, mkNot(manZ)), nor = And(mkNot(exOnes), mkNot(exZ));
		E cls[10] = {And(nan, mkNot(q)), And(nan, q), And(inf, sg), And(nor, sg), And(sub, sg), And(zero, sg), And(zero, mkNot(sg)), And(sub, mkNot(sg)), And(nor, mkNot(sg)), And(inf, mkNot(sg))};
		for (int i = 0; i < 10; ++i) if (m >> i & 1) r = mk(OR, 1, r, cls[i]);
		set(Val(r));
		return true;
	}
	case Intrinsic::ctpop: case Intrinsic::ctlz: case Intrinsic::cttz: {
		Val a = A(0);
		u64 x = concretize(s, a, w);
		u64 r = II->getIntrinsicID() == Intrinsic::ctpop ? __builtin_popcountll(x) : II->getIntrinsicID() == Intrinsic::ctlz ? (x ? __builtin_clzll(x) - (64 - w) : w) : (x ? __builtin_ctzll(x) : w);
		set(Val(r));
		return true;
	}
	case Intrinsic::fshl: case Intrinsic::fshr: {
		Val a = A(0), b = A(1), n = A(2);
		u64 k = concretize(s, n, w) % w;
		if (II->getIntrinsicID() == Intrinsic::fshr) k = (w - k) % w;
		if (!k) { set(II->getIntrinsicID() == Intrinsic::fshl ? a : b); return true; }
		set(binop(Instruction::Or, w, binop(Instruction::Shl, w, a, Val(k)), binop(Instruction::LShr, w, b, Val(w - k))));
		return true;
	}
	default:
		problem("intrinsic " + II->getCalledFunction()->getName().str());
		endPath();
	}
}

static void doCall(State & s, Frame & f, Inst & in)
{
	auto * cb = cast<CallBase>(in.I);
	auto A = [&](unsigned i) { return get(s, f, in.ops[i]); };
	auto set = [&](Val v) { if (in.dst >= 0) f.r[in.dst] = v; };
	if (!in.succ.empty()) { problem("invoke"); endPath(); }
	if (auto * II = dyn_cast<IntrinsicInst>(in.I)) { intrinsic(s, f, in, II); return; }
	if (in.builtin >= 0) {
		switch (in.builtin) {
		case B_NOP: set(Val((u64)0)); return;
		case B_ND: {
			unsigned w = A(0).c;
			E e = var(0, s.nd.size(), w);
			s.nd.push_back(Nd{e, 0, w});
			if (e->v >= s.model.size()) s.model.resize(e->v + 16);
			s.model[e->v] = 0;
			set(w < 64 ? Val(mk(ZEXT, 64, e)) : Val(e));
			return;
		}
		case B_ASSUME: {
			Val c = A(0);
			if (!c.e) { if (!(c.c & mask(32))) { ++st.assumed; endPath(); } return; }
			E e = mkNot(mk(EQ, 1, c.e, K(c.e->w, 0)));
			if (isK(e)) { if (!e->v) { ++st.assumed; endPath(); } return; }
			if (!holds(s, e)) {
				std::vector<u64> m;
				if (!sat(s, e, m)) { ++st.assumed; endPath(); }
				s.model = m;
			}
			addPc(s, e);
			return;
		}
		case B_CHECK: {
			Val c = A(0);
			E e = c.e ? mkNot(mk(EQ, 1, c.e, K(c.e->w, 0))) : K(1, (c.c & mask(32)) != 0);
			if (isK(e) && e->v) { ++st.checks; return; }
			require(s, e, "CHECK " + cstr(s, A(1)));
			return;
		}
		case B_REACH: { std::string l = cstr(s, A(0)); emit(s, "reach", l, s.model); s.labels.push_back(labelId(l)); return; }
		case B_OBS: s.labels.push_back(0); s.obs.push_back(A(0)); return;
		case B_DONE: finish(s);
		case B_MALLOC: { Val n = A(0); u64 k = concretize(s, n, 64); if (k > (1u << 28)) { set(Val((u64)0)); return; } set(Val(alloc(s, k, 0, true, false, true)->base)); return; }
		case B_CALLOC: { Val n = A(0), m = A(1); u64 k = concretize(s, n, 64) * concretize(s, m, 64); if (k > (1u << 28)) { set(Val((u64)0)); return; } set(Val(alloc(s, k, 0, true, false, false)->base)); return; }
		case B_REALLOC: {
			Val p = A(0), n = A(1);
			u64 k = concretize(s, n, 64), a = concretize(s, p, 64);
			Obj * o = alloc(s, k, 0, true, false, true);
			if (a) {
				auto it = s.mem.find(a);
				if (it == s.mem.end() || !it->second.o->heap) violation(s, "invalid realloc");
				u64 m = std::min(k, it->second.o->size);
				if (m) copyMem(s, Val(o->base), p, Val(m), true);
				freeMem(s, p);
			}
			set(Val(o->base));
			return;
		}
		case B_FREE: freeMem(s, A(0)); return;
		case B_ABORT: violation(s, "abort() called");
		case B_EXIT: finish(s);
		case B_ASSERTFAIL: violation(s, "assertion failed: " + cstr(s, A(0)));
		case B_MEMCPY: copyMem(s, A(0), A(1), A(2), false); set(A(0)); return;
		case B_MEMMOVE: copyMem(s, A(0), A(1), A(2), true); set(A(0)); return;
		case B_MEMSET: setMem(s, A(0), A(1), A(2)); set(A(0)); return;
		case B_CONC: { Val v = A(0); set(Val(concretize(s, v, in.w))); return; }
		case B_LIVE: { u64 n = 0; for (auto & o : s.mem) n += o.second.o->heap; set(Val(n)); return; }
		case B_MERGE_AND: case B_MERGE_OR: {
			auto tb = [&](Val v) { return v.e ? mkNot(mk(EQ, 1, v.e, K(v.e->w, 0))) : K(1, (v.c & mask(32)) != 0); };
			E e = mk(in.builtin == B_MERGE_AND ? AND : OR, 1, tb(A(0)), tb(A(1)));
			set(Val(mk(ZEXT, 32, e)));
			return;
		}
		case B_SEL: {
			Val c = A(0);
			E e = c.e ? mkNot(mk(EQ, 1, c.e, K(c.e->w, 0))) : K(1, (c.c & mask(32)) != 0);
			set(Val(mk(ITE, in.w, e, toE(A(1), in.w), toE(A(2), in.w))));
			return;
		}
		case B_FMTD: {
			Val d = A(3), b = A(0);
			u64 x = concretize(s, d, 64);
			char buf[512];
			int n = snprintf(buf, std::min<u64>(A(1).c, sizeof buf), cstr(s, A(2)).c_str(), fpv(x, 64));
			(void)n;
			for (size_t i = 0; i <= strlen(buf); ++i) store(s, Val(b.c + i), 1, Val((u64)(unsigned char)buf[i]));
			return;
		}
		case B_STRTOD: {
			Val p = A(0);
			std::string t;
			for (u64 i = 0; i < 400; ++i) {
				Val c = load(s, Val(p.c + i), 1);
				u64 x = concretize(s, c, 8);
				if (!x || !(isalnum((int)x) || strchr("+-. \t", (int)x))) break;
				t += (char)x;
			}
			char * e;
			double d = strtod(t.c_str(), &e);
			store(s, A(1), 4, Val((u64)(e - t.c_str())));
			u64 v; memcpy(&v, &d, 8);
			set(Val(v));
			return;
		}
		case B_COCREATE: {
			Val fp = A(0), arg = A(1);
			Function * F = fnAddr.at(fp.c);
			int save = s.cur;
			s.co.emplace_back();
			s.cur = s.co.size() - 1;
			int id = s.cur;
			enter(s, F, {arg}, -1);
			s.cur = save;
			s.co[save].st.back().r[in.dst] = Val((u64)id);
			return;
		}
		case B_COSWITCH: {
			Val t = A(0);
			u64 k = concretize(s, t, 32);
			if (k >= s.co.size()) die("bad coroutine");
			s.cur = k;
			return;
		}
		case B_COSELF: set(Val((u64)s.cur)); return;
		}
		die("builtin");
	}
	Function * F = in.callee;
	std::vector<Val> args;
	unsigned na = cb->arg_size();
	for (unsigned i = 0; i < na; ++i) args.push_back(A(i));
	if (!F) {
		Val t = A(na);
		u64 a = concretize(s, t, 64);
		auto it = fnAddr.find(a);
		if (it == fnAddr.end()) violation(s, a ? "call of an invalid function pointer" : "call of a null function pointer");
		F = it->second;
		auto b = builtins.find(F->getName().str());
		if (b != builtins.end()) {
			if (b->second == B_FREE) { freeMem(s, args[0]); return; }
			problem("indirect call of builtin " + F->getName().str());
			endPath();
		}
	}
	enter(s, F, args, in.dst);
}

static void step(State & s)
{
	Frame & f = s.top();
	Block & B = f.f->b[f.bb];
	if (f.ip == 0 && B.nphi) {
		std::vector<Val> v(B.nphi);
		for (unsigned i = 0; i < B.nphi; ++i) {
			Inst & p = B.in[i];
			for (size_t k = 0; k < p.succ.size(); ++k)
				if (p.succ[k] == f.prev) { v[i] = get(s, f, p.ops[k]); break; }
		}
		for (unsigned i = 0; i < B.nphi; ++i) f.r[B.in[i].dst] = v[i];
		f.ip = B.nphi;
	}
	Inst & in = B.in[f.ip++];
	++s.steps;
	++st.steps;
	Instruction * I = in.I;
	unsigned opc = I->getOpcode();
	auto A = [&](unsigned i) { return get(s, f, in.ops[i]); };
	switch (opc) {
	case Instruction::Br: {
		if (in.ops.empty()) { setBB(f, in.succ[0]); f.f->cov[f.bb] = 1; return; }
		Val c = A(0);
		bool side;
		if (!c.e) side = c.c & 1;
		else {
			State * o;
			side = branch(s, c.e, &o);
			if (o) { Frame & of = o->top(); setBB(of, in.succ[side ? 1 : 0]); of.f->cov[of.bb] = 1; }
		}
		setBB(f, in.succ[side ? 0 : 1]);
		f.f->cov[f.bb] = 1;
		return;
	}
	case Instruction::Switch: {
		Val c = A(0);
		unsigned w = widthOf(cast<SwitchInst>(I)->getCondition()->getType());
		if (!c.e) {
			int t = in.succ[0];
			for (size_t i = 1; i < in.ops.size(); ++i) if (in.ops[i].k.c == c.c) { t = in.succ[i]; break; }
			setBB(f, t);
			f.f->cov[f.bb] = 1;
			return;
		}
		// one case after the other
		for (size_t i = 1; i < in.ops.size(); ++i) {
			E q = mk(EQ, 1, c.e, K(w, in.ops[i].k.c));
			State * o;
			if (isK(q) && !q->v) continue;
			bool side = branch(s, q, &o);
			if (side) {
				if (o) --o->top().ip; // decides the remaining cases
				setBB(f, in.succ[i]);
				f.f->cov[f.bb] = 1;
				return;
			}
			if (o) { Frame & of = o->top(); setBB(of, in.succ[i]); of.f->cov[of.bb] = 1; }
		}
		setBB(f, in.succ[0]);
		f.f->cov[f.bb] = 1;
		return;
	}
	case Instruction::Ret: {
		Val v;
		if (!in.ops.empty()) v = A(0);
		ret(s, v);
		return;
	}
	case Instruction::Unreachable: violation(s, "unreachable code reached");
	case Instruction::Call: case Instruction::Invoke: doCall(s, f, in); return;
	case Instruction::Alloca: {
		auto * ai = cast<AllocaInst>(I);
		Val n = A(0);
		u64 k = concretize(s, n, 64) * DL->getTypeAllocSize(ai->getAllocatedType());
		Obj * o = alloc(s, k, 0, false, true, true);
		f.allocas.push_back(o->base);
		f.r[in.dst] = Val(o->base);
		return;
	}
	case Instruction::Load: {
		if (!in.w) { problem("load of aggregate type at " + locOf(s)); endPath(); }
		unsigned bytes = DL->getTypeStoreSize(I->getType());
		if (in.w > 64) { problem("wide load at " + locOf(s)); endPath(); }
		Val v = load(s, A(0), bytes);
		if (in.w < bytes * 8) { if (v.e) v = Val(mkExtract(v.e, 0, in.w)); else v.c &= mask(in.w); }
		f.r[in.dst] = v;
		return;
	}
	case Instruction::Store: {
		Type * T = cast<StoreInst>(I)->getValueOperand()->getType();
		unsigned w = widthOf(T);
		if (!w || w > 64) { problem("store of unsupported type at " + locOf(s)); endPath(); }
		unsigned bytes = DL->getTypeStoreSize(T);
		Val v = A(0);
		if (in.ops[0].slot == -2) v = Val(var(1, s.nun++, bytes * 8));
		if (v.e && w < bytes * 8) v = Val(mk(ZEXT, bytes * 8, v.e));
		store(s, A(1), bytes, v);
		return;
	}
	case Instruction::GetElementPtr: {
		Val p = A(0);
		u64 c = in.off;
		E e = p.e;
		if (!e) c += p.c;
		for (size_t i = 0; i < in.scale.size(); ++i) {
			Val x = A(in.scale[i].first);
			unsigned w = in.succ[i];
			if (!x.e) c += (u64)sx(x.c, w) * in.scale[i].second;
			else {
				E t = mk(MUL, 64, mk(SEXT, 64, x.e), K(64, in.scale[i].second));
				e = e ? mk(ADD, 64, e, t) : t;
			}
		}
		f.r[in.dst] = e ? Val(mk(ADD, 64, e, K(64, c))) : Val(c);
		return;
	}
	case Instruction::ICmp: f.r[in.dst] = icmp(cast<ICmpInst>(I)->getPredicate(), widthOf(I->getOperand(0)->getType()), A(0), A(1)); return;
	case Instruction::FCmp: {
		unsigned p = cast<FCmpInst>(I)->getPredicate(), w = widthOf(I->getOperand(0)->getType());
		Val a = A(0), b = A(1);
		if (p == 0 || p == 15) f.r[in.dst] = Val((u64)(p == 15));
		else if (!a.e && !b.e) f.r[in.dst] = Val((u64)fcmp(p, fpv(a.c, w), fpv(b.c, w)));
		else {
			E e = nullptr, x = toE(a, w), y = toE(b, w);
			e = raw(FCMP, 1, x, y, nullptr, 0, p);
			f.r[in.dst] = Val(e);
		}
		return;
	}
	case Instruction::FNeg: f.r[in.dst] = binop(Instruction::Xor, in.w, A(0), Val(1ull << (in.w - 1))); return;
	case Instruction::Trunc: { Val a = A(0); if (a.e) f.r[in.dst] = Val(mkExtract(a.e, 0, in.w)); else f.r[in.dst] = Val(a.c & mask(in.w)); return; }
	case Instruction::ZExt: { Val a = A(0); if (in.w > 64) { problem("wide integer at " + locOf(s)); endPath(); } if (a.e) f.r[in.dst] = Val(mk(ZEXT, in.w, a.e)); else f.r[in.dst] = a; return; }
	case Instruction::SExt: { Val a = A(0); unsigned w = widthOf(I->getOperand(0)->getType()); if (a.e) f.r[in.dst] = Val(mk(SEXT, in.w, a.e)); else f.r[in.dst] = Val((u64)sx(a.c, w) & mask(in.w)); return; }
	case Instruction::BitCast: case Instruction::Freeze: f.r[in.dst] = A(0); return;
	case Instruction::PtrToInt: { Val a = A(0); if (in.w < 64) { if (a.e) a = Val(mkExtract(a.e, 0, in.w)); else a.c &= mask(in.w); } f.r[in.dst] = a; return; }
	case Instruction::IntToPtr: { Val a = A(0); unsigned w = widthOf(I->getOperand(0)->getType()); if (a.e && w < 64) a = Val(mk(ZEXT, 64, a.e)); f.r[in.dst] = a; return; }
	case Instruction::FPToSI: case Instruction::FPToUI: case Instruction::SIToFP: case Instruction::UIToFP: case Instruction::FPExt: case Instruction::FPTrunc: {
		Val a = A(0);
		unsigned w = widthOf(I->getOperand(0)->getType());
		Op op = opc == Instruction::FPToSI ? FTOSI : opc == Instruction::FPToUI ? FTOUI : opc == Instruction::SIToFP ? SITOF : opc == Instruction::UIToFP ? UITOF : FTOF;
		if (!w || !in.w || w > 64 || in.w > 64) { problem("float type at " + locOf(s)); endPath(); }
		if (!a.e) f.r[in.dst] = Val(fold(op, in.w, 0, a.c, w, 0, 0, 0));
		else f.r[in.dst] = Val(raw(op, in.w, a.e));
		return;
	}
	case Instruction::Select: {
		Val c = A(0);
		if (!c.e) { f.r[in.dst] = c.c & 1 ? A(1) : A(2); return; }
		Val x = A(1), y = A(2);
		if (I->getType()->isPointerTy() || x.agg || y.agg) {
			State * o;
			bool side = branch(s, c.e, &o);
			if (o) o->top().r[in.dst] = side ? y : x;
			f.r[in.dst] = side ? x : y;
			return;
		}
		f.r[in.dst] = Val(mk(ITE, in.w, c.e, toE(x, in.w), toE(y, in.w)));
		return;
	}
	case Instruction::ExtractValue: {
		Val a = A(0);
		auto ix = cast<ExtractValueInst>(I)->getIndices();
		for (unsigned i : ix) a = Val((*a.agg)[i]);
		f.r[in.dst] = a;
		return;
	}
	case Instruction::InsertValue: {
		Val a = A(0);
		auto ix = cast<InsertValueInst>(I)->getIndices();
		if (ix.size() != 1) { problem("nested insertvalue"); endPath(); }
		Val n;
		n.agg = new std::vector<Val>(*a.agg);
		(*n.agg)[ix[0]] = A(1);
		f.r[in.dst] = n;
		return;
	}
	case Instruction::Fence: return;
	case Instruction::AtomicRMW: case Instruction::AtomicCmpXchg: problem("atomic at " + locOf(s)); endPath();
	default:
		if (I->isBinaryOp()) { f.r[in.dst] = binop(opc, in.w, A(0), A(1)); return; }
		problem("instruction " + std::string(I->getOpcodeName()));
		endPath();
	}
}

static void runPath(State * s)
{
	try {
		for (;;) {
			step(*s);
			if (s->steps > maxSteps) {
				++st.truncated;
				emit(*s, "violation", "does not terminate within the step bound", s->model);
				endPath();
			}
			if ((s->steps & 0x3fff) == 0 && now() - tStart > tLimit) { endPath(); }
		}
	} catch (PathEnd &) {}
	++st.paths;
	delete s;
}

static bool timeUp()
{
	double t = now();
	if (t - tStart > tLimit) { problem("time limit: " + std::to_string(work.size()) + "+ paths unexplored"); return true; }
	if (firstViolation && t - firstViolation > 20) return true;
	return false;
}

static void report()
{
	for (auto & p : samples) fputs(p.second.c_str(), out);
	fprintf(out, "{\"kind\":\"stats\",\"paths\":%lu,\"steps\":%lu,\"queries\":%lu,\"cache\":%lu,\"checks\":%lu,\"forks\":%lu,\"assumed\":%lu,\"solver\":%.3f,\"fn\":[",
		st.paths, st.steps, st.queries, st.cacheHits, st.checks, st.forks, st.assumed, st.solver);
	bool first = true;
	for (auto & p : fns) {
		if (!p.second->repo) continue;
		std::string fn = p.first->getSubprogram()->getFilename().str();
		if (fn[0] != '/') fn = p.first->getSubprogram()->getDirectory().str() + "/" + fn;
		std::string cv;
		for (auto c : p.second->cov) cv += c ? '1' : '0';
		fprintf(out, "%s[%s,%s,\"%s\"]", first ? "" : ",", jstr(fn.substr(repoPrefix.size())).c_str(), jstr(p.first->getSubprogram()->getName().str()).c_str(), cv.c_str());
		first = false;
	}
	fprintf(out, "]}\n");
	flushOut();
}

// ---------------------------------------------------------------- workers
static int jobs = 1;
static std::atomic<int> * active;  // shared by all workers
static std::vector<pid_t> kids;
static void reap()
{
	for (auto p : kids) {
		int w;
		waitpid(p, &w, 0);
		if (!WIFEXITED(w) || WEXITSTATUS(w)) problem("worker died, status " + std::to_string(w));
	}
	kids.clear();
}
/** explore the given states in a process of its own; whenever there are fewer
 * than -j workers, a worker gives away half of what it still has to do */
static bool worker(const std::vector<State *> & mine, int j)
{
	flushOut();
	++*active;
	pid_t p = fork();
	if (p < 0) {
		--*active;
		return false;
	}
	if (p) {
		kids.push_back(p);
		return true;
	}
	kids.clear();
	work.assign(mine.begin(), mine.end());
	st = Stats();
	samples.clear();
	finished = 0;
	rnd += 0x9e3779b97f4a7c15ull * j;
	double last = now();
	int n = 0;
	while (!work.empty() && !timeUp()) {
		State * x = work.back();
		work.pop_back();
		runPath(x);
		if (work.size() >= 2 && active->load(std::memory_order_relaxed) < jobs && now() - last > 0.02) {
			last = now();
			std::vector<State *> give, keep;
			for (size_t i = 0; i < work.size(); ++i) (i % 2 ? keep : give).push_back(work[i]);
			if (worker(give, j * 31 + ++n)) work.assign(keep.begin(), keep.end());
		}
	}
	--*active;
	reap();
	report();
	_exit(0);
}

int main(int argc, char ** argv)
{
	active = (std::atomic<int> *)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	outLock = active + 16;
	const char * file = nullptr;
	const char * entry = "main";
	for (int i = 1; i < argc; ++i) {
		if (!strcmp(argv[i], "-j")) jobs = atoi(argv[++i]);
		else if (!strcmp(argv[i], "-t")) tLimit = atof(argv[++i]);
		else if (!strcmp(argv[i], "-s")) maxSteps = strtoull(argv[++i], nullptr, 10);
		else if (!strcmp(argv[i], "-r")) repoPrefix = argv[++i];
		else if (!strcmp(argv[i], "-e")) entry = argv[++i];
		else if (!strcmp(argv[i], "-k")) knownWhat.push_back(argv[++i]);
		else if (!strcmp(argv[i], "-n")) maxSamples = atoi(argv[++i]);
		else file = argv[i];
	}
	out = stdout;
	setvbuf(out, nullptr, _IOFBF, 1 << 22);
	tStart = now();
	LLVMContext ctx;
	SMDiagnostic err;
	auto mod = parseIRFile(file, err, ctx);
	if (!mod) { err.print("symx", errs()); return 9; }
	M = mod.get();
	DL = &M->getDataLayout();
	Z3_config cfg = Z3_mk_config();
	zc = Z3_mk_context(cfg);
	zs = Z3_mk_solver_for_logic(zc, Z3_mk_string_symbol(zc, "QF_BV"));
	Z3_solver_inc_ref(zc, zs);
	zsf = Z3_mk_solver_for_logic(zc, Z3_mk_string_symbol(zc, "QF_BVFP"));
	Z3_solver_inc_ref(zc, zsf);
	Z3_params pr = Z3_mk_params(zc);
	Z3_params_inc_ref(zc, pr);
	Z3_params_set_uint(zc, pr, Z3_mk_string_symbol(zc, "timeout"), 120000);
	Z3_solver_set_params(zc, zs, pr);
	Z3_solver_set_params(zc, zsf, pr);

	State * s = new State;
	for (auto & F : *M) if (!F.isIntrinsic()) fnAddress(&F);
	std::vector<std::pair<GlobalVariable *, Obj *>> gl;
	for (auto & g : M->globals()) {
		if (!g.getValueType()->isSized()) continue;
		Obj * o = alloc(*s, DL->getTypeAllocSize(g.getValueType()), 0, false, false, false);
		gaddr[&g] = o->base;
		gl.push_back({&g, o});
	}
	for (auto & p : gl) {
		if (p.first->hasInitializer()) initGlobal(p.second, 0, p.first->getInitializer());
		p.second->ro = p.first->isConstant();
	}
	std::vector<Function *> init;
	if (auto * gc = M->getGlobalVariable("llvm.global_ctors"))
		if (gc->hasInitializer())
			if (auto * ca = dyn_cast<ConstantArray>(gc->getInitializer()))
				for (auto & e : ca->operands()) init.push_back(dyn_cast<Function>(cast<ConstantStruct>(e)->getOperand(1)));
	for (auto & F : *M) for (auto & B : F) for (auto & I : B)
		if (auto * cb = dyn_cast<CallBase>(&I))
			if (cb->getCalledFunction() && cb->getCalledFunction()->getName() == "symx_reach")
				if (auto * c = dyn_cast<Constant>(cb->getArgOperand(0))) {
					Val v = constVal(c);
					fprintf(out, "{\"kind\":\"label\",\"what\":%s}\n", jstr(cstr(*s, v)).c_str());
				}
	flushOut();
	s->co.resize(1);
	Function * mainF = M->getFunction(entry);
	if (!mainF) { fprintf(stderr, "no main\n"); return 9; }
	enter(*s, mainF, {Val((u64)0), Val((u64)0)}, -1);
	for (size_t i = init.size(); i-- > 0;) enter(*s, init[i], {}, -1);
	work.push_back(s);

	// breadth first until there is enough for all workers, then depth first
	bool split = false;
	while (!work.empty()) {
		if (timeUp()) break;
		if (!split && jobs > 1 && work.size() >= (size_t)jobs * 24) {
			split = true;
			break;
		}
		State * x = jobs > 1 ? work.front() : work.back();
		if (jobs > 1) work.pop_front(); else work.pop_back();
		if (jobs > 1) {
			// run until the first fork only
			size_t n = work.size();
			bool ended = false;
			try {
				while (work.size() == n) {
					step(*x);
					if (x->steps > maxSteps) { emit(*x, "violation", "does not terminate within the step bound", x->model); endPath(); }
					if ((x->steps & 0x3fff) == 0 && timeUp()) endPath();
				}
			} catch (PathEnd &) { ended = true; }
			if (ended) { ++st.paths; delete x; }
			else work.push_back(x);
		} else
			runPath(x);
	}
	if (split) {
		std::vector<State *> all(work.begin(), work.end());
		for (int j = 0; j < jobs; ++j) {
			std::vector<State *> mine;
			for (size_t i = j; i < all.size(); i += jobs) mine.push_back(all[i]);
			worker(mine, j + 1);
		}
		reap();
	}
	report();
	_exit(0);
}
