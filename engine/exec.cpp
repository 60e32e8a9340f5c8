#include <array>
// hsx: symbolic executor for LLVM IR (the compiled real code plus a harness).
#include "solver.h"
#include <llvm/ADT/SmallVector.h>
#include <llvm/BinaryFormat/Dwarf.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/CFG.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <algorithm>
#include <cfenv>
#include <cmath>
#include <cstdio>
#include <cstring>
#include <fstream>
#include <iostream>
#include <memory>
#include <set>
#include <sstream>
#include <unordered_map>
#include <unordered_set>
using namespace llvm;

std::string hex128(u128 v);

struct V { u128 c; T t; };
static inline V cv(u128 c) { V v; v.c = c; v.t = 0; return v; }
static inline T toT(const V &v, unsigned w) { return v.t ? v.t : mkConst(w, v.c); }
static inline V fromT(T t) { V v; if (tm.isC(t)) { v.c = tm[t].k; v.t = 0; } else { v.c = 0; v.t = t; } return v; }
static inline bool same(const V &a, const V &b) { return a.t == b.t && (a.t || a.c == b.c); }

struct Cell { T t; u8 b; u8 f; };
static inline bool operator==(const Cell &x, const Cell &y) { return x.t == y.t && x.b == y.b && x.f == y.f; }
enum { K_GLOBAL, K_STACK, K_HEAP };
struct Obj
{
	u64 base = 0, size = 0;
	u8 kind = 0; bool ro = false, alive = true, lazy = false;
	std::vector<Cell> d;
	const GlobalVariable *gv = nullptr;
};
typedef std::shared_ptr<Obj> ObjP;

struct Leaf { u32 w; u64 off; u32 bytes; };
struct Operand { int slot = -1; std::vector<V> c; };
struct Fn;
struct PhiIn { int pred; Operand o; };
struct Ins
{
	unsigned op = 0, sub = 0; int dst = -1; u32 n = 0; u32 w = 0, w2 = 0;
	std::vector<Operand> o;
	std::vector<Leaf> leaves;
	std::vector<u32> idx;                 // shuffle mask / extract offset / argument widths
	std::vector<std::pair<u32, u64>> gep; // operand index, scale
	u64 k = 0; bool inb = false;
	int t = -1, f = -1;                   // successors (block numbers)
	std::vector<std::pair<u128, int>> cases;
	std::vector<PhiIn> phi;
	const Function *callee = nullptr;
	int builtin = -1;
	const Instruction *I = nullptr;
};
struct BB { std::vector<Ins> phis, ins; int ipdom = -1; bool seen = false; };
struct Fn
{
	const Function *F = nullptr;
	std::vector<BB> b;
	u32 slots = 0;
	std::vector<u16> sw;                  // slot widths
	std::vector<u32> paramSlot, paramN;
	bool called = false;
};

struct Frame
{
	Fn *fn = nullptr; int bb = 0; u32 ip = 0;
	std::vector<V> r;
	const Ins *site = nullptr;            // call instruction in the caller
	int mark = 0;                         // 1: vp_try, 2: tripwire handler
	std::vector<u64> allocas;
	std::vector<V> ehVal;                 // pending exception for landingpad
};
struct State
{
	std::vector<ObjP> g, h, s;
	std::vector<Frame> fr;
	std::vector<T> pc;
	u64 excPtr = 0, excType = 0;
	std::vector<u64> caught;
	std::array<u64, 32> tripRead {};      // bytes of the tripwire object read so far
	bool dead = false;
};

struct Violation { std::string kind, msg, where; Model m; };
struct JobStop { std::string status, why; };

struct Sym { std::string name; std::vector<T> bytes; };

struct Engine
{
	LLVMContext ctx; std::unique_ptr<Module> M; const DataLayout *DL = nullptr;
	unsigned PW = 64; bool BE = false;
	std::unordered_map<const Function *, std::unique_ptr<Fn>> fns;
	std::unordered_map<const GlobalValue *, u64> gaddr;
	std::unordered_map<u64, const Function *> fnAt;
	std::vector<ObjP> ginit;
	u64 heapTop = 0, stackTop = 0, heapBase = 0, stackBase = 0, globBase = 0, globTop = 0, GAP = 4096;
	std::unordered_map<u64, u32> typeIds;
	// job
	std::vector<long long> params;
	std::vector<Sym> syms; std::unordered_map<std::string, std::string> concreteIn; bool concreteMode = false;
	u64 instrs = 0, instrLimit = 400000000ull, forks = 0, asserts = 0, obligations = 0, covers = 0, merges_ = 0, inconclusive = 0;
	std::string inconcWhy;
	u64 heapLive = 0, heapAllocs = 0, tripBase = 0, tripEnd = 0, tripFn = 0; bool tripped = false;
	double assertBudget = 60; bool strictUninit = false;
	unsigned forkDepth = 0;
	std::vector<std::string> records; std::set<std::string> coverSet;
	std::set<std::string> funcs;
	std::unordered_set<const Metadata *> dbgSeen;
	std::vector<Model> witnesses;
	std::unordered_map<T, bool> implied;

	// ------------------------------------------------------------ types
	void flat(Type *ty, u64 off, std::vector<Leaf> &out)
	{
		if (ty->isVoidTy()) return;
		if (auto *it = dyn_cast<IntegerType>(ty))
		{
			unsigned w = it->getBitWidth(); if (w > 128) throw Unsupported("integer wider than 128 bits");
			out.push_back({w, off, (u32)((w + 7) / 8)}); return;
		}
		if (ty->isPointerTy()) { out.push_back({PW, off, PW / 8}); return; }
		if (ty->isDoubleTy()) { out.push_back({64, off, 8}); return; }
		if (ty->isFloatTy()) { out.push_back({32, off, 4}); return; }
		if (ty->isX86_FP80Ty()) { out.push_back({80, off, 10}); return; }
		if (ty->isFP128Ty() || ty->isPPC_FP128Ty()) { out.push_back({128, off, 16}); return; }
		if (auto *st = dyn_cast<StructType>(ty))
		{
			const StructLayout *sl = DL->getStructLayout(st);
			for (unsigned i = 0; i < st->getNumElements(); ++i) flat(st->getElementType(i), off + sl->getElementOffset(i), out);
			return;
		}
		if (auto *at = dyn_cast<ArrayType>(ty))
		{
			u64 es = DL->getTypeAllocSize(at->getElementType());
			for (u64 i = 0; i < at->getNumElements(); ++i) flat(at->getElementType(), off + i * es, out);
			return;
		}
		if (auto *vt = dyn_cast<FixedVectorType>(ty))
		{
			u64 bits = DL->getTypeSizeInBits(vt->getElementType());
			for (unsigned i = 0; i < vt->getNumElements(); ++i) { std::vector<Leaf> one; flat(vt->getElementType(), 0, one); one[0].off = off + i * bits / 8; out.push_back(one[0]); }
			return;
		}
		if (ty->isTokenTy() || ty->isMetadataTy()) return;
		std::string s; raw_string_ostream os(s); ty->print(os);
		throw Unsupported("type " + os.str());
	}
	std::vector<Leaf> leavesOf(Type *ty) { std::vector<Leaf> l; flat(ty, 0, l); return l; }
	u32 countOf(Type *ty)
	{
		if (auto *at = dyn_cast<ArrayType>(ty)) return (u32)at->getNumElements() * countOf(at->getElementType());
		if (auto *st = dyn_cast<StructType>(ty)) { u32 n = 0; for (Type *e : st->elements()) n += countOf(e); return n; }
		if (auto *vt = dyn_cast<FixedVectorType>(ty)) return vt->getNumElements();
		if (ty->isVoidTy() || ty->isTokenTy() || ty->isMetadataTy() || ty->isLabelTy()) return 0;
		return 1;
	}

	// ------------------------------------------------------------ module loading
	void load(const std::string &file)
	{
		SMDiagnostic err;
		M = parseIRFile(file, err, ctx);
		if (!M) { std::string s; raw_string_ostream os(s); err.print("hsx", os); throw std::runtime_error(os.str()); }
		DL = &M->getDataLayout();
		PW = DL->getPointerSizeInBits(); BE = DL->isBigEndian();
		if (PW == 64) { globBase = 0x10000000ull; heapBase = 0x1000000000ull; stackBase = 0x7f0000000000ull; GAP = 4096; }
		else { globBase = 0x04000000ull; heapBase = 0x30000000ull; stackBase = 0xA0000000ull; GAP = 128; }
		u64 fa = 0x10000;
		for (Function &F : *M) { gaddr[&F] = fa; fnAt[fa] = &F; fa += 16; }
		u64 a = globBase;
		for (GlobalVariable &G : M->globals())
		{
			u64 size = G.getValueType()->isSized() ? (u64)DL->getTypeAllocSize(G.getValueType()) : 1;
			u64 al = std::max<u64>(16, G.getAlign() ? G.getAlign()->value() : 16);
			a = (a + al - 1) / al * al;
			auto o = std::make_shared<Obj>();
			o->base = a; o->size = size; o->kind = K_GLOBAL; o->ro = G.isConstant(); o->gv = &G; o->lazy = true;
			ginit.push_back(o);
			gaddr[&G] = a;
			a += size + std::min<u64>(GAP, 512);
		}
		globTop = a;
		for (GlobalAlias &A : M->aliases())
		{
			APInt off(DL->getIndexSizeInBits(0), 0);
			const Value *b = A.getAliasee()->stripAndAccumulateConstantOffsets(*DL, off, true);
			if (auto *gv = dyn_cast<GlobalValue>(b)) { if (gaddr.count(gv)) gaddr[&A] = gaddr[gv] + off.getSExtValue(); }
		}
	}
	void materialize(Obj &o)
	{
		if (!o.lazy) return;
		o.lazy = false;
		o.d.assign(o.size, Cell{0, 0, 0});
		if (o.gv && o.gv->hasInitializer()) init(o, 0, o.gv->getInitializer());
	}
	void putConst(Obj &o, u64 off, u128 v, unsigned bytes)
	{
		for (unsigned i = 0; i < bytes; ++i) { unsigned p = BE ? bytes - 1 - i : i; o.d[off + i] = Cell{0, (u8)(v >> (8 * p)), 0}; }
	}
	void init(Obj &o, u64 off, const Constant *c)
	{
		if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) return;
		if (auto *cd = dyn_cast<ConstantDataSequential>(c))
		{
			u64 es = cd->getElementByteSize();
			for (unsigned i = 0; i < cd->getNumElements(); ++i)
			{
				u64 v = cd->getElementType()->isIntegerTy() ? cd->getElementAsInteger(i) : cd->getElementAsAPFloat(i).bitcastToAPInt().getZExtValue();
				putConst(o, off + i * es, v, (unsigned)es);
			}
			return;
		}
		if (auto *ca = dyn_cast<ConstantArray>(c))
		{
			u64 es = DL->getTypeAllocSize(ca->getType()->getElementType());
			for (unsigned i = 0; i < ca->getNumOperands(); ++i) init(o, off + i * es, ca->getOperand(i));
			return;
		}
		if (auto *cs = dyn_cast<ConstantStruct>(c))
		{
			const StructLayout *sl = DL->getStructLayout(cs->getType());
			for (unsigned i = 0; i < cs->getNumOperands(); ++i) init(o, off + sl->getElementOffset(i), cs->getOperand(i));
			return;
		}
		if (auto *vc = dyn_cast<ConstantVector>(c))
		{
			u64 es = DL->getTypeAllocSize(vc->getType()->getElementType());
			for (unsigned i = 0; i < vc->getNumOperands(); ++i) init(o, off + i * es, vc->getOperand(i));
			return;
		}
		std::vector<V> v; constant(c, v);
		putConst(o, off, v[0].c, (unsigned)DL->getTypeStoreSize(c->getType()));
	}
	static u128 apToU(const APInt &a) { u128 r = a.getRawData()[0]; if (a.getBitWidth() > 64) r |= (u128)a.getRawData()[1] << 64; return r & mask(a.getBitWidth()); }
	bool undefAsVar = true;
	void constant(const Constant *c, std::vector<V> &out)
	{
		if (auto *ci = dyn_cast<ConstantInt>(c)) { if (ci->getBitWidth() > 128) throw Unsupported("wide constant"); out.push_back(cv(apToU(ci->getValue()))); return; }
		if (auto *cf = dyn_cast<ConstantFP>(c)) { out.push_back(cv(apToU(cf->getValueAPF().bitcastToAPInt()))); return; }
		if (isa<ConstantPointerNull>(c)) { out.push_back(cv(0)); return; }
		if (auto *gv = dyn_cast<GlobalValue>(c)) { out.push_back(cv(gaddr.at(gv))); return; }
		if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) { for (u32 i = 0, n = countOf(c->getType()); i < n; ++i) out.push_back(cv(0)); return; }
		if (auto *cd = dyn_cast<ConstantDataSequential>(c))
		{
			for (unsigned i = 0; i < cd->getNumElements(); ++i) out.push_back(cv(cd->getElementType()->isIntegerTy() ? (u128)cd->getElementAsInteger(i) : apToU(cd->getElementAsAPFloat(i).bitcastToAPInt())));
			return;
		}
		if (isa<ConstantAggregate>(c)) { for (const Use &u : c->operands()) constant(cast<Constant>(u.get()), out); return; }
		if (auto *ce = dyn_cast<ConstantExpr>(c))
		{
			auto one = [&](unsigned i) { std::vector<V> v; constant(cast<Constant>(ce->getOperand(i)), v); return v[0].c; };
			unsigned w = ce->getType()->isPointerTy() ? PW : (ce->getType()->isIntegerTy() ? ce->getType()->getIntegerBitWidth() : 0);
			switch (ce->getOpcode())
			{
			case Instruction::GetElementPtr:
			{
				APInt off(DL->getIndexSizeInBits(0), 0);
				if (!cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off)) throw Unsupported("constant gep");
				out.push_back(cv((one(0) + (u64)off.getSExtValue()) & mask(PW))); return;
			}
			case Instruction::BitCast: case Instruction::AddrSpaceCast: case Instruction::IntToPtr: case Instruction::PtrToInt: case Instruction::Trunc: case Instruction::ZExt:
				out.push_back(cv(one(0) & mask(w ? w : 64))); return;
			case Instruction::Add: out.push_back(cv((one(0) + one(1)) & mask(w))); return;
			case Instruction::Sub: out.push_back(cv((one(0) - one(1)) & mask(w))); return;
			case Instruction::Mul: out.push_back(cv((one(0) * one(1)) & mask(w))); return;
			case Instruction::And: out.push_back(cv((one(0) & one(1)) & mask(w))); return;
			case Instruction::Or: out.push_back(cv((one(0) | one(1)) & mask(w))); return;
			case Instruction::Xor: out.push_back(cv((one(0) ^ one(1)) & mask(w))); return;
			case Instruction::Shl: out.push_back(cv((one(0) << (unsigned)one(1)) & mask(w))); return;
			case Instruction::LShr: out.push_back(cv((one(0) >> (unsigned)one(1)) & mask(w))); return;
			case Instruction::ICmp:
			{
				u128 a = one(0), b = one(1); bool r;
				switch (ce->getPredicate()) { case CmpInst::ICMP_EQ: r = a == b; break; case CmpInst::ICMP_NE: r = a != b; break; case CmpInst::ICMP_ULT: r = a < b; break; case CmpInst::ICMP_UGT: r = a > b; break; case CmpInst::ICMP_ULE: r = a <= b; break; case CmpInst::ICMP_UGE: r = a >= b; break;
				default:
				{
					Type *ot = ce->getOperand(0)->getType(); unsigned ow = ot->isPointerTy() ? PW : ot->getIntegerBitWidth();
					auto sx = [&](u128 x) { return (__int128)(x << (128 - ow)) >> (128 - ow); };
					__int128 sa = sx(a), sb = sx(b);
					switch (ce->getPredicate()) { case CmpInst::ICMP_SLT: r = sa < sb; break; case CmpInst::ICMP_SLE: r = sa <= sb; break; case CmpInst::ICMP_SGT: r = sa > sb; break; case CmpInst::ICMP_SGE: r = sa >= sb; break; default: throw Unsupported("constant icmp"); }
				} }
				out.push_back(cv(r)); return;
			}
			default: break;
			}
		}
		std::string s; raw_string_ostream os(s); c->print(os);
		throw Unsupported("constant " + os.str());
	}

	// ------------------------------------------------------------ decoding
	enum Builtin : int;
	std::unordered_map<std::string, int> bnames;
	Fn *getFn(const Function *F)
	{
		auto &p = fns[F];
		if (!p) { std::unique_ptr<Fn> q(new Fn()); decode(F, *q); p = std::move(q); }
		return p.get();
	}
	void decode(const Function *F, Fn &fn);
	void postdom(const Function *F, Fn &fn, const std::unordered_map<const BasicBlock *, int> &num);

	// ------------------------------------------------------------ memory
	u64 alloc(std::vector<ObjP> &v, u64 &top, u64 size, u64 align, u8 kind, bool zero)
	{
		if (size > (1ull << 28)) throw Unsupported("allocation too large: " + std::to_string(size));
		if (align < 16) align = 16;
		top = (top + align - 1) / align * align;
		auto o = std::make_shared<Obj>();
		o->base = top; o->size = size; o->kind = kind;
		o->d.assign(size, Cell{0, 0, (u8)(zero ? 0 : 1)});
		v.push_back(o);
		u64 a = top;
		top += size + GAP;
		if (PW == 32 && kind == K_HEAP && top > 0x9F000000ull) throw Unsupported("32-bit heap exhausted");
		if (PW == 32 && kind == K_STACK && top > 0xFFF00000ull) throw Unsupported("32-bit stack exhausted");
		return a;
	}
	ObjP *find(State &S, u64 a)
	{
		std::vector<ObjP> *v;
		if (a >= stackBase) v = &S.s; else if (a >= heapBase) v = &S.h; else if (a >= globBase) v = &S.g; else return nullptr;
		size_t lo = 0, hi = v->size();
		while (lo < hi) { size_t m = (lo + hi) / 2; if ((*v)[m]->base <= a) lo = m + 1; else hi = m; }
		if (lo == 0) return nullptr;
		ObjP &o = (*v)[lo - 1];
		if (a - o->base > o->size) return nullptr;
		if (o->lazy) materialize(*o);
		return &o;
	}
	std::string where(State &S)
	{
		std::string r;
		for (size_t i = S.fr.size(); i-- > 0 && r.size() < 1500;)
		{
			const Frame &f = S.fr[i];
			const Instruction *I = nullptr;
			if (i + 1 < S.fr.size()) I = S.fr[i + 1].site ? S.fr[i + 1].site->I : nullptr;
			else if (f.bb >= 0 && f.bb < (int)f.fn->b.size()) { auto &b = f.fn->b[f.bb]; if (!b.ins.empty()) I = b.ins[f.ip && f.ip <= b.ins.size() ? f.ip - 1 : 0].I; }
			r += (r.empty() ? "" : " <- ");
			r += demangle(f.fn->F->getName().str()).substr(0, 120);
			if (I && I->getDebugLoc())
			{
				const DILocation *dl = I->getDebugLoc().get();
				r += " (" + dl->getFilename().str() + ":" + std::to_string(dl->getLine()) + ")";
				while ((dl = dl->getInlinedAt())) r += " inlined at " + dl->getFilename().str() + ":" + std::to_string(dl->getLine());
			}
		}
		return r;
	}
	// the current path reaches something forbidden: violation if feasible, dead path otherwise
	void forbidden(State &S, const std::string &kind, const std::string &msg)
	{
		++obligations;
		Model m;
		SatRes r = checkSat(S.pc, 20000, &m);
		if (r == R_SAT) { for (auto &s : syms) for (T b : s.bytes) if (!tm.isC(b) && !m.count(b)) m[b] = 0; throw Violation{kind, msg, where(S), m}; }
		if (r == R_UNKNOWN) { ++inconclusive; inconcWhy = "solver gave up on path feasibility: " + msg; }
		S.dead = true;
		throw PathEnd();
	}
	struct PathEnd {}; struct Trip {};
	// condition must hold on the current path
	void mustHold(State &S, T cond, const std::string &kind, const std::string &msg)
	{
		if (tm.isC(cond) && tm[cond].k) return;
		++obligations;
		std::vector<T> c(S.pc); c.push_back(mkNot(cond));
		Model m;
		SatRes r = checkSat(c, 20000, &m);
		if (r == R_SAT) { for (auto &s : syms) for (T b : s.bytes) if (!tm.isC(b) && !m.count(b)) m[b] = 0; throw Violation{kind, msg, where(S), m}; }
		if (r == R_UNKNOWN) { ++inconclusive; inconcWhy = "solver gave up: " + msg; }
		if (tm.isC(cond)) { S.dead = true; throw PathEnd(); }
	}
	Obj &access(State &S, u64 a, u64 n, bool write, ObjP **pp = nullptr)
	{
		ObjP *o = find(S, a);
		// reading past the end of the tripwire object is the wanted end of a path
		if (tripBase && !write && a + n > tripBase && a < tripEnd + GAP)
		{
			if (a + n > tripEnd) throw Trip();
			for (u64 i = a; i < a + n; ++i) if (i - tripBase < 2048) S.tripRead[(i - tripBase) / 64] |= 1ull << ((i - tripBase) % 64);
		}
		if (!o || a - (*o)->base + n > (*o)->size) forbidden(S, "memory", std::string(write ? "write" : "read") + " of " + std::to_string(n) + " bytes out of bounds at 0x" + hex128(a) + (o ? " (object of " + std::to_string((*o)->size) + " bytes, offset " + std::to_string(a - (*o)->base) + ")" : ""));
		if (!(*o)->alive) forbidden(S, "memory", std::string(write ? "write" : "read") + " after free");
		if (write)
		{
			if ((*o)->ro) forbidden(S, "memory", "write to constant object");
			if (o->use_count() > 1) *o = std::make_shared<Obj>(**o);
		}
		if (pp) *pp = o;
		return **o;
	}
	T cellT(Cell &c)
	{
		if (c.f) { T v = mkVar(8, "uninit" + std::to_string(tm.vars.size()), VF_UNINIT); c.t = v; c.b = 0; c.f = 0; return v; }
		if (!c.t) return mkConst(8, c.b);
		return mkExtract(c.t, 8 * c.b, 8);
	}
	// raw load of n bytes at offset as integer of 8n bits
	V loadRaw(Obj &o, u64 off, unsigned n)
	{
		Cell *p = &o.d[off];
		bool conc = true;
		for (unsigned i = 0; i < n; ++i) if (p[i].t || p[i].f) { conc = false; break; }
		if (conc)
		{
			u128 v = 0;
			for (unsigned i = 0; i < n; ++i) v |= (u128)p[i].b << (8 * (BE ? n - 1 - i : i));
			return cv(v);
		}
		T t0 = p[0].t;
		if (t0 && tm[t0].w == 8 * n)
		{
			bool ok = true;
			for (unsigned i = 0; i < n && ok; ++i) if (p[i].t != t0 || p[i].f || p[i].b != (BE ? n - 1 - i : i)) ok = false;
			if (ok) return fromT(t0);
		}
		bool allU = true; for (unsigned i = 0; i < n; ++i) if (!p[i].f) allU = false;
		if (allU)
		{
			T v = mkVar(8 * n, "uninit" + std::to_string(tm.vars.size()), VF_UNINIT);
			for (unsigned i = 0; i < n; ++i) p[i] = Cell{v, (u8)(BE ? n - 1 - i : i), 0};
			return fromT(v);
		}
		std::vector<T> parts(n);
		for (unsigned i = 0; i < n; ++i)
		{
			// group runs of the same node for fewer extracts
			parts[BE ? n - 1 - i : i] = cellT(p[i]);
		}
		return fromT(mkConcat(parts));
	}
	void storeRaw(Obj &o, u64 off, const V &v, unsigned n, unsigned w)
	{
		Cell *p = &o.d[off];
		if (!v.t) { for (unsigned i = 0; i < n; ++i) p[i] = Cell{0, (u8)(v.c >> (8 * (BE ? n - 1 - i : i))), 0}; return; }
		T t = v.t; if (w != 8 * n) t = mkZext(t, 8 * n);
		const Node &m = tm[t];
		if (m.op == OP_CONCAT || m.op == OP_ITE)   // keep constant bytes concrete
		{
			for (unsigned i = 0; i < n; ++i)
			{
				unsigned b = BE ? n - 1 - i : i;
				if (tm[t].op == OP_CONCAT)
				{
					unsigned pos = 0; bool done = false;
					for (unsigned q = 0; q < tm[t].n && !done; ++q)
					{
						T s = tm.arg(t, q); unsigned sw = tm[s].w;
						if (pos <= 8 * b && 8 * b + 8 <= pos + sw && tm.isC(s)) { p[i] = Cell{0, (u8)(tm[s].k >> (8 * b - pos)), 0}; done = true; }
						pos += sw;
					}
					if (done) continue;
				}
				p[i] = Cell{t, (u8)b, 0};
			}
			return;
		}
		for (unsigned i = 0; i < n; ++i) p[i] = Cell{t, (u8)(BE ? n - 1 - i : i), 0};
	}

	// possible concrete addresses of a symbolic address: atoms x (total <= 16 bits) and value per assignment
	struct Cand { std::vector<T> atoms; T idx; unsigned bits; std::vector<u64> addr; };
	bool enumerate(T a, Cand &c)
	{
		// collect maximal narrow sub-terms
		std::set<T> atoms; std::vector<T> st{a}; std::set<T> seen; bool ok = true;
		while (!st.empty() && ok)
		{
			T t = st.back(); st.pop_back();
			if (!seen.insert(t).second) continue;
			const Node &m = tm[t];
			if (m.op == OP_CONST) continue;
			if (m.w <= 8 || m.op == OP_VAR || m.op == OP_LOOKUP || m.op == OP_EXTRACT || m.op == OP_XOR) { if (m.op == OP_LOOKUP && m.w > 8) { st.push_back(tm.arg(t, 0)); continue; } if (m.w > 12) { if (m.op == OP_XOR) { for (unsigned i = 0; i < m.n; ++i) st.push_back(tm.arg(t, i)); continue; } ok = false; } atoms.insert(t); continue; }
			for (unsigned i = 0; i < m.n; ++i) st.push_back(tm.arg(t, i));
		}
		if (!ok) return false;
		unsigned bits = 0; for (T t : atoms) bits += tm[t].w;
		if (bits > 14 || atoms.empty()) return false;
		c.atoms.assign(atoms.begin(), atoms.end()); c.bits = bits;
		c.idx = mkConcat(c.atoms);
		std::unordered_map<T, u128> val;
		c.addr.resize((size_t)1 << bits);
		std::vector<u128> av;
		// restrict evaluation to nodes above the atoms
		std::vector<T> order(seen.begin(), seen.end());   // identifiers ascend topologically
		for (size_t v = 0; v < c.addr.size(); ++v)
		{
			val.clear(); unsigned p = 0;
			for (T t : c.atoms) { val[t] = (v >> p) & (size_t)mask(tm[t].w); p += tm[t].w; }
			for (T t : order)
			{
				if (val.count(t)) continue;
				av.resize(tm[t].n + 1);
				for (unsigned i = 0; i < tm[t].n; ++i) av[i] = val[tm.arg(t, i)];
				val[t] = evalNode(t, av.data());
			}
			c.addr[v] = (u64)val[a];
		}
		return true;
	}
	// candidates: feasible assignments only
	bool idxFeasible(State &S, const Cand &c, const std::vector<size_t> &vals)
	{
		if (vals.empty()) return false;
		std::vector<T> alts;
		for (size_t v : vals) alts.push_back(mkEq(c.idx, mkConst(c.bits, v)));
		std::vector<T> q(S.pc); q.push_back(mkOr(1, alts, 0));
		return checkSat(q, 10000, nullptr) != R_UNSAT;
	}
	T muxTerms(const std::vector<T> &v, size_t base, unsigned bit, T idx)
	{
		if (bit == 0) return v[base];
		size_t n = (size_t)1 << bit; bool sm = true;
		for (size_t i = 1; i < n && sm; ++i) if (v[base + i] != v[base]) sm = false;
		if (sm) return v[base];
		T lo = muxTerms(v, base, bit - 1, idx), hi = muxTerms(v, base + n / 2, bit - 1, idx);
		return mkIte(mkExtract(idx, bit - 1, 1), hi, lo);
	}
	std::unordered_map<u64, T> roLoads;   // (address term, sizes) -> value, for loads from constant tables
	V loadSym(State &S, T a, unsigned n, unsigned w)
	{
		u64 lk = (u64)a << 32 | n << 16 | w;
		{ auto it = roLoads.find(lk); if (it != roLoads.end()) return fromT(it->second); }
		bool allRo = true;
		if (tripBase && tm[a].op == OP_ADD && (u64)tm[a].k + 65536 >= tripBase && (u64)tm[a].k <= tripEnd + 65536)
		{
			// a symbolic place in the tripwire object: beyond its end, or not understood
			T off = mkSub(a, mkConst(PW, tripBase));
			if (!(feasible(S, mkUlt(off, mkConst(PW, tripEnd - tripBase))) & 1)) throw Trip();
			AddList l; bool changed = false;
			for (unsigned i = 0; i < tm[a].n; ++i)
			{
				T x = tm.arg(a, i);
				if (tm[x].op == OP_ITE) { int f = feasible(S, tm.arg(x, 0)); if (f == 1) { x = tm.arg(x, 1); changed = true; } else if (f == 2) { x = tm.arg(x, 2); changed = true; } }
				l.push_back({x, tm.coef(a, i)});
			}
			if (changed)
			{
				V v = fromT(mkAdd(PW, l, tm[a].k));
				return loadAt(S, v, n, w);
			}
		}
		// pointer choice
		if (tm[a].op == OP_ITE)
		{
			T c = tm.arg(a, 0), x = tm.arg(a, 1), y = tm.arg(a, 2);
			if (tm.isC(x) || tm.isC(y) || tm[x].op == OP_ITE || tm[y].op == OP_ITE)
			{
				auto side = [&](T ad, T cond, V &out) -> bool {
					std::vector<T> keep = S.pc; S.pc.push_back(cond);
					bool ok = true;
					if (checkSat(S.pc, 5000, nullptr) == R_UNSAT) ok = false;
					else out = loadAt(S, fromT(ad), n, w);
					S.pc = keep; return ok;
				};
				V vx, vy; bool ox = side(x, c, vx), oy = side(y, mkNot(c), vy);
				if (ox && !oy) return vx;
				if (oy && !ox) return vy;
				if (!ox && !oy) { S.dead = true; throw PathEnd(); }
				return fromT(mkIte(c, toT(vx, w), toT(vy, w)));
			}
		}
		Cand c;
		if (!enumerate(a, c)) throw Unsupported("symbolic address " + show(a, 4));
		std::vector<size_t> bad; std::vector<T> vals(c.addr.size(), 0); std::vector<u64> conc(c.addr.size(), 0); bool allC = true; int anyGood = -1;
		for (size_t i = 0; i < c.addr.size(); ++i)
		{
			ObjP *o = find(S, c.addr[i]);
			if (!o || c.addr[i] - (*o)->base + n > (*o)->size || !(*o)->alive) { bad.push_back(i); continue; }
			if (!(*o)->ro) allRo = false;
			V v = loadRaw(**o, c.addr[i] - (*o)->base, n);
			if (v.t) { allC = false; T t = v.t; if (w != 8 * n) t = mkExtract(t, 0, w); vals[i] = t; }
			else { conc[i] = (u64)v.c; vals[i] = 0; if (n > 8) allC = false; vals[i] = mkConst(w, v.c); }
			anyGood = (int)i;
		}
		if (anyGood < 0) forbidden(S, "memory", "read through an invalid pointer");
		if (!bad.empty())
		{
			// all bad assignments must be infeasible
			std::vector<T> alts; for (size_t v : bad) alts.push_back(mkEq(c.idx, mkConst(c.bits, v)));
			mustHold(S, mkNot(mkOr(1, alts, 0)), "memory", "read out of bounds through a data-dependent index");
			for (size_t v : bad) { vals[v] = vals[(size_t)anyGood]; conc[v] = conc[(size_t)anyGood]; }
		}
		if (allC && w <= 64) { T r = mkLookup(conc, w, c.idx); if (allRo && bad.empty()) roLoads[lk] = r; return fromT(r); }
		return fromT(muxTerms(vals, 0, c.bits, c.idx));
	}
	V loadAt(State &S, const V &a, unsigned n, unsigned w)
	{
		if (a.t) return loadSym(S, a.t, n, w);
		Obj &o = access(S, (u64)a.c, n, false);
		u64 off = (u64)a.c - o.base;
		// uninitialised cells are materialised in place: keep shared copies consistent (fresh names are never reused)
		V v = loadRaw(o, off, n);
		if (w != 8 * n) { if (v.t) v = fromT(mkExtract(v.t, 0, w)); else v.c &= mask(w); }
		return v;
	}
	void storeAt(State &S, const V &a, const V &v, unsigned n, unsigned w)
	{
		if (!a.t)
		{
			Obj &o = access(S, (u64)a.c, n, true);
			storeRaw(o, (u64)a.c - o.base, v, n, w);
			return;
		}
		if (tm[a.t].op == OP_ITE)
		{
			T c = tm.arg(a.t, 0), x = tm.arg(a.t, 1), y = tm.arg(a.t, 2);
			T tv = toT(v, w);
			auto side = [&](T ad, T cond) {
				std::vector<T> keep = S.pc; S.pc.push_back(cond);
				if (checkSat(S.pc, 5000, nullptr) != R_UNSAT)
				{
					V old = loadAt(S, fromT(ad), n, w);
					storeAt(S, fromT(ad), fromT(mkIte(cond, tv, toT(old, w))), n, w);
				}
				S.pc = keep;
			};
			side(x, c); side(y, mkNot(c));
			return;
		}
		Cand c;
		if (!enumerate(a.t, c)) throw Unsupported("symbolic store address " + show(a.t, 4));
		std::vector<size_t> bad; std::map<u64, std::vector<size_t>> good;
		for (size_t i = 0; i < c.addr.size(); ++i)
		{
			ObjP *o = find(S, c.addr[i]);
			if (!o || c.addr[i] - (*o)->base + n > (*o)->size || !(*o)->alive || (*o)->ro) bad.push_back(i);
			else good[c.addr[i]].push_back(i);
		}
		if (!bad.empty())
		{
			std::vector<T> alts; for (size_t x : bad) alts.push_back(mkEq(c.idx, mkConst(c.bits, x)));
			mustHold(S, mkNot(mkOr(1, alts, 0)), "memory", "write out of bounds through a data-dependent index");
		}
		T tv = toT(v, w);
		for (auto &e : good)
		{
			std::vector<T> alts; for (size_t x : e.second) alts.push_back(mkEq(c.idx, mkConst(c.bits, x)));
			T g = mkOr(1, alts, 0);
			V old = loadAt(S, cv(e.first), n, w);
			storeAt(S, cv(e.first), fromT(mkIte(g, tv, toT(old, w))), n, w);
		}
	}
	u64 conc(State &S, const V &v, const char *what)
	{
		if (!v.t) return (u64)v.c;
		// unique value under the path condition?
		Model m;
		if (checkSat(S.pc, 5000, &m) == R_SAT)
		{
			u128 k = evalUnder(v.t, m);
			std::vector<T> q(S.pc); q.push_back(mkNot(mkEq(v.t, mkConst(tm[v.t].w, k))));
			if (checkSat(q, 5000, nullptr) == R_UNSAT) return (u64)k;
		}
		throw Unsupported(std::string("symbolic ") + what + ": " + show(v.t, 3));
	}
	void memcopy(State &S, u64 d, u64 s, u64 n)
	{
		if (!n) return;
		Obj &so = access(S, s, n, false);
		std::vector<Cell> tmp(so.d.begin() + (s - so.base), so.d.begin() + (s - so.base) + n);
		Obj &dO = access(S, d, n, true);
		std::copy(tmp.begin(), tmp.end(), dO.d.begin() + (d - dO.base));
	}
	std::string cstr(State &S, u64 a)
	{
		std::string r;
		for (u64 i = 0; i < 4096; ++i) { Obj &o = access(S, a + i, 1, false); Cell &c = o.d[a + i - o.base]; if (c.t || c.f) { r += '?'; continue; } if (!c.b) break; r += (char)c.b; }
		return r;
	}

	// ------------------------------------------------------------ execution
	void get(const Frame &f, const Operand &o, u32 n, std::vector<V> &out) { out.resize(n); if (o.slot >= 0) for (u32 i = 0; i < n; ++i) out[i] = f.r[o.slot + i]; else for (u32 i = 0; i < n; ++i) out[i] = o.c[i]; }
	static const V &g1(const Frame &f, const Operand &o) { return o.slot >= 0 ? f.r[o.slot] : o.c[0]; }
	static const V &gi(const Frame &f, const Operand &o, u32 i) { return o.slot >= 0 ? f.r[o.slot + i] : o.c[i]; }

	void noteDebug(const BB &b)
	{
		for (auto *lst : {&b.phis, &b.ins}) for (const Ins &i : *lst)
		{
			const DILocation *dl = i.I ? i.I->getDebugLoc().get() : nullptr;
			for (; dl; dl = dl->getInlinedAt())
			{
				const DILocalScope *sc = dl->getScope(); if (!sc) continue;
				const DISubprogram *sp = sc->getSubprogram();
				if (!sp || !dbgSeen.insert(sp).second) continue;
				std::string file = sp->getFilename().str();
				size_t p = file.find("/src/");
				if (p == std::string::npos || file.find("/usr/") == 0) continue;
				std::string ln = sp->getLinkageName().str();
				std::string nm = ln.empty() ? sp->getName().str() : demangle(ln);
				funcs.insert(file.substr(p + 1) + ": " + nm);
			}
		}
	}
	void enter(State &S, int bb)
	{
		Frame &f = S.fr.back();
		BB &b = f.fn->b[bb];
		if (!b.seen) { b.seen = true; noteDebug(b); }
		if (!b.phis.empty())
		{
			static thread_local std::vector<V> tmp; tmp.clear();
			for (const Ins &p : b.phis)
			{
				const Operand *o = nullptr;
				for (const PhiIn &q : p.phi) if (q.pred == f.bb) { o = &q.o; break; }
				for (u32 i = 0; i < p.n; ++i) tmp.push_back(gi(f, *o, i));
			}
			size_t k = 0;
			for (const Ins &p : b.phis) for (u32 i = 0; i < p.n; ++i) f.r[p.dst + i] = tmp[k++];
			instrs += b.phis.size();
		}
		f.bb = bb; f.ip = 0;
	}
	void popFrame(State &S)
	{
		Frame &f = S.fr.back();
		if (!f.allocas.empty())
		{
			u64 first = f.allocas.front();
			while (!S.s.empty() && S.s.back()->base >= first) S.s.pop_back();
			if (PW == 32 && forkDepth == 0) stackTop = first;
		}
		S.fr.pop_back();
	}
	void pushCall(State &S, const Function *F, const Ins *site, std::vector<V> &args)
	{
		Fn *fn = getFn(F);
		if (S.fr.size() > 400) throw Unsupported("call depth");
		S.fr.emplace_back();
		Frame &f = S.fr.back();
		f.fn = fn; f.site = site; f.r.assign(fn->slots, cv(0));
		size_t k = 0;
		for (size_t i = 0; i < fn->paramSlot.size(); ++i)
			for (u32 j = 0; j < fn->paramN[i]; ++j) { if (k < args.size()) f.r[fn->paramSlot[i] + j] = args[k]; ++k; }
		f.bb = -1;
		enter(S, 0);
		// byval parameters get their own copy
		unsigned pi = 0;
		for (const Argument &A : F->args())
		{
			if (A.hasByValAttr())
			{
				Type *bt = A.getParamByValType(); u64 sz = DL->getTypeAllocSize(bt);
				u64 src = conc(S, S.fr.back().r[fn->paramSlot[pi]], "byval pointer");
				u64 a = alloc(S.s, stackTop, sz, 16, K_STACK, false);
				S.fr.back().allocas.push_back(a);
				memcopy(S, a, src, sz);
				S.fr.back().r[fn->paramSlot[pi]] = cv(a);
			}
			++pi;
		}
	}
	bool typeMatches(u64 thrown, u64 caught);
	void unwind(State &S);
	void callBuiltin(State &S, const Ins &I, std::vector<V> &a);
	void doReturn(State &S, const Ins *ret);
	void step(State &S, const Ins &I);
	void run(State &S, size_t depth, int stopBB);
	void branch(State &S, const std::vector<std::pair<T, int>> &ways);
	void merge(State &A, State &B, T cond);
	int feasible(State &S, T cond);   // bit0: can be true, bit1: can be false

	void assertEq(State &S, const std::vector<std::pair<T, T>> &pairs, const std::string &msg)
	{
		++asserts;
		Model m;
		ProveRes r = proveEqual(pairs, S.pc, &m, assertBudget);
		if (r == P_CEX) throw Violation{"assert", msg, where(S), m};
		if (r == P_UNKNOWN) { ++inconclusive; inconcWhy = "not decided within budget: " + msg; }
	}
	void assertTrue(State &S, T c, const std::string &msg)
	{
		std::vector<std::pair<T, T>> pairs;
		std::vector<T> st{c};
		while (!st.empty())
		{
			T t = st.back(); st.pop_back();
			const Node &m = tm[t];
			if (m.op == OP_AND && m.w == 1) { for (unsigned i = 0; i < m.n; ++i) st.push_back(tm.arg(t, i)); continue; }
			if (m.op == OP_EQ) pairs.push_back({tm.arg(t, 0), tm.arg(t, 1)});
			else pairs.push_back({t, mkConst(1, 1)});
		}
		assertEq(S, pairs, msg);
	}
	std::string runJob(const std::string &entry);
	double fp(const V &v, State &S) { if (v.t) throw Unsupported("symbolic floating point"); u64 u = (u64)v.c; double d; memcpy(&d, &u, 8); return d; }
	V fpv(double d) { u64 u; memcpy(&u, &d, 8); return cv(u); }
};

// ------------------------------------------------------------------ builtins
enum Bi
{
	B_NONE, B_PARAM, B_SYM, B_ASSUME, B_ASSERT, B_ASSERT_EQ, B_COVER, B_ISCONST, B_HAVOC2, B_HAVOCALL, B_TRY, B_LIVE, B_RECORD, B_LOG, B_REACHED, B_NEWUNINIT, B_HAVOC, B_ALLOC, B_TRIPALLOC,
	B_NEW, B_NEWAL, B_DEL, B_MALLOC, B_CALLOC, B_REALLOC, B_MEMCPY, B_MEMSET, B_MEMCMP, B_STRLEN, B_MEMCHR, B_STRCMP, B_ABORT, B_ASSERTFAIL, B_TERMINATE, B_THROW, B_STDTHROW,
	B_ALLOCEXC, B_FREEEXC, B_BEGINCATCH, B_ENDCATCH, B_RETHROW, B_GUARDACQ, B_GUARDREL, B_ATEXIT, B_NOP, B_RET0, B_EXIT, B_LOG2, B_LROUND, B_MATH1, B_PUREVIRT, B_EXCWHAT, B_CTOR_EXC, B_SNPRINTF, B_TYPEID
};
static int builtinOf(const std::string &n, unsigned &sub)
{
	sub = 0;
	static const std::unordered_map<std::string, int> m = {
		{"vp_param", B_PARAM}, {"vp_sym", B_SYM}, {"vp_assume", B_ASSUME}, {"vp_assert", B_ASSERT}, {"vp_assert_eq", B_ASSERT_EQ}, {"vp_cover", B_COVER}, {"vp_is_const", B_ISCONST},
		{"vp_havoc2", B_HAVOC2}, {"vp_havoc_all", B_HAVOCALL}, {"vp_try", B_TRY}, {"vp_live_heap", B_LIVE}, {"vp_record", B_RECORD}, {"vp_log", B_LOG}, {"vp_uninit", B_NEWUNINIT}, {"vp_havoc", B_HAVOC}, {"vp_alloc", B_ALLOC}, {"vp_trip_alloc", B_TRIPALLOC}, {"vp_native", B_RET0},
		{"_Znwm", B_NEW}, {"_Znam", B_NEW}, {"_Znwj", B_NEW}, {"_Znaj", B_NEW}, {"_ZnwmSt11align_val_t", B_NEWAL}, {"_ZnamSt11align_val_t", B_NEWAL}, {"_ZnwjSt11align_val_t", B_NEWAL},
		{"_ZnwmRKSt9nothrow_t", B_NEW}, {"_ZnamRKSt9nothrow_t", B_NEW},
		{"_ZdlPv", B_DEL}, {"_ZdaPv", B_DEL}, {"_ZdlPvm", B_DEL}, {"_ZdaPvm", B_DEL}, {"_ZdlPvj", B_DEL}, {"_ZdaPvj", B_DEL}, {"_ZdlPvSt11align_val_t", B_DEL}, {"_ZdlPvmSt11align_val_t", B_DEL}, {"free", B_DEL}, {"vp_free", B_DEL},
		{"malloc", B_MALLOC}, {"calloc", B_CALLOC}, {"realloc", B_REALLOC}, {"memcpy", B_MEMCPY}, {"memmove", B_MEMCPY}, {"memset", B_MEMSET}, {"memcmp", B_MEMCMP}, {"bcmp", B_MEMCMP}, {"strlen", B_STRLEN}, {"memchr", B_MEMCHR}, {"strcmp", B_STRCMP},
		{"abort", B_ABORT}, {"__assert_fail", B_ASSERTFAIL}, {"_ZSt9terminatev", B_TERMINATE}, {"__cxa_throw", B_THROW}, {"__cxa_allocate_exception", B_ALLOCEXC}, {"__cxa_free_exception", B_FREEEXC},
		{"__cxa_begin_catch", B_BEGINCATCH}, {"__cxa_end_catch", B_ENDCATCH}, {"__cxa_rethrow", B_RETHROW}, {"__cxa_guard_acquire", B_GUARDACQ}, {"__cxa_guard_release", B_GUARDREL}, {"__cxa_guard_abort", B_NOP}, {"__cxa_atexit", B_ATEXIT},
		{"exit", B_EXIT}, {"_exit", B_EXIT}, {"_Exit", B_EXIT}, {"log2", B_LOG2}, {"lround", B_LROUND}, {"log", B_MATH1}, {"floor", B_MATH1}, {"ceil", B_MATH1}, {"sqrt", B_MATH1}, {"round", B_MATH1}, {"trunc", B_MATH1}, {"llround", B_LROUND}, {"log10", B_MATH1}, {"fabs", B_MATH1}, {"exp2", B_MATH1},
		{"__cxa_pure_virtual", B_PUREVIRT}, {"_ZSt21__glibcxx_assert_failPKciS0_S0_", B_ASSERTFAIL}, {"snprintf", B_SNPRINTF}, {"sprintf", B_SNPRINTF},
	};
	auto it = m.find(n);
	if (it != m.end()) { if (n == "log") sub = 1; else if (n == "floor") sub = 2; else if (n == "ceil") sub = 3; else if (n == "sqrt") sub = 4; else if (n == "round") sub = 5; else if (n == "trunc") sub = 6; else if (n == "log10") sub = 7; else if (n == "fabs") sub = 8; else if (n == "exp2") sub = 9; else if (n == "sprintf") sub = 1; return it->second; }
	if (n.compare(0, 13, "_ZSt20__throw") == 0 || n.find("__throw_") != std::string::npos) return B_STDTHROW;
	if (n.find("St16invalid_argumentC") != std::string::npos || n.find("St12out_of_rangeC") != std::string::npos || n.find("St12length_errorC") != std::string::npos || n.find("St11logic_errorC") != std::string::npos || n.find("St13runtime_errorC") != std::string::npos || n.find("St12domain_errorC") != std::string::npos) return B_NOP;
	if (n.find("St16invalid_argumentD") != std::string::npos || n.find("St12out_of_rangeD") != std::string::npos || n.find("St12length_errorD") != std::string::npos || n.find("St11logic_errorD") != std::string::npos || n.find("St13runtime_errorD") != std::string::npos || n.find("St9exceptionD") != std::string::npos) return B_NOP;
	return -1;
}

// ------------------------------------------------------------------ decode
void Engine::decode(const Function *F, Fn &fn)
{
	fn.F = F;
	std::unordered_map<const Value *, u32> slot;
	auto addSlot = [&](const Value *v) {
		u32 s = fn.slots; std::vector<Leaf> l = leavesOf(v->getType());
		slot[v] = s; fn.slots += (u32)l.size();
		for (auto &e : l) fn.sw.push_back((u16)e.w);
		return s;
	};
	for (const Argument &A : F->args()) { fn.paramSlot.push_back(addSlot(&A)); fn.paramN.push_back(countOf(A.getType())); }
	std::unordered_map<const BasicBlock *, int> num; int nb = 0;
	for (const BasicBlock &B : *F) num[&B] = nb++;
	for (const BasicBlock &B : *F) for (const Instruction &I : B) if (!I.getType()->isVoidTy() && !I.getType()->isTokenTy()) addSlot(&I);
	auto operand = [&](const Value *v) {
		Operand o;
		if (isa<MetadataAsValue>(v) || isa<BasicBlock>(v)) { o.c.push_back(cv(0)); return o; }
		if (auto *c = dyn_cast<Constant>(v)) { constant(c, o.c); if (o.c.empty()) o.c.push_back(cv(0)); }
		else if (isa<InlineAsm>(v)) o.c.push_back(cv(0));
		else o.slot = (int)slot.at(v);
		return o;
	};
	auto sw = [&](Type *t) -> u32 { Type *e = t->getScalarType(); if (e->isPointerTy()) return PW; if (e->isStructTy() || e->isArrayTy()) return 0; return (u32)e->getPrimitiveSizeInBits().getFixedValue(); };
	fn.b.resize(nb);
	for (const BasicBlock &B : *F)
	{
		BB &bb = fn.b[num[&B]];
		for (const Instruction &I : B)
		{
			if (isa<DbgInfoIntrinsic>(I)) continue;
			Ins x; x.I = &I; x.op = I.getOpcode();
			if (slot.count(&I)) { x.dst = (int)slot[&I]; x.n = countOf(I.getType()); x.w = sw(I.getType()); }
			switch (I.getOpcode())
			{
			case Instruction::PHI:
				for (unsigned i = 0; i < cast<PHINode>(I).getNumIncomingValues(); ++i)
					x.phi.push_back({num[cast<PHINode>(I).getIncomingBlock(i)], operand(cast<PHINode>(I).getIncomingValue(i))});
				bb.phis.push_back(std::move(x));
				continue;
			case Instruction::Br:
			{
				auto &br = cast<BranchInst>(I);
				if (br.isConditional()) { x.sub = 1; x.o.push_back(operand(br.getCondition())); x.t = num[br.getSuccessor(0)]; x.f = num[br.getSuccessor(1)]; }
				else x.t = num[br.getSuccessor(0)];
				break;
			}
			case Instruction::Switch:
			{
				auto &s = cast<SwitchInst>(I);
				x.o.push_back(operand(s.getCondition())); x.w = sw(s.getCondition()->getType());
				x.f = num[s.getDefaultDest()];
				for (auto &c : s.cases()) x.cases.push_back({apToU(c.getCaseValue()->getValue()), num[c.getCaseSuccessor()]});
				break;
			}
			case Instruction::Ret: if (I.getNumOperands()) { x.o.push_back(operand(I.getOperand(0))); x.n = countOf(I.getOperand(0)->getType()); } break;
			case Instruction::Load:
				x.o.push_back(operand(cast<LoadInst>(I).getPointerOperand())); x.leaves = leavesOf(I.getType()); break;
			case Instruction::Store:
				x.o.push_back(operand(cast<StoreInst>(I).getValueOperand())); x.o.push_back(operand(cast<StoreInst>(I).getPointerOperand()));
				x.leaves = leavesOf(cast<StoreInst>(I).getValueOperand()->getType()); break;
			case Instruction::Alloca:
			{
				auto &a = cast<AllocaInst>(I);
				x.o.push_back(operand(a.getArraySize())); x.k = DL->getTypeAllocSize(a.getAllocatedType()); x.sub = (unsigned)a.getAlign().value(); break;
			}
			case Instruction::GetElementPtr:
			{
				auto &gp = cast<GetElementPtrInst>(I);
				if (I.getType()->isVectorTy()) throw Unsupported("vector gep");
				x.o.push_back(operand(gp.getPointerOperand()));
				x.inb = gp.isInBounds();
				u64 off = 0;
				for (gep_type_iterator gi = gep_type_begin(gp), ge = gep_type_end(gp); gi != ge; ++gi)
				{
					const Value *ix = gi.getOperand();
					if (StructType *st = gi.getStructTypeOrNull()) { off += DL->getStructLayout(st)->getElementOffset((unsigned)cast<ConstantInt>(ix)->getZExtValue()); continue; }
					u64 es = DL->getTypeAllocSize(gi.getIndexedType());
					if (auto *ci = dyn_cast<ConstantInt>(ix)) { off += es * (u64)ci->getSExtValue(); continue; }
					x.o.push_back(operand(ix)); x.idx.push_back(sw(ix->getType()));
					x.gep.push_back({(u32)x.o.size() - 1, es});
				}
				x.k = off;
				break;
			}
			case Instruction::ExtractValue: case Instruction::InsertValue:
			{
				bool ins = I.getOpcode() == Instruction::InsertValue;
				Type *t = I.getOperand(0)->getType();
				u32 off = 0;
				ArrayRef<unsigned> ids = ins ? cast<InsertValueInst>(I).getIndices() : cast<ExtractValueInst>(I).getIndices();
				for (unsigned id : ids)
				{
					if (auto *st = dyn_cast<StructType>(t)) { for (unsigned q = 0; q < id; ++q) off += countOf(st->getElementType(q)); t = st->getElementType(id); }
					else { auto *at = cast<ArrayType>(t); off += id * countOf(at->getElementType()); t = at->getElementType(); }
				}
				x.k = off; x.o.push_back(operand(I.getOperand(0)));
				if (ins) { x.o.push_back(operand(I.getOperand(1))); x.sub = countOf(I.getOperand(1)->getType()); }
				break;
			}
			case Instruction::ShuffleVector:
				x.o.push_back(operand(I.getOperand(0))); x.o.push_back(operand(I.getOperand(1)));
				x.sub = countOf(I.getOperand(0)->getType());
				for (int mk : cast<ShuffleVectorInst>(I).getShuffleMask()) x.idx.push_back((u32)mk);
				break;
			case Instruction::ICmp: case Instruction::FCmp:
				x.sub = cast<CmpInst>(I).getPredicate(); x.w2 = sw(I.getOperand(0)->getType());
				x.o.push_back(operand(I.getOperand(0))); x.o.push_back(operand(I.getOperand(1)));
				break;
			case Instruction::Call: case Instruction::Invoke:
			{
				auto &cb = cast<CallBase>(I);
				if (cb.isInlineAsm())
				{
					auto *ia = cast<InlineAsm>(cb.getCalledOperand());
					if (!ia->getAsmString().empty()) { x.builtin = -2; }   // rejected only when executed
					else { x.builtin = B_NOP; if (!I.getType()->isVoidTy()) x.builtin = -2; }
				}
				const Function *cf = dyn_cast<Function>(cb.getCalledOperand()->stripPointerCasts());
				x.callee = cf;
				for (const Use &u : cb.args()) { x.o.push_back(operand(u.get())); x.idx.push_back(countOf(u->getType())); }
				x.w2 = x.o.size();
				if (!cf) x.o.push_back(operand(cb.getCalledOperand()));
				else
				{
					unsigned sb = 0;
					if (!cf->isIntrinsic()) { int b = builtinOf(cf->getName().str(), sb); if (b > 0) { x.builtin = b; x.sub = sb; } }
				}
				if (auto *iv = dyn_cast<InvokeInst>(&I)) { x.t = num[iv->getNormalDest()]; x.f = num[iv->getUnwindDest()]; }
				break;
			}
			case Instruction::IndirectBr: throw Unsupported("indirectbr");
			default:
				for (const Use &u : I.operands()) x.o.push_back(operand(u.get()));
				if (I.getNumOperands() && !I.getOperand(0)->getType()->isLabelTy() && !I.getOperand(0)->getType()->isTokenTy()) x.w2 = sw(I.getOperand(0)->getType());
				if (I.getOpcode() == Instruction::ExtractElement) x.sub = countOf(I.getOperand(0)->getType());
				break;
			}
			bb.ins.push_back(std::move(x));
		}
	}
	postdom(F, fn, num);
}

void Engine::postdom(const Function *F, Fn &fn, const std::unordered_map<const BasicBlock *, int> &num)
{
	int n = (int)fn.b.size(), EXIT = n;
	std::vector<std::vector<int>> succ(n + 1), pred(n + 1);
	for (const BasicBlock &B : *F)
	{
		int i = num.at(&B);
		for (const BasicBlock *s : successors(&B)) { succ[i].push_back(num.at(s)); }
		if (isa<ReturnInst>(B.getTerminator()) || isa<ResumeInst>(B.getTerminator())) succ[i].push_back(EXIT);
	}
	for (int i = 0; i < n; ++i) for (int s : succ[i]) pred[s].push_back(i);
	// blocks that can return (prefer normal returns over resume)
	std::vector<char> live(n + 1, 0); std::vector<int> st;
	for (const BasicBlock &B : *F) if (isa<ReturnInst>(B.getTerminator())) { int i = num.at(&B); if (!live[i]) { live[i] = 1; st.push_back(i); } }
	live[EXIT] = 1;
	while (!st.empty()) { int b = st.back(); st.pop_back(); for (int p : pred[b]) if (!live[p]) { live[p] = 1; st.push_back(p); } }
	// reverse post order from EXIT over reversed edges
	std::vector<int> order; std::vector<char> vis(n + 1, 0);
	std::function<void(int)> dfs = [&](int b) { vis[b] = 1; for (int p : pred[b]) if (live[p] && !vis[p]) dfs(p); order.push_back(b); };
	// iterative
	{
		std::vector<std::pair<int, size_t>> s2{{EXIT, 0}}; vis[EXIT] = 1;
		while (!s2.empty())
		{
			auto &[b, i] = s2.back();
			if (i < pred[b].size()) { int p = pred[b][i++]; if (live[p] && !vis[p] ) { vis[p] = 1; s2.push_back({p, 0}); } }
			else { order.push_back(b); s2.pop_back(); }
		}
	}
	std::vector<int> rpo(n + 1, -1); for (size_t i = 0; i < order.size(); ++i) rpo[order[i]] = (int)i;   // EXIT has the highest
	std::vector<int> id(n + 1, -1); id[EXIT] = EXIT;
	bool ch = true;
	auto inter = [&](int a, int b) { while (a != b) { while (rpo[a] < rpo[b]) a = id[a]; while (rpo[b] < rpo[a]) b = id[b]; } return a; };
	while (ch)
	{
		ch = false;
		for (size_t i = order.size(); i-- > 0;)
		{
			int b = order[i]; if (b == EXIT) continue;
			int nd = -1;
			for (int s : succ[b]) if (live[s] && rpo[s] >= 0 && id[s] >= 0) nd = nd < 0 ? s : inter(nd, s);
			if (nd >= 0 && nd != id[b]) { id[b] = nd; ch = true; }
		}
	}
	for (int i = 0; i < n; ++i) fn.b[i].ipdom = (id[i] < 0 || id[i] == EXIT) ? -1 : id[i];
}

// ------------------------------------------------------------------ exceptions
static const char *stdParent(const std::string &n)
{
	static const std::unordered_map<std::string, const char *> m = {
		{"_ZTISt16invalid_argument", "_ZTISt11logic_error"}, {"_ZTISt12out_of_range", "_ZTISt11logic_error"}, {"_ZTISt12length_error", "_ZTISt11logic_error"}, {"_ZTISt12domain_error", "_ZTISt11logic_error"},
		{"_ZTISt11logic_error", "_ZTISt9exception"}, {"_ZTISt13runtime_error", "_ZTISt9exception"}, {"_ZTISt11range_error", "_ZTISt13runtime_error"}, {"_ZTISt14overflow_error", "_ZTISt13runtime_error"},
		{"_ZTISt9bad_alloc", "_ZTISt9exception"}, {"_ZTISt20bad_array_new_length", "_ZTISt9bad_alloc"}, {"_ZTISt8bad_cast", "_ZTISt9exception"}, {"_ZTISt17bad_function_call", "_ZTISt9exception"}};
	auto it = m.find(n); return it == m.end() ? nullptr : it->second;
}
static std::vector<std::string> excNames;     // pseudo type ids: 1-based index
bool Engine::typeMatches(u64 thrown, u64 caught)
{
	if (!caught) return true;
	std::string tn;
	const GlobalVariable *tg = nullptr;
	if (thrown < 0x1000) tn = excNames[thrown - 1];
	else for (auto &o : ginit) if (o->base == thrown) { tg = o->gv; tn = o->gv->getName().str(); }
	std::string cn; for (auto &o : ginit) if (o->base == caught) cn = o->gv->getName().str();
	for (int i = 0; i < 10 && !tn.empty(); ++i)
	{
		if (tn == cn) return true;
		const char *p = stdParent(tn);
		if (p) { tn = p; tg = nullptr; continue; }
		tg = M->getNamedGlobal(tn);
		if (tg && tg->hasInitializer()) if (auto *cs = dyn_cast<ConstantStruct>(tg->getInitializer())) if (cs->getNumOperands() >= 3) { tn = cs->getOperand(2)->stripPointerCasts()->getName().str(); continue; }
		break;
	}
	return false;
}
void Engine::unwind(State &S)
{
	while (true)
	{
		Frame top = std::move(S.fr.back());
		S.fr.back() = top;
		const Ins *site = S.fr.back().site; int mark = S.fr.back().mark;
		if (S.fr.size() == 1) { forbidden(S, "exception", "uncaught exception"); }
		popFrame(S);
		Frame &f = S.fr.back();
		if (mark == 1) { f.r[site->dst] = cv(1); S.excPtr = 0; if (site->op == Instruction::Invoke) enter(S, site->t); return; }
		if (site->op != Instruction::Invoke) continue;
		enter(S, site->f);
		// find landingpad
		BB &b = f.fn->b[f.bb];
		const Ins *lp = nullptr; for (const Ins &q : b.ins) if (q.op == Instruction::LandingPad) { lp = &q; break; }
		auto *L = cast<LandingPadInst>(lp->I);
		int sel = -1;
		for (unsigned i = 0; i < L->getNumClauses() && sel < 0; ++i)
		{
			if (!L->isCatch(i)) { sel = 0; break; }
			std::vector<V> v; constant(cast<Constant>(L->getClause(i)), v);
			u64 ti = (u64)v[0].c;
			if (typeMatches(S.excType, ti)) { auto it = typeIds.find(ti); u32 id = it == typeIds.end() ? (typeIds[ti] = (u32)typeIds.size() + 1) : it->second; sel = (int)id; }
		}
		if (sel < 0) { if (L->isCleanup()) sel = 0; else continue; }
		f.ehVal = {cv(S.excPtr), cv((u32)sel)};
		return;
	}
}

void Engine::doReturn(State &S, const Ins *ret)
{
	std::vector<V> rv;
	if (ret && !ret->o.empty()) get(S.fr.back(), ret->o[0], ret->n, rv);
	const Ins *site = S.fr.back().site; int mark = S.fr.back().mark;
	popFrame(S);
	if (S.fr.empty()) return;
	Frame &f = S.fr.back();
	if (mark == 1) { f.r[site->dst] = cv(0); if (site->op == Instruction::Invoke) enter(S, site->t); return; }
	if (mark == 2) { tripped = true; S.dead = true; throw PathEnd(); }
	if (!site) return;
	if (site->dst >= 0) for (u32 i = 0; i < site->n && i < rv.size(); ++i) f.r[site->dst + i] = rv[i];
	if (site->op == Instruction::Invoke) enter(S, site->t);
}

static unsigned long long hostMath1(unsigned sub, double d)
{
	double r = d;
	switch (sub) { case 1: r = std::log(d); break; case 2: r = std::floor(d); break; case 3: r = std::ceil(d); break; case 4: r = std::sqrt(d); break; case 5: r = std::round(d); break; case 6: r = std::trunc(d); break; case 7: r = std::log10(d); break; case 8: r = std::fabs(d); break; case 9: r = std::exp2(d); break; }
	unsigned long long u; memcpy(&u, &r, 8); return u;
}

void Engine::callBuiltin(State &S, const Ins &I, std::vector<V> &a)
{
	Frame &f = S.fr.back();
	auto ret = [&](const V &v) { if (I.dst >= 0) S.fr.back().r[I.dst] = v; };
	bool isInvoke = I.op == Instruction::Invoke;
	switch (I.builtin)
	{
	case B_PARAM: { size_t i = (size_t)conc(S, a[0], "param index"); ret(cv((u128)(u64)(i < params.size() ? params[i] : 0) & mask(I.w))); break; }
	case B_HAVOCALL:
	{
		// the same for all live heap objects; recorded per object (in allocation order) for replay
		std::unordered_map<T, T> map; unsigned idx = 0;
		for (auto &op : S.h)
		{
			if (!op->alive) continue;
			unsigned k = idx++;
			std::string nv = "heap" + std::to_string(k), nm = "heapmask" + std::to_string(k);
			if (concreteMode)
			{
				auto iv = concreteIn.find(nv), im = concreteIn.find(nm);
				if (iv == concreteIn.end() || im == concreteIn.end()) continue;
				Obj &o = access(S, op->base, op->size, true);
				for (u64 i = 0; i < o.size && 2 * i + 1 < iv->second.size(); ++i)
					if (im->second[2 * i] != '0') o.d[i] = Cell{0, (u8)strtoul(iv->second.substr(2 * i, 2).c_str(), nullptr, 16), 0};
				continue;
			}
			bool any = false;
			for (u64 i = 0; i < op->size && !any; ++i) if (op->d[i].t && !op->d[i].f) any = true;
			if (!any) continue;
			Sym sv, sm; sv.name = nv; sm.name = nm;
			Obj &o = access(S, op->base, op->size, true);
			for (u64 i = 0; i < o.size; ++i)
			{
				Cell &c = o.d[i]; T v = mkConst(8, 0), m = v;
				if (c.t && !c.f)
				{
					T t = mkExtract(c.t, 8 * c.b, 8);
					if (tm.isC(t)) c = Cell{0, (u8)tm[t].k, 0};
					else
					{
						auto it = map.find(t);
						if (it == map.end()) it = map.emplace(t, mkVar(8, "havoc" + std::to_string(tm.vars.size()), VF_HAVOC)).first;
						c = Cell{it->second, 0, 0}; v = it->second; m = mkConst(8, 255);
					}
				}
				sv.bytes.push_back(v); sm.bytes.push_back(m);
			}
			syms.push_back(sv); syms.push_back(sm);
		}
		break;
	}
	case B_SYM:
	{
		u64 p = conc(S, a[0], "pointer"), n = conc(S, a[1], "size"); std::string nm = cstr(S, conc(S, a[2], "name"));
		std::string base = nm; int dup = 1; for (bool again = true; again;) { again = false; for (auto &s : syms) if (s.name == nm) { nm = base + "_" + std::to_string(++dup); again = true; } }
		Sym sy; sy.name = nm;
		if (n)
		{
			Obj &o = access(S, p, n, true);
			for (u64 i = 0; i < n; ++i)
			{
				if (concreteMode)
				{
					u8 b = 0; auto it = concreteIn.find(nm);
					if (it != concreteIn.end() && 2 * i + 1 < it->second.size()) b = (u8)strtoul(it->second.substr(2 * i, 2).c_str(), nullptr, 16);
					o.d[p - o.base + i] = Cell{0, b, 0}; sy.bytes.push_back(mkConst(8, b));
				}
				else { T v = mkVar(8, nm + "[" + std::to_string(i) + "]", VF_INPUT); o.d[p - o.base + i] = Cell{v, 0, 0}; sy.bytes.push_back(v); }
			}
		}
		syms.push_back(sy);
		break;
	}
	case B_NEWUNINIT: { u64 p = conc(S, a[0], "pointer"), n = conc(S, a[1], "size"); Obj &o = access(S, p, n, true); for (u64 i = 0; i < n; ++i) o.d[p - o.base + i] = Cell{0, 0, 1}; break; }
	case B_ASSUME:
	{
		T c = toT(a[0], tm.N.size() && a[0].t ? tm[a[0].t].w : 32);
		if (tm[c].w > 1) c = mkNot(mkEq(c, mkConst(tm[c].w, 0)));
		if (tm.isC(c)) { if (!tm[c].k) { S.dead = true; throw PathEnd(); } break; }
		S.pc.push_back(c);
		if (checkSat(S.pc, 5000, nullptr) == R_UNSAT) { S.dead = true; throw PathEnd(); }
		break;
	}
	case B_ASSERT:
	{
		std::string msg = cstr(S, conc(S, a[1], "message"));
		T c = a[0].t ? a[0].t : mkConst(1, a[0].c != 0);
		if (tm[c].w > 1) c = mkNot(mkEq(c, mkConst(tm[c].w, 0)));
		assertTrue(S, c, msg);
		break;
	}
	case B_ASSERT_EQ:
	{
		u64 p = conc(S, a[0], "pointer"), q = conc(S, a[1], "pointer"), n = conc(S, a[2], "size"); std::string msg = cstr(S, conc(S, a[3], "message"));
		std::vector<std::pair<T, T>> pairs;
		if (n)
		{
			access(S, p, n, false); access(S, q, n, false);
			for (u64 i = 0; i < n;)
			{
				unsigned c = n - i >= 8 ? 8 : n - i >= 4 ? 4 : 1;
				V x = loadAt(S, cv(p + i), c, 8 * c), y = loadAt(S, cv(q + i), c, 8 * c);
				pairs.push_back({toT(x, 8 * c), toT(y, 8 * c)});
				i += c;
			}
		}
		assertEq(S, pairs, msg);
		break;
	}
	case B_COVER:
	{
		std::string n = cstr(S, conc(S, a[0], "name"));
		if (!coverSet.count(n)) { if (checkSat(S.pc, 10000, nullptr) == R_SAT) coverSet.insert(n); }
		break;
	}
	case B_ISCONST: { u64 p = conc(S, a[0], "pointer"), n = conc(S, a[1], "size"); Obj &o = access(S, p, n, false); bool c = true; for (u64 i = 0; i < n; ++i) { Cell &x = o.d[p - o.base + i]; if (x.t || x.f) c = false; } ret(cv(c)); break; }
	case B_HAVOC2: case B_HAVOC:
	{
		// replace every maximal symbolic word in the regions by a fresh variable, the same term by the same variable
		std::unordered_map<T, T> map;
		int regions = I.builtin == B_HAVOC2 ? 2 : 1;
		for (int r = 0; r < regions; ++r)
		{
			u64 p = conc(S, a[2 * r], "pointer"), n = conc(S, a[2 * r + 1], "size");
			if (!n) continue;
			Obj &o = access(S, p, n, true);
			for (u64 i = 0; i < n; ++i)
			{
				Cell &c = o.d[p - o.base + i];
				if (!c.t || c.f) continue;
				T t = mkExtract(c.t, 8 * c.b, 8);
				if (tm.isC(t)) { c = Cell{0, (u8)tm[t].k, 0}; continue; }
				auto it = map.find(t);
				if (it == map.end()) it = map.emplace(t, mkVar(8, "havoc" + std::to_string(tm.vars.size()), VF_HAVOC)).first;
				c = Cell{it->second, 0, 0};
			}
		}
		ret(cv((u32)map.size()));
		break;
	}
	case B_TRY:
	{
		u64 fp = conc(S, a[0], "function pointer");
		auto it = fnAt.find(fp); if (it == fnAt.end()) throw Unsupported("vp_try target");
		std::vector<V> args{a[1]};
		pushCall(S, it->second, &I, args);
		S.fr.back().mark = 1;
		return;
	}
	case B_LIVE: { u64 n = 0; for (auto &o : S.h) if (o->alive) ++n; ret(cv(n & mask(I.w))); break; }
	case B_RECORD:
	{
		u64 p = conc(S, a[0], "pointer"), n = conc(S, a[1], "size"); std::string nm = cstr(S, conc(S, a[2], "name"));
		std::string hx; char b[4]; bool c = true;
		if (n) { Obj &o = access(S, p, n, false); for (u64 i = 0; i < n; ++i) { Cell &x = o.d[p - o.base + i]; if (x.t || x.f) { c = false; break; } snprintf(b, 4, "%02x", x.b); hx += b; } }
		records.push_back("\"" + nm + "=" + (c ? hx : "symbolic") + "\"");
		break;
	}
	case B_LOG: { if (getenv("HSX_LOG")) { std::string s = cstr(S, conc(S, a[0], "msg")); fprintf(stderr, "log: %s %s\n", s.c_str(), a.size() > 1 ? (a[1].t ? show(a[1].t, 8).c_str() : hex128(a[1].c).c_str()) : ""); } break; }
	case B_NEW: case B_MALLOC: case B_NEWAL: case B_ALLOC:
	{
		u64 n = conc(S, a[0], "allocation size");
		if (n > (1ull << 28)) { if (I.builtin == B_MALLOC) { ret(cv(0)); break; } excNames.push_back("_ZTISt9bad_alloc"); S.excType = excNames.size(); S.excPtr = 8; unwind(S); return; }
		u64 al = I.builtin == B_NEWAL ? conc(S, a[1], "alignment") : 16;
		ret(cv(alloc(S.h, heapTop, n, al, K_HEAP, false))); ++heapAllocs; break;
	}
	case B_TRIPALLOC: { u64 n = conc(S, a[0], "size"); tripFn = conc(S, a[1], "function pointer"); tripBase = alloc(S.h, heapTop, n, 16, K_HEAP, false); tripEnd = tripBase + n; ret(cv(tripBase)); break; }
	case B_CALLOC: { u64 n = conc(S, a[0], "size") * conc(S, a[1], "size"); ret(cv(alloc(S.h, heapTop, n, 16, K_HEAP, true))); ++heapAllocs; break; }
	case B_REALLOC:
	{
		u64 p = conc(S, a[0], "pointer"), n = conc(S, a[1], "size"); u64 q = alloc(S.h, heapTop, n, 16, K_HEAP, false);
		if (p) { Obj &o = access(S, p, 0, false); memcopy(S, q, p, std::min<u64>(n, o.size)); ObjP *op; access(S, p, 0, true, &op); (*op)->alive = false; }
		ret(cv(q)); break;
	}
	case B_DEL:
	{
		u64 p = conc(S, a[0], "pointer");
		if (p)
		{
			ObjP *o = find(S, p);
			if (!o || (*o)->base != p || (*o)->kind != K_HEAP) forbidden(S, "memory", "free of an invalid pointer");
			if (!(*o)->alive) forbidden(S, "memory", "double free");
			auto n = std::make_shared<Obj>(); n->base = (*o)->base; n->size = (*o)->size; n->kind = K_HEAP; n->alive = false; n->d.resize(0);
			*o = n;
		}
		break;
	}
	case B_MEMCPY: { u64 n = conc(S, a[2], "copy size"); memcopy(S, conc(S, a[0], "pointer"), conc(S, a[1], "pointer"), n); ret(a[0]); break; }
	case B_MEMSET:
	{
		u64 p = conc(S, a[0], "pointer"), n = conc(S, a[2], "size");
		if (n) { Obj &o = access(S, p, n, true); Cell c; if (a[1].t) c = Cell{mkExtract(a[1].t, 0, 8), 0, 0}; else c = Cell{0, (u8)a[1].c, 0}; std::fill(o.d.begin() + (p - o.base), o.d.begin() + (p - o.base) + n, c); }
		ret(a[0]); break;
	}
	case B_MEMCMP:
	{
		u64 p = conc(S, a[0], "pointer"), q = conc(S, a[1], "pointer"), n = conc(S, a[2], "size");
		T r = mkConst(32, 0);
		if (n) { access(S, p, n, false); access(S, q, n, false); }
		for (u64 i = n; i-- > 0;)
		{
			T x = toT(loadAt(S, cv(p + i), 1, 8), 8), y = toT(loadAt(S, cv(q + i), 1, 8), 8);
			r = mkIte(mkEq(x, y), r, mkIte(mkUlt(x, y), mkConst(32, ~(u128)0), mkConst(32, 1)));
		}
		ret(fromT(r)); break;
	}
	case B_STRLEN:
	{
		u64 p = conc(S, a[0], "pointer"); u64 n = 0;
		while (true)
		{
			V c = loadAt(S, cv(p + n), 1, 8);
			if (c.t) { int fe = feasible(S, mkEq(c.t, mkConst(8, 0))); if (fe & 1) throw Unsupported("strlen of symbolic string"); }
			else if (c.c == 0) break;
			++n;
		}
		ret(cv(n)); break;
	}
	case B_STRCMP:
	{
		u64 p = conc(S, a[0], "pointer"), q = conc(S, a[1], "pointer"); int r = 0;
		for (u64 i = 0;; ++i)
		{
			V x = loadAt(S, cv(p + i), 1, 8), y = loadAt(S, cv(q + i), 1, 8);
			if (x.t || y.t) throw Unsupported("strcmp of symbolic string");
			if (x.c != y.c) { r = x.c < y.c ? -1 : 1; break; }
			if (!x.c) break;
		}
		ret(cv((u32)r)); break;
	}
	case B_MEMCHR:
	{
		u64 p = conc(S, a[0], "pointer"), n = conc(S, a[2], "size"); T r = mkConst(PW, 0); T ch = toT(a[1], 32); ch = mkExtract(ch, 0, 8);
		for (u64 i = n; i-- > 0;) { T x = toT(loadAt(S, cv(p + i), 1, 8), 8); r = mkIte(mkEq(x, ch), mkConst(PW, p + i), r); }
		ret(fromT(r)); break;
	}
	case B_ABORT: case B_TERMINATE: case B_PUREVIRT: case B_EXIT: case B_ASSERTFAIL:
	{
		int code = I.builtin == B_EXIT ? 2 : 3;
		if (I.builtin == B_ASSERTFAIL && !a.empty() && !a[0].t) { }
		for (size_t i = S.fr.size(); i-- > 1;) if (S.fr[i].mark == 1)
		{
			const Ins *site = S.fr[i].site;
			V ec = I.builtin == B_EXIT && !a.empty() ? a[0] : cv(0); (void)ec;
			while (S.fr.size() > i) popFrame(S);
			S.fr.back().r[site->dst] = cv(code);
			if (site->op == Instruction::Invoke) enter(S, site->t);
			return;
		}
		std::string why = I.builtin == B_ABORT ? "abort()" : I.builtin == B_TERMINATE ? "std::terminate()" : I.builtin == B_EXIT ? "exit()" : I.builtin == B_PUREVIRT ? "pure virtual call" : "assertion failed";
		if (I.builtin == B_ASSERTFAIL) { for (auto &x : a) if (!x.t && x.c > globBase && x.c < globTop) { why += ": " + cstr(S, (u64)x.c); if (I.callee && I.callee->getName() == "__assert_fail") break; } }
		forbidden(S, "abort", why + " reached");
		break;
	}
	case B_ALLOCEXC: { u64 n = conc(S, a[0], "size"); ret(cv(alloc(S.h, heapTop, n + 16, 16, K_HEAP, true))); S.h.back()->kind = K_HEAP; break; }
	case B_FREEEXC: { u64 p = conc(S, a[0], "pointer"); ObjP *o = find(S, p); if (o) { auto n = std::make_shared<Obj>(**o); n->alive = false; *o = n; } break; }
	case B_THROW: S.excPtr = conc(S, a[0], "exception"); S.excType = conc(S, a[1], "type"); unwind(S); return;
	case B_STDTHROW:
	{
		std::string n = I.callee->getName().str(), t = "_ZTISt9exception";
		static const std::pair<const char *, const char *> tb[] = {{"invalid_argument", "_ZTISt16invalid_argument"}, {"out_of_range", "_ZTISt12out_of_range"}, {"length_error", "_ZTISt12length_error"}, {"bad_alloc", "_ZTISt9bad_alloc"}, {"bad_array_new_length", "_ZTISt20bad_array_new_length"}, {"logic_error", "_ZTISt11logic_error"}, {"domain_error", "_ZTISt12domain_error"}, {"runtime_error", "_ZTISt13runtime_error"}, {"bad_function_call", "_ZTISt17bad_function_call"}, {"bad_cast", "_ZTISt8bad_cast"}};
		for (auto &e : tb) if (n.find(e.first) != std::string::npos) t = e.second;
		bool inTry = false; for (size_t i = 1; i < S.fr.size(); ++i) if (S.fr[i].mark == 1 || (S.fr[i].site && S.fr[i].site->op == Instruction::Invoke)) inTry = true;
		if (isInvoke) inTry = true;
		excNames.push_back(t); S.excType = excNames.size();
		if (!inTry) forbidden(S, "exception", "exception thrown: " + t.substr(4));
		S.excPtr = alloc(S.h, heapTop, 32, 16, K_HEAP, true); S.h.back()->alive = true;
		unwindFrom: if (isInvoke) { /* landing pad in this frame */
			// emulate a callee frame so that unwind() sees the invoke site
			S.fr.emplace_back(); S.fr.back().fn = S.fr[S.fr.size() - 2].fn; S.fr.back().site = &I; }
		else { S.fr.emplace_back(); S.fr.back().fn = S.fr[S.fr.size() - 2].fn; S.fr.back().site = &I; }
		(void)&&unwindFrom;
		unwind(S); return;
	}
	case B_BEGINCATCH: S.caught.push_back(conc(S, a[0], "exception")); ret(a[0]); break;
	case B_ENDCATCH: if (!S.caught.empty()) { ObjP *o = find(S, S.caught.back()); S.caught.pop_back(); if (o) { auto n = std::make_shared<Obj>(**o); n->alive = false; *o = n; } } break;
	case B_RETHROW: if (!S.caught.empty()) S.excPtr = S.caught.back(); S.fr.emplace_back(); S.fr.back().fn = S.fr[S.fr.size() - 2].fn; S.fr.back().site = &I; unwind(S); return;
	case B_GUARDACQ: { V g = loadAt(S, a[0], 1, 8); ret(cv(g.c ? 0 : 1)); break; }
	case B_GUARDREL: storeAt(S, a[0], cv(1), 1, 8); break;
	case B_ATEXIT: ret(cv(0)); break;
	case B_NOP: break;
	case B_RET0: ret(cv(0)); break;
	case B_LOG2: ret(fpv(std::log2(fp(a[0], S)))); break;
	case B_LROUND: ret(cv((u128)(u64)std::lround(fp(a[0], S)) & mask(I.w))); break;
	case B_MATH1: { fp(a[0], S); ret(cv(hostMath1(I.sub, fp(a[0], S)))); break; }
	case B_SNPRINTF:
	{
		// supports %% %c %s(concrete) %d/%u/%x with concrete values and %02x / %x of a symbolic byte
		size_t i0 = I.sub == 1 ? 1 : 2;
		u64 dst = conc(S, a[0], "pointer"), lim = I.sub == 1 ? (1ull << 30) : conc(S, a[1], "size");
		std::string fmt = cstr(S, conc(S, a[i0], "format")); size_t an = i0 + 1; std::vector<V> out;
		for (size_t i = 0; i < fmt.size(); ++i)
		{
			if (fmt[i] != '%') { out.push_back(cv((u8)fmt[i])); continue; }
			size_t j = i + 1; while (j < fmt.size() && strchr("0123456789hljz-+ .#", fmt[j])) ++j;
			char c = fmt[j]; std::string spec = fmt.substr(i, j - i); i = j;
			if (c == '%') { out.push_back(cv('%')); continue; }
			V v = an < a.size() ? a[an] : cv(0); ++an;
			if (c == 'c') { out.push_back(v.t ? fromT(mkExtract(v.t, 0, 8)) : cv((u8)v.c)); continue; }
			if (c == 's') { std::string s = cstr(S, conc(S, v, "string")); for (char q : s) out.push_back(cv((u8)q)); continue; }
			if (v.t)
			{
				if ((c != 'x' && c != 'X') || (tm[v.t].po & ~mask(8)) || spec.find("02") == std::string::npos) throw Unsupported("printf conversion of symbolic value");
				for (int hn = 1; hn >= 0; --hn)
				{
					T nb = mkExtract(v.t, 4 * hn, 4); std::vector<u64> tb(16); for (int q = 0; q < 16; ++q) tb[q] = (u8)(c == 'x' ? "0123456789abcdef" : "0123456789ABCDEF")[q];
					out.push_back(fromT(mkLookup(tb, 8, nb)));
				}
				continue;
			}
			char buf[128]; std::string sp; for (char q : spec) if (!strchr("hljz", q)) sp += q; sp += "ll"; sp += c;
			if (c == 'd' || c == 'i') snprintf(buf, sizeof buf, sp.c_str(), (long long)(spec.find('l') != std::string::npos ? (long long)v.c : (long long)(int)v.c)); else snprintf(buf, sizeof buf, sp.c_str(), (unsigned long long)v.c);
			for (char *q = buf; *q; ++q) out.push_back(cv((u8)*q));
		}
		for (u64 i = 0; i <= out.size() && lim; ++i) { if (i + 1 == lim || i == out.size()) { storeAt(S, cv(dst + i), cv(0), 1, 8); break; } storeAt(S, cv(dst + i), out[i], 1, 8); }
		ret(cv(out.size())); break;
	}
	default: throw Unsupported("builtin");
	}
	(void)f;
	if (isInvoke && S.fr.back().fn == S.fr.back().fn) enter(S, I.t);
}

static inline u128 sxt(u128 v, unsigned w) { return (w < 128 && ((v >> (w - 1)) & 1)) ? (v | ~mask(w)) : v; }

void Engine::step(State &S, const Ins &I)
{
	Frame &f = S.fr.back();
	switch (I.op)
	{
	case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::And: case Instruction::Or: case Instruction::Xor:
	case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: case Instruction::UDiv: case Instruction::URem: case Instruction::SDiv: case Instruction::SRem:
	{
		unsigned w = I.w;
		for (u32 i = 0; i < I.n; ++i)
		{
			const V a = gi(f, I.o[0], i), b = gi(f, I.o[1], i);
			V r; r.t = 0;
			if (I.op >= Instruction::UDiv && I.op <= Instruction::SRem && I.op != Instruction::FDiv)
			{
				T z = mkEq(toT(b, w), mkConst(w, 0));
				if (!tm.isC(z)) mustHold(S, mkNot(z), "ub", "division by zero"); else if (tm[z].k) forbidden(S, "ub", "division by zero");
			}
			if (!a.t && !b.t)
			{
				u128 m = mask(w);
				switch (I.op)
				{
				case Instruction::Add: r.c = (a.c + b.c) & m; break;
				case Instruction::Sub: r.c = (a.c - b.c) & m; break;
				case Instruction::Mul: r.c = (a.c * b.c) & m; break;
				case Instruction::And: r.c = a.c & b.c; break;
				case Instruction::Or: r.c = a.c | b.c; break;
				case Instruction::Xor: r.c = a.c ^ b.c; break;
				case Instruction::Shl: r.c = b.c >= w ? 0 : (a.c << (unsigned)b.c) & m; break;
				case Instruction::LShr: r.c = b.c >= w ? 0 : a.c >> (unsigned)b.c; break;
				default:
				{
					Op o = I.op == Instruction::AShr ? OP_ASHR : I.op == Instruction::UDiv ? OP_UDIV : I.op == Instruction::URem ? OP_UREM : I.op == Instruction::SDiv ? OP_SDIV : OP_SREM;
					u128 av[2] = {a.c, b.c}; u16 aw[2] = {(u16)w, (u16)w}; r.c = evalOp(o, w, av, aw, 2, 0, nullptr);
				}
				}
			}
			else
			{
				T x = toT(a, w), y = toT(b, w), z;
				switch (I.op)
				{
				case Instruction::Add: z = mkAdd2(x, y); break;
				case Instruction::Sub: z = mkSub(x, y); break;
				case Instruction::Mul: z = mkMul(x, y); break;
				case Instruction::And: z = mkAnd2(x, y); break;
				case Instruction::Or: z = mkOr2(x, y); break;
				case Instruction::Xor: z = mkXor2(x, y); break;
				case Instruction::Shl: z = mkShift(OP_SHL, x, y); break;
				case Instruction::LShr: z = mkShift(OP_LSHR, x, y); break;
				case Instruction::AShr: z = mkShift(OP_ASHR, x, y); break;
				case Instruction::UDiv: z = mkDiv(OP_UDIV, x, y); break;
				case Instruction::URem: z = mkDiv(OP_UREM, x, y); break;
				case Instruction::SDiv: z = mkDiv(OP_SDIV, x, y); break;
				default: z = mkDiv(OP_SREM, x, y); break;
				}
				r = fromT(z);
			}
			f.r[I.dst + i] = r;
		}
		return;
	}
	case Instruction::ICmp:
		for (u32 i = 0; i < I.n; ++i)
		{
			const V a = gi(f, I.o[0], i), b = gi(f, I.o[1], i);
			unsigned w = I.w2;
			if (!a.t && !b.t)
			{
				bool r;
				s128 sa = (s128)sxt(a.c, w), sb = (s128)sxt(b.c, w);
				switch (I.sub)
				{
				case CmpInst::ICMP_EQ: r = a.c == b.c; break; case CmpInst::ICMP_NE: r = a.c != b.c; break;
				case CmpInst::ICMP_UGT: r = a.c > b.c; break; case CmpInst::ICMP_UGE: r = a.c >= b.c; break;
				case CmpInst::ICMP_ULT: r = a.c < b.c; break; case CmpInst::ICMP_ULE: r = a.c <= b.c; break;
				case CmpInst::ICMP_SGT: r = sa > sb; break; case CmpInst::ICMP_SGE: r = sa >= sb; break;
				case CmpInst::ICMP_SLT: r = sa < sb; break; default: r = sa <= sb; break;
				}
				f.r[I.dst + i] = cv(r);
			}
			else
			{
				T x = toT(a, w), y = toT(b, w), z;
				switch (I.sub)
				{
				case CmpInst::ICMP_EQ: z = mkEq(x, y); break; case CmpInst::ICMP_NE: z = mkNot(mkEq(x, y)); break;
				case CmpInst::ICMP_UGT: z = mkUlt(y, x); break; case CmpInst::ICMP_UGE: z = mkNot(mkUlt(x, y)); break;
				case CmpInst::ICMP_ULT: z = mkUlt(x, y); break; case CmpInst::ICMP_ULE: z = mkNot(mkUlt(y, x)); break;
				case CmpInst::ICMP_SGT: z = mkSlt(y, x); break; case CmpInst::ICMP_SGE: z = mkNot(mkSlt(x, y)); break;
				case CmpInst::ICMP_SLT: z = mkSlt(x, y); break; default: z = mkNot(mkSlt(y, x)); break;
				}
				f.r[I.dst + i] = fromT(z);
			}
		}
		return;
	case Instruction::Load:
	{
		const V p = g1(f, I.o[0]);
		for (u32 i = 0; i < I.n; ++i)
		{
			const Leaf &l = I.leaves[i];
			V a = p; if (l.off) a = p.t ? fromT(mkAdd(PW, {{p.t, 1}}, l.off)) : cv((p.c + l.off) & mask(PW));
			V v = loadAt(S, a, l.bytes, l.w);
			S.fr.back().r[I.dst + i] = v;
		}
		return;
	}
	case Instruction::Store:
	{
		const V p = g1(f, I.o[1]);
		for (u32 i = 0; i < I.leaves.size(); ++i)
		{
			const Leaf &l = I.leaves[i];
			V a = p; if (l.off) a = p.t ? fromT(mkAdd(PW, {{p.t, 1}}, l.off)) : cv((p.c + l.off) & mask(PW));
			storeAt(S, a, gi(f, I.o[0], i), l.bytes, l.w);
		}
		return;
	}
	case Instruction::GetElementPtr:
	{
		V b = g1(f, I.o[0]); u64 k = I.k; AddList l;
		for (size_t i = 0; i < I.gep.size(); ++i)
		{
			const V x = g1(f, I.o[I.gep[i].first]); unsigned w = I.idx[i];
			if (!x.t) k += (u64)sxt(x.c, w) * I.gep[i].second;
			else { T t = w < PW ? mkSext(x.t, PW) : w > PW ? mkExtract(x.t, 0, PW) : x.t; l.push_back({t, I.gep[i].second}); }
		}
		if (l.empty() && !b.t) f.r[I.dst] = cv((b.c + k) & mask(PW));
		else if (l.empty() && tm[b.t].op == OP_ITE)
		{
			// keep pointer choices as choices
			std::function<T(T, int)> sh = [&](T t, int d) -> T { if (tm[t].op == OP_ITE && d < 8) { T c = tm.arg(t, 0), x = tm.arg(t, 1), y = tm.arg(t, 2); T nx = sh(x, d + 1), ny = sh(y, d + 1); return mkIte(c, nx, ny); } return mkAdd(PW, {{t, 1}}, k); };
			f.r[I.dst] = fromT(sh(b.t, 0));
		}
		else { if (b.t) l.push_back({b.t, 1}); else k += (u64)b.c; f.r[I.dst] = fromT(mkAdd(PW, l, k)); }
		return;
	}
	case Instruction::Alloca:
	{
		u64 n = conc(S, g1(f, I.o[0]), "alloca size") * I.k;
		u64 a = alloc(S.s, stackTop, n, I.sub, K_STACK, false);
		S.fr.back().allocas.push_back(a);
		S.fr.back().r[I.dst] = cv(a);
		return;
	}
	case Instruction::ZExt: case Instruction::SExt: case Instruction::Trunc: case Instruction::PtrToInt: case Instruction::IntToPtr:
		for (u32 i = 0; i < I.n; ++i)
		{
			const V a = gi(f, I.o[0], i);
			if (!a.t) { u128 v = I.op == Instruction::SExt ? sxt(a.c, I.w2) : a.c; f.r[I.dst + i] = cv(v & mask(I.w)); }
			else if (I.w < I.w2) f.r[I.dst + i] = fromT(mkExtract(a.t, 0, I.w));
			else if (I.op == Instruction::SExt) f.r[I.dst + i] = fromT(mkSext(a.t, I.w));
			else f.r[I.dst + i] = fromT(mkZext(a.t, I.w));
		}
		return;
	case Instruction::BitCast:
	{
		u32 sn = I.I ? countOf(I.I->getOperand(0)->getType()) : 1;
		if (sn == I.n) { for (u32 i = 0; i < I.n; ++i) { V v = gi(f, I.o[0], i); f.r[I.dst + i] = v; } return; }
		// regroup lanes
		std::vector<T> all; bool c = true;
		for (u32 i = 0; i < sn; ++i) { V v = gi(f, I.o[0], i); if (v.t) c = false; all.push_back(toT(v, I.w2)); }
		if (BE) std::reverse(all.begin(), all.end());
		(void)c;
		std::vector<T> outs(I.n);
		unsigned total = sn * I.w2;
		for (u32 i = 0; i < I.n; ++i)
		{
			unsigned lo = i * I.w, hi = lo + I.w; std::vector<T> parts;
			for (u32 j = 0; j < sn; ++j) { unsigned b = std::max(lo, j * I.w2), e = std::min(hi, (j + 1) * I.w2); if (b < e) parts.push_back(mkExtract(all[j], b - j * I.w2, e - b)); }
			outs[i] = mkConcat(parts);
		}
		(void)total;
		if (BE) std::reverse(outs.begin(), outs.end());
		for (u32 i = 0; i < I.n; ++i) f.r[I.dst + i] = fromT(outs[i]);
		return;
	}
	case Instruction::Select:
	{
		u32 cn = countOf(I.I->getOperand(0)->getType());
		for (u32 i = 0; i < I.n; ++i)
		{
			const V c = gi(f, I.o[0], cn > 1 ? i : 0), a = gi(f, I.o[1], i), b = gi(f, I.o[2], i);
			if (!c.t) f.r[I.dst + i] = c.c ? a : b;
			else { unsigned w = f.fn->sw[I.dst + i]; f.r[I.dst + i] = fromT(mkIte(c.t, toT(a, w), toT(b, w))); }
		}
		return;
	}
	case Instruction::ExtractValue: for (u32 i = 0; i < I.n; ++i) { V v = gi(f, I.o[0], (u32)I.k + i); f.r[I.dst + i] = v; } return;
	case Instruction::InsertValue:
	{
		std::vector<V> tmp; get(f, I.o[0], I.n, tmp);
		for (u32 i = 0; i < I.sub; ++i) tmp[I.k + i] = gi(f, I.o[1], i);
		for (u32 i = 0; i < I.n; ++i) f.r[I.dst + i] = tmp[i];
		return;
	}
	case Instruction::ExtractElement: { u64 k = conc(S, g1(f, I.o[1]), "vector index"); f.r[I.dst] = gi(f, I.o[0], (u32)k); return; }
	case Instruction::InsertElement: { std::vector<V> tmp; get(f, I.o[0], I.n, tmp); tmp[(size_t)conc(S, g1(f, I.o[2]), "vector index")] = g1(f, I.o[1]); for (u32 i = 0; i < I.n; ++i) f.r[I.dst + i] = tmp[i]; return; }
	case Instruction::ShuffleVector:
	{
		std::vector<V> tmp(I.n);
		for (u32 i = 0; i < I.n; ++i) { int k = (int)I.idx[i]; tmp[i] = k < 0 ? cv(0) : (u32)k < I.sub ? gi(f, I.o[0], (u32)k) : gi(f, I.o[1], (u32)k - I.sub); }
		for (u32 i = 0; i < I.n; ++i) f.r[I.dst + i] = tmp[i];
		return;
	}
	case Instruction::Freeze: for (u32 i = 0; i < I.n; ++i) { V v = gi(f, I.o[0], i); f.r[I.dst + i] = v; } return;
	case Instruction::FNeg: f.r[I.dst] = fpv(-fp(g1(f, I.o[0]), S)); return;
	case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv:
	{
		if (I.w != 64) throw Unsupported("floating point width");
		double a = fp(g1(f, I.o[0]), S), b = fp(g1(f, I.o[1]), S);
		f.r[I.dst] = fpv(I.op == Instruction::FAdd ? a + b : I.op == Instruction::FSub ? a - b : I.op == Instruction::FMul ? a * b : a / b);
		return;
	}
	case Instruction::UIToFP: case Instruction::SIToFP:
	{
		if (I.w != 64) throw Unsupported("floating point width");
		V a = g1(f, I.o[0]); if (a.t) throw Unsupported("symbolic int to floating point");
		f.r[I.dst] = fpv(I.op == Instruction::UIToFP ? (double)(u64)a.c : (double)(long long)sxt(a.c, I.w2));
		return;
	}
	case Instruction::FPToUI: case Instruction::FPToSI: f.r[I.dst] = cv((u128)(u64)(long long)fp(g1(f, I.o[0]), S) & mask(I.w)); return;
	case Instruction::FCmp:
	{
		double a = fp(g1(f, I.o[0]), S), b = fp(g1(f, I.o[1]), S); bool r;
		switch (I.sub) { case CmpInst::FCMP_OEQ: case CmpInst::FCMP_UEQ: r = a == b; break; case CmpInst::FCMP_ONE: case CmpInst::FCMP_UNE: r = a != b; break; case CmpInst::FCMP_OLT: case CmpInst::FCMP_ULT: r = a < b; break; case CmpInst::FCMP_OLE: case CmpInst::FCMP_ULE: r = a <= b; break; case CmpInst::FCMP_OGT: case CmpInst::FCMP_UGT: r = a > b; break; case CmpInst::FCMP_OGE: case CmpInst::FCMP_UGE: r = a >= b; break; case CmpInst::FCMP_TRUE: r = true; break; default: r = false; }
		f.r[I.dst] = cv(r); return;
	}
	case Instruction::Ret: doReturn(S, &I); return;
	case Instruction::Unreachable: forbidden(S, "ub", "unreachable code reached"); return;
	case Instruction::Resume:
	{
		S.fr.emplace_back(); S.fr.back().fn = S.fr[S.fr.size() - 2].fn; static Ins dummy; dummy.op = Instruction::Call; S.fr.back().site = &dummy;
		unwind(S); return;
	}
	case Instruction::LandingPad: f.r[I.dst] = f.ehVal.empty() ? cv(0) : f.ehVal[0]; f.r[I.dst + 1] = f.ehVal.size() > 1 ? f.ehVal[1] : cv(0); return;
	case Instruction::Br:
	{
		if (!I.sub) { enter(S, I.t); return; }
		const V c = g1(f, I.o[0]);
		if (!c.t) { enter(S, c.c ? I.t : I.f); return; }
		if (I.t == I.f) { enter(S, I.t); return; }
		branch(S, {{c.t, I.t}, {mkNot(c.t), I.f}});
		return;
	}
	case Instruction::Switch:
	{
		const V c = g1(f, I.o[0]);
		if (!c.t) { int t = I.f; for (auto &k : I.cases) if (k.first == c.c) { t = k.second; break; } enter(S, t); return; }
		std::map<int, std::vector<T>> by; std::vector<T> any;
		for (auto &k : I.cases) { T e = mkEq(c.t, mkConst(I.w, k.first)); by[k.second].push_back(e); any.push_back(e); }
		std::vector<std::pair<T, int>> ways;
		T def = mkNot(mkOr(1, any, 0));
		if (by.count(I.f)) { by[I.f].push_back(def); } else ways.push_back({def, I.f});
		for (auto &e : by) ways.push_back({mkOr(1, e.second, 0), e.first});
		branch(S, ways);
		return;
	}
	case Instruction::Call: case Instruction::Invoke:
	{
		std::vector<V> a;
		for (u32 i = 0; i < I.w2; ++i) for (u32 j = 0; j < I.idx[i]; ++j) a.push_back(gi(f, I.o[i], j));
		if (I.builtin == -2) throw Unsupported("inline assembly");
		if (I.builtin > 0) { callBuiltin(S, I, a); return; }
		const Function *F = I.callee;
		if (!F)
		{
			V fpv_ = g1(f, I.o.back()); u64 fa = conc(S, fpv_, "function pointer");
			auto it = fnAt.find(fa);
			if (it == fnAt.end()) forbidden(S, "memory", "call through an invalid function pointer");
			F = it->second;
			unsigned sb; int b = builtinOf(F->getName().str(), sb);
			if (b > 0) { Ins tmp = I; tmp.builtin = b; tmp.callee = F; tmp.sub = sb; callBuiltin(S, tmp, a); return; }
		}
		if (F->isIntrinsic())
		{
			unsigned w = I.w; auto r1 = [&](const V &v) { S.fr.back().r[I.dst] = v; };
			auto vec = [&](const std::function<V(const V &, const V &)> &fn) { u32 n = I.n; std::vector<V> out(n); for (u32 i = 0; i < n; ++i) out[i] = fn(a[i], a.size() >= 2 * n ? a[n + i] : cv(0)); for (u32 i = 0; i < n; ++i) S.fr.back().r[I.dst + i] = out[i]; };
			switch (F->getIntrinsicID())
			{
			case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label:
			case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::donothing: case Intrinsic::prefetch: case Intrinsic::stackrestore: case Intrinsic::var_annotation: case Intrinsic::sideeffect: case Intrinsic::invariant_end: break;
			case Intrinsic::stacksave: case Intrinsic::invariant_start: r1(cv(0)); break;
			case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: { u64 n = conc(S, a[2], "copy size"); memcopy(S, conc(S, a[0], "pointer"), conc(S, a[1], "pointer"), n); break; }
			case Intrinsic::memset: case Intrinsic::memset_inline: { Ins t = I; t.dst = -1; t.builtin = B_MEMSET; t.op = Instruction::Call; callBuiltin(S, t, a); break; }
			case Intrinsic::trap: case Intrinsic::ubsantrap: case Intrinsic::debugtrap: forbidden(S, "ub", "undefined-behaviour trap" + std::string(F->getIntrinsicID() == Intrinsic::ubsantrap ? " #" + hex128(a[0].c) : "")); break;
			case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::ssa_copy: case Intrinsic::ptr_annotation: case Intrinsic::annotation: r1(a[0]); break;
			case Intrinsic::is_constant: r1(cv(0)); break;
			case Intrinsic::objectsize: r1(cv(mask(w))); break;
			case Intrinsic::eh_typeid_for: { u64 ti = (u64)a[0].c; auto it = typeIds.find(ti); u32 id = it == typeIds.end() ? (typeIds[ti] = (u32)typeIds.size() + 1) : it->second; r1(cv(id)); break; }
			case Intrinsic::umin: vec([&](const V &x, const V &y) { if (!x.t && !y.t) return cv(std::min(x.c, y.c)); T p = toT(x, w), q = toT(y, w); return fromT(mkIte(mkUlt(p, q), p, q)); }); break;
			case Intrinsic::umax: vec([&](const V &x, const V &y) { if (!x.t && !y.t) return cv(std::max(x.c, y.c)); T p = toT(x, w), q = toT(y, w); return fromT(mkIte(mkUlt(p, q), q, p)); }); break;
			case Intrinsic::smin: vec([&](const V &x, const V &y) { T p = toT(x, w), q = toT(y, w); return fromT(mkIte(mkSlt(p, q), p, q)); }); break;
			case Intrinsic::smax: vec([&](const V &x, const V &y) { T p = toT(x, w), q = toT(y, w); return fromT(mkIte(mkSlt(p, q), q, p)); }); break;
			case Intrinsic::abs: vec([&](const V &x, const V &) { T p = toT(x, w); return fromT(mkIte(mkSlt(p, mkConst(w, 0)), mkNeg(p), p)); }); break;
			case Intrinsic::bswap: vec([&](const V &x, const V &) { T p = toT(x, w); std::vector<T> parts; for (unsigned i = 0; i < w / 8; ++i) parts.push_back(mkExtract(p, w - 8 - 8 * i, 8)); return fromT(mkConcat(parts)); }); break;
			case Intrinsic::bitreverse: vec([&](const V &x, const V &) { T p = toT(x, w); std::vector<T> parts; for (unsigned i = 0; i < w; ++i) parts.push_back(mkExtract(p, w - 1 - i, 1)); return fromT(mkConcat(parts)); }); break;
			case Intrinsic::ctpop: vec([&](const V &x, const V &) { T p = toT(x, w); AddList l; for (unsigned i = 0; i < w; ++i) l.push_back({mkZext(mkExtract(p, i, 1), w), 1}); return fromT(w == 1 ? p : mkAdd(w, l, 0)); }); break;
			case Intrinsic::ctlz: { T p = toT(a[0], w), r = mkConst(w, w); for (unsigned i = 0; i < w; ++i) r = mkIte(mkExtract(p, i, 1), mkConst(w, w - 1 - i), r); r1(fromT(r)); break; }
			case Intrinsic::cttz: { T p = toT(a[0], w), r = mkConst(w, w); for (unsigned i = w; i-- > 0;) r = mkIte(mkExtract(p, i, 1), mkConst(w, i), r); r1(fromT(r)); break; }
			case Intrinsic::fshl: case Intrinsic::fshr:
			{
				bool left = F->getIntrinsicID() == Intrinsic::fshl; u32 n = I.n; std::vector<V> out(n);
				for (u32 i = 0; i < n; ++i)
				{
					V x = a[i], y = a[n + i], s = a[2 * n + i];
					if (!s.t)
					{
						unsigned k = (unsigned)(s.c % w);
						if (!x.t && !y.t) { u128 v = left ? (k ? ((x.c << k) | (y.c >> (w - k))) : x.c) : (k ? ((y.c >> k) | (x.c << (w - k))) : y.c); out[i] = cv(v & mask(w)); continue; }
						T p = toT(x, w), q = toT(y, w);
						if (k == 0) out[i] = left ? x : y;
						else if (left) out[i] = fromT(mkConcat({mkExtract(q, w - k, k), mkExtract(p, 0, w - k)}));
						else out[i] = fromT(mkConcat({mkExtract(q, k, w - k), mkExtract(p, 0, k)}));
					}
					else
					{
						if (w & (w - 1)) throw Unsupported("funnel shift width");
						T p = toT(x, w), q = toT(y, w), sm = mkAnd(w, {s.t}, w - 1);
						T inv = mkSub(mkConst(w, w), sm);
						if (left) out[i] = fromT(mkIte(mkEq(sm, mkConst(w, 0)), p, mkOr2(mkShift(OP_SHL, p, sm), mkShift(OP_LSHR, q, inv))));
						else out[i] = fromT(mkIte(mkEq(sm, mkConst(w, 0)), q, mkOr2(mkShift(OP_LSHR, q, sm), mkShift(OP_SHL, p, inv))));
					}
				}
				for (u32 i = 0; i < n; ++i) S.fr.back().r[I.dst + i] = out[i];
				break;
			}
			case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::umul_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow:
			{
				unsigned vw = S.fr.back().fn->sw[I.dst]; T x = toT(a[0], vw), y = toT(a[1], vw); bool sg = F->getIntrinsicID() == Intrinsic::sadd_with_overflow || F->getIntrinsicID() == Intrinsic::ssub_with_overflow || F->getIntrinsicID() == Intrinsic::smul_with_overflow;
				bool mul = F->getIntrinsicID() == Intrinsic::umul_with_overflow || F->getIntrinsicID() == Intrinsic::smul_with_overflow, sub = F->getIntrinsicID() == Intrinsic::usub_with_overflow || F->getIntrinsicID() == Intrinsic::ssub_with_overflow;
				unsigned ww = mul ? 2 * vw : vw + 1; if (ww > 128) throw Unsupported("overflow width");
				T ex = sg ? mkSext(x, ww) : mkZext(x, ww), ey = sg ? mkSext(y, ww) : mkZext(y, ww);
				T r = mul ? mkMul(ex, ey) : sub ? mkSub(ex, ey) : mkAdd2(ex, ey);
				T lo = mul ? mkMul(x, y) : sub ? mkSub(x, y) : mkAdd2(x, y);
				T back = sg ? mkSext(lo, ww) : mkZext(lo, ww);
				T ov = (!sg && !mul && !sub) ? mkUlt(lo, x) : (!sg && sub) ? mkUlt(x, y) : mkNot(mkEq(r, back));
				S.fr.back().r[I.dst] = fromT(lo); S.fr.back().r[I.dst + 1] = fromT(ov);
				break;
			}
			case Intrinsic::usub_sat: vec([&](const V &x, const V &y) { T p = toT(x, w), q = toT(y, w); return fromT(mkIte(mkUlt(p, q), mkConst(w, 0), mkSub(p, q))); }); break;
			case Intrinsic::uadd_sat: vec([&](const V &x, const V &y) { T p = toT(x, w), q = toT(y, w), s = mkAdd2(p, q); return fromT(mkIte(mkUlt(s, p), mkConst(w, mask(w)), s)); }); break;
			case Intrinsic::vector_reduce_add: case Intrinsic::vector_reduce_xor: case Intrinsic::vector_reduce_or: case Intrinsic::vector_reduce_and:
			{
				T r = toT(a[0], w); for (size_t i = 1; i < a.size(); ++i) { T x = toT(a[i], w); switch (F->getIntrinsicID()) { case Intrinsic::vector_reduce_add: r = mkAdd2(r, x); break; case Intrinsic::vector_reduce_xor: r = mkXor2(r, x); break; case Intrinsic::vector_reduce_or: r = mkOr2(r, x); break; default: r = mkAnd2(r, x); } }
				r1(fromT(r)); break;
			}
			case Intrinsic::fmuladd: case Intrinsic::fma: r1(fpv(fp(a[0], S) * fp(a[1], S) + fp(a[2], S))); break;
			case Intrinsic::log2: r1(fpv(std::log2(fp(a[0], S)))); break;
			case Intrinsic::floor: r1(fpv(std::floor(fp(a[0], S)))); break;
			case Intrinsic::ceil: r1(fpv(std::ceil(fp(a[0], S)))); break;
			case Intrinsic::round: r1(fpv(std::round(fp(a[0], S)))); break;
			case Intrinsic::lround: case Intrinsic::llround: r1(cv((u128)(u64)std::lround(fp(a[0], S)) & mask(w))); break;
			case Intrinsic::fabs: r1(fpv(std::fabs(fp(a[0], S)))); break;
			default: throw Unsupported("intrinsic " + F->getName().str());
			}
			if (I.op == Instruction::Invoke) enter(S, I.t);
			return;
		}
		if (F->isDeclaration()) throw Unsupported("external function " + demangle(F->getName().str()));
		pushCall(S, F, &I, a);
		return;
	}
	default: throw Unsupported("instruction " + std::string(I.I->getOpcodeName()));
	}
}

int Engine::feasible(State &S, T c)
{
	if (tm.isC(c)) return tm[c].k ? 1 : 2;
	int r = 0;
	for (Model &m : witnesses)
	{
		bool ok = true; for (T p : S.pc) if (!evalUnder(p, m)) { ok = false; break; }
		if (ok) r |= evalUnder(c, m) ? 1 : 2;
		if (r == 3) return r;
	}
	if (tm[c].n && r != 1 && locallyConst(c, false)) return 2;
	if (tm[c].n && r != 2 && locallyConst(c, true)) return 1;
	Model m;
	if (!(r & 1)) { std::vector<T> q(S.pc); q.push_back(c); if (checkSat(q, 4000, &m) != R_UNSAT) { r |= 1; if (witnesses.size() < 24) witnesses.push_back(m); } }
	if (!(r & 2)) { std::vector<T> q(S.pc); q.push_back(mkNot(c)); if (checkSat(q, 4000, &m) != R_UNSAT) { r |= 2; if (witnesses.size() < 24) witnesses.push_back(m); } }
	return r;
}

void Engine::merge(State &A, State &B, T c)
{
	++merges_;
	if (A.fr.size() != B.fr.size()) throw Unsupported("merge of different call depths");
	for (size_t i = 0; i < A.fr.size(); ++i)
	{
		Frame &x = A.fr[i], &y = B.fr[i];
		if (x.fn != y.fn || x.bb != y.bb || x.ip != y.ip) throw Unsupported("merge at different points");
		for (size_t k = 0; k < x.r.size(); ++k) if (!same(x.r[k], y.r[k]))
		{
			unsigned w = x.fn->sw[k];
			T p = toT(x.r[k], w), q = toT(y.r[k], w);
			x.r[k] = fromT(mkIte(c, p, q));
		}
		if (y.allocas.size() > x.allocas.size()) x.allocas = y.allocas;
	}
	auto mergeVec = [&](std::vector<ObjP> &a, std::vector<ObjP> &b) {
		std::vector<ObjP> out; size_t i = 0, j = 0;
		while (i < a.size() || j < b.size())
		{
			if (j >= b.size() || (i < a.size() && a[i]->base < b[j]->base)) { out.push_back(a[i++]); continue; }
			if (i >= a.size() || b[j]->base < a[i]->base) { out.push_back(b[j++]); continue; }
			if (a[i] == b[j]) { out.push_back(a[i]); ++i; ++j; continue; }
			ObjP x = a[i++], y = b[j++];
			if (x->lazy) materialize(*x);
			if (y->lazy) materialize(*y);
			if (x->alive != y->alive) throw Unsupported("conditional free");
			auto m = std::make_shared<Obj>(*x);
			for (size_t k = 0; k < m->d.size();)
			{
				if (x->d[k] == y->d[k]) { ++k; continue; }
				if (x->d[k].f || y->d[k].f)   // uninitialised on one side: take the other side's value only if both known
				{
					if (x->d[k].f && y->d[k].f) { ++k; continue; }
					T p = cellT(x->d[k]), q = cellT(y->d[k]);
					T r = mkIte(c, p, q); m->d[k] = tm.isC(r) ? Cell{0, (u8)tm[r].k, 0} : Cell{r, 0, 0}; ++k; continue;
				}
				unsigned n = 1;
				for (unsigned tryN : {8u, 4u, 2u})
				{
					if ((x->base + k) % tryN || k + tryN > m->d.size()) continue;
					bool wx = x->d[k].t && tm[x->d[k].t].w == 8 * tryN, wy = y->d[k].t && tm[y->d[k].t].w == 8 * tryN;
					bool clean = true; for (unsigned q = 0; q < tryN; ++q) if (x->d[k + q].f || y->d[k + q].f) clean = false;
					if ((wx || wy) && clean) { n = tryN; break; }
				}
				V p = loadRaw(*x, k, n), q = loadRaw(*y, k, n);
				storeRaw(*m, k, fromT(mkIte(c, toT(p, 8 * n), toT(q, 8 * n))), n, 8 * n);
				k += n;
			}
			out.push_back(m);
		}
		a.swap(out);
	};
	mergeVec(A.g, B.g); mergeVec(A.h, B.h); mergeVec(A.s, B.s);
}

void Engine::branch(State &S, const std::vector<std::pair<T, int>> &ways)
{
	std::vector<std::pair<T, int>> ok;
	if (ways.size() == 2)
	{
		int fe = feasible(S, ways[0].first);
		if (fe & 1) ok.push_back(ways[0]);
		if (fe & 2) ok.push_back(ways[1]);
	}
	else for (auto &w : ways) if (feasible(S, w.first) & 1) ok.push_back(w);
	if (ok.empty()) { S.dead = true; throw PathEnd(); }
	if (strictUninit)
	{
		for (auto &w : ok) for (T t : coneOf({w.first})) if (tm[t].op == OP_VAR && (tm.vars[(size_t)tm[t].k].flags & VF_UNINIT)) forbidden(S, "uninit", "control flow depends on an uninitialised value");
	}
	if (ok.size() == 1) { enter(S, ok[0].second); return; }
	++forks;
	if (forks > 20000) throw JobStop{"inconclusive", "too many symbolic branches"};
	if (++forkDepth > 300) throw JobStop{"inconclusive", "symbolic branch nesting (unwinding bound)"};
	size_t depth = S.fr.size(); int stop = S.fr.back().fn->b[S.fr.back().bb].ipdom;
	std::vector<T> basePc = S.pc;
	bool have = false, extra = false; State R; T rc = 0; std::vector<T> alivePc;
	for (auto &w : ok)
	{
		State C = S;
		C.pc = basePc; C.pc.push_back(w.first);
		try
		{
			enter(C, w.second);
			if (!(stop >= 0 && w.second == stop)) run(C, depth, stop);
		}
		catch (PathEnd &) { C.dead = true; }
		if (C.dead) continue;
		if (have && C.fr.size() != R.fr.size())
		{
			// one side was left by an exception: both go on to the vp_try it is caught by
			State &N = C.fr.size() > R.fr.size() ? C : R;
			size_t t = N.fr.size();
			while (t > 1 && N.fr[t - 1].mark != 1) --t;
			if (t <= 1) throw Unsupported("merge of different call depths");
			auto settle = [&](State &X) { if (X.fr.size() < t) return; try { run(X, t, -1); } catch (PathEnd &) { X.dead = true; } };
			settle(R); settle(C);
			if (R.dead) { have = false; alivePc.clear(); extra = true; }
			else if (alivePc.size() == 1) { alivePc[0] = mkAnd(1, std::vector<T>(R.pc.begin() + basePc.size(), R.pc.end()), 1); if (R.pc.size() > basePc.size() + 1) extra = true; }
			if (C.dead) continue;
		}
		// what was learned on the way, e.g. because the other side of a nested branch ended
		if (C.pc.size() > basePc.size() + 1) extra = true;
		T learned = mkAnd(1, std::vector<T>(C.pc.begin() + basePc.size(), C.pc.end()), 1);
		if (!have) { R = std::move(C); rc = w.first; have = true; alivePc.push_back(learned); }
		else { merge(C, R, w.first); C.pc = basePc; R = std::move(C); rc = mkOr2(rc, w.first); alivePc.push_back(learned); }
	}
	--forkDepth;
	if (!have) { S.dead = true; throw PathEnd(); }
	S = std::move(R);
	S.pc = basePc;
	if (alivePc.size() < ok.size() || extra) S.pc.push_back(mkOr(1, alivePc, 0));
}

void Engine::run(State &S, size_t depth, int stop)
{
	while (true)
	{
		if (S.fr.size() < depth) return;
		Frame &f = S.fr.back();
		if (stop >= 0 && S.fr.size() == depth && f.bb == stop && f.ip == 0) return;
		const BB &b = f.fn->b[f.bb];
		if (++instrs > instrLimit) throw JobStop{"inconclusive", "instruction bound reached (unwinding bound)"};
		const Ins &I = b.ins[f.ip++];
		try { step(S, I); }
		catch (Trip &)
		{
			u64 n = 0; for (u64 x : S.tripRead) n += (u64)__builtin_popcountll(x);
			auto it = fnAt.find(tripFn); if (it == fnAt.end()) throw Unsupported("vp_trip_alloc target");
			std::vector<V> args{cv(n)};
			pushCall(S, it->second, nullptr, args);
			S.fr.back().mark = 2;
		}
		if (S.fr.empty()) return;
	}
}

static std::string jesc(const std::string &s)
{
	std::string r; for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if ((unsigned char)c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r;
}

std::string Engine::runJob(const std::string &entry)
{
	double t0 = nowSecs();
	SolverStats s0 = ss;
	tm.clear(); solverReset();
	syms.clear(); roLoads.clear(); records.clear(); coverSet.clear(); witnesses.clear(); excNames.clear(); typeIds.clear();
	instrs = forks = asserts = obligations = merges_ = inconclusive = heapAllocs = 0; forkDepth = 0; inconcWhy.clear();
	heapTop = heapBase; stackTop = stackBase; tripBase = tripEnd = 0; tripped = false;
	State S; S.g = ginit;
	std::string status = "ok", msg, wh, kind; Model model; bool haveModel = false; bool ended = false;
	try
	{
		// global constructors
		if (GlobalVariable *gc = M->getNamedGlobal("llvm.global_ctors"))
			if (auto *ca = dyn_cast<ConstantArray>(gc->getInitializer()))
				for (const Use &u : ca->operands())
				{
					auto *cs = cast<ConstantStruct>(u.get());
					auto *F = dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts());
					if (!F || F->isDeclaration()) continue;
					std::vector<V> na; pushCall(S, F, nullptr, na); run(S, 1, -1); S.fr.clear();
				}
		Function *F = M->getFunction(entry);
		if (!F || F->isDeclaration()) throw Unsupported("no harness entry " + entry);
		std::vector<V> na;
		pushCall(S, F, nullptr, na);
		run(S, 1, -1);
		ended = true;
	}
	catch (PathEnd &) { if (tripped) ended = true; else { status = "vacuous"; msg = "no feasible path reaches the end of the harness"; } }
	catch (Violation &v) { status = "violation"; kind = v.kind; msg = v.msg; wh = v.where; model = v.m; haveModel = true; }
	catch (JobStop &j) { status = j.status; msg = j.why; }
	catch (Unsupported &u) { status = "unsupported"; msg = u.what(); try { wh = where(S); } catch (...) {} }
	catch (std::exception &e) { status = "error"; msg = e.what(); }
	if (status == "ok" && inconclusive) { status = "inconclusive"; msg = inconcWhy; }
	std::ostringstream o;
	o << "{\"status\":\"" << status << "\",\"kind\":\"" << kind << "\",\"msg\":\"" << jesc(msg) << "\",\"where\":\"" << jesc(wh) << "\",\"instrs\":" << instrs << ",\"forks\":" << forks << ",\"merges\":" << merges_ << ",\"asserts\":" << asserts
	  << ",\"obligations\":" << obligations << ",\"terms\":" << tm.N.size() << ",\"vars\":" << tm.vars.size() << ",\"queries\":" << ss.queries - s0.queries << ",\"unsat\":" << ss.unsat - s0.unsat << ",\"sat\":" << ss.sat - s0.sat << ",\"unknown\":" << ss.unknown - s0.unknown
	  << ",\"lemmaHits\":" << ss.lemmaHits - s0.lemmaHits << ",\"lemmas\":" << ss.lemmas - s0.lemmas << ",\"merged\":" << ss.merges - s0.merges << ",\"identical\":" << ss.identical - s0.identical << ",\"affine\":" << ss.affine - s0.affine
	  << ",\"solverSecs\":" << ss.solverSecs - s0.solverSecs << ",\"secs\":" << nowSecs() - t0 << ",\"ended\":" << (ended ? "true" : "false");
	o << ",\"covers\":["; bool first = true; for (auto &c : coverSet) { o << (first ? "" : ",") << "\"" << jesc(c) << "\""; first = false; } o << "]";
	o << ",\"records\":["; first = true; for (auto &c : records) { o << (first ? "" : ",") << c; first = false; } o << "]";
	if (haveModel)
	{
		o << ",\"inputs\":{"; first = true;
		for (auto &s : syms)
		{
			o << (first ? "" : ",") << "\"" << jesc(s.name) << "\":\""; first = false; char b[4];
			for (T t : s.bytes) { u128 v = tm.isC(t) ? tm[t].k : (model.count(t) ? model[t] : 0); snprintf(b, 4, "%02x", (unsigned)v & 255); o << b; }
			o << "\"";
		}
		o << "}";
	}
	o << "}";
	return o.str();
}

static std::vector<std::string> split(const std::string &s, char d) { std::vector<std::string> r; std::string c; for (char x : s) { if (x == d) { r.push_back(c); c.clear(); } else c += x; } r.push_back(c); return r; }

// protocol: one job per stdin line:  entry|p0,p1,...|opt=val,...|name=hex;name=hex
int main(int argc, char **argv)
{
	if (argc < 2) { fprintf(stderr, "usage: hsx module.bc\n"); return 2; }
	Engine E;
	if (const char *s = getenv("VERIF_SEED")) rngSeed = strtoull(s, nullptr, 10) + 1;
	try { E.load(argv[1]); } catch (std::exception &e) { printf("{\"status\":\"error\",\"msg\":\"%s\"}\n", jesc(e.what()).c_str()); return 2; }
	printf("{\"status\":\"ready\"}\n"); fflush(stdout);
	std::string line;
	while (std::getline(std::cin, line))
	{
		if (line.empty()) continue;
		if (line == "funcs")
		{
			printf("["); bool first = true; for (auto &f : E.funcs) { printf("%s\"%s\"", first ? "" : ",", jesc(f).c_str()); first = false; } printf("]\n"); fflush(stdout); continue;
		}
		auto p = split(line, '|');
		E.params.clear();
		if (p.size() > 1 && !p[1].empty()) for (auto &x : split(p[1], ',')) E.params.push_back(strtoll(x.c_str(), nullptr, 0));
		E.assertBudget = 60; E.strictUninit = false; E.instrLimit = 400000000ull;
		if (p.size() > 2) for (auto &x : split(p[2], ',')) { if (x.compare(0, 7, "budget=") == 0) E.assertBudget = atof(x.c_str() + 7); if (x == "uninit=1") E.strictUninit = true; if (x.compare(0, 7, "instrs=") == 0) E.instrLimit = strtoull(x.c_str() + 7, nullptr, 10); }
		E.concreteIn.clear(); E.concreteMode = false;
		if (p.size() > 3) { E.concreteMode = true; for (auto &x : split(p[3], ';')) { size_t q = x.find('='); if (q != std::string::npos) E.concreteIn[x.substr(0, q)] = x.substr(q + 1); } }
		std::string r = E.runJob(p[0]);
		printf("%s\n", r.c_str()); fflush(stdout);
	}
	return 0;
}
