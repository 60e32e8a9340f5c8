// Hash-consed bit-vector terms with a canonicalising constructor layer.
// Every width is 1..128.  Terms are u32 ids; 0 is "no term".
#pragma once
#include <cstdint>
#include <functional>
#include <stdexcept>
#include <string>
#include <unordered_map>
#include <utility>
#include <vector>

typedef unsigned __int128 u128;
typedef __int128 s128;
typedef uint64_t u64;
typedef uint32_t u32;
typedef uint16_t u16;
typedef uint8_t u8;
typedef u32 T;

struct Unsupported : std::runtime_error { using std::runtime_error::runtime_error; };

enum Op : u8 { OP_NONE, OP_CONST, OP_VAR, OP_ADD, OP_MUL, OP_AND, OP_OR, OP_XOR, OP_CONCAT, OP_EXTRACT, OP_SEXT,
	OP_ITE, OP_EQ, OP_ULT, OP_SLT, OP_SHL, OP_LSHR, OP_ASHR, OP_UDIV, OP_UREM, OP_SDIV, OP_SREM, OP_LOOKUP, OP_COUNT };
extern const char *opNames[];

struct Node
{
	Op op; u8 pad; u16 w; u32 n;   // operator, width, number of arguments
	u32 a;                         // index of first argument in args
	u32 c;                         // index of first coefficient (ADD)
	u32 hash, next;
	u128 k;                        // constant / extract offset / table id / var index
	u128 po;                       // mask of bits that can be one
};

struct Table { u16 w; u16 bits; std::vector<u64> v; };  // 2^bits entries of width w (<= 64)
struct VarInfo { std::string name; u16 w; u32 flags; T t; };
enum { VF_INPUT = 1, VF_UNINIT = 2, VF_HAVOC = 4, VF_ENV = 8 };

static inline u128 mask(unsigned w) { return (w >= 128) ? ~(u128)0 : ((((u128)1) << w) - 1); }

struct TermMgr
{
	std::vector<Node> N;
	std::vector<T> args;
	std::vector<u128> coefs;
	std::vector<u32> buckets;
	std::vector<Table> tables;
	std::unordered_multimap<u64, u32> tableIdx;
	std::vector<VarInfo> vars;
	u64 rewrites = 0;

	TermMgr();
	void clear();   // forget all terms (between jobs)
	T intern(Op op, unsigned w, const T *as, unsigned n, u128 k, u128 po, const u128 *cs = nullptr);
	u32 internTable(Table &&t);
	const Node &operator[](T t) const { return N[t]; }
	const T *A(T t) const { return &args[N[t].a]; }
	T arg(T t, unsigned i) const { return args[N[t].a + i]; }
	u128 coef(T t, unsigned i) const { return coefs[N[t].c + i]; }
	bool isC(T t) const { return N[t].op == OP_CONST; }
	unsigned w(T t) const { return N[t].w; }
};
extern TermMgr tm;

T mkConst(unsigned w, u128 k);
T mkVar(unsigned w, const std::string &name, u32 flags);
typedef std::vector<std::pair<T, u128>> AddList;
T mkAdd(unsigned w, const AddList &l, u128 k);
T mkAdd2(T a, T b);
T mkSub(T a, T b);
T mkNeg(T a);
T mkMul(T a, T b);
T mkAnd(unsigned w, const std::vector<T> &l, u128 k);
T mkOr(unsigned w, const std::vector<T> &l, u128 k);
T mkXor(unsigned w, const std::vector<T> &l, u128 k);
static inline T mkAnd2(T a, T b) { return mkAnd(tm.w(a), {a, b}, ~(u128)0); }
static inline T mkOr2(T a, T b) { return mkOr(tm.w(a), {a, b}, 0); }
static inline T mkXor2(T a, T b) { return mkXor(tm.w(a), {a, b}, 0); }
T mkNot(T a);
T mkConcat(const std::vector<T> &lsbFirst);
T mkExtract(T x, unsigned lo, unsigned w);
T mkZext(T x, unsigned w);
T mkSext(T x, unsigned w);
T mkIte(T c, T a, T b);
T mkEq(T a, T b);
T mkUlt(T a, T b);
T mkSlt(T a, T b);
T mkShift(Op op, T x, T s);     // SHL/LSHR/ASHR; amount >= width gives 0 (or sign fill)
T mkDiv(Op op, T a, T b);       // UDIV/UREM/SDIV/SREM
T mkLookup(u32 table, T idx);
T mkLookup(std::vector<u64> v, unsigned w, T idx);

// rebuild node t with the given arguments through the simplifying constructors
T rebuild(T t, const T *newArgs);
// concrete evaluation of one node given values of the arguments
u128 evalNode(T t, const u128 *argVals);
u128 evalOp(Op op, unsigned w, const u128 *av, const u16 *aw, unsigned n, u128 k, const u128 *cs);
std::string show(T t, int depth = 6);
// all nodes reachable from roots in ascending (topological) order
std::vector<T> coneOf(const std::vector<T> &roots);
