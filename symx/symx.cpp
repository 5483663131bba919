// symx: a small symbolic executor for LLVM 18 bitcode, deciding with Z3.
//
// Executes vf_main() of a linked module (the implementation's own functions,
// compiled by clang from /repo's current sources, plus a harness). Values of
// nd_*() are bit-vector variables; every branch, assertion, pointer, length,
// shift and division that depends on them is put to the solver under the path
// condition. Pointers and lengths that stay symbolic are split over all their
// feasible values. Paths are explored exhaustively within the harness bounds.
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/GlobalVariable.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <z3.h>

#include <algorithm>
#include <atomic>
#include <chrono>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <unistd.h>
#include <unordered_map>
#include <unordered_set>
#include <vector>
using namespace llvm;
typedef uint64_t u64;

[[noreturn]] static void die(const char *fmt, ...) {
	va_list ap;
	va_start(ap, fmt);
	fprintf(stderr, "symx: internal: ");
	vfprintf(stderr, fmt, ap);
	fprintf(stderr, "\n");
	va_end(ap);
	_exit(3);
}
static double now() {
	return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}
static inline u64 mask(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline int64_t sx(u64 v, unsigned w) {
	if (w >= 64) return (int64_t)v;
	u64 m = 1ull << (w - 1);
	return (int64_t)((v ^ m) - m);
}

// ------------------------------------------------------------ expressions
enum Kind : uint8_t {
	CONST, VAR, ADD, SUB, MUL, UDIV, SDIV, UREM, SREM, SHL, LSHR, ASHR, AND, OR, XOR,
	EQ, ULT, ULE, SLT, SLE, ITE, CONCAT, EXTRACT, ZEXT, SEXT
};
struct Expr {
	Kind k;
	uint8_t w;
	uint8_t lo; // EXTRACT
	unsigned id;
	u64 c; // CONST value / VAR number
	const Expr *a, *b, *d;
	const std::vector<unsigned> *vars; // sorted variable numbers
	mutable unsigned gen = 0;
	mutable u64 val = 0;
	mutable Z3_ast bv = nullptr, bo = nullptr;
};
typedef const Expr *E;

struct EKey {
	Kind k; uint8_t w, lo; u64 c; E a, b, d;
	bool operator==(const EKey &o) const {
		return k == o.k && w == o.w && lo == o.lo && c == o.c && a == o.a && b == o.b && d == o.d;
	}
};
struct EHash {
	size_t operator()(const EKey &k) const {
		u64 h = k.k * 0x9E3779B97F4A7C15ull ^ k.w * 31 ^ (u64)k.lo << 20;
		auto mix = [&](u64 v) { h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 29; };
		mix(k.c); mix((u64)k.a); mix((u64)k.b); mix((u64)k.d);
		return h;
	}
};
static std::unordered_map<EKey, E, EHash> interned;
static std::deque<Expr> arena;
static std::deque<std::vector<unsigned>> varsets;
static const std::vector<unsigned> noVars;
struct VarInfo { unsigned w; bool undef; std::string name; };
static std::vector<VarInfo> varInfo;

static const std::vector<unsigned> *unionVars(E a, E b, E d) {
	const std::vector<unsigned> *r = &noVars;
	for (E e : {a, b, d}) {
		if (!e || e->vars->empty()) continue;
		if (r->empty()) { r = e->vars; continue; }
		if (r == e->vars) continue;
		if (std::includes(r->begin(), r->end(), e->vars->begin(), e->vars->end())) continue;
		if (std::includes(e->vars->begin(), e->vars->end(), r->begin(), r->end())) { r = e->vars; continue; }
		std::vector<unsigned> u;
		std::set_union(r->begin(), r->end(), e->vars->begin(), e->vars->end(), std::back_inserter(u));
		varsets.push_back(std::move(u));
		r = &varsets.back();
	}
	return r;
}
static E intern(Kind k, unsigned w, u64 c, E a = nullptr, E b = nullptr, E d = nullptr, unsigned lo = 0) {
	EKey key{k, (uint8_t)w, (uint8_t)lo, c, a, b, d};
	auto it = interned.find(key);
	if (it != interned.end()) return it->second;
	arena.emplace_back();
	Expr &e = arena.back();
	e.k = k; e.w = w; e.lo = lo; e.c = c; e.a = a; e.b = b; e.d = d;
	e.id = arena.size();
	if (k == VAR) { varsets.push_back({(unsigned)c}); e.vars = &varsets.back(); }
	else e.vars = unionVars(a, b, d);
	interned.emplace(key, &e);
	return &e;
}
static E mkc(u64 v, unsigned w) { return intern(CONST, w, v & mask(w)); }
static inline bool isc(E e) { return e->k == CONST; }

static u64 fold(Kind k, unsigned w, u64 a, u64 b, unsigned aw) {
	switch (k) {
	case ADD: return (a + b) & mask(w);
	case SUB: return (a - b) & mask(w);
	case MUL: return (a * b) & mask(w);
	case UDIV: return b ? a / b : mask(w);
	case SDIV: { int64_t x = sx(a, w), y = sx(b, w); if (!y) return x >= 0 ? mask(w) : 1; if (y == -1) return (0 - (u64)x) & mask(w); return (u64)(x / y) & mask(w); }
	case UREM: return b ? a % b : a;
	case SREM: { int64_t x = sx(a, w), y = sx(b, w); if (!y) return a; if (y == -1) return 0; return (u64)(x % y) & mask(w); }
	case SHL: return b >= w ? 0 : (a << b) & mask(w);
	case LSHR: return b >= w ? 0 : a >> b;
	case ASHR: return (u64)(sx(a, w) >> (b >= w ? w - 1 : b)) & mask(w);
	case AND: return a & b;
	case OR: return a | b;
	case XOR: return a ^ b;
	case EQ: return a == b;
	case ULT: return a < b;
	case ULE: return a <= b;
	case SLT: return sx(a, aw) < sx(b, aw);
	case SLE: return sx(a, aw) <= sx(b, aw);
	default: die("fold");
	}
}
static E mkExtract(E a, unsigned lo, unsigned w);
static E mkZext(E a, unsigned w) {
	if (a->w == w) return a;
	if (isc(a)) return mkc(a->c, w);
	if (a->k == ZEXT) return mkZext(a->a, w);
	return intern(ZEXT, w, 0, a);
}
static E mkSext(E a, unsigned w) {
	if (a->w == w) return a;
	if (isc(a)) return mkc((u64)sx(a->c, a->w), w);
	if (a->k == ZEXT) return mkZext(a->a, w);
	return intern(SEXT, w, 0, a);
}
static E mkIte(E c, E a, E b);
static E mk2(Kind k, E a, E b) {
	unsigned aw = a->w;
	if (a->w != b->w) die("width mismatch kind %d %u %u", k, a->w, b->w);
	unsigned w = (k >= EQ && k <= SLE) ? 1 : aw;
	if (isc(a) && isc(b)) return mkc(fold(k, w, a->c, b->c, aw), w);
	// commutative: constant on the right
	if (isc(a) && (k == ADD || k == MUL || k == AND || k == OR || k == XOR || k == EQ)) std::swap(a, b);
	if (isc(b)) {
		u64 c = b->c;
		switch (k) {
		case ADD: case SUB: case SHL: case LSHR: case ASHR:
			if (c == 0) return a;
			if (k == SUB) return mk2(ADD, a, mkc(0 - c, w));
			if (k == ADD && a->k == ADD && isc(a->b)) return mk2(ADD, a->a, mkc(a->b->c + c, w));
			break;
		case OR: case XOR:
			if (c == 0) return a;
			if (k == OR && c == mask(w)) return b;
			if (k == XOR && a->k == XOR && isc(a->b)) return mk2(XOR, a->a, mkc(a->b->c ^ c, w));
			if (k == XOR && w == 1 && c == 1) { // negate comparisons
				if (a->k == ULT) return mk2(ULE, a->b, a->a);
				if (a->k == ULE) return mk2(ULT, a->b, a->a);
				if (a->k == SLT) return mk2(SLE, a->b, a->a);
				if (a->k == SLE) return mk2(SLT, a->b, a->a);
			}
			break;
		case AND:
			if (c == 0) return b;
			if (c == mask(w)) return a;
			break;
		case MUL:
			if (c == 0) return b;
			if (c == 1) return a;
			break;
		case EQ:
			if (aw == 1) return c ? a : mk2(XOR, a, mkc(1, 1));
			if (a->k == ZEXT) return c > mask(a->a->w) ? mkc(0, 1) : mk2(EQ, a->a, mkc(c, a->a->w));
			if (a->k == SEXT) return mkSext(mkc(c, a->a->w), aw)->c != c ? mkc(0, 1) : mk2(EQ, a->a, mkc(c, a->a->w));
			if (a->k == ITE && isc(a->b) && isc(a->d)) {
				bool x = a->b->c == c, y = a->d->c == c;
				if (x && y) return mkc(1, 1);
				if (!x && !y) return mkc(0, 1);
				return x ? a->a : mk2(XOR, a->a, mkc(1, 1));
			}
			if (a->k == ADD && isc(a->b)) return mk2(EQ, a->a, mkc(c - a->b->c, aw));
			if (a->k == XOR && isc(a->b)) return mk2(EQ, a->a, mkc(c ^ a->b->c, aw));
			break;
		case ULT:
			if (c == 0) return mkc(0, 1);
			if (c == 1) return mk2(EQ, a, mkc(0, aw));
			if (a->k == ZEXT && c > mask(a->a->w)) return mkc(1, 1);
			if (a->k == ZEXT) return mk2(ULT, a->a, mkc(c, a->a->w));
			break;
		case ULE:
			if (c == mask(aw)) return mkc(1, 1);
			if (a->k == ZEXT && c >= mask(a->a->w)) return mkc(1, 1);
			if (a->k == ZEXT) return mk2(ULE, a->a, mkc(c, a->a->w));
			break;
		default: break;
		}
	}
	if (isc(a)) {
		if ((k == UDIV || k == UREM || k == SHL || k == LSHR) && a->c == 0 && k != UDIV && k != UREM) return a;
		if (k == ULE && a->c == 0) return mkc(1, 1);
		if (k == ULT && a->c == mask(aw)) return mkc(0, 1);
		if (k == ULT && b->k == ZEXT && a->c >= mask(b->a->w)) return mkc(0, 1);
		if (k == ULE && b->k == ZEXT && a->c > mask(b->a->w)) return mkc(0, 1);
	}
	if (a == b) {
		switch (k) {
		case EQ: case ULE: case SLE: return mkc(1, 1);
		case ULT: case SLT: case XOR: case SUB: return mkc(0, w);
		case AND: case OR: return a;
		default: break;
		}
	}
	if ((k == ADD || k == MUL || k == AND || k == OR || k == XOR || k == EQ) && !isc(b) && a->id > b->id) std::swap(a, b);
	return intern(k, w, 0, a, b);
}
static E mkNot(E a) { return mk2(XOR, a, mkc(1, 1)); }
static E mkIte(E c, E a, E b) {
	if (isc(c)) return c->c ? a : b;
	if (a == b) return a;
	if (a->w == 1 && isc(a) && isc(b)) return a->c ? c : mkNot(c);
	return intern(ITE, a->w, 0, c, a, b);
}
static E mkConcat(E hi, E lo) {
	unsigned w = hi->w + lo->w;
	if (w > 64) die("concat wider than 64");
	if (isc(hi) && isc(lo)) return mkc(hi->c << lo->w | lo->c, w);
	if (isc(hi) && hi->c == 0) return mkZext(lo, w);
	if (hi->k == EXTRACT && lo->k == EXTRACT && hi->a == lo->a && hi->lo == lo->lo + lo->w) return mkExtract(hi->a, lo->lo, w);
	if (hi->k == EXTRACT && hi->a == lo && hi->lo == lo->w) return mkExtract(lo, 0, w);
	return intern(CONCAT, w, 0, hi, lo);
}
static E mkExtract(E a, unsigned lo, unsigned w) {
	if (lo == 0 && w == a->w) return a;
	if (isc(a)) return mkc(a->c >> lo, w);
	switch (a->k) {
	case EXTRACT: return mkExtract(a->a, a->lo + lo, w);
	case ZEXT:
		if (lo >= a->a->w) return mkc(0, w);
		if (lo + w <= a->a->w) return mkExtract(a->a, lo, w);
		return mkZext(mkExtract(a->a, lo, a->a->w - lo), w);
	case SEXT:
		if (lo + w <= a->a->w) return mkExtract(a->a, lo, w);
		break;
	case CONCAT:
		if (lo + w <= a->b->w) return mkExtract(a->b, lo, w);
		if (lo >= a->b->w) return mkExtract(a->a, lo - a->b->w, w);
		break;
	case ITE:
		if (isc(a->b) || isc(a->d)) return mkIte(a->a, mkExtract(a->b, lo, w), mkExtract(a->d, lo, w));
		break;
	case AND: case OR: case XOR:
		return mk2(a->k, mkExtract(a->a, lo, w), mkExtract(a->b, lo, w));
	default: break;
	}
	return intern(EXTRACT, w, 0, a, nullptr, nullptr, lo);
}

// evaluation under an assignment
typedef std::unordered_map<unsigned, u64> Assign;
static unsigned evalGen = 0;
static u64 eval1(E e, const Assign &m) {
	if (e->k == CONST) return e->c;
	if (e->gen == evalGen) return e->val;
	u64 r;
	switch (e->k) {
	case VAR: { auto it = m.find((unsigned)e->c); r = it == m.end() ? 0 : it->second; break; }
	case ITE: r = eval1(e->a, m) ? eval1(e->b, m) : eval1(e->d, m); break;
	case CONCAT: r = eval1(e->a, m) << e->b->w | eval1(e->b, m); break;
	case EXTRACT: r = eval1(e->a, m) >> e->lo & mask(e->w); break;
	case ZEXT: r = eval1(e->a, m); break;
	case SEXT: r = (u64)sx(eval1(e->a, m), e->a->w) & mask(e->w); break;
	default: r = fold(e->k, e->w, eval1(e->a, m), eval1(e->b, m), e->a->w);
	}
	e->gen = evalGen;
	e->val = r;
	return r;
}
static u64 evalE(E e, const Assign &m) {
	if (isc(e)) return e->c;
	evalGen++;
	return eval1(e, m);
}

// ------------------------------------------------------------ solver
static Z3_context Z;
static Z3_solver S;
struct Stats {
	u64 paths = 0, dead = 0, instrs = 0, queries = 0, sat = 0, unsat = 0, unknown = 0, cached = 0, forks = 0, asserts = 0, asserts_sym = 0, incomplete = 0, maxvars = 0, maxinstr = 0;
	double solver = 0;
};
static Stats st;
static double deadline = 0;

static Z3_ast zbv(E e);
static Z3_ast zbool(E e) {
	if (e->bo) return e->bo;
	Z3_ast r;
	switch (e->k) {
	case CONST: r = e->c ? Z3_mk_true(Z) : Z3_mk_false(Z); break;
	case EQ: r = e->a->w == 1 ? Z3_mk_iff(Z, zbool(e->a), zbool(e->b)) : Z3_mk_eq(Z, zbv(e->a), zbv(e->b)); break;
	case ULT: r = Z3_mk_bvult(Z, zbv(e->a), zbv(e->b)); break;
	case ULE: r = Z3_mk_bvule(Z, zbv(e->a), zbv(e->b)); break;
	case SLT: r = Z3_mk_bvslt(Z, zbv(e->a), zbv(e->b)); break;
	case SLE: r = Z3_mk_bvsle(Z, zbv(e->a), zbv(e->b)); break;
	case AND: { Z3_ast x[2] = {zbool(e->a), zbool(e->b)}; r = Z3_mk_and(Z, 2, x); break; }
	case OR: { Z3_ast x[2] = {zbool(e->a), zbool(e->b)}; r = Z3_mk_or(Z, 2, x); break; }
	case XOR:
		if (isc(e->b) && e->b->c) r = Z3_mk_not(Z, zbool(e->a));
		else r = Z3_mk_xor(Z, zbool(e->a), zbool(e->b));
		break;
	case ITE: r = Z3_mk_ite(Z, zbool(e->a), zbool(e->b), zbool(e->d)); break;
	default: r = Z3_mk_eq(Z, zbv(e), Z3_mk_unsigned_int64(Z, 1, Z3_mk_bv_sort(Z, 1)));
	}
	Z3_inc_ref(Z, r);
	return e->bo = r;
}
static Z3_ast zbv(E e) {
	if (e->bv) return e->bv;
	Z3_ast r;
	if (e->w == 1 && (e->k >= EQ && e->k <= SLE)) {
		Z3_sort s1 = Z3_mk_bv_sort(Z, 1);
		r = Z3_mk_ite(Z, zbool(e), Z3_mk_unsigned_int64(Z, 1, s1), Z3_mk_unsigned_int64(Z, 0, s1));
	} else switch (e->k) {
	case CONST: r = Z3_mk_unsigned_int64(Z, e->c, Z3_mk_bv_sort(Z, e->w)); break;
	case VAR: r = Z3_mk_const(Z, Z3_mk_int_symbol(Z, (int)e->c), Z3_mk_bv_sort(Z, e->w)); break;
	case ADD: r = Z3_mk_bvadd(Z, zbv(e->a), zbv(e->b)); break;
	case SUB: r = Z3_mk_bvsub(Z, zbv(e->a), zbv(e->b)); break;
	case MUL: r = Z3_mk_bvmul(Z, zbv(e->a), zbv(e->b)); break;
	case UDIV: r = Z3_mk_bvudiv(Z, zbv(e->a), zbv(e->b)); break;
	case SDIV: r = Z3_mk_bvsdiv(Z, zbv(e->a), zbv(e->b)); break;
	case UREM: r = Z3_mk_bvurem(Z, zbv(e->a), zbv(e->b)); break;
	case SREM: r = Z3_mk_bvsrem(Z, zbv(e->a), zbv(e->b)); break;
	case SHL: r = Z3_mk_bvshl(Z, zbv(e->a), zbv(e->b)); break;
	case LSHR: r = Z3_mk_bvlshr(Z, zbv(e->a), zbv(e->b)); break;
	case ASHR: r = Z3_mk_bvashr(Z, zbv(e->a), zbv(e->b)); break;
	case AND: r = Z3_mk_bvand(Z, zbv(e->a), zbv(e->b)); break;
	case OR: r = Z3_mk_bvor(Z, zbv(e->a), zbv(e->b)); break;
	case XOR: r = Z3_mk_bvxor(Z, zbv(e->a), zbv(e->b)); break;
	case ITE: r = Z3_mk_ite(Z, zbool(e->a), zbv(e->b), zbv(e->d)); break;
	case CONCAT: r = Z3_mk_concat(Z, zbv(e->a), zbv(e->b)); break;
	case EXTRACT: r = Z3_mk_extract(Z, e->lo + e->w - 1, e->lo, zbv(e->a)); break;
	case ZEXT: r = Z3_mk_zero_ext(Z, e->w - e->a->w, zbv(e->a)); break;
	case SEXT: r = Z3_mk_sign_ext(Z, e->w - e->a->w, zbv(e->a)); break;
	default: die("zbv kind %d", e->k);
	}
	Z3_inc_ref(Z, r);
	return e->bv = r;
}
static void z3err(Z3_context c, Z3_error_code e) { die("z3: %s", Z3_get_error_msg(c, e)); }
static void solverInit() {
	Z3_config cfg = Z3_mk_config();
	Z = Z3_mk_context_rc(cfg);
	Z3_set_error_handler(Z, z3err);
	S = Z3_mk_solver_for_logic(Z, Z3_mk_string_symbol(Z, "QF_BV"));
	Z3_solver_inc_ref(Z, S);
	Z3_params p = Z3_mk_params(Z);
	Z3_params_inc_ref(Z, p);
	Z3_params_set_uint(Z, p, Z3_mk_string_symbol(Z, "timeout"), 60000);
	Z3_solver_set_params(Z, S, p);
}

struct CacheEnt { bool sat; std::vector<std::pair<unsigned, u64>> model; };
static std::map<std::vector<unsigned>, CacheEnt> qcache;

// persistent list of path constraints
struct PC { E e; std::shared_ptr<PC> prev; };

static const char *dumpDir = nullptr;
static u64 dumped = 0;

// Is (constraints relevant to q) && q satisfiable? Model for the slice in out.
static bool solve(const std::shared_ptr<PC> &pc, E q, std::vector<std::pair<unsigned, u64>> &out) {
	if (isc(q)) { out.clear(); return q->c; }
	// independence slice
	std::vector<E> all;
	for (PC *p = pc.get(); p; p = p->prev.get()) all.push_back(p->e);
	std::unordered_set<unsigned> vs(q->vars->begin(), q->vars->end());
	std::vector<E> slice{q};
	std::vector<char> used(all.size(), 0);
	bool ch = true;
	while (ch) {
		ch = false;
		for (size_t i = 0; i < all.size(); i++) {
			if (used[i]) continue;
			bool hit = false;
			for (unsigned v : *all[i]->vars) if (vs.count(v)) { hit = true; break; }
			if (!hit) continue;
			used[i] = 1;
			ch = true;
			slice.push_back(all[i]);
			for (unsigned v : *all[i]->vars) vs.insert(v);
		}
	}
	std::vector<unsigned> key;
	for (E e : slice) key.push_back(e->id);
	std::sort(key.begin(), key.end());
	key.erase(std::unique(key.begin(), key.end()), key.end());
	auto it = qcache.find(key);
	if (it != qcache.end()) { st.cached++; out = it->second.model; return it->second.sat; }
	double t0 = now();
	Z3_solver_push(Z, S);
	for (E e : slice) Z3_solver_assert(Z, S, zbool(e));
	Z3_lbool r = Z3_solver_check(Z, S);
	st.queries++;
	if (dumpDir && dumped < 200) {
		char fn[512];
		snprintf(fn, sizeof fn, "%s/q%d_%llu_%s.smt2", dumpDir, getpid(), (unsigned long long)dumped++, r == Z3_L_TRUE ? "sat" : "unsat");
		FILE *f = fopen(fn, "w");
		if (f) { fprintf(f, "(set-logic QF_BV)\n%s(check-sat)\n", Z3_solver_to_string(Z, S)); fclose(f); }
	}
	CacheEnt ce;
	if (r == Z3_L_UNDEF) { st.unknown++; Z3_solver_pop(Z, S, 1); st.solver += now() - t0; st.incomplete++; out.clear(); return false; }
	ce.sat = r == Z3_L_TRUE;
	if (ce.sat) {
		st.sat++;
		Z3_model m = Z3_solver_get_model(Z, S);
		Z3_model_inc_ref(Z, m);
		for (unsigned v : vs) {
			Z3_ast a = zbv(intern(VAR, varInfo[v].w, v)), res = nullptr;
			u64 val = 0;
			if (Z3_model_eval(Z, m, a, true, &res) && res) {
				if (!Z3_get_numeral_uint64(Z, res, &val)) val = 0;
			}
			ce.model.push_back({v, val});
		}
		Z3_model_dec_ref(Z, m);
	} else st.unsat++;
	Z3_solver_pop(Z, S, 1);
	st.solver += now() - t0;
	st.maxvars = std::max<u64>(st.maxvars, vs.size());
	if (qcache.size() > 400000) qcache.clear();
	out = ce.model;
	bool sat = ce.sat;
	qcache.emplace(std::move(key), std::move(ce));
	return sat;
}

// ------------------------------------------------------------ values
struct Val {
	unsigned w = 0; // 0: aggregate / void
	u64 c = 0;
	E e = nullptr;
	std::shared_ptr<std::vector<Val>> agg;
	Val() {}
	Val(u64 v, unsigned w_) : w(w_), c(v & mask(w_)) {}
	Val(E x) : w(x->w) { if (isc(x)) c = x->c; else e = x; }
	bool sym() const { return e != nullptr; }
	E ex() const { return e ? e : mkc(c, w); }
};
static Val op2(Kind k, const Val &a, const Val &b) {
	if (!a.e && !b.e) {
		unsigned w = (k >= EQ && k <= SLE) ? 1 : a.w;
		return Val(fold(k, w, a.c, b.c, a.w), w);
	}
	return Val(mk2(k, a.ex(), b.ex()));
}

// ------------------------------------------------------------ memory
enum OKind : uint8_t { O_GLOBAL, O_CONST, O_HEAP, O_STACK, O_FUNC };
struct Obj {
	OKind kind;
	u64 base;
	unsigned size;
	unsigned allocSite; // heap: allocation number
	std::vector<uint8_t> data;
	std::vector<uint8_t> undef; // 1 = never written
	std::vector<E> sym;         // empty = all concrete
	std::string name;
};
typedef std::shared_ptr<Obj> ObjP;

struct FnInfo {
	Function *f;
	DenseMap<const Value *, unsigned> num;
	unsigned n = 0;
	u64 addr = 0;
	std::string file;
};
struct Frame {
	FnInfo *fi;
	BasicBlock *bb, *prev;
	BasicBlock::iterator pc;
	std::vector<Val> regs;
	std::vector<u64> allocas;
	std::vector<Val> va;
	u64 vaObj = 0;
	CallBase *call = nullptr;
};
struct Nd { unsigned var; };
struct State {
	std::vector<Frame> stack;
	std::vector<ObjP> mem; // sorted by base
	std::map<u64, unsigned> freed; // base -> size
	u64 bump = 0x100000;
	std::shared_ptr<PC> pc;
	std::shared_ptr<Assign> model;
	std::shared_ptr<std::unordered_map<unsigned, u64>> bound; // var fixed to a constant
	std::vector<unsigned> nds;
	std::vector<std::pair<std::string, Val>> obs;
	u64 instrs = 0;
	unsigned heapN = 0;
	u64 pathId = 0;
};
typedef std::unique_ptr<State> SP;

static LLVMContext ctx;
static std::unique_ptr<Module> mod;
static const DataLayout *DL;
static std::unordered_map<const Function *, FnInfo *> fnInfo;
static std::map<u64, FnInfo *> fnByAddr;
static std::unordered_map<const GlobalVariable *, u64> gvAddr;
static std::vector<ObjP> globalObjs;
static u64 globalBump = 0x10000;

// options
static std::string optProp = "*";
static std::map<std::string, u64> params;
static std::map<std::string, std::string> strParams;
static u64 maxInstr = 20000000;
static int jobs = 1;
static std::string outFile;
static u64 sampleEvery = 1, maxSamples = 40;
static bool keepGoing = false;
static bool checkNsw = true;
static u64 maxConc = 1100;

// results
struct Viol { std::string kind, props, msg, where; std::vector<u64> nds; std::vector<std::string> ndNames; std::string stack; };
static std::map<std::string, Viol> viols;
static std::map<std::string, u64> witnesses;
static std::set<const BasicBlock *> covered;
static std::map<const Function *, u64> fnHits;
static std::vector<std::string> samples; // json
static std::set<std::string> sampleKeys;
static std::set<std::string> errors;

static u64 alignUp(u64 x, u64 a) { return (x + a - 1) / a * a; }

static FnInfo *getFn(Function *f) {
	auto it = fnInfo.find(f);
	if (it != fnInfo.end()) return it->second;
	FnInfo *fi = new FnInfo;
	fi->f = f;
	for (Argument &a : f->args()) fi->num[&a] = fi->n++;
	for (BasicBlock &b : *f) for (Instruction &i : b) if (!i.getType()->isVoidTy()) fi->num[&i] = fi->n++;
	fi->addr = globalBump;
	globalBump += 64;
	fnByAddr[fi->addr] = fi;
	if (DISubprogram *sp = f->getSubprogram()) fi->file = sp->getFilename().str();
	fnInfo[f] = fi;
	return fi;
}

static Val constVal(const Constant *c);
static Val undefVal(Type *t) {
	if (t->isIntegerTy()) return Val(0, t->getIntegerBitWidth());
	if (t->isPointerTy()) return Val(0, 64);
	if (StructType *s = dyn_cast<StructType>(t)) {
		Val v;
		v.agg = std::make_shared<std::vector<Val>>();
		for (Type *x : s->elements()) v.agg->push_back(undefVal(x));
		return v;
	}
	if (ArrayType *s = dyn_cast<ArrayType>(t)) {
		Val v;
		v.agg = std::make_shared<std::vector<Val>>();
		for (unsigned i = 0; i < s->getNumElements(); i++) v.agg->push_back(undefVal(s->getElementType()));
		return v;
	}
	if (t->isDoubleTy()) return Val(0, 64);
	if (t->isFloatTy()) return Val(0, 32);
	die("undef of unsupported type");
}
static DenseMap<const Constant *, Val> constCache;
static Val constVal0(const Constant *c) {
	Type *t = c->getType();
	if (auto *ci = dyn_cast<ConstantInt>(c)) {
		if (ci->getBitWidth() > 64) die("int wider than 64");
		return Val(ci->getZExtValue(), ci->getBitWidth());
	}
	if (isa<ConstantPointerNull>(c)) return Val(0, 64);
	if (isa<UndefValue>(c)) return undefVal(t);
	if (isa<ConstantAggregateZero>(c)) return undefVal(t);
	if (auto *f = dyn_cast<Function>(c)) return Val(getFn(const_cast<Function *>(f))->addr, 64);
	if (auto *g = dyn_cast<GlobalVariable>(c)) {
		auto it = gvAddr.find(g);
		if (it == gvAddr.end()) die("global %s has no address", g->getName().str().c_str());
		return Val(it->second, 64);
	}
	if (auto *ga = dyn_cast<GlobalAlias>(c)) return constVal(ga->getAliasee());
	if (auto *cs = dyn_cast<ConstantStruct>(c)) {
		Val v;
		v.agg = std::make_shared<std::vector<Val>>();
		for (unsigned i = 0; i < cs->getNumOperands(); i++) v.agg->push_back(constVal(cs->getOperand(i)));
		return v;
	}
	if (auto *fp = dyn_cast<ConstantFP>(c)) return Val(fp->getValueAPF().bitcastToAPInt().getZExtValue(), t->isDoubleTy() ? 64 : 32);
	if (auto *ce = dyn_cast<ConstantExpr>(c)) {
		switch (ce->getOpcode()) {
		case Instruction::BitCast: case Instruction::AddrSpaceCast: return constVal(ce->getOperand(0));
		case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::Trunc: {
			Val v = constVal(ce->getOperand(0));
			unsigned w = t->isPointerTy() ? 64 : t->getIntegerBitWidth();
			return Val(v.c, w);
		}
		case Instruction::GetElementPtr: {
			Val b = constVal(ce->getOperand(0));
			APInt off(64, 0);
			if (!cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off)) die("const gep");
			return Val(b.c + off.getZExtValue(), 64);
		}
		case Instruction::Sub: return op2(SUB, constVal(ce->getOperand(0)), constVal(ce->getOperand(1)));
		case Instruction::Add: return op2(ADD, constVal(ce->getOperand(0)), constVal(ce->getOperand(1)));
		default: die("constant expression %s", ce->getOpcodeName());
		}
	}
	std::string s;
	raw_string_ostream os(s);
	c->print(os);
	die("constant %s", os.str().c_str());
}
static Val constVal(const Constant *c) {
	auto it = constCache.find(c);
	if (it != constCache.end()) return it->second;
	Val v = constVal0(c);
	constCache[c] = v;
	return v;
}

static void writeConst(Obj &o, u64 off, const Constant *c) {
	Type *t = c->getType();
	u64 sz = DL->getTypeStoreSize(t);
	if (off + sz > o.size) die("initializer overflow");
	if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c) || isa<ConstantPointerNull>(c)) return;
	if (auto *ds = dyn_cast<ConstantDataSequential>(c)) {
		StringRef r = ds->getRawDataValues();
		memcpy(&o.data[off], r.data(), r.size());
		return;
	}
	if (auto *ca = dyn_cast<ConstantArray>(c)) {
		u64 es = DL->getTypeAllocSize(ca->getType()->getElementType());
		for (unsigned i = 0; i < ca->getNumOperands(); i++) writeConst(o, off + i * es, ca->getOperand(i));
		return;
	}
	if (auto *cs = dyn_cast<ConstantStruct>(c)) {
		const StructLayout *sl = DL->getStructLayout(cs->getType());
		for (unsigned i = 0; i < cs->getNumOperands(); i++) writeConst(o, off + (u64)sl->getElementOffset(i), cs->getOperand(i));
		return;
	}
	Val v = constVal(c);
	for (u64 i = 0; i < sz; i++) o.data[off + i] = v.c >> (8 * i);
}

static void initGlobals(State &s) {
	for (Function &f : *mod) getFn(&f);
	for (GlobalVariable &g : mod->globals()) {
		if (g.getName().starts_with("llvm.")) continue;
		u64 sz = DL->getTypeAllocSize(g.getValueType());
		globalBump = alignUp(globalBump + 64, 64);
		gvAddr[&g] = globalBump;
		globalBump += sz;
	}
	globalBump += 4096;
	for (GlobalVariable &g : mod->globals()) {
		if (!gvAddr.count(&g)) continue;
		auto o = std::make_shared<Obj>();
		o->kind = g.isConstant() ? O_CONST : O_GLOBAL;
		o->base = gvAddr[&g];
		o->size = DL->getTypeAllocSize(g.getValueType());
		o->data.assign(o->size, 0);
		o->name = g.getName().str();
		if (g.hasInitializer()) writeConst(*o, 0, g.getInitializer());
		s.mem.push_back(o);
	}
	std::sort(s.mem.begin(), s.mem.end(), [](const ObjP &a, const ObjP &b) { return a->base < b->base; });
	s.bump = alignUp(globalBump, 4096) + 0x100000;
}

// ------------------------------------------------------------ engine
static std::vector<SP> worklist;

static std::string whereOf(State &s, bool user = true) {
	std::string r;
	for (int i = (int)s.stack.size() - 1; i >= 0; i--) {
		Frame &f = s.stack[i];
		const Instruction *ins = nullptr;
		if (f.pc != f.bb->end()) ins = &*f.pc;
		unsigned line = 0;
		std::string file = f.fi->file;
		if (ins) if (const DebugLoc &dl = ins->getDebugLoc()) {
			line = dl.getLine();
			if (auto *sc = dyn_cast_or_null<DIScope>(dl.getScope())) file = sc->getFilename().str();
		}
		size_t sl = file.rfind('/');
		if (sl != std::string::npos) file = file.substr(sl + 1);
		if (!r.empty()) r += " < ";
		r += f.fi->f->getName().str() + " (" + file + ":" + std::to_string(line) + ")";
	}
	return r;
}
static std::string whereTop(State &s) {
	std::string w = whereOf(s);
	size_t p = w.find(" < ");
	return p == std::string::npos ? w : w.substr(0, p);
}

static bool wantProp(const std::string &props) {
	if (optProp == "*" || props == "*") return true;
	size_t p = 0;
	while (p <= props.size()) {
		size_t q = props.find(',', p);
		if (q == std::string::npos) q = props.size();
		if (props.substr(p, q - p) == optProp) return true;
		p = q + 1;
	}
	return false;
}

static void report(State &s, const char *kind, const std::string &props, const std::string &msg, const Assign &m) {
	std::string w = whereOf(s);
	std::string key = std::string(kind) + "|" + msg + "|" + whereTop(s);
	if (viols.count(key)) return;
	Viol v;
	v.kind = kind; v.props = props; v.msg = msg; v.where = whereTop(s); v.stack = w;
	for (unsigned n : s.nds) {
		auto it = m.find(n);
		v.nds.push_back(it == m.end() ? 0 : it->second);
		v.ndNames.push_back(varInfo[n].name);
	}
	viols[key] = v;
}

static void addPC(State &s, E e) {
	if (isc(e)) return;
	if (e->k == AND && e->w == 1) { addPC(s, e->a); addPC(s, e->b); return; }
	auto p = std::make_shared<PC>();
	p->e = e;
	p->prev = s.pc;
	s.pc = p;
	E v = nullptr; u64 c = 0;
	if (e->k == EQ && isc(e->b) && e->a->k == VAR) { v = e->a; c = e->b->c; }
	else if (e->k == VAR && e->w == 1) { v = e; c = 1; }
	else if (e->k == XOR && e->w == 1 && isc(e->b) && e->a->k == VAR) { v = e->a; c = 0; }
	if (v) {
		auto nb = std::make_shared<std::unordered_map<unsigned, u64>>(*s.bound);
		(*nb)[(unsigned)v->c] = c;
		s.bound = nb;
	}
}
static bool allBound(State &s, E e) {
	for (unsigned v : *e->vars) if (!s.bound->count(v)) return false;
	return true;
}
static Assign merged(State &s, const std::vector<std::pair<unsigned, u64>> &m) {
	Assign a = *s.model;
	for (auto &p : m) a[p.first] = p.second;
	return a;
}
static void setModel(State &s, const std::vector<std::pair<unsigned, u64>> &m) {
	s.model = std::make_shared<Assign>(merged(s, m));
}

// Decide cond in s. Returns the value taken by s; a copy of s for the other
// feasible value is pushed (its pc still at the current instruction with
// `cond` constrained, so that re-executing takes the other side).
static SP cloneState(State &s) {
	SP n(new State(s));
	st.forks++;
	return n;
}
static bool decide(State &s, E c, SP *other) {
	if (other) other->reset();
	if (isc(c)) return c->c;
	bool v = evalE(c, *s.model);
	if (allBound(s, c)) return v;
	std::vector<std::pair<unsigned, u64>> m;
	E neg = v ? mkNot(c) : c;
	bool o = solve(s.pc, neg, m);
	if (o) {
		SP n = cloneState(s);
		setModel(*n, m);
		addPC(*n, neg);
		addPC(s, v ? c : mkNot(c));
		if (!other) die("decide without other");
		*other = std::move(n);
	}
	return v;
}
static bool mayBeTrue(State &s, E c, std::vector<std::pair<unsigned, u64>> &m) {
	m.clear();
	if (isc(c)) return c->c;
	if (evalE(c, *s.model)) return true; // m empty: the current model does it
	if (allBound(s, c)) return false;
	return solve(s.pc, c, m);
}

// Make v concrete in s by forking: s keeps the current model's value; other
// values are explored by a fork that re-executes the instruction.
static u64 concretize(State &s, Val &v) {
	if (!v.e) return v.c;
	u64 c = evalE(v.e, *s.model);
	if (!allBound(s, v.e)) {
		E eq = mk2(EQ, v.e, mkc(c, v.w));
		std::vector<std::pair<unsigned, u64>> m;
		if (solve(s.pc, mkNot(eq), m)) {
			SP n = cloneState(s);
			setModel(*n, m);
			addPC(*n, mkNot(eq));
			worklist.push_back(std::move(n));
		}
		addPC(s, eq);
	}
	v = Val(c, v.w);
	return c;
}

struct Term {}; // path ended
static void endPath(State &s, bool feasibleEnd);
[[noreturn]] static void fail(State &s, const char *kind, const std::string &msg, const Assign &m) {
	report(s, kind, "*", msg, m);
	throw Term();
}

static Obj *findObj(State &s, u64 addr) {
	auto it = std::upper_bound(s.mem.begin(), s.mem.end(), addr, [](u64 a, const ObjP &o) { return a < o->base; });
	if (it == s.mem.begin()) return nullptr;
	--it;
	Obj *o = it->get();
	if (addr < o->base + o->size || (o->size == 0 && addr == o->base)) return o;
	return nullptr;
}
static ObjP *findObjP(State &s, u64 addr) {
	auto it = std::upper_bound(s.mem.begin(), s.mem.end(), addr, [](u64 a, const ObjP &o) { return a < o->base; });
	if (it == s.mem.begin()) return nullptr;
	--it;
	return &*it;
}
static ObjP addObj(State &s, OKind k, u64 size, const std::string &name) {
	auto o = std::make_shared<Obj>();
	o->kind = k;
	o->base = s.bump;
	o->size = size;
	o->data.assign(size, 0);
	o->name = name;
	s.bump = alignUp(s.bump + size + 96, 64);
	s.mem.push_back(o);
	return o;
}
static std::string badAddr(State &s, u64 a, u64 n) {
	char b[256];
	if (a < 4096) { snprintf(b, sizeof b, "access of %llu bytes through a null pointer (0x%llx)", (unsigned long long)n, (unsigned long long)a); return b; }
	auto it = s.freed.upper_bound(a);
	if (it != s.freed.begin()) {
		--it;
		if (a < it->first + it->second) return "use of freed memory (" + std::to_string(it->second) + "-byte block)";
	}
	ObjP *o = findObjP(s, a);
	if (o) {
		snprintf(b, sizeof b, "access of %llu bytes at offset %lld of %u-byte object %s", (unsigned long long)n, (long long)(a - (*o)->base), (*o)->size, (*o)->name.c_str());
		return b;
	}
	return "access outside any object";
}

// Resolve an address for n bytes to an object and a concrete offset.
static Obj *resolve(State &s, Val &addr, u64 n, u64 &off, bool write) {
	if (addr.e) {
		// out-of-bounds possible? look at the object of the current model
		u64 a0 = evalE(addr.e, *s.model);
		Obj *o = findObj(s, a0);
		if (o && a0 + n <= o->base + o->size) {
			E in = mk2(ULE, mk2(SUB, addr.ex(), mkc(o->base, 64)), mkc(o->size - n, 64));
			std::vector<std::pair<unsigned, u64>> m;
			if (!allBound(s, addr.e) && solve(s.pc, mkNot(in), m)) {
				SP nst = cloneState(s);
				setModel(*nst, m);
				addPC(*nst, mkNot(in));
				worklist.push_back(std::move(nst));
				addPC(s, in);
			}
		} else {
			fail(s, "memory", badAddr(s, a0, n), *s.model);
		}
		concretize(s, addr);
	}
	u64 a = addr.c;
	Obj *o = findObj(s, a);
	if (!o || a + n > o->base + o->size) fail(s, "memory", badAddr(s, a, n), *s.model);
	if (write && o->kind == O_CONST) fail(s, "memory", "write to constant " + o->name, *s.model);
	off = a - o->base;
	if (write) {
		ObjP *p = findObjP(s, a);
		if (p->use_count() > 1) *p = std::make_shared<Obj>(**p);
		return p->get();
	}
	return o;
}
static unsigned newVar(unsigned w, const char *name, bool undef) {
	varInfo.push_back({w, undef, name});
	return varInfo.size() - 1;
}
// deterministic reuse of variables across paths: variable number keyed by (nd index,width)
static std::map<std::string, unsigned> varByKey;
static unsigned varFor(u64 idx, unsigned w, const std::string &name, bool undef) {
	std::string k = std::to_string(idx) + ":" + std::to_string(w) + (undef ? "u" : "n");
	auto it = varByKey.find(k);
	if (it != varByKey.end()) return it->second;
	unsigned v = newVar(w, name.c_str(), undef);
	varByKey[k] = v;
	return v;
}
static E byteAt(State &s, Obj *o, u64 i) {
	if (!o->undef.empty() && o->undef[i]) {
		// uninitialised: an arbitrary byte, materialised on first read
		ObjP *p = findObjP(s, o->base);
		if (p->use_count() > 1) *p = std::make_shared<Obj>(**p);
		Obj *w = p->get();
		if (w->sym.empty()) w->sym.assign(w->size, nullptr);
		unsigned v = varFor(o->base + i, 8, "uninit", true);
		w->sym[i] = intern(VAR, 8, v);
		w->undef[i] = 0;
		return w->sym[i];
	}
	if (!o->sym.empty() && o->sym[i]) return o->sym[i];
	return nullptr;
}
static Val loadN(State &s, Val &addr, unsigned w) {
	unsigned n = (w + 7) / 8;
	u64 off;
	Obj *o = resolve(s, addr, n, off, false);
	bool anySym = false;
	if (!o->undef.empty() || !o->sym.empty()) {
		for (unsigned i = 0; i < n; i++)
			if ((!o->undef.empty() && o->undef[off + i]) || (!o->sym.empty() && o->sym[off + i])) { anySym = true; break; }
	}
	if (!anySym) {
		u64 v = 0;
		memcpy(&v, &o->data[off], n);
		return Val(v, w);
	}
	u64 base = o->base;
	E r = nullptr;
	for (unsigned i = 0; i < n; i++) {
		o = findObjP(s, base)->get();
		E b = byteAt(s, o, off + i);
		if (!b) { o = findObjP(s, base)->get(); b = mkc(o->data[off + i], 8); }
		r = r ? mkConcat(b, r) : b;
	}
	return Val(mkExtract(r, 0, w));
}
static void storeByte(Obj *o, u64 i, E e, uint8_t c) {
	if (!o->undef.empty()) o->undef[i] = 0;
	if (e) {
		if (o->sym.empty()) o->sym.assign(o->size, nullptr);
		o->sym[i] = e;
	} else {
		o->data[i] = c;
		if (!o->sym.empty()) o->sym[i] = nullptr;
	}
}
static void storeN(State &s, Val &addr, const Val &v) {
	unsigned n = (v.w + 7) / 8;
	u64 off;
	Obj *o = resolve(s, addr, n, off, true);
	if (!v.e) {
		for (unsigned i = 0; i < n; i++) storeByte(o, off + i, nullptr, v.c >> (8 * i));
	} else {
		E e = v.w % 8 ? mkZext(v.e, n * 8) : v.e;
		for (unsigned i = 0; i < n; i++) {
			E b = mkExtract(e, 8 * i, 8);
			if (isc(b)) storeByte(o, off + i, nullptr, b->c);
			else storeByte(o, off + i, b, 0);
		}
	}
}
static Val loadT(State &s, Val &addr, Type *t) {
	if (t->isIntegerTy()) {
		if (t->getIntegerBitWidth() > 64) die("wide load");
		return loadN(s, addr, t->getIntegerBitWidth());
	}
	if (t->isPointerTy() || t->isDoubleTy()) return loadN(s, addr, 64);
	if (t->isFloatTy()) return loadN(s, addr, 32);
	if (StructType *stt = dyn_cast<StructType>(t)) {
		Val v;
		v.agg = std::make_shared<std::vector<Val>>();
		const StructLayout *sl = DL->getStructLayout(stt);
		for (unsigned i = 0; i < stt->getNumElements(); i++) {
			Val a = op2(ADD, addr, Val((u64)sl->getElementOffset(i), 64));
			v.agg->push_back(loadT(s, a, stt->getElementType(i)));
		}
		return v;
	}
	if (ArrayType *at = dyn_cast<ArrayType>(t)) {
		Val v;
		v.agg = std::make_shared<std::vector<Val>>();
		u64 es = DL->getTypeAllocSize(at->getElementType());
		for (unsigned i = 0; i < at->getNumElements(); i++) {
			Val a = op2(ADD, addr, Val(i * es, 64));
			v.agg->push_back(loadT(s, a, at->getElementType()));
		}
		return v;
	}
	die("load of unsupported type");
}
static void storeT(State &s, Val &addr, const Val &v, Type *t) {
	if (!v.agg) { storeN(s, addr, v); return; }
	if (StructType *stt = dyn_cast<StructType>(t)) {
		const StructLayout *sl = DL->getStructLayout(stt);
		for (unsigned i = 0; i < stt->getNumElements(); i++) {
			Val a = op2(ADD, addr, Val((u64)sl->getElementOffset(i), 64));
			storeT(s, a, (*v.agg)[i], stt->getElementType(i));
		}
		return;
	}
	if (ArrayType *at = dyn_cast<ArrayType>(t)) {
		u64 es = DL->getTypeAllocSize(at->getElementType());
		for (unsigned i = 0; i < at->getNumElements(); i++) {
			Val a = op2(ADD, addr, Val(i * es, 64));
			storeT(s, a, (*v.agg)[i], at->getElementType());
		}
		return;
	}
	die("store of unsupported aggregate");
}

static Val get(State &s, Frame &f, Value *v) {
	(void)s;
	if (Constant *c = dyn_cast<Constant>(v)) return constVal(c);
	auto it = f.fi->num.find(v);
	if (it == f.fi->num.end()) die("no register in %s", f.fi->f->getName().str().c_str());
	return f.regs[it->second];
}
static void setReg(Frame &f, Instruction *i, const Val &v) { f.regs[f.fi->num[i]] = v; }

static void freeObj(State &s, u64 base) {
	auto it = std::lower_bound(s.mem.begin(), s.mem.end(), base, [](const ObjP &o, u64 b) { return o->base < b; });
	if (it == s.mem.end() || (*it)->base != base) die("freeObj");
	s.mem.erase(it);
}
static void popFrame(State &s) {
	Frame &f = s.stack.back();
	for (u64 a : f.allocas) freeObj(s, a);
	if (f.vaObj) freeObj(s, f.vaObj);
	s.stack.pop_back();
}
static void enter(State &s, FnInfo *fi, const std::vector<Val> &args, CallBase *call) {
	if (s.stack.size() > 200) fail(s, "recursion", "call depth exceeds 200", *s.model);
	s.stack.emplace_back();
	Frame &f = s.stack.back();
	f.fi = fi;
	f.bb = &fi->f->getEntryBlock();
	f.prev = nullptr;
	f.pc = f.bb->begin();
	f.regs.resize(fi->n);
	f.call = call;
	unsigned na = fi->f->arg_size();
	for (unsigned i = 0; i < na && i < args.size(); i++) f.regs[i] = args[i];
	if (args.size() < na) die("too few arguments to %s", fi->f->getName().str().c_str());
	for (unsigned i = na; i < args.size(); i++) f.va.push_back(args[i]);
	covered.insert(f.bb);
	fnHits[fi->f]++;
}
static void jump(Frame &f, BasicBlock *to) {
	f.prev = f.bb;
	f.bb = to;
	f.pc = to->begin();
	covered.insert(to);
}
static std::string cstr(State &s, u64 a) {
	std::string r;
	for (;;) {
		Obj *o = findObj(s, a);
		if (!o) return r;
		u64 off = a - o->base;
		if (!o->sym.empty() && o->sym[off]) return r;
		char c = o->data[off];
		if (!c) return r;
		r += c;
		a++;
	}
}

static bool pathEndSample(State &s, const char *how);

static void assumeE(State &s, E c) {
	if (isc(c)) { if (!c->c) throw Term(); return; }
	std::vector<std::pair<unsigned, u64>> m;
	if (evalE(c, *s.model)) { if (!allBound(s, c)) addPC(s, c); return; }
	if (allBound(s, c)) throw Term();
	if (!solve(s.pc, c, m)) throw Term();
	setModel(s, m);
	addPC(s, c);
}

static bool hasUndef(E e) {
	for (unsigned v : *e->vars) if (varInfo[v].undef) return true;
	return false;
}

// built-in functions; returns true if handled
static bool builtin(State &s, Frame &f, CallBase *cb, const std::string &n, std::vector<Val> &a, Val &ret) {
	if (n == "vf_nd") { // (name, bits)
		unsigned w = concretize(s, a[1]);
		std::string nm = cstr(s, a[0].c);
		unsigned v = varFor(s.nds.size(), w, nm, false);
		s.nds.push_back(v);
		ret = Val(mkZext(intern(VAR, w, v), 64));
		return true;
	}
	if (n == "vf_assume") { assumeE(s, mkNot(mk2(EQ, a[0].ex(), mkc(0, a[0].w)))); return true; }
	if (n == "vf_end") { s.stack.erase(s.stack.begin() + 1, s.stack.end()); popFrame(s); return true; }
	if (n == "vf_assert_") { // (cond, props, msg)
		std::string props = cstr(s, a[1].c);
		E c = mkNot(mk2(EQ, a[0].ex(), mkc(0, a[0].w)));
		if (!wantProp(props)) return true;
		st.asserts++;
		if (!isc(c)) st.asserts_sym++;
		std::vector<std::pair<unsigned, u64>> m;
		if (mayBeTrue(s, mkNot(c), m)) {
			report(s, "assert", props, cstr(s, a[2].c), merged(s, m));
			assumeE(s, c);
		}
		return true;
	}
	if (n == "vf_witness") { witnesses[cstr(s, a[0].c)]++; return true; }
	if (n == "vf_param") {
		std::string k = cstr(s, a[0].c);
		auto it = params.find(k);
		ret = it == params.end() ? a[1] : Val(it->second, a[1].w);
		return true;
	}
	if (n == "vf_str") {
		std::string k = cstr(s, a[0].c), v;
		auto it = strParams.find(k);
		if (it != strParams.end()) v = it->second;
		ObjP o = addObj(s, O_CONST, v.size() + 1, "parameter " + k);
		memcpy(o->data.data(), v.c_str(), v.size() + 1);
		ret = Val(o->base, 64);
		return true;
	}
	if (n == "vf_obs") { s.obs.push_back({cstr(s, a[0].c), a[1]}); return true; }
	if (n == "vf_is_concrete") { ret = Val(!a[0].e, 32); return true; }
	if (n == "vf_conc") { ret = Val(concretize(s, a[0]), a[0].w); return true; }
	if (n == "vf_print") { fprintf(stderr, "[vf_print] %s %s %lld\n", cstr(s, a[0].c).c_str(), a[1].e ? "sym" : "", (long long)(a[1].e ? evalE(a[1].e, *s.model) : a[1].c)); return true; }
	if (n == "vf_valid") { // (ptr,size): bytes addressable?
		u64 p = concretize(s, a[0]), sz = concretize(s, a[1]);
		Obj *o = findObj(s, p);
		ret = Val(o && p + sz <= o->base + o->size, 32);
		return true;
	}
	if (n == "vf_check_init") { // (ptr,size,msg): bytes all initialised
		u64 p = concretize(s, a[0]), sz = concretize(s, a[1]);
		for (u64 i = 0; i < sz; i++) {
			Obj *o = findObj(s, p + i);
			if (!o) fail(s, "memory", badAddr(s, p + i, 1), *s.model);
			u64 off = p + i - o->base;
			bool u = !o->undef.empty() && o->undef[off];
			if (!u && !o->sym.empty() && o->sym[off] && hasUndef(o->sym[off])) u = true;
			if (u) { report(s, "uninit", "*", cstr(s, a[2].c), *s.model); return true; }
		}
		return true;
	}
	if (n == "vf_check_cstr") { // a terminator in front of the end and of anything never written
		u64 p = concretize(s, a[0]);
		if (!p) return true;
		Obj *o = findObj(s, p);
		if (!o) fail(s, "memory", badAddr(s, p, 1), *s.model);
		E none = mkc(1, 1);
		for (u64 off = p - o->base;; off++) {
			bool end = off >= o->size, u = !end && !o->undef.empty() && o->undef[off];
			if (end || u) {
				std::vector<std::pair<unsigned, u64>> m;
				st.asserts++;
				if (mayBeTrue(s, none, m)) {
					report(s, end ? "memory" : "uninit", "*", end ? "a string without end is read" : "a string that was never written is read", merged(s, m));
					throw Term();
				}
				break;
			}
			E b = !o->sym.empty() && o->sym[off] ? o->sym[off] : mkc(o->data[off], 8);
			E z = mk2(EQ, b, mkc(0, 8));
			none = mk2(AND, none, mkNot(z));
			if (isc(none) && !evalE(none, *s.model)) break;
		}
		return true;
	}
	if (n == "malloc" || n == "calloc") {
		u64 sz = concretize(s, a[0]);
		if (n == "calloc") {
			u64 k = concretize(s, a[1]);
			sz *= k;
		}
		if (sz > (1u << 26)) fail(s, "memory", "allocation of " + std::to_string(sz) + " bytes", *s.model);
		ObjP o = addObj(s, O_HEAP, sz, "heap#" + std::to_string(++s.heapN) + " from " + f.fi->f->getName().str());
		if (n == "malloc") o->undef.assign(sz, 1);
		ret = Val(o->base, 64);
		return true;
	}
	if (n == "free" || n == "realloc") {
		u64 p = concretize(s, a[0]);
		u64 sz = n == "realloc" ? concretize(s, a[1]) : 0;
		Obj *o = nullptr;
		if (p) {
			o = findObj(s, p);
			if (!o || o->base != p || o->kind != O_HEAP) {
				auto it = s.freed.find(p);
				if (it != s.freed.end()) fail(s, "memory", "double free", *s.model);
				fail(s, "memory", "free of a pointer that is not a live allocation", *s.model);
			}
		}
		if (n == "realloc") {
			ObjP no = addObj(s, O_HEAP, sz, "heap#" + std::to_string(++s.heapN) + " from realloc");
			no->undef.assign(sz, 1);
			if (p) {
				o = findObj(s, p);
				for (u64 i = 0; i < sz && i < o->size; i++) {
					no->data[i] = o->data[i];
					no->undef[i] = o->undef.empty() ? 0 : o->undef[i];
					if (!o->sym.empty() && o->sym[i]) { if (no->sym.empty()) no->sym.assign(sz, nullptr); no->sym[i] = o->sym[i]; }
				}
			}
			ret = Val(no->base, 64);
		}
		if (p) {
			s.freed[p] = findObj(s, p)->size;
			freeObj(s, p);
		}
		return true;
	}
	if (n == "vf_heap_live") { u64 c = 0; for (auto &o : s.mem) if (o->kind == O_HEAP) c++; ret = Val(c, 32); return true; }
	if (n == "abort") fail(s, "abort", "abort() reached", *s.model);
	if (n == "__assert_fail") fail(s, "abort", "assertion \"" + cstr(s, a[0].c) + "\" fails", *s.model);
	if (n == "exit" || n == "_exit") { s.stack.erase(s.stack.begin() + 1, s.stack.end()); popFrame(s); return true; }
	return false;
}

static void memOp(State &s, Val dst, Val src, Val len, bool set) {
	u64 n = concretize(s, len);
	if (n == 0) return;
	u64 doff, soff;
	if (set) {
		Val byte = src;
		Obj *o = resolve(s, dst, n, doff, true);
		for (u64 i = 0; i < n; i++) storeByte(o, doff + i, byte.e, byte.c);
		return;
	}
	Obj *so = resolve(s, src, n, soff, false);
	std::vector<uint8_t> d(so->data.begin() + soff, so->data.begin() + soff + n);
	std::vector<E> sy;
	std::vector<uint8_t> un;
	if (!so->sym.empty()) sy.assign(so->sym.begin() + soff, so->sym.begin() + soff + n);
	if (!so->undef.empty()) un.assign(so->undef.begin() + soff, so->undef.begin() + soff + n);
	Obj *o = resolve(s, dst, n, doff, true);
	for (u64 i = 0; i < n; i++) {
		if (!un.empty() && un[i]) {
			if (o->undef.empty()) o->undef.assign(o->size, 0);
			o->undef[doff + i] = 1;
			if (!o->sym.empty()) o->sym[doff + i] = nullptr;
			continue;
		}
		storeByte(o, doff + i, sy.empty() ? nullptr : sy[i], d[i]);
	}
}

static Kind icmpKind(CmpInst::Predicate p, bool &sw, bool &neg) {
	sw = neg = false;
	switch (p) {
	case CmpInst::ICMP_EQ: return EQ;
	case CmpInst::ICMP_NE: neg = true; return EQ;
	case CmpInst::ICMP_ULT: return ULT;
	case CmpInst::ICMP_ULE: return ULE;
	case CmpInst::ICMP_UGT: sw = true; return ULT;
	case CmpInst::ICMP_UGE: sw = true; return ULE;
	case CmpInst::ICMP_SLT: return SLT;
	case CmpInst::ICMP_SLE: return SLE;
	case CmpInst::ICMP_SGT: sw = true; return SLT;
	case CmpInst::ICMP_SGE: sw = true; return SLE;
	default: die("predicate");
	}
}

static void overflowCheck(State &s, unsigned opc, const Val &a, const Val &b) {
	if (!checkNsw || (!a.e && !b.e)) {
		if (checkNsw && a.w <= 32) {
			int64_t x = sx(a.c, a.w), y = sx(b.c, b.w), r = opc == Instruction::Add ? x + y : opc == Instruction::Sub ? x - y : x * y;
			if (r != sx((u64)r & mask(a.w), a.w)) fail(s, "overflow", "signed integer overflow", *s.model);
		}
		return;
	}
	if (a.w > 32 && opc == Instruction::Mul) return;
	if (a.w > 32) return; // size arithmetic is unsigned in C; 64-bit signed wrap is not modelled
	E x = mkSext(a.ex(), 64), y = mkSext(b.ex(), 64);
	E r = mk2(opc == Instruction::Add ? ADD : opc == Instruction::Sub ? SUB : MUL, x, y);
	E ov = mkNot(mk2(EQ, mkSext(mkExtract(r, 0, a.w), 64), r));
	std::vector<std::pair<unsigned, u64>> m;
	if (mayBeTrue(s, ov, m)) {
		report(s, "overflow", "*", "signed integer overflow", merged(s, m));
		assumeE(s, mkNot(ov));
	}
}

static void step(State &s) {
	Frame &f = s.stack.back();
	Instruction *I = &*f.pc;
	s.instrs++;
	st.instrs++;
	switch (I->getOpcode()) {
	case Instruction::Alloca: {
		auto *ai = cast<AllocaInst>(I);
		Val cnt = get(s, f, ai->getArraySize());
		u64 n = concretize(s, cnt);
		u64 sz = DL->getTypeAllocSize(ai->getAllocatedType()) * n;
		ObjP o = addObj(s, O_STACK, sz, "local " + ai->getName().str() + " of " + f.fi->f->getName().str());
		o->undef.assign(sz, 1);
		f.allocas.push_back(o->base);
		setReg(f, I, Val(o->base, 64));
		break;
	}
	case Instruction::Load: {
		auto *li = cast<LoadInst>(I);
		Val a = get(s, f, li->getPointerOperand());
		setReg(f, I, loadT(s, a, li->getType()));
		break;
	}
	case Instruction::Store: {
		auto *si = cast<StoreInst>(I);
		Val a = get(s, f, si->getPointerOperand());
		storeT(s, a, get(s, f, si->getValueOperand()), si->getValueOperand()->getType());
		break;
	}
	case Instruction::GetElementPtr: {
		auto *g = cast<GetElementPtrInst>(I);
		Val b = get(s, f, g->getPointerOperand());
		u64 coff = 0;
		for (gep_type_iterator ti = gep_type_begin(g), te = gep_type_end(g); ti != te; ++ti) {
			Val idx = get(s, f, ti.getOperand());
			if (StructType *stt = ti.getStructTypeOrNull()) coff += (u64)DL->getStructLayout(stt)->getElementOffset(idx.c);
			else {
				u64 es = DL->getTypeAllocSize(ti.getIndexedType());
				if (!idx.e) coff += (u64)sx(idx.c, idx.w) * es;
				else b = op2(ADD, b, op2(MUL, Val(mkSext(idx.e, 64)), Val(es, 64)));
			}
		}
		setReg(f, I, op2(ADD, b, Val(coff, 64)));
		break;
	}
	case Instruction::ICmp: {
		auto *c = cast<ICmpInst>(I);
		Val a = get(s, f, c->getOperand(0)), b = get(s, f, c->getOperand(1));
		bool sw, neg;
		Kind k = icmpKind(c->getPredicate(), sw, neg);
		if (sw) std::swap(a, b);
		Val r = op2(k, a, b);
		if (neg) r = r.e ? Val(mkNot(r.e)) : Val(!r.c, 1);
		setReg(f, I, r);
		break;
	}
	case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::SDiv:
	case Instruction::URem: case Instruction::SRem: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr:
	case Instruction::And: case Instruction::Or: case Instruction::Xor: {
		Val a = get(s, f, I->getOperand(0)), b = get(s, f, I->getOperand(1));
		Kind k;
		switch (I->getOpcode()) {
		case Instruction::Add: k = ADD; break;
		case Instruction::Sub: k = SUB; break;
		case Instruction::Mul: k = MUL; break;
		case Instruction::UDiv: k = UDIV; break;
		case Instruction::SDiv: k = SDIV; break;
		case Instruction::URem: k = UREM; break;
		case Instruction::SRem: k = SREM; break;
		case Instruction::Shl: k = SHL; break;
		case Instruction::LShr: k = LSHR; break;
		case Instruction::AShr: k = ASHR; break;
		case Instruction::And: k = AND; break;
		case Instruction::Or: k = OR; break;
		default: k = XOR; break;
		}
		if (k == UDIV || k == SDIV || k == UREM || k == SREM) {
			std::vector<std::pair<unsigned, u64>> m;
			E z = mk2(EQ, b.ex(), mkc(0, b.w));
			if (mayBeTrue(s, z, m)) { report(s, "division", "*", "division by zero", merged(s, m)); assumeE(s, mkNot(z)); }
		}
		if (k == SHL || k == LSHR || k == ASHR) {
			std::vector<std::pair<unsigned, u64>> m;
			E z = mk2(ULE, mkc(b.w, b.w), b.ex());
			if (b.w > 6 && mayBeTrue(s, z, m)) { report(s, "shift", "*", "shift amount out of range", merged(s, m)); assumeE(s, mkNot(z)); }
		}
		if (auto *ob = dyn_cast<OverflowingBinaryOperator>(I))
			if (ob->hasNoSignedWrap() && (k == ADD || k == SUB || k == MUL)) overflowCheck(s, I->getOpcode(), a, b);
		setReg(f, I, op2(k, a, b));
		break;
	}
	case Instruction::ZExt: { Val a = get(s, f, I->getOperand(0)); unsigned w = I->getType()->getIntegerBitWidth(); setReg(f, I, a.e ? Val(mkZext(a.e, w)) : Val(a.c, w)); break; }
	case Instruction::SExt: { Val a = get(s, f, I->getOperand(0)); unsigned w = I->getType()->getIntegerBitWidth(); setReg(f, I, a.e ? Val(mkSext(a.e, w)) : Val((u64)sx(a.c, a.w), w)); break; }
	case Instruction::Trunc: { Val a = get(s, f, I->getOperand(0)); unsigned w = I->getType()->getIntegerBitWidth(); setReg(f, I, a.e ? Val(mkExtract(a.e, 0, w)) : Val(a.c, w)); break; }
	case Instruction::PtrToInt: case Instruction::IntToPtr: {
		Val a = get(s, f, I->getOperand(0));
		unsigned w = I->getType()->isPointerTy() ? 64 : I->getType()->getIntegerBitWidth();
		if (w == a.w) setReg(f, I, a);
		else if (w < a.w) setReg(f, I, a.e ? Val(mkExtract(a.e, 0, w)) : Val(a.c, w));
		else setReg(f, I, a.e ? Val(mkZext(a.e, w)) : Val(a.c, w));
		break;
	}
	case Instruction::BitCast: case Instruction::Freeze: setReg(f, I, get(s, f, I->getOperand(0))); break;
	case Instruction::Select: {
		Val c = get(s, f, I->getOperand(0));
		Val a = get(s, f, I->getOperand(1)), b = get(s, f, I->getOperand(2));
		if (!c.e) { setReg(f, I, c.c ? a : b); break; }
		if (a.agg) die("select of aggregate");
		if (I->getType()->isPointerTy()) {
			SP o;
			bool v = decide(s, c.e, &o);
			if (o) worklist.push_back(std::move(o));
			setReg(s.stack.back(), I, v ? a : b);
			break;
		}
		setReg(f, I, Val(mkIte(c.e, a.ex(), b.ex())));
		break;
	}
	case Instruction::PHI: {
		// evaluate all phis of the block together
		std::vector<std::pair<Instruction *, Val>> vs;
		BasicBlock::iterator it = f.pc;
		while (auto *p = dyn_cast<PHINode>(&*it)) {
			vs.push_back({p, get(s, f, p->getIncomingValueForBlock(f.prev))});
			++it;
		}
		for (auto &v : vs) setReg(f, v.first, v.second);
		f.pc = it;
		return;
	}
	case Instruction::Br: {
		auto *b = cast<BranchInst>(I);
		if (b->isUnconditional()) { jump(f, b->getSuccessor(0)); return; }
		Val c = get(s, f, b->getCondition());
		bool v;
		if (!c.e) v = c.c;
		else {
			SP o;
			v = decide(s, c.e, &o);
			if (o) { jump(o->stack.back(), b->getSuccessor(v ? 1 : 0)); worklist.push_back(std::move(o)); }
		}
		jump(s.stack.back(), b->getSuccessor(v ? 0 : 1));
		return;
	}
	case Instruction::Switch: {
		auto *sw = cast<SwitchInst>(I);
		Val c = get(s, f, sw->getCondition());
		if (!c.e) {
			BasicBlock *t = sw->getDefaultDest();
			for (auto &cs : sw->cases()) if (cs.getCaseValue()->getZExtValue() == c.c) t = cs.getCaseSuccessor();
			jump(f, t);
			return;
		}
		// the current model picks s's case; the rest re-executes in a fork
		u64 cv = evalE(c.e, *s.model);
		BasicBlock *t = nullptr;
		E cond = mkc(1, 1);
		for (auto &cs : sw->cases()) {
			u64 k = cs.getCaseValue()->getZExtValue();
			if (k == cv) { t = cs.getCaseSuccessor(); cond = mk2(EQ, c.e, mkc(k, c.w)); }
		}
		if (!t) {
			t = sw->getDefaultDest();
			for (auto &cs : sw->cases()) cond = mk2(AND, cond, mkNot(mk2(EQ, c.e, mkc(cs.getCaseValue()->getZExtValue(), c.w))));
		}
		SP o;
		decide(s, cond, &o);
		if (o) worklist.push_back(std::move(o));
		jump(s.stack.back(), t);
		return;
	}
	case Instruction::ExtractValue: {
		auto *ev = cast<ExtractValueInst>(I);
		Val a = get(s, f, ev->getAggregateOperand());
		for (unsigned i : ev->indices()) { Val t = (*a.agg)[i]; a = t; }
		setReg(f, I, a);
		break;
	}
	case Instruction::InsertValue: {
		auto *iv = cast<InsertValueInst>(I);
		Val a = get(s, f, iv->getAggregateOperand());
		Val x = get(s, f, iv->getInsertedValueOperand());
		if (iv->getNumIndices() != 1) die("nested insertvalue");
		a.agg = std::make_shared<std::vector<Val>>(*a.agg);
		(*a.agg)[iv->getIndices()[0]] = x;
		setReg(f, I, a);
		break;
	}
	case Instruction::Ret: {
		Value *rv = cast<ReturnInst>(I)->getReturnValue();
		Val v;
		if (rv) v = get(s, f, rv);
		CallBase *call = f.call;
		popFrame(s);
		if (s.stack.empty()) return;
		Frame &c = s.stack.back();
		if (call && !call->getType()->isVoidTy()) {
			if (!rv) die("void return used");
			setReg(c, call, v);
		}
		++c.pc;
		return;
	}
	case Instruction::Unreachable: fail(s, "abort", "unreachable code reached", *s.model);
	case Instruction::Call: {
		auto *cb = cast<CallBase>(I);
		if (isa<DbgInfoIntrinsic>(I)) break;
		if (auto *ii = dyn_cast<IntrinsicInst>(I)) {
			switch (ii->getIntrinsicID()) {
			case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::vaend: case Intrinsic::assume: case Intrinsic::donothing: case Intrinsic::experimental_noalias_scope_decl:
				break;
			case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline:
				memOp(s, get(s, f, ii->getArgOperand(0)), get(s, f, ii->getArgOperand(1)), get(s, f, ii->getArgOperand(2)), false);
				break;
			case Intrinsic::memset:
				memOp(s, get(s, f, ii->getArgOperand(0)), get(s, f, ii->getArgOperand(1)), get(s, f, ii->getArgOperand(2)), true);
				break;
			case Intrinsic::vastart: {
				// all variadic arguments in the overflow area, 8 bytes each
				if (!f.vaObj) {
					ObjP o = addObj(s, O_STACK, f.va.size() * 8 + 8, "varargs");
					f.vaObj = o->base;
					for (unsigned i = 0; i < f.va.size(); i++) {
						Val ad(f.vaObj + 8 * i, 64);
						Val v = f.va[i];
						if (v.w < 64) v = v.e ? Val(mkZext(v.e, 64)) : Val(v.c, 64);
						storeN(s, ad, v);
					}
				}
				Val p = get(s, f, ii->getArgOperand(0));
				Val a0 = p, a1 = op2(ADD, p, Val(4, 64)), a2 = op2(ADD, p, Val(8, 64)), a3 = op2(ADD, p, Val(16, 64));
				storeN(s, a0, Val(48, 32));
				storeN(s, a1, Val(304, 32));
				storeN(s, a2, Val(f.vaObj, 64));
				storeN(s, a3, Val(0, 64));
				break;
			}
			case Intrinsic::vacopy: memOp(s, get(s, f, ii->getArgOperand(0)), get(s, f, ii->getArgOperand(1)), Val(24, 64), false); break;
			case Intrinsic::trap: fail(s, "abort", "trap", *s.model);
			case Intrinsic::expect: setReg(f, I, get(s, f, ii->getArgOperand(0))); break;
			case Intrinsic::umax: case Intrinsic::umin: case Intrinsic::smax: case Intrinsic::smin: {
				Val a = get(s, f, ii->getArgOperand(0)), b = get(s, f, ii->getArgOperand(1));
				bool mx = ii->getIntrinsicID() == Intrinsic::umax || ii->getIntrinsicID() == Intrinsic::smax;
				bool sg = ii->getIntrinsicID() == Intrinsic::smax || ii->getIntrinsicID() == Intrinsic::smin;
				E lt = mk2(sg ? SLT : ULT, a.ex(), b.ex());
				setReg(f, I, Val(mx ? mkIte(lt, b.ex(), a.ex()) : mkIte(lt, a.ex(), b.ex())));
				break;
			}
			case Intrinsic::abs: {
				Val a = get(s, f, ii->getArgOperand(0));
				E n = mk2(SLT, a.ex(), mkc(0, a.w));
				setReg(f, I, Val(mkIte(n, mk2(SUB, mkc(0, a.w), a.ex()), a.ex())));
				break;
			}
			case Intrinsic::stacksave: setReg(f, I, Val(0, 64)); break;
			case Intrinsic::stackrestore: break;
			default: die("intrinsic %s", ii->getCalledFunction()->getName().str().c_str());
			}
			break;
		}
		Function *callee = cb->getCalledFunction();
		if (!callee) {
			Value *cv = cb->getCalledOperand()->stripPointerCasts();
			callee = dyn_cast<Function>(cv);
		}
		std::vector<Val> args;
		for (auto &x : cb->args()) {
			if (x->getType()->isMetadataTy()) continue;
			args.push_back(get(s, f, x));
		}
		// byval: copy
		for (unsigned i = 0; i < cb->arg_size(); i++) {
			if (cb->isByValArgument(i)) {
				Type *t = cb->getParamByValType(i);
				u64 sz = DL->getTypeAllocSize(t);
				ObjP o = addObj(s, O_STACK, sz, "byval");
				f.allocas.push_back(o->base);
				memOp(s, Val(o->base, 64), args[i], Val(sz, 64), false);
				args[i] = Val(o->base, 64);
			}
		}
		FnInfo *fi = nullptr;
		if (callee) fi = getFn(callee);
		else {
			Val fp = get(s, f, cb->getCalledOperand());
			u64 p = concretize(s, fp);
			auto it = fnByAddr.find(p);
			if (it == fnByAddr.end()) fail(s, "memory", "call through an invalid function pointer", *s.model);
			fi = it->second;
		}
		if (fi->f->isDeclaration()) {
			Val r;
			std::string n = fi->f->getName().str();
			size_t depth = s.stack.size();
			if (!builtin(s, f, cb, n, args, r)) {
				errors.insert("call to undefined function " + n);
				st.incomplete++;
				throw Term();
			}
			if (s.stack.empty() || s.stack.size() != depth) return; // vf_end
			if (!I->getType()->isVoidTy()) {
				if (r.w == 0 && !r.agg) r = undefVal(I->getType());
				unsigned w = I->getType()->isPointerTy() ? 64 : I->getType()->getIntegerBitWidth();
				if (r.w != w) r = r.e ? Val(w < r.w ? mkExtract(r.e, 0, w) : mkZext(r.e, w)) : Val(r.c, w);
				setReg(s.stack.back(), I, r);
			}
			break;
		}
		if (args.size() > fi->f->arg_size() && !fi->f->isVarArg()) args.resize(fi->f->arg_size());
		enter(s, fi, args, cb);
		return;
	}
	default: die("instruction %s", I->getOpcodeName());
	}
	++s.stack.back().pc;
}

static std::string jstr(const std::string &s) {
	std::string r = "\"";
	for (char c : s) {
		if (c == '"' || c == '\\') { r += '\\'; r += c; }
		else if ((unsigned char)c < 32 || (unsigned char)c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", (unsigned char)c); r += b; }
		else r += c;
	}
	return r + "\"";
}
static void endOfPath(State &s) {
	st.paths++;
	st.maxinstr = std::max(st.maxinstr, s.instrs);
	// sample for native validation: spread over observation signatures
	if (samples.size() < maxSamples && (st.paths % sampleEvery) == 0) {
		for (unsigned v : s.nds) (void)v;
		std::string key;
		for (auto &o : s.obs) key += o.first + ",";
		if (sampleKeys.size() > maxSamples / 2 || sampleKeys.insert(key).second || st.paths % 7 == 0) {
			std::string j = "{\"nds\":[";
			for (size_t i = 0; i < s.nds.size(); i++) {
				auto it = s.model->find(s.nds[i]);
				j += (i ? "," : "") + std::to_string(it == s.model->end() ? 0 : it->second);
			}
			j += "],\"obs\":[";
			bool undef = false;
			for (size_t i = 0; i < s.obs.size(); i++) {
				Val &v = s.obs[i].second;
				if (v.e && hasUndef(v.e)) undef = true;
				u64 c = v.e ? evalE(v.e, *s.model) : v.c;
				j += std::string(i ? "," : "") + "[" + jstr(s.obs[i].first) + "," + std::to_string(c) + "]";
			}
			j += "]}";
			if (!undef) samples.push_back(j);
		}
	}
}

static double memCheckLast = 0;
static u64 wlLimit = 4000000;
// run s until its path ends (forks go to the worklist)
static void runPath(SP sp) {
	State &s = *sp;
	try {
		while (!s.stack.empty()) {
			if (s.instrs > maxInstr) {
				report(s, "hang", "*", "no progress: path exceeds the instruction bound", *s.model);
				return;
			}
			if ((st.instrs & 0xffff) == 0 && deadline && now() > deadline) { st.incomplete++; worklist.push_back(std::move(sp)); throw Term(); }
			step(s);
		}
		endOfPath(s);
	} catch (Term &) {
		st.dead++;
	}
}

static std::string resultJson(bool final) {
	std::string j = "{";
	auto num = [&](const char *k, u64 v) { j += std::string("\"") + k + "\":" + std::to_string(v) + ","; };
	num("paths", st.paths); num("dead", st.dead); num("instrs", st.instrs); num("queries", st.queries); num("sat", st.sat); num("unsat", st.unsat);
	num("unknown", st.unknown); num("cached", st.cached); num("forks", st.forks); num("asserts", st.asserts); num("asserts_sym", st.asserts_sym); num("incomplete", st.incomplete);
	num("maxvars", st.maxvars); num("maxinstr", st.maxinstr);
	char b[64];
	snprintf(b, sizeof b, "\"solver_s\":%.3f,", st.solver);
	j += b;
	j += "\"witnesses\":{";
	bool first = true;
	for (auto &w : witnesses) { j += std::string(first ? "" : ",") + jstr(w.first) + ":" + std::to_string(w.second); first = false; }
	j += "},\"errors\":[";
	first = true;
	for (auto &e : errors) { j += std::string(first ? "" : ",") + jstr(e); first = false; }
	j += "],\"violations\":[";
	first = true;
	for (auto &kv : viols) {
		Viol &v = kv.second;
		j += std::string(first ? "" : ",") + "{\"kind\":" + jstr(v.kind) + ",\"props\":" + jstr(v.props) + ",\"msg\":" + jstr(v.msg) + ",\"where\":" + jstr(v.where) + ",\"stack\":" + jstr(v.stack) + ",\"nds\":[";
		for (size_t i = 0; i < v.nds.size(); i++) j += (i ? "," : "") + std::to_string(v.nds[i]);
		j += "],\"names\":[";
		for (size_t i = 0; i < v.nds.size(); i++) j += std::string(i ? "," : "") + jstr(v.ndNames[i]);
		j += "]}";
		first = false;
	}
	j += "],\"samples\":[";
	for (size_t i = 0; i < samples.size(); i++) j += (i ? "," : "") + samples[i];
	j += "],\"functions\":{";
	first = true;
	for (auto &kv : fnHits) {
		unsigned tot = 0, cov = 0;
		for (const BasicBlock &bb : *kv.first) { tot++; if (covered.count(&bb)) cov++; }
		std::string cb;
		unsigned bi = 0;
		for (const BasicBlock &bb : *kv.first) { if (covered.count(&bb)) cb += (cb.empty() ? "" : ",") + std::to_string(bi); bi++; }
		std::string ls;
		for (const BasicBlock &bb : *kv.first) {
			unsigned line = 0;
			bool dead = false;
			for (const Instruction &in : bb) {
				if (!line && in.getDebugLoc()) line = in.getDebugLoc().getLine();
				if (isa<UnreachableInst>(in)) dead = true;
			}
			ls += (ls.empty() ? "" : ",") + std::to_string(dead ? 0 : line);
		}
		FnInfo *fi = fnInfo[kv.first];
		j += std::string(first ? "" : ",") + jstr(kv.first->getName().str()) + ":{\"file\":" + jstr(fi->file) + ",\"lines\":[" + ls + "],\"blocks\":" + std::to_string(tot) + ",\"covered\":[" + cb + "],\"calls\":" + std::to_string(kv.second) + "}";
		first = false;
	}
	j += "}}";
	(void)final;
	return j;
}

int main(int argc, char **argv) {
	std::string file;
	double tlimit = 0;
	for (int i = 1; i < argc; i++) {
		std::string a = argv[i];
		auto val = [&]() -> std::string { if (i + 1 >= argc) die("missing value for %s", a.c_str()); return argv[++i]; };
		if (a == "--prop") optProp = val();
		else if (a == "--param") { std::string kv = val(); size_t p = kv.find('='); params[kv.substr(0, p)] = strtoull(kv.c_str() + p + 1, nullptr, 0); }
		else if (a == "--str") { std::string kv = val(); size_t p = kv.find('='); strParams[kv.substr(0, p)] = kv.substr(p + 1); }
		else if (a == "--max-instr") maxInstr = strtoull(val().c_str(), nullptr, 0);
		else if (a == "--jobs") jobs = atoi(val().c_str());
		else if (a == "--time") tlimit = atof(val().c_str());
		else if (a == "--out") outFile = val();
		else if (a == "--samples") maxSamples = strtoull(val().c_str(), nullptr, 0);
		else if (a == "--sample-every") sampleEvery = strtoull(val().c_str(), nullptr, 0);
		else if (a == "--dump-smt") dumpDir = strdup(val().c_str());
		else if (a == "--no-nsw") checkNsw = false;
		else file = a;
	}
	SMDiagnostic err;
	mod = parseIRFile(file, err, ctx);
	if (!mod) die("cannot read %s: %s", file.c_str(), err.getMessage().str().c_str());
	DL = &mod->getDataLayout();
	if (tlimit) deadline = now() + tlimit;
	solverInit();
	SP s(new State);
	initGlobals(*s);
	s->model = std::make_shared<Assign>();
	s->bound = std::make_shared<std::unordered_map<unsigned, u64>>();
	Function *mainf = mod->getFunction("vf_main");
	if (!mainf || mainf->isDeclaration()) die("no vf_main");
	enter(*s, getFn(mainf), {}, nullptr);
	worklist.push_back(std::move(s));
	// breadth first until there is enough work to share, then depth first
	size_t want = jobs > 1 ? (size_t)jobs * 40 : 0;
	size_t head = 0;
	double start = now();
	while (head < worklist.size() && worklist.size() - head < want) {
		SP x = std::move(worklist[head++]);
		runPath(std::move(x));
		if (deadline && now() > deadline) break;
		if (worklist.size() - head >= (size_t)jobs * 4 && now() > start + 1.5) break; // few but expensive paths
	}
	worklist.erase(worklist.begin(), worklist.begin() + head);
	if (jobs > 1 && !worklist.empty()) {
		std::atomic<unsigned> *ctr = (std::atomic<unsigned> *)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
		new (ctr) std::atomic<unsigned>(0);
		std::vector<SP> pool = std::move(worklist);
		worklist.clear();
		std::vector<pid_t> kids;
		for (int k = 0; k < jobs; k++) {
			fflush(nullptr);
			pid_t p = fork();
			if (p == 0) {
				if (k) { st = Stats(); viols.clear(); witnesses.clear(); samples.clear(); sampleKeys.clear(); errors.clear(); fnHits.clear(); }
				for (;;) {
					unsigned i = (*ctr)++;
					if (i >= pool.size()) break;
					worklist.push_back(std::move(pool[i]));
					while (!worklist.empty()) {
						if (deadline && now() > deadline) { st.incomplete += worklist.size(); worklist.clear(); break; }
						SP x = std::move(worklist.back());
						worklist.pop_back();
						runPath(std::move(x));
					}
				}
				std::string fn = outFile + "." + std::to_string(k);
				FILE *o = fopen(fn.c_str(), "w");
				std::string j = resultJson(true);
				fwrite(j.data(), 1, j.size(), o);
				fclose(o);
				_exit(0);
			}
			kids.push_back(p);
		}
		int rc = 0;
		for (pid_t p : kids) { int w; waitpid(p, &w, 0); if (!WIFEXITED(w) || WEXITSTATUS(w)) rc = 4; }
		return rc;
	}
	while (!worklist.empty()) {
		if (deadline && now() > deadline) { st.incomplete += worklist.size(); break; }
		SP x = std::move(worklist.back());
		worklist.pop_back();
		runPath(std::move(x));
	}
	std::string j = resultJson(true);
	if (outFile.empty()) { fwrite(j.data(), 1, j.size(), stdout); puts(""); }
	else { FILE *o = fopen((outFile + ".0").c_str(), "w"); fwrite(j.data(), 1, j.size(), o); fclose(o); }
	return 0;
}
