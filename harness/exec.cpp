// P03: what a built program computes. Small structured programs are generated as syntax trees, built through the library, written,
// and the words are executed by an interpreter of SPIR-V; the tree itself is evaluated directly.
#include "apigen.h"
#include "prog.h"
#include "spvgentwo/Operators.h"
#include <cmath>
#include <cstring>
namespace
{
	using namespace ag;
	using pbt::Src; using pbt::Ctx;
	namespace sp = sg::spv;
	using V = std::vector<uint64_t>; // leaves of a value
	std::string num(uint64_t v) { return std::to_string(v); }

	// ------------------------------------------------------------ leaves
	uint32_t members(const T& t) { return t.k == K::Struct ? uint32_t(t.sub.size()) : t.vec() || t.mat() || t.k == K::Arr ? t.n : 0; }
	TP member(const T& t, uint32_t i) { return t.k == K::Struct ? t.sub[i] : t.sub[0]; }
	size_t count(const T& t) { if (t.k == K::Struct) { size_t n = 0; for (auto& x : t.sub) n += count(*x); return n; } return t.vec() || t.mat() || t.k == K::Arr ? t.n * count(*t.sub[0]) : 1; }
	size_t offset(const T& t, uint32_t i) { if (t.k == K::Struct) { size_t n = 0; for (uint32_t k = 0; k < i; ++k) n += count(*t.sub[k]); return n; } return i * count(*t.sub[0]); }
	V part(const V& v, size_t o, size_t n) { return V(v.begin() + long(o), v.begin() + long(o + n)); }
	void fill(V& v, size_t o, const V& p) { std::copy(p.begin(), p.end(), v.begin() + long(o)); }

	// ------------------------------------------------------------ arithmetic on leaves
	uint64_t cut(uint64_t v, uint32_t w) { return w >= 64 ? v : v & ((1ull << w) - 1); }
	int64_t sx(uint64_t v, uint32_t w) { return w >= 64 ? int64_t(v) : int64_t(v << (64 - w)) >> (64 - w); }
	double dbl(uint64_t v, uint32_t w) { if (w == 64) { double d; memcpy(&d, &v, 8); return d; } uint32_t u = uint32_t(v); float f; memcpy(&f, &u, 4); return f; }
	uint64_t bitsOf(double d, uint32_t w) { if (w == 64) { if (std::isnan(d)) return 0x7ff8000000000000ull; uint64_t u; memcpy(&u, &d, 8); return u; } if (std::isnan(d)) return 0x7fc00000u; const float f = float(d); uint32_t u; memcpy(&u, &f, 4); return u; } // one operation in double followed by rounding to float is exact for + - * / and sqrt
	enum class A1 { Neg, Abs, Sign, Floor, Ceil, Trunc, Fract, Sqrt };
	enum class A2 { Add, Sub, Mul, Div, Rem, Mod, Min, Max, Step };
	double f1(A1 o, double a, uint32_t w)
	{
		switch (o) { case A1::Neg: return -a; case A1::Abs: return std::fabs(a); case A1::Sign: return a > 0 ? 1 : a < 0 ? -1 : 0; case A1::Floor: return std::floor(a); case A1::Ceil: return std::ceil(a); case A1::Trunc: return std::trunc(a); case A1::Fract: return w == 32 ? double(float(a) - std::floor(float(a))) : a - std::floor(a); default: return std::sqrt(a); }
	}
	double f2(A2 o, double a, double b)
	{
		switch (o) { case A2::Add: return a + b; case A2::Sub: return a - b; case A2::Mul: return a * b; case A2::Div: return b == 0 ? (std::isnan(a) || a == 0 ? NAN : std::signbit(a) != std::signbit(b) ? -INFINITY : INFINITY) : a / b; case A2::Rem: return std::fmod(a, b); case A2::Mod: { double r = std::fmod(a, b); return r != 0 && (r < 0) != (b < 0) ? r + b : r; } case A2::Min: return b < a ? b : a; case A2::Max: return a < b ? b : a; default: return b < a ? 0 : 1; }
	}
	uint64_t fbits1(A1 o, uint64_t a, uint32_t w) { return bitsOf(f1(o, dbl(a, w), w), w); }
	uint64_t fbits2(A2 o, uint64_t a, uint64_t b, uint32_t w) { return bitsOf(f2(o, dbl(a, w), dbl(b, w)), w); }
	uint64_t sdiv(uint64_t a, uint64_t b, uint32_t w) { const int64_t x = sx(a, w), y = sx(b, w); return y == 0 ? 0 : y == -1 ? cut(0 - uint64_t(x), w) : cut(uint64_t(x / y), w); }
	uint64_t srem(uint64_t a, uint64_t b, uint32_t w) { const int64_t x = sx(a, w), y = sx(b, w); return y == 0 || y == -1 ? 0 : cut(uint64_t(x % y), w); }
	uint64_t smod(uint64_t a, uint64_t b, uint32_t w) { const int64_t x = sx(a, w), y = sx(b, w); if (y == 0 || y == -1) return 0; int64_t r = x % y; if (r != 0 && (r < 0) != (y < 0)) r += y; return cut(uint64_t(r), w); }
	uint64_t udiv(uint64_t a, uint64_t b) { return b ? a / b : 0; } uint64_t umod(uint64_t a, uint64_t b) { return b ? a % b : 0; }
	uint64_t shl(uint64_t a, uint64_t n, uint32_t w) { return n >= w ? 0 : cut(a << n, w); } uint64_t shr(uint64_t a, uint64_t n, uint32_t w) { return n >= w ? 0 : a >> n; } uint64_t sar(uint64_t a, uint64_t n, uint32_t w) { return cut(uint64_t(sx(a, w) >> (n >= w ? w - 1 : n)), w); }
	uint64_t toInt(double d, uint32_t w, bool s) { if (std::isnan(d)) return 0; d = std::trunc(d); if (s) { const double lim = std::ldexp(1.0, int(w) - 1); return d >= lim ? cut(~0ull, w - 1) : d < -lim ? cut(1ull << (w - 1), w) : cut(uint64_t(int64_t(d)), w); } return d >= std::ldexp(1.0, int(w)) ? cut(~0ull, w) : d <= 0 ? 0 : uint64_t(d); }
	uint64_t fromS(int64_t v, uint32_t w) { if (w == 64) return bitsOf(double(v), 64); const float f = float(v); uint32_t u; memcpy(&u, &f, 4); return u; }
	uint64_t fromU(uint64_t v, uint32_t w) { if (w == 64) return bitsOf(double(v), 64); const float f = float(v); uint32_t u; memcpy(&u, &f, 4); return u; }
	uint64_t fsum(const V& a, size_t ao, size_t as, const V& b, size_t bo, size_t bs, size_t n, uint32_t w) { uint64_t r = 0; for (size_t i = 0; i < n; ++i) { uint64_t p = fbits2(A2::Mul, a[ao + i * as], b[bo + i * bs], w); r = i ? fbits2(A2::Add, r, p, w) : p; } return r; }
	V matVec(const V& m, uint32_t cols, uint32_t rows, const V& v, uint32_t w) { V r; for (uint32_t i = 0; i < rows; ++i) r.push_back(fsum(m, i, rows, v, 0, 1, cols, w)); return r; }
	V vecMat(const V& v, const V& m, uint32_t cols, uint32_t rows, uint32_t w) { V r; for (uint32_t j = 0; j < cols; ++j) r.push_back(fsum(v, 0, 1, m, j * rows, 1, rows, w)); return r; }
	V matMat(const V& a, uint32_t ac, uint32_t rows, const V& b, uint32_t bc, uint32_t w) { V r; for (uint32_t j = 0; j < bc; ++j) { V c = matVec(a, ac, rows, part(b, j * ac, ac), w); r.insert(r.end(), c.begin(), c.end()); } return r; }

	// ------------------------------------------------------------ syntax trees
	enum class Op { Add, Sub, Mul, Div, Mod, Rem, Not, Neg, Eq, Ne, Lt, Le, Gt, Ge, Shl, ShrL, ShrA, And, Or, Xor, LAnd, LOr, Select, Min, Max, Clamp, Abs, Sign, Floor, Ceil, Trunc, Fract, Step, Sqrt, Convert, Bitcast, BitCount, BitReverse, Any, All, Dot, Outer, Transpose, Construct, Extract, Insert, Shuffle, DynExtract, DynInsert, Copy };
	struct Ref { int slot = -1; CP c; TP t; };
	struct Expr { Op op; std::vector<Ref> a; std::vector<uint32_t> l; TP t; };
	struct Index { uint32_t k = 0; bool dyn = false; Ref r; };
	struct Stmt
	{
		enum Kind { Let, Load, Store, Call, If, Loop, Break, Continue, Return, Phi } kind; int slot = -1; Expr e; int var = -1; std::vector<Index> path; Ref v; bool hasV = false; int fn = -1; std::vector<Ref> args; std::vector<int> ptrs;
		std::vector<Stmt> a, b, c; // branches; condition, continue
		int phi = -1; Ref first, next; // of a loop or of an if (values at the end of the branches)
	};
	struct Var { TP t; Instruction* i = nullptr; bool writable = true; };
	struct Fn { Function* f = nullptr; TP ret; std::vector<TP> params; std::vector<bool> ptr; std::vector<Var> vars; std::vector<Instruction*> slots; std::vector<TP> types; std::vector<Stmt> body; size_t nVars = 0; std::vector<V> inits; };
	struct Glob { TP t; uint32_t sc; Instruction* i; V init; };

	V constValue(const C& c)
	{
		switch (c.k) { case CK::True: return { 1 }; case CK::False: return { 0 }; case CK::Null: return V(count(*c.t), 0); case CK::Comp: { V r; for (auto& x : c.comps) { V p = constValue(*x); r.insert(r.end(), p.begin(), p.end()); } return r; }
		default: { uint64_t v = c.words.empty() ? 0 : c.words[0]; if (c.words.size() > 1) v |= uint64_t(c.words[1]) << 32; return { cut(v, c.t->w) }; } }
	}

	// ------------------------------------------------------------ direct evaluation
	struct OutOfFuel {};
	struct Eval
	{
		std::vector<Fn>& fns; std::vector<V> globals; long fuel = 30000; size_t maxLoop = 0, taken = 0, iters = 0, callsMade = 0;
		struct Frame { std::vector<V> slots; std::vector<V*> vars; std::vector<V> store; V result; };
		explicit Eval(std::vector<Fn>& f) : fns(f) {}
		enum Flow { Normal, Brk, Cont, Ret };
		V val(Frame& f, const Ref& r) { return r.slot >= 0 ? f.slots[size_t(r.slot)] : constValue(*r.c); }
		V* var(Frame& f, int v) { return v >= 1000 ? &globals[size_t(v - 1000)] : f.vars[size_t(v)]; }
		V expr(Frame& f, const Expr& e)
		{
			std::vector<V> a; for (auto& r : e.a) a.push_back(val(f, r));
			const T& t = *e.a[0].t; const T* u = e.a.size() > 1 ? e.a[1].t.get() : nullptr; const uint32_t w = t.base().w; const bool flt = t.base().k == K::Float, sgn = t.base().s; V r;
			auto each = [&](auto fn) { for (size_t i = 0; i < a[0].size(); ++i) r.push_back(fn(a[0][i], a.size() > 1 ? a[1][i] : 0, a.size() > 2 ? a[2][i] : 0)); return r; };
			auto arith = [&](A2 o) { return [=](uint64_t x, uint64_t y, uint64_t) -> uint64_t { if (flt) return fbits2(o, x, y, w); switch (o) { case A2::Add: return cut(x + y, w); case A2::Sub: return cut(x - y, w); case A2::Mul: return cut(x * y, w); case A2::Div: return sgn ? sdiv(x, y, w) : udiv(x, y); case A2::Min: return sgn ? (sx(y, w) < sx(x, w) ? y : x) : (y < x ? y : x); default: return sgn ? (sx(x, w) < sx(y, w) ? y : x) : (x < y ? y : x); } }; };
			auto less = [=](uint64_t x, uint64_t y) { return flt ? dbl(x, w) < dbl(y, w) : sgn ? sx(x, w) < sx(y, w) : x < y; }; auto equal = [=](uint64_t x, uint64_t y) { return flt ? dbl(x, w) == dbl(y, w) : x == y; };
			auto un = [&](A1 o) { return [=](uint64_t x, uint64_t, uint64_t) -> uint64_t { if (flt) return fbits1(o, x, w); const int64_t v = sx(x, w); switch (o) { case A1::Neg: return cut(0 - x, w); case A1::Abs: return v < 0 ? cut(0 - x, w) : x; default: return v > 0 ? 1 : v < 0 ? cut(~0ull, w) : 0; } }; };
			switch (e.op)
			{
			case Op::Add: return each(arith(A2::Add)); case Op::Sub: return each(arith(A2::Sub));
			case Op::Mul:
				if (t.mat() && u->mat()) return matMat(a[0], t.n, t.sub[0]->n, a[1], u->n, w);
				if (t.mat() && u->vec()) return matVec(a[0], t.n, t.sub[0]->n, a[1], w);
				if (t.vec() && u->mat()) return vecMat(a[0], a[1], u->n, u->sub[0]->n, w);
				if (a[0].size() > a[1].size()) a[1].assign(a[0].size(), a[1][0]); else if (a[1].size() > a[0].size()) a[0].assign(a[1].size(), a[0][0]);
				return each(arith(A2::Mul));
			case Op::Div: if (a[1].size() < a[0].size()) a[1].assign(a[0].size(), a[1][0]); return each(arith(A2::Div));
			case Op::Mod: return each([=](uint64_t x, uint64_t y, uint64_t) { return flt ? fbits2(A2::Mod, x, y, w) : sgn ? smod(x, y, w) : umod(x, y); });
			case Op::Rem: return each([=](uint64_t x, uint64_t y, uint64_t) { return flt ? fbits2(A2::Rem, x, y, w) : srem(x, y, w); });
			case Op::Not: return each([&](uint64_t x, uint64_t, uint64_t) { return t.base().isBool() ? uint64_t(!x) : cut(~x, w); });
			case Op::Neg: return each(un(A1::Neg)); case Op::Abs: return each(un(A1::Abs)); case Op::Sign: return each(un(A1::Sign)); case Op::Floor: return each(un(A1::Floor)); case Op::Ceil: return each(un(A1::Ceil)); case Op::Trunc: return each(un(A1::Trunc)); case Op::Fract: return each(un(A1::Fract)); case Op::Sqrt: return each(un(A1::Sqrt));
			case Op::Eq: return each([=](uint64_t x, uint64_t y, uint64_t) { return uint64_t(equal(x, y)); });
			case Op::Ne: return each([=](uint64_t x, uint64_t y, uint64_t) { return uint64_t(flt && (std::isnan(dbl(x, w)) || std::isnan(dbl(y, w))) ? false : !equal(x, y)); }); // ordered
			case Op::Lt: return each([=](uint64_t x, uint64_t y, uint64_t) { return uint64_t(less(x, y)); }); case Op::Gt: return each([=](uint64_t x, uint64_t y, uint64_t) { return uint64_t(less(y, x)); });
			case Op::Le: return each([=](uint64_t x, uint64_t y, uint64_t) { return uint64_t(less(x, y) || equal(x, y)); }); case Op::Ge: return each([=](uint64_t x, uint64_t y, uint64_t) { return uint64_t(less(y, x) || equal(x, y)); });
			case Op::Shl: return each([=](uint64_t x, uint64_t y, uint64_t) { return shl(x, y, w); }); case Op::ShrL: return each([=](uint64_t x, uint64_t y, uint64_t) { return shr(x, y, w); }); case Op::ShrA: return each([=](uint64_t x, uint64_t y, uint64_t) { return sar(x, y, w); });
			case Op::And: case Op::LAnd: return each([](uint64_t x, uint64_t y, uint64_t) { return x & y; }); case Op::Or: case Op::LOr: return each([](uint64_t x, uint64_t y, uint64_t) { return x | y; }); case Op::Xor: return each([](uint64_t x, uint64_t y, uint64_t) { return x ^ y; });
			case Op::Select: return each([](uint64_t c, uint64_t x, uint64_t y) { return c ? x : y; });
			case Op::Min: return each(arith(A2::Min)); case Op::Max: return each(arith(A2::Max)); case Op::Clamp: { auto mx = arith(A2::Max), mn = arith(A2::Min); return each([&](uint64_t x, uint64_t lo, uint64_t hi) { return mn(mx(x, lo, 0), hi, 0); }); }
			case Op::Step: return each(arith(A2::Step));
			case Op::Convert: { const T& to = e.t->base(); return each([&](uint64_t x, uint64_t, uint64_t) -> uint64_t { if (flt) return to.k == K::Float ? bitsOf(dbl(x, w), to.w) : toInt(dbl(x, w), to.w, to.s); if (to.k == K::Float) return sgn ? fromS(sx(x, w), to.w) : fromU(x, to.w); return to.s ? cut(uint64_t(sx(x, w)), to.w) : cut(x, to.w); }); }
			case Op::Bitcast: return a[0];
			case Op::BitCount: return each([](uint64_t x, uint64_t, uint64_t) { uint64_t n = 0; for (; x; x &= x - 1) ++n; return n; });
			case Op::BitReverse: return each([=](uint64_t x, uint64_t, uint64_t) { uint64_t n = 0; for (uint32_t k = 0; k < w; ++k) if (x >> k & 1) n |= 1ull << (w - 1 - k); return n; });
			case Op::Any: { uint64_t x = 0; for (auto b : a[0]) x |= b; return { x }; } case Op::All: { uint64_t x = 1; for (auto b : a[0]) x &= b; return { x }; }
			case Op::Dot: return { fsum(a[0], 0, 1, a[1], 0, 1, a[0].size(), w) };
			case Op::Outer: for (auto y : a[1]) for (auto x : a[0]) r.push_back(fbits2(A2::Mul, x, y, w)); return r;
			case Op::Transpose: { const uint32_t rows = t.sub[0]->n; for (uint32_t i = 0; i < rows; ++i) for (uint32_t j = 0; j < t.n; ++j) r.push_back(a[0][j * rows + i]); return r; }
			case Op::Construct: for (auto& x : a) r.insert(r.end(), x.begin(), x.end()); return r;
			case Op::Extract: case Op::Insert: { TP x = e.a[0].t; size_t o = 0; for (auto k : e.l) { o += offset(*x, k); x = member(*x, k); } if (e.op == Op::Extract) return part(a[0], o, count(*x)); r = a[0]; fill(r, o, a[1]); return r; }
			case Op::Shuffle: { V all = a[0]; all.insert(all.end(), a[1].begin(), a[1].end()); for (auto k : e.l) r.push_back(all[k]); return r; }
			case Op::DynExtract: return { a[0][a[1][0]] };
			case Op::DynInsert: r = a[0]; r[a[2][0]] = a[1][0]; return r;
			case Op::Copy: return a[0];
			}
			return r;
		}
		size_t where(Frame& f, const Stmt& s, TP t, TP& out) { size_t o = 0; for (auto& i : s.path) { const uint32_t k = i.dyn ? uint32_t(val(f, i.r)[0]) : i.k; o += offset(*t, k); t = member(*t, k); } out = t; return o; }
		TP varType(const Fn& fn, int v, const std::vector<Glob>& g) { return v >= 1000 ? g[size_t(v - 1000)].t : fn.vars[size_t(v)].t; }
		const std::vector<Glob>* globs = nullptr;
		Flow block(const Fn& fn, Frame& f, const std::vector<Stmt>& b)
		{
			for (auto& s : b)
			{
				if (--fuel < 0) throw OutOfFuel();
				switch (s.kind)
				{
				case Stmt::Let: f.slots[size_t(s.slot)] = expr(f, s.e); break;
				case Stmt::Load: { TP x; size_t o = where(f, s, varType(fn, s.var, *globs), x); f.slots[size_t(s.slot)] = part(*var(f, s.var), o, count(*x)); break; }
				case Stmt::Store: { TP x; size_t o = where(f, s, varType(fn, s.var, *globs), x); fill(*var(f, s.var), o, val(f, s.v)); break; }
				case Stmt::Call: { ++callsMade; std::vector<V> a; std::vector<V*> p; for (auto& r : s.args) a.push_back(val(f, r)); for (auto v : s.ptrs) p.push_back(var(f, v)); V r = call(fns[size_t(s.fn)], a, p); if (s.slot >= 0) f.slots[size_t(s.slot)] = r; break; }
				case Stmt::If: { const bool c = val(f, s.v)[0] != 0; taken += c; Flow x = block(fn, f, c ? s.a : s.b); if (x != Normal) return x; if (s.phi >= 0) f.slots[size_t(s.phi)] = val(f, c ? s.first : s.next); break; }
				case Stmt::Loop:
				{
					if (s.phi >= 0) f.slots[size_t(s.phi)] = val(f, s.first); size_t n = 0;
					while (true)
					{
						if (--fuel < 0) throw OutOfFuel();
						block(fn, f, s.b); if (!val(f, s.v)[0]) break;
						Flow x = block(fn, f, s.a); if (x == Ret) return Ret; if (x == Brk) break;
						++n; block(fn, f, s.c); if (s.phi >= 0) f.slots[size_t(s.phi)] = val(f, s.next);
					}
					maxLoop = std::max(maxLoop, n); iters += n; break;
				}
				case Stmt::Break: return Brk; case Stmt::Continue: return Cont;
				case Stmt::Return: if (s.hasV) f.result = val(f, s.v); return Ret;
				case Stmt::Phi: break;
				}
			}
			return Normal;
		}
		V call(const Fn& fn, const std::vector<V>& args, const std::vector<V*>& ptrs)
		{
			Frame f; f.slots.resize(fn.types.size()); f.store.resize(fn.nVars); f.vars.resize(fn.nVars); size_t a = 0, p = 0, sl = 0, vr = 0;
			for (size_t k = 0; k < fn.params.size(); ++k) if (fn.ptr[k]) f.vars[vr++] = ptrs[p++]; else f.slots[sl++] = args[a++];
			for (; vr < fn.nVars; ++vr) { f.store[vr] = fn.inits[vr].empty() ? V(count(*fn.vars[vr].t), 0xdeadbeef) : fn.inits[vr]; f.vars[vr] = &f.store[vr]; }
			block(fn, f, fn.body); return f.result;
		}
	};

	// ------------------------------------------------------------ interpreter of SPIR-V
	struct Machine
	{
		const spv_ref::Mod& m; std::map<uint32_t, V> consts; std::vector<V> objects; std::map<uint32_t, uint32_t> globalObj; std::map<uint32_t, TP> types; std::map<uint32_t, size_t> func; long fuel = 400000; std::set<uint32_t> uninit; std::set<std::string> seen; std::set<uint32_t> sets;
		[[noreturn]] void bad(const std::string& s, const std::string& sig = "execution") { throw pbt::Fail(sig, s); }
		TP type(uint32_t id) { auto it = types.find(id); if (it == types.end()) it = types.emplace(id, decodeType(m, id)).first; return it->second; }
		explicit Machine(const spv_ref::Mod& mod) : m(mod)
		{
			for (size_t i = 0; i < m.insts.size(); ++i)
			{
				auto& d = m.insts[i];
				if (d.op == 54) func[d.result] = i;
				else if (d.op == 11 && d.str(0) == "GLSL.std.450") sets.insert(d.result);
				else if (isConstOp(d.op)) consts[d.result] = constValue(*decodeConst(m, d.result));
			}
			bool in = false; for (auto& d : m.insts) { if (d.op == 54) in = true; if (d.op == 56) in = false; if (d.op == 59 && !in) { globalObj[d.result] = alloc(type(d.type)->sub[0], d.ops.size() > 1 ? &value(d.w(1)) : nullptr); consts[d.result] = { uint64_t(globalObj[d.result]) << 32 }; } }
		}
		const V& value(uint32_t id) { auto it = consts.find(id); if (it == consts.end()) bad("no value for %" + num(id)); return it->second; }
		uint32_t alloc(const TP& t, const V* init) { objects.push_back(init ? *init : V(count(*t), 0xdeadbeef)); return uint32_t(objects.size() - 1); }
		V call(uint32_t id, const std::vector<V>& args, int depth = 0)
		{
			if (!func.count(id)) bad("call of %" + num(id)); if (depth > 40) bad("recursion");
			size_t i = func[id] + 1; std::map<uint32_t, V> vals; std::map<uint32_t, size_t> labels; size_t a = 0; const size_t keep = objects.size();
			for (size_t k = i; m.insts[k].op != 56; ++k) { auto& d = m.insts[k]; if (d.op == 248) labels[d.result] = k; else if (d.op == 55) { if (a >= args.size()) bad("arguments"); vals[d.result] = args[a++]; } }
			if (a != args.size() || labels.empty()) bad("arguments");
			uint32_t block = 0, prev = 0; while (m.insts[i].op != 248) ++i; block = m.insts[i].result; ++i;
			auto get = [&](uint32_t x) -> const V& { auto it = vals.find(x); return it != vals.end() ? it->second : value(x); };
			auto typeOf = [&](uint32_t x) { auto* d = m.find(x); return type(d->type); };
			auto jump = [&](uint32_t to) { if (!labels.count(to)) bad("branch to %" + num(to)); prev = block; block = to; i = labels[to] + 1; };
			while (true)
			{
				if (--fuel < 0) bad("the program does not end", "endless"); auto& d = m.insts[i]; auto where = [&] { return spv_ref::dump(d); };
				if (d.op == 245) // all phis of a block at once
				{
					std::map<uint32_t, V> now;
					while (m.insts[i].op == 245) { auto& p = m.insts[i]; bool hit = false; for (size_t k = 0; k + 1 < p.ops.size(); k += 2) if (p.w(k + 1) == prev) { now[p.result] = get(p.w(k)); hit = true; } if (!hit) bad("no value for the predecessor in " + spv_ref::dump(p)); ++i; }
					for (auto& n : now) vals[n.first] = n.second; continue;
				}
				++i; V r;
				if (d.op == 249) { jump(d.w(0)); continue; } if (d.op == 250) { jump(get(d.w(0))[0] ? d.w(1) : d.w(2)); continue; }
				if (d.op == 253) { objects.resize(keep); return {}; } if (d.op == 254) { r = get(d.w(0)); objects.resize(keep); return r; }
				if (d.op == 246 || d.op == 247 || d.op == 0 || d.op == 8 || d.op == 317) continue;
				if (d.op == 62) { const uint64_t p = get(d.w(0))[0]; const V v = get(d.w(1)); auto& o = objects[p >> 32]; const size_t of = uint32_t(p); if (of + v.size() > o.size()) bad("store outside: " + where()); fill(o, of, v); continue; }
				const TP t = type(d.type); const T* x = nullptr; const T* y = nullptr; V av, bv, cv; uint32_t w = 0;
				if (d.op == 12) { x = typeOf(d.w(2)).get(); av = get(d.w(2)); if (d.ops.size() > 3) { bv = get(d.w(3)); y = typeOf(d.w(3)).get(); } if (d.ops.size() > 4) cv = get(d.w(4)); }
				else if (d.op != 59 && d.op != 57 && !(d.ops.empty())) { auto isv = [&](size_t k) { return k < d.ops.size() && d.ops[k].isId(); }; if (isv(0)) { x = typeOf(d.w(0)).get(); av = get(d.w(0)); } if (isv(1)) { y = typeOf(d.w(1)).get(); bv = get(d.w(1)); } if (isv(2)) cv = get(d.w(2)); }
				if (x) w = x->base().w;
				auto map1 = [&](auto fn) { for (auto k : av) r.push_back(fn(k)); }; auto map2 = [&](auto fn) { if (av.size() != bv.size()) bad("operands of " + where()); for (size_t k = 0; k < av.size(); ++k) r.push_back(fn(av[k], bv[k])); };
				auto flt2 = [&](A2 o) { map2([&](uint64_t p, uint64_t q) { return fbits2(o, p, q, w); }); }; auto flt1 = [&](A1 o) { map1([&](uint64_t p) { return fbits1(o, p, w); }); };
				auto fcmp = [&](auto fn) { map2([&](uint64_t p, uint64_t q) -> uint64_t { const double f = dbl(p, w), g = dbl(q, w); return !std::isnan(f) && !std::isnan(g) && fn(f, g); }); };
				auto scmp = [&](auto fn) { map2([&](uint64_t p, uint64_t q) -> uint64_t { return fn(sx(p, w), sx(q, w)); }); }; auto ucmp = [&](auto fn) { map2([&](uint64_t p, uint64_t q) -> uint64_t { return fn(p, q); }); };
				auto lt = [](auto p, auto q) { return p < q; }; auto gt = [](auto p, auto q) { return p > q; }; auto le = [](auto p, auto q) { return p <= q; }; auto ge = [](auto p, auto q) { return p >= q; };
				switch (d.op)
				{
				case 59: vals[d.result] = { uint64_t(alloc(t->sub[0], d.ops.size() > 1 ? &get(d.w(1)) : nullptr)) << 32 }; continue;
				case 57: { std::vector<V> args2; for (size_t k = 1; k < d.ops.size(); ++k) args2.push_back(get(d.w(k))); V v = call(d.w(0), args2, depth + 1); vals[d.result] = v; continue; }
				case 61: { const uint64_t p = av[0]; auto& o = objects[p >> 32]; const size_t n = count(*t); if (uint32_t(p) + n > o.size()) bad("load outside: " + where()); r = part(o, uint32_t(p), n); break; }
				case 65: case 66: { TP q = typeOf(d.w(0))->sub[0]; uint64_t p = av[0]; for (size_t k = 1; k < d.ops.size(); ++k) { const uint64_t ix = get(d.w(k))[0]; if (ix >= members(*q)) bad("index outside: " + where()); p += offset(*q, uint32_t(ix)); q = member(*q, uint32_t(ix)); } r = { p }; break; }
				case 126: map1([&](uint64_t p) { return cut(0 - p, w); }); break; case 127: flt1(A1::Neg); break;
				case 128: map2([&](uint64_t p, uint64_t q) { return cut(p + q, w); }); break; case 129: flt2(A2::Add); break; case 130: map2([&](uint64_t p, uint64_t q) { return cut(p - q, w); }); break; case 131: flt2(A2::Sub); break; case 132: map2([&](uint64_t p, uint64_t q) { return cut(p * q, w); }); break; case 133: flt2(A2::Mul); break;
				case 134: map2([&](uint64_t p, uint64_t q) { return udiv(p, q); }); break; case 135: map2([&](uint64_t p, uint64_t q) { return sdiv(p, q, w); }); break; case 136: flt2(A2::Div); break; case 137: map2([&](uint64_t p, uint64_t q) { return umod(p, q); }); break; case 138: map2([&](uint64_t p, uint64_t q) { return srem(p, q, w); }); break; case 139: map2([&](uint64_t p, uint64_t q) { return smod(p, q, w); }); break; case 140: flt2(A2::Rem); break; case 141: flt2(A2::Mod); break;
				case 142: case 143: for (auto k : av) r.push_back(fbits2(A2::Mul, k, bv[0], w)); break;
				case 144: r = vecMat(av, bv, y->n, y->sub[0]->n, w); break; case 145: r = matVec(av, x->n, x->sub[0]->n, bv, w); break; case 146: r = matMat(av, x->n, x->sub[0]->n, bv, y->n, w); break;
				case 147: for (auto q : bv) for (auto p : av) r.push_back(fbits2(A2::Mul, p, q, w)); break; case 148: r = { fsum(av, 0, 1, bv, 0, 1, av.size(), w) }; break;
				case 84: { const uint32_t rows = x->sub[0]->n; for (uint32_t p = 0; p < rows; ++p) for (uint32_t q = 0; q < x->n; ++q) r.push_back(av[q * rows + p]); break; }
				case 109: map1([&](uint64_t p) { return toInt(dbl(p, w), t->base().w, false); }); break; case 110: map1([&](uint64_t p) { return toInt(dbl(p, w), t->base().w, true); }); break; case 111: map1([&](uint64_t p) { return fromS(sx(p, w), t->base().w); }); break; case 112: map1([&](uint64_t p) { return fromU(p, t->base().w); }); break;
				case 113: map1([&](uint64_t p) { return cut(p, t->base().w); }); break; case 114: map1([&](uint64_t p) { return cut(uint64_t(sx(p, w)), t->base().w); }); break; case 115: map1([&](uint64_t p) { return bitsOf(dbl(p, w), t->base().w); }); break;
				case 124: if (x->comps() != t->comps()) bad("bitcast"); r = av; break; case 83: r = av; break;
				case 200: map1([&](uint64_t p) { return cut(~p, w); }); break; case 168: map1([](uint64_t p) { return uint64_t(!p); }); break;
				case 194: map2([&](uint64_t p, uint64_t q) { return shr(p, q, w); }); break; case 195: map2([&](uint64_t p, uint64_t q) { return sar(p, q, w); }); break; case 196: map2([&](uint64_t p, uint64_t q) { return shl(p, q, w); }); break;
				case 197: case 166: map2([](uint64_t p, uint64_t q) { return p | q; }); break; case 198: map2([](uint64_t p, uint64_t q) { return p ^ q; }); break; case 199: case 167: map2([](uint64_t p, uint64_t q) { return p & q; }); break;
				case 204: map1([&](uint64_t p) { uint64_t n = 0; for (uint32_t k = 0; k < w; ++k) n |= (p >> k & 1) << (w - 1 - k); return n; }); break; case 205: map1([](uint64_t p) { return uint64_t(__builtin_popcountll(p)); }); break;
				case 154: r = { 0 }; for (auto p : av) r[0] |= p; break; case 155: r = { 1 }; for (auto p : av) r[0] &= p; break;
				case 164: case 170: map2([](uint64_t p, uint64_t q) { return uint64_t(p == q); }); break; case 165: case 171: map2([](uint64_t p, uint64_t q) { return uint64_t(p != q); }); break;
				case 172: ucmp(gt); break; case 173: scmp(gt); break; case 174: ucmp(ge); break; case 175: scmp(ge); break; case 176: ucmp(lt); break; case 177: scmp(lt); break; case 178: ucmp(le); break; case 179: scmp(le); break;
				case 180: fcmp([](double p, double q) { return p == q; }); break; case 182: fcmp([](double p, double q) { return p != q; }); break; case 184: fcmp(lt); break; case 186: fcmp(gt); break; case 188: fcmp(le); break; case 190: fcmp(ge); break;
				case 169: if (av.size() == 1) r = av[0] ? bv : cv; else for (size_t k = 0; k < av.size(); ++k) r.push_back(av[k] ? bv[k] : cv[k]); break;
				case 80: for (auto& o : d.ops) { const V& v = get(o.w[0]); r.insert(r.end(), v.begin(), v.end()); } break;
				case 81: { TP q = typeOf(d.w(0)); size_t o = 0; for (size_t k = 1; k < d.ops.size(); ++k) { o += offset(*q, d.w(k)); q = member(*q, d.w(k)); } r = part(av, o, count(*q)); break; }
				case 82: { TP q = typeOf(d.w(1)); size_t o = 0; for (size_t k = 2; k < d.ops.size(); ++k) { o += offset(*q, d.w(k)); q = member(*q, d.w(k)); } r = bv; fill(r, o, av); break; }
				case 79: { V all = av; all.insert(all.end(), bv.begin(), bv.end()); for (size_t k = 2; k < d.ops.size(); ++k) r.push_back(all.at(d.w(k))); break; }
				case 77: r = { av.at(bv[0]) }; break; case 78: r = av; r.at(cv[0]) = bv[0]; break;
				case 12:
				{
					if (!sets.count(d.w(0))) bad("instruction set of " + where());
					auto sel = [&](auto less) { map2([&](uint64_t p, uint64_t q) { return less(p, q) ? p : q; }); }; auto mm = [&](bool mn, int k) { sel([=](uint64_t p, uint64_t q) { const bool l = k == 0 ? (mn ? !(dbl(q, w) < dbl(p, w)) : !(dbl(p, w) < dbl(q, w))) : k == 1 ? (mn ? sx(p, w) <= sx(q, w) : sx(p, w) >= sx(q, w)) : (mn ? p <= q : p >= q); return l; }); };
					switch (d.w(1))
					{
					case 3: flt1(A1::Trunc); break; case 4: flt1(A1::Abs); break; case 5: map1([&](uint64_t p) { return sx(p, w) < 0 ? cut(0 - p, w) : p; }); break; case 6: flt1(A1::Sign); break; case 7: map1([&](uint64_t p) { return p == 0 ? 0 : sx(p, w) < 0 ? cut(~0ull, w) : 1; }); break; case 8: flt1(A1::Floor); break; case 9: flt1(A1::Ceil); break; case 10: flt1(A1::Fract); break; case 31: flt1(A1::Sqrt); break;
					case 37: mm(true, 0); break; case 38: mm(true, 2); break; case 39: mm(true, 1); break; case 40: mm(false, 0); break; case 41: mm(false, 2); break; case 42: mm(false, 1); break; case 48: flt2(A2::Step); break;
					case 43: case 44: case 45: { const int k = d.w(1) == 43 ? 0 : d.w(1) == 44 ? 2 : 1; mm(false, k); av = r; bv = cv; r.clear(); mm(true, k); break; }
					default: bad("not interpreted: " + where());
					}
					break;
				}
				default: bad("not interpreted: " + where());
				}
				if (r.size() != count(*t)) bad("result of " + where() + " has " + num(r.size()) + " components"); vals[d.result] = r;
			}
		}
	};

	// ------------------------------------------------------------ generator and builder
	struct Maker
	{
		Src& s; Module& m; std::vector<Fn> fns; std::vector<Glob> globs; std::string trace; size_t ifs = 0, loops = 0, callsN = 0, phis = 0, ops = 0, breaks = 0; std::map<std::string, size_t> used; lu::Log& log;
		Fn* fn = nullptr; BasicBlock* bb = nullptr; std::vector<int> scope; std::vector<int> hidden; int budget = 0; Instruction* lastMade = nullptr;
		Maker(Src& src, Module& mod, lu::Log& l) : s(src), m(mod), log(l) {}
		Instruction* typeI(const TP& t) { return requestType(m, *t, s); }
		Instruction* constI(const CP& c) { return requestConst(m, *c, s); }
		TP num_() { switch (s.below(10)) { case 0: return tFloat(64); case 1: return tInt(64, s.coin()); case 2: return tInt(s.coin() ? 16 : 8, s.coin()); case 3: case 4: return tInt(32, false); case 5: case 6: return tInt(32, true); default: return tFloat(32); } }
		TP simple() { switch (s.below(8)) { case 0: return tBool(); case 1: case 2: return tVec(s.chance(1, 4) ? tBool() : num_(), s.range(2, 4)); case 3: if (s.coin()) return tMat(tVec(tFloat(32), s.range(2, 4)), s.range(2, 4)); return num_(); default: return num_(); } }
		TP any(int d = 2) { if (d > 0 && s.chance(1, 5)) { if (s.coin()) { static const uint32_t n[] = { 2, 4, 3 }; return tArr(any(d - 1), s.pick(n)); } std::vector<TP> v; uint32_t n = s.range(1, 3); for (uint32_t i = 0; i < n; ++i) v.push_back(any(d - 1)); return tStruct(v); } return simple(); }
		static bool interface(const T& t) { if (t.isBool() || (t.isInt() && t.w < 32)) return false; for (auto& x : t.sub) if (!interface(*x)) return false; return true; } // types of input and output variables
		CP nice(const TP& t) // small numbers make branches go both ways
		{
			if (t->isBool()) return cBool(s.coin()); if (t->isInt()) return cScalar(t, s.chance(1, 6) ? s.word64() : t->s ? uint64_t(int64_t(s.range(-3, 6))) : s.below(8));
			if (t->isFloat()) { static const double d[] = { 0, 1, -1, 0.5, 2, 3, -2.5, 7, 0.1, 1e10, -0.0, 1e-3 }; const double x = s.pick(d); if (s.chance(1, 12)) { const uint64_t w = t->w == 64 ? s.word64() : s.word(); if (!std::isnan(dbl(w, t->w))) return cScalar(t, w); } return cScalar(t, t->w == 64 ? bitsOf(x, 64) : bitsOf(x, 32)); }
			std::vector<CP> c; for (uint32_t i = 0; i < members(*t); ++i) c.push_back(nice(member(*t, i))); return cComp(t, c);
		}
		int newSlot(const TP& t, Instruction* i) { fn->slots.push_back(i); fn->types.push_back(t); const int k = int(fn->slots.size()) - 1; scope.push_back(k); return k; }
		Ref slotRef(int k) { Ref r; r.slot = k; r.t = fn->types[size_t(k)]; return r; }
		Ref constRef(const CP& c) { Ref r; r.c = c; r.t = c->t; return r; }
		Instruction* ins(const Ref& r) { return r.slot >= 0 ? fn->slots[size_t(r.slot)] : constI(r.c); }
		Ref ref(const TP& t) { std::vector<int> c; for (int k : scope) if (same(fn->types[size_t(k)], t)) c.push_back(k); if (!c.empty() && !s.chance(1, 4)) return slotRef(s.coin() ? c.back() : s.pick(c)); return constRef(nice(t)); }
		std::vector<int> varsOf(const std::function<bool(const T&, bool)>& p) { std::vector<int> r; for (size_t i = 0; i < fn->vars.size(); ++i) if (std::find(hidden.begin(), hidden.end(), int(i)) == hidden.end() && p(*fn->vars[i].t, fn->vars[i].writable)) r.push_back(int(i)); for (size_t i = 0; i < globs.size(); ++i) if (p(*globs[i].t, globs[i].sc != 1)) r.push_back(int(1000 + i)); return r; }
		void check(Instruction* i, const TP& t, const std::string& what) { CHECK_SIG(i && !i->isErrorInstr() && i->getType(), "rejected " + what, what + " was rejected: " + log.text); const TP g = fromLib(*i->getType()); CHECK_SIG(same(g, t), "type of " + what, what + " has type " + g->key() + " instead of " + t->key()); }

		// expressions
		bool pickExpr(Expr& e, std::string& what)
		{
			Ref x = scope.empty() || s.chance(1, 8) ? constRef(nice(simple())) : slotRef(s.coin() ? scope.back() : s.pick(scope)); const TP t = x.t; e.a = { x }; e.t = t; const TP bl = t->comps() ? like(*t, tBool()) : nullptr; auto two = [&] { e.a.push_back(ref(t)); }; auto three = [&] { two(); two(); };
			if (t->sv(K::Int))
			{
				const bool sg_ = t->e().s; static const Op o[] = { Op::Add, Op::Sub, Op::Mul, Op::Div, Op::Mod, Op::Not, Op::Eq, Op::Ne, Op::Lt, Op::Le, Op::Gt, Op::Ge, Op::Shl, Op::ShrL, Op::ShrA, Op::And, Op::Or, Op::Xor, Op::Select, Op::Min, Op::Max, Op::Clamp, Op::Convert, Op::Bitcast, Op::Rem, Op::Neg, Op::Abs, Op::Sign, Op::BitCount, Op::BitReverse };
				e.op = o[s.below(t->width() == 32 ? 30 : 28)]; if (!sg_ && (e.op == Op::Rem || e.op == Op::Neg || e.op == Op::Abs || e.op == Op::Sign)) e.op = Op::Add; // the signed operations
			}
			else if (t->sv(K::Float)) { static const Op o[] = { Op::Add, Op::Sub, Op::Mul, Op::Div, Op::Neg, Op::Eq, Op::Ne, Op::Lt, Op::Le, Op::Gt, Op::Ge, Op::Select, Op::Min, Op::Max, Op::Clamp, Op::Convert, Op::Abs, Op::Sign, Op::Floor, Op::Ceil, Op::Trunc, Op::Fract, Op::Step, Op::Sqrt, Op::Rem, Op::Mod, Op::Mul, Op::Dot, Op::Outer }; e.op = o[s.below(t->vec() ? 29 : 27)]; }
			else if (t->sv(K::Bool)) { static const Op o[] = { Op::LAnd, Op::LOr, Op::Not, Op::Eq, Op::Ne, Op::Select, Op::Any, Op::All }; e.op = o[s.below(t->vec() ? 8 : 6)]; }
			else if (t->mat()) { static const Op o[] = { Op::Mul, Op::Transpose, Op::Extract, Op::Insert, Op::Copy }; e.op = s.pick(o); }
			else e.op = s.coin() ? Op::Extract : s.chance(1, 4) ? Op::Copy : Op::Insert;
			if ((t->vec() && s.chance(1, 4))) { static const Op o[] = { Op::Extract, Op::Insert, Op::Shuffle, Op::DynExtract, Op::DynInsert, Op::Copy }; e.op = s.pick(o); }
			if (s.chance(1, 12)) e.op = Op::Construct;
			const TP u32 = tInt(32, s.coin());
			switch (e.op)
			{
			case Op::Eq: case Op::Ne: case Op::Lt: case Op::Le: case Op::Gt: case Op::Ge: two(); e.t = bl; break;
			case Op::Add: case Op::Sub: case Op::Rem: case Op::Mod: case Op::And: case Op::Or: case Op::Xor: case Op::LAnd: case Op::LOr: case Op::Min: case Op::Max: case Op::Step: two(); break;
			case Op::Div: if (t->vec() && t->sv(K::Float) && s.chance(1, 3)) { static const double d[] = { 2, 0.5, 4, -1, 8 }; const double q = s.pick(d); e.a.push_back(constRef(cScalar(t->sub[0], bitsOf(q, t->width())))); } /* a power of two: multiplying by the reciprocal is exact */ else two(); break;
			case Op::Clamp: three(); break;
			case Op::Shl: case Op::ShrL: case Op::ShrA: { std::vector<CP> c; for (uint32_t i = 0; i < t->comps(); ++i) c.push_back(cScalar(t->vec() ? t->sub[0] : t, s.below(t->width()))); e.a.push_back(constRef(t->vec() ? cComp(t, c) : c[0])); break; }
			case Op::Mul:
				if (t->mat()) switch (s.below(4)) { case 0: e.a.push_back(ref(t->sub[0]->sub[0])); break; case 1: e.a.push_back(ref(tVec(t->sub[0]->sub[0], t->n))); e.t = t->sub[0]; break; case 2: e.a = { ref(t->sub[0]), x }; e.t = tVec(t->sub[0]->sub[0], t->n); break; default: { TP u = tMat(tVec(t->sub[0]->sub[0], t->n), s.range(2, 4)); e.a.push_back(ref(u)); e.t = tMat(t->sub[0], u->n); } }
				else if (t->vec() && t->sv(K::Float) && s.coin()) { e.a.push_back(ref(t->sub[0])); }
				else two();
				if (t->mat() ? same(e.a.back().t, t->sub[0]->sub[0]) : e.a.size() == 2 && !same(e.a[0].t, e.a[1].t)) if (s.coin()) std::swap(e.a[0], e.a[1]);
				break;
			case Op::Select: { const TP q = t->sv(K::Bool) && s.coin() ? t : nullptr; if (q) { TP v = t->vec() ? tVec(num_(), t->n) : num_(); e.a = { x, ref(v), ref(v) }; e.t = v; } else { e.a = { ref(bl), x, ref(t) }; } break; }
			case Op::Convert: { TP to; if (t->sv(K::Int)) { switch (s.below(2)) { case 0: { static const uint32_t w[] = { 8, 16, 32, 64 }; uint32_t k = s.pick(w); if (k == t->width()) k = k == 64 ? 32 : 64; to = tInt(k, t->e().s); break; } default: if (t->width() < 32) return false; to = tFloat(t->width()); } } else { switch (s.below(3)) { case 0: to = tFloat(t->width() == 32 ? 64 : 32); break; case 1: to = tInt(t->width(), true); break; default: to = tInt(t->width(), false); } } e.t = like(*t, to); break; }
			case Op::Bitcast: e.t = like(*t, tInt(t->width(), !t->e().s)); break;
			case Op::Any: case Op::All: e.t = tBool(); break;
			case Op::Dot: two(); e.t = t->sub[0]; break; case Op::Outer: { TP u = tVec(t->sub[0], s.range(2, 4)); e.a.push_back(ref(u)); e.t = tMat(t, u->n); break; }
			case Op::Transpose: e.t = tMat(tVec(t->sub[0]->sub[0], t->n), t->sub[0]->n); break;
			case Op::Extract: case Op::Insert: { TP y = t; do { const uint32_t k = s.below(members(*y)); e.l.push_back(k); y = member(*y, k); } while (members(*y) && s.coin() && e.l.size() < 3); if (e.op == Op::Extract) e.t = y; else e.a.push_back(ref(y)); break; }
			case Op::Shuffle: { TP u = tVec(t->sub[0], s.range(2, 4)); e.a.push_back(ref(u)); const uint32_t n = s.range(2, 4); for (uint32_t i = 0; i < n; ++i) e.l.push_back(s.below(t->n + u->n)); e.t = tVec(t->sub[0], n); break; }
			case Op::DynExtract: e.a.push_back(constRef(cScalar(u32, s.below(t->n)))); e.t = t->sub[0]; break; case Op::DynInsert: e.a.push_back(ref(t->sub[0])); e.a.push_back(constRef(cScalar(u32, s.below(t->n)))); break;
			case Op::Construct: { const uint32_t n = s.range(2, 4); e.a.clear(); if (t->scalar()) { e.t = tVec(t, n); e.a = { x }; for (uint32_t i = 1; i < n; ++i) e.a.push_back(ref(t)); } else if (t->vec() && t->sv(K::Float) && t->width() == 32 && s.coin()) { e.t = tMat(t, n); e.a = { x }; for (uint32_t i = 1; i < n; ++i) e.a.push_back(ref(t)); } else { std::vector<TP> ts{ t }; e.a = { x }; for (uint32_t i = 1; i < n; ++i) { ts.push_back(simple()); e.a.push_back(ref(ts.back())); } e.t = tStruct(ts); } break; }
			default: break;
			}
			static const char* names[] = { "Add", "Sub", "Mul", "Div", "Mod", "Rem", "Not", "Neg", "Equal", "NotEqual", "Less", "LessEqual", "Greater", "GreaterEqual", "Shl", "ShrL", "ShrA", "And", "Or", "Xor", "LAnd", "LOr", "Select", "Min", "Max", "Clamp", "Abs", "Sign", "Floor", "Ceil", "Trunc", "Fract", "Step", "Sqrt", "Convert", "Bitcast", "BitCount", "BitReverse", "Any", "All", "Dot", "Outer", "Transpose", "Construct", "Extract", "Insert", "Shuffle", "DynExtract", "DynInsert", "Copy" };
			what = names[size_t(e.op)]; return true;
		}
		Instruction* emit(const Expr& e)
		{
			std::vector<Instruction*> a; for (auto& r : e.a) a.push_back(ins(r)); const T& t = *e.a[0].t; const bool flt = t.base().k == K::Float, sgn = t.base().s; BasicBlock& b = *bb; auto& l = e.l;
			Instruction* tI = e.op == Op::Construct || e.op == Op::Bitcast ? typeI(e.t) : nullptr;
			const bool onLast = !b.empty() && a[0] == &b.back(); const uint32_t route = s.below(onLast ? 5 : 2); // of the instruction, of the block, with the last instruction, operators
			used["route " + num(route)]++;
			#define GENERIC1(N, OPER) switch (route) { case 0: return b->N(a[0]); case 1: return b.N(a[0]); case 2: return b.N(); default: return sg::ops::operator OPER(b); }
			#define GENERIC(N, OPER) switch (route) { case 0: return b->N(a[0], a[1]); case 1: return b.N(a[0], a[1]); case 2: return b.N(a[1]); case 3: return sg::ops::operator OPER(b, a[1]); default: return sg::ops::operator OPER(b, *a[1]); }
			switch (e.op)
			{
			case Op::Add: GENERIC(Add, +) case Op::Sub: GENERIC(Sub, -) case Op::Mul: GENERIC(Mul, *) case Op::Div: GENERIC(Div, /) case Op::Eq: GENERIC(Equal, ==) case Op::Ne: GENERIC(NotEqual, !=) case Op::Lt: GENERIC(Less, <) case Op::Le: GENERIC(LessEqual, <=) case Op::Gt: GENERIC(Greater, >) case Op::Ge: GENERIC(GreaterEqual, >=)
			case Op::Not: GENERIC1(Not, !)
			case Op::Mod: return flt ? b->opFMod(a[0], a[1]) : sgn ? b->opSMod(a[0], a[1]) : b->opUMod(a[0], a[1]); case Op::Rem: return flt ? b->opFRem(a[0], a[1]) : b->opSRem(a[0], a[1]); case Op::Neg: return flt ? b->opFNegate(a[0]) : b->opSNegate(a[0]);
			case Op::Shl: return b->opShiftLeftLogical(a[0], a[1]); case Op::ShrL: return b->opShiftRightLogical(a[0], a[1]); case Op::ShrA: return b->opShiftRightArithmetic(a[0], a[1]); case Op::And: return b->opBitwiseAnd(a[0], a[1]); case Op::Or: return b->opBitwiseOr(a[0], a[1]); case Op::Xor: return b->opBitwiseXor(a[0], a[1]); case Op::LAnd: return b->opLogicalAnd(a[0], a[1]); case Op::LOr: return b->opLogicalOr(a[0], a[1]);
			case Op::Select: return b->opSelect(a[0], a[1], a[2]);
			case Op::Min: return flt ? b.glsl()->opFMin(a[0], a[1]) : sgn ? b.glsl()->opSMin(a[0], a[1]) : b.glsl()->opUMin(a[0], a[1]); case Op::Max: return flt ? b.glsl()->opFMax(a[0], a[1]) : sgn ? b.glsl()->opSMax(a[0], a[1]) : b.glsl()->opUMax(a[0], a[1]); case Op::Clamp: return flt ? b.glsl()->opFClamp(a[0], a[1], a[2]) : sgn ? b.glsl()->opSClamp(a[0], a[1], a[2]) : b.glsl()->opUClamp(a[0], a[1], a[2]);
			case Op::Abs: return flt ? b.glsl()->opFAbs(a[0]) : b.glsl()->opSAbs(a[0]); case Op::Sign: return flt ? b.glsl()->opFSign(a[0]) : b.glsl()->opSSign(a[0]); case Op::Floor: return b.glsl()->opFloor(a[0]); case Op::Ceil: return b.glsl()->opCeil(a[0]); case Op::Trunc: return b.glsl()->opTrunc(a[0]); case Op::Fract: return b.glsl()->opFract(a[0]); case Op::Step: return b.glsl()->opStep(a[0], a[1]); case Op::Sqrt: return b.glsl()->opSqrt(a[0]);
			case Op::Convert: { const T& to = e.t->base(); if (flt) return to.isFloat() ? b->opFConvert(a[0], to.w) : to.s ? b->opConvertFToS(a[0]) : b->opConvertFToU(a[0]); if (to.isFloat()) return sgn ? b->opConvertSToF(a[0]) : b->opConvertUToF(a[0]); return sgn ? b->opSConvert(a[0], to.w) : b->opUConvert(a[0], to.w); }
			case Op::Bitcast: return b->opBitcast(tI, a[0]); case Op::BitCount: return b->opBitCount(a[0]); case Op::BitReverse: return b->opBitReverse(a[0]); case Op::Any: return b->opAny(a[0]); case Op::All: return b->opAll(a[0]); case Op::Dot: return b->opDot(a[0], a[1]); case Op::Outer: return b->opOuterProduct(a[0], a[1]); case Op::Transpose: return b->opTranspose(a[0]);
			case Op::Construct: switch (a.size()) { case 2: return b->opCompositeConstruct(tI, a[0], a[1]); case 3: return b->opCompositeConstruct(tI, a[0], a[1], a[2]); default: return b->opCompositeConstruct(tI, a[0], a[1], a[2], a[3]); }
			case Op::Extract: switch (l.size()) { case 1: return b->opCompositeExtract(a[0], l[0]); case 2: return b->opCompositeExtract(a[0], l[0], l[1]); default: return b->opCompositeExtract(a[0], l[0], l[1], l[2]); }
			case Op::Insert: switch (l.size()) { case 1: return b->opCompositeInsert(a[0], a[1], l[0]); case 2: return b->opCompositeInsert(a[0], a[1], l[0], l[1]); default: return b->opCompositeInsert(a[0], a[1], l[0], l[1], l[2]); }
			case Op::Shuffle: switch (l.size()) { case 2: return b->opVectorShuffle(a[0], a[1], l[0], l[1]); case 3: return b->opVectorShuffle(a[0], a[1], l[0], l[1], l[2]); default: return b->opVectorShuffle(a[0], a[1], l[0], l[1], l[2], l[3]); }
			case Op::DynExtract: return b->opVectorExtractDynamic(a[0], a[1]); case Op::DynInsert: return b->opVectorInsertDynamic(a[0], a[1], a[2]); case Op::Copy: return b->opCopyObject(a[0]);
			}
			return nullptr;
		}
		int let(std::vector<Stmt>& out, const Expr& e, const std::string& what) { Instruction* i = emit(e); check(i, e.t, what); ++ops; used[what]++; Stmt st; st.kind = Stmt::Let; st.e = e; st.slot = newSlot(e.t, i); out.push_back(st); return st.slot; }
		// value that is certainly an instruction of the current block
		Ref here(std::vector<Stmt>& out, const TP& t) { Expr e; e.op = Op::Copy; e.a = { ref(t) }; e.t = t; return slotRef(let(out, e, "Copy")); }
		Ref boolean(std::vector<Stmt>& out)
		{
			std::vector<int> c; for (int k : scope) if (fn->types[size_t(k)]->isBool()) c.push_back(k); if (!c.empty() && s.chance(1, 3)) return slotRef(s.pick(c));
			std::vector<int> n; for (int k : scope) { auto& t = *fn->types[size_t(k)]; if (t.isInt() || t.isFloat()) n.push_back(k); }
			Expr e; static const Op o[] = { Op::Lt, Op::Ge, Op::Eq, Op::Ne, Op::Gt, Op::Le }; e.op = s.pick(o); Ref x = n.empty() ? constRef(nice(tInt(32, true))) : slotRef(s.pick(n)); e.a = { x, s.coin() ? constRef(nice(x.t)) : ref(x.t) }; e.t = tBool(); return slotRef(let(out, e, "condition"));
		}
		Instruction* varI(int v) { return v >= 1000 ? globs[size_t(v - 1000)].i : fn->vars[size_t(v)].i; }
		TP varT(int v) { return v >= 1000 ? globs[size_t(v - 1000)].t : fn->vars[size_t(v)].t; }
		uint32_t varSc(int v) { return v >= 1000 ? globs[size_t(v - 1000)].sc : 7; }
		Instruction* address(std::vector<Stmt>& out, Stmt& st, TP& t)
		{
			t = varT(st.var); bool dyn = false;
			while (members(*t) && s.chance(2, 3) && st.path.size() < 3)
			{
				Index x; const uint32_t n = members(*t); x.k = s.below(n);
				if (t->k != K::Struct && (n == 2 || n == 4) && s.coin()) { std::vector<int> c; for (int k : scope) { auto& y = *fn->types[size_t(k)]; if (y.isInt() && y.w == 32) c.push_back(k); } if (!c.empty()) { const int k = s.pick(c); Expr e; e.op = Op::And; e.a = { slotRef(k), constRef(cScalar(fn->types[size_t(k)], n - 1)) }; e.t = fn->types[size_t(k)]; x.r = slotRef(let(out, e, "index")); x.dyn = dyn = true; } }
				st.path.push_back(x); t = member(*t, x.k);
			}
			Instruction* base = varI(st.var); if (st.path.empty()) return base;
			const TP pt = tPtr(varSc(st.var), t); Instruction* p = nullptr;
			if (!dyn && s.coin()) { auto& q = st.path; p = q.size() == 1 ? (*bb)->opAccessChain(base, q[0].k) : q.size() == 2 ? (*bb)->opAccessChain(base, q[0].k, q[1].k) : (*bb)->opAccessChain(base, q[0].k, q[1].k, q[2].k); }
			else { std::vector<Instruction*> i; for (auto& x : st.path) i.push_back(x.dyn ? ins(x.r) : constI(cScalar(tInt(32, true), x.k))); Instruction* ti = typeI(pt); p = i.size() == 1 ? (*bb)->opAccessChain(ti, base, i[0]) : i.size() == 2 ? (*bb)->opAccessChain(ti, base, i[0], i[1]) : (*bb)->opAccessChain(ti, base, i[0], i[1], i[2]); }
			check(p, pt, "opAccessChain"); return p;
		}
		void load(std::vector<Stmt>& out) { auto v = varsOf([](const T&, bool) { return true; }); if (v.empty()) return; Stmt st; st.kind = Stmt::Load; st.var = s.pick(v); TP t; Instruction* p = address(out, st, t); Instruction* i = (*bb)->opLoad(p); check(i, t, "opLoad"); st.slot = newSlot(t, i); out.push_back(st); }
		void store(std::vector<Stmt>& out, int var = -1, const Ref* what = nullptr)
		{
			Stmt st; st.kind = Stmt::Store; if (var < 0) { auto v = varsOf([](const T&, bool w) { return w; }); if (v.empty()) return; st.var = s.pick(v); } else st.var = var;
			TP t = varT(st.var); Instruction* p = what ? varI(st.var) : address(out, st, t); st.v = what ? *what : ref(t); (*bb)->opStore(p, ins(st.v)); out.push_back(st);
		}
		int local(const TP& t, bool init) { Var v; v.t = t; CP c = nice(t); v.i = init ? fn->f->variable(typeI(tPtr(7, t)), nullptr, constI(c)) : fn->f->variable(typeI(tPtr(7, t))); fn->vars.push_back(v); fn->inits.push_back(init ? constValue(*c) : V()); fn->nVars = fn->vars.size(); return int(fn->vars.size()) - 1; }
		void call(std::vector<Stmt>& out, size_t self)
		{
			if (self == 0) return; const size_t k = s.below(uint32_t(self)); Fn& f = fns[k]; Stmt st; st.kind = Stmt::Call; st.fn = int(k); std::vector<Instruction*> a;
			for (size_t i = 0; i < f.params.size(); ++i) if (f.ptr[i]) { std::vector<int> c; for (size_t q = 0; q < fn->vars.size(); ++q) if (std::find(hidden.begin(), hidden.end(), int(q)) == hidden.end() && same(fn->vars[q].t, f.params[i]) && std::find(st.ptrs.begin(), st.ptrs.end(), int(q)) == st.ptrs.end()) c.push_back(int(q)); int v = c.empty() ? local(f.params[i], true) : s.pick(c); st.ptrs.push_back(v); a.push_back(varI(v)); } else { Ref r = ref(f.params[i]); st.args.push_back(r); a.push_back(ins(r)); }
			Instruction* i = nullptr; switch (a.size()) { case 0: i = (*bb)->call(f.f); break; case 1: i = (*bb)->call(f.f, a[0]); break; case 2: i = (*bb)->call(f.f, a[0], a[1]); break; default: i = (*bb)->call(f.f, a[0], a[1], a[2]); }
			CHECK_SIG(i && !i->isErrorInstr(), "rejected call", "call was rejected: " + log.text); ++callsN; if (f.ret->k != K::Void) { check(i, f.ret, "call"); st.slot = newSlot(f.ret, i); } out.push_back(st);
		}
		BasicBlock& newBlock() { return fn->f->addBasicBlock(); }
		bool closed(BasicBlock& b) { return b.getTerminator() != nullptr; }
		void ret(std::vector<Stmt>& out) { Stmt st; st.kind = Stmt::Return; if (fn->ret->k == K::Void) { if (s.coin()) bb->returnValue(); else (*bb)->opReturn(); } else { st.hasV = true; st.v = ref(fn->ret); if (s.coin()) { CHECK_SIG(bb->returnValue(ins(st.v)), "returnValue", "returnValue was rejected: " + log.text); } else (*bb)->opReturnValue(ins(st.v)); } out.push_back(st); }
		// targets of break and continue: a block, or the terminators to fill in once it exists (blocks come after the blocks that dominate them)
		struct Exit { BasicBlock* b = nullptr; std::vector<Instruction*> pend; void resolve(BasicBlock& to) { for (auto* i : pend) i->opBranch(&to); pend.clear(); } };
		Exit* brk = nullptr; Exit* cnt = nullptr;
		void jump(Exit& e) { ++breaks; if (e.b) (*bb)->opBranch(e.b); else e.pend.push_back(bb->addInstruction()); }
		// the end of a branch: falls through to next, or leaves. later: the terminator may be filled in later
		bool leave(std::vector<Stmt>& out, bool later)
		{
			const uint32_t k = s.below(8); Stmt st;
			if (k == 0 && brk && (brk->b || later)) { jump(*brk); st.kind = Stmt::Break; out.push_back(st); return true; } if (k == 1 && cnt && (cnt->b || later)) { jump(*cnt); st.kind = Stmt::Continue; out.push_back(st); return true; }
			if (k == 2) { ret(out); return true; } return false;
		}
		void ifS(std::vector<Stmt>& out, int depth, size_t self)
		{
			++ifs; Stmt st; st.kind = Stmt::If; st.v = boolean(out); Instruction* c = ins(st.v); const bool two = s.coin(); const size_t mark = scope.size(); BasicBlock* start = bb; const uint32_t style = s.below(4); const auto mask = sp::SelectionControlMask(s.below(3)); used["if style " + num(style)]++;
			bool open[2] = { true, true }; BasicBlock* end[2] = { nullptr, nullptr }; BasicBlock* first[2] = { nullptr, nullptr }; Ref last[2]; TP pt = two && s.coin() ? simple() : nullptr; BasicBlock* mergeB = nullptr;
			// fills a branch. both: the branch has to be open at its end; later: its terminator may be filled in later
			auto branch = [&](int k, BasicBlock& b, bool both, bool later) {
				bb = first[k] = &b; auto& list = k ? st.b : st.a; keepOpen += both; statements(list, depth - 1, int(s.below(4)), self); keepOpen -= both; open[k] = !dead; dead = false;
				const bool may = !both && (k == 0 || open[0] || !keepOpen); if (open[k] && may) open[k] = !leave(list, later || bb != &b); end[k] = bb; if (open[k] && pt) last[k] = here(list, pt); scope.resize(mark); };
			if (style <= 1) // functions
			{
				BasicBlock* given = depth > 1 || s.coin() ? &newBlock() : nullptr; const int d = depth; if (!given) depth = 1; // without a merge block at hand nothing can be nested
				auto in = [&](int k) { return [&, k](BasicBlock& b) { branch(k, b, given && two, false); if (open[k] && bb != &b) (*bb)->opBranch(given); }; };
				mergeB = two ? &bb->If(c, in(0), in(1), given, mask) : &bb->If(c, in(0), given, mask);
				depth = d; if (given) CHECK_SIG(mergeB == given, "merge block", "If returned another merge block than the one given");
			}
			else // blocks, or the instructions
			{
				const bool last3 = style == 3; BasicBlock* f = nullptr; BasicBlock& t = newBlock(); branch(0, t, false, last3); if (two) { f = &newBlock(); branch(1, *f, false, last3); }
				BasicBlock* g = nullptr; if (last3 || s.coin() ) g = &newBlock();
				if (style == 2) { BasicBlock& r = two ? start->If(c, t, *f, g, mask) : start->If(c, t, g, mask); CHECK_SIG(!g || &r == g, "merge block", "If returned another merge block than the one given"); g = &r; }
				else { (*start)->opSelectionMerge(g, mask); (*start)->opBranchConditional(c, &t, two ? f : g); }
				for (int k = 0; k < 1 + two; ++k) if (open[k] && (last3 || end[k] != first[k] || first[k]->empty())) (*end[k])->opBranch(g);
				mergeB = g;
			}
			bb = mergeB;
			if (two && !open[0] && !open[1]) { out.push_back(st); (*bb)->opUnreachable(); dead = true; return; }
			if (pt && open[0] && open[1]) { ++phis; st.first = last[0]; st.next = last[1]; Instruction* a = ins(last[0]); Instruction* b = ins(last[1]); if (s.coin()) std::swap(a, b); Instruction* p = (*bb)->opPhi(a, b); check(p, pt, "opPhi"); st.phi = newSlot(pt, p); }
			out.push_back(st);
		}
		bool dead = false; int keepOpen = 0;
		void loopS(std::vector<Stmt>& out, int depth, size_t self)
		{
			++loops; Stmt st; st.kind = Stmt::Loop; const uint32_t style = s.below(3); used["loop style " + num(style)]++; const auto mask = sp::LoopControlMask(s.below(3)); const TP ct = s.coin() ? tInt(32, true) : tInt(32, false); const uint32_t limit = s.below(5); Exit *sb = brk, *sc = cnt; const int so = keepOpen; keepOpen = 0; Exit eb, ec;
			const int counter = local(ct, false); { Ref z = constRef(cScalar(ct, 0)); store(out, counter, &z); } hidden.push_back(counter);
			const TP pt = style == 2 && s.coin() ? simple() : nullptr; if (pt) st.first = here(out, pt); const size_t mark = scope.size(); size_t afterCond = mark; BasicBlock* mergeB = nullptr;
			auto cond = [&](BasicBlock& b) -> Instruction* {
				bb = &b; statements(st.b, 0, int(s.below(2)), self); Stmt ld; ld.kind = Stmt::Load; ld.var = counter; Instruction* i = (*bb)->opLoad(varI(counter)); ld.slot = newSlot(ct, i); st.b.push_back(ld);
				Expr e; e.op = Op::Lt; e.a = { slotRef(ld.slot), constRef(cScalar(ct, limit)) }; e.t = tBool(); if (s.chance(1, 4)) { e.op = Op::Gt; std::swap(e.a[0], e.a[1]); } int k = let(st.b, e, "loop condition");
				if (s.chance(1, 3)) { Expr q; q.op = Op::LAnd; q.a = { slotRef(k), ref(tBool()) }; q.t = tBool(); k = let(st.b, q, "LAnd"); }
				st.v = slotRef(k); afterCond = scope.size(); return ins(st.v); };
			auto step = [&](BasicBlock& b) {
				bb = &b; statements(st.c, 0, int(s.below(2)), self); Stmt ld; ld.kind = Stmt::Load; ld.var = counter; Instruction* i = (*bb)->opLoad(varI(counter)); ld.slot = newSlot(ct, i); st.c.push_back(ld);
				Expr e; e.op = Op::Add; e.a = { slotRef(ld.slot), constRef(cScalar(ct, 1)) }; if (s.chance(1, 4)) std::swap(e.a[0], e.a[1]); e.t = ct; Ref v = slotRef(let(st.c, e, "step")); store(st.c, counter, &v); };
			// returns whether the end of the body is still to be closed
			auto body = [&](BasicBlock& b, bool later) { bb = &b; brk = &eb; cnt = &ec; statements(st.a, depth - 1, int(s.below(5)), self); bool open = !dead; dead = false; if (open && s.chance(1, 8)) open = !leave(st.a, later || bb != &b); brk = cnt = nullptr; scope.resize(afterCond); return open; };
			if (style == 0) // functions: the blocks exist before the body, so that nothing is nested
			{
				BasicBlock* condB = nullptr; const int d = depth;
				mergeB = &bb->Loop([&](BasicBlock& b) { condB = &b; return cond(b); }, [&](BasicBlock& b) { step(b); scope.resize(afterCond); },
					[&](BasicBlock& b) { for (auto& x : *fn->f) for (auto& i : x) if (i.getOperation() == sp::Op::OpLoopMerge && x.back().getOperation() == sp::Op::OpBranch && x.back().front().getBranchTarget() == condB) { auto it = i.begin(); eb.b = it->getBranchTarget(); ++it; ec.b = it->getBranchTarget(); } depth = 1; body(b, false); depth = d; }, nullptr, mask);
			}
			else
			{
				BasicBlock& h = newBlock(); (*bb)->opBranch(&h); Instruction* phi = nullptr; if (pt) { phi = h->opPhi(ins(st.first)); check(phi, pt, "opPhi"); st.phi = newSlot(pt, phi); ++phis; }
				BasicBlock& k = newBlock(); Instruction* c = cond(k); BasicBlock& b = newBlock(); const bool open = body(b, style == 2); BasicBlock* end = bb; BasicBlock& ct2 = newBlock(); ec.resolve(ct2); if (open && (style == 2 || end != &b || s.coin())) (*end)->opBranch(&ct2);
				if (pt) // computed first in the continue block
				{
					bb = &ct2; Expr e; e.t = pt; e.op = Op::Copy; e.a = { ref(pt) }; if (pt->comps() && !pt->sv(K::Bool) && s.chance(3, 4)) { e.op = Op::Add; e.a = { slotRef(st.phi), ref(pt) }; }
					st.next = slotRef(let(st.c, e, "Add")); Instruction* next = ins(st.next); phi->addOperand(next); phi->addOperand(&ct2);
				}
				step(ct2); scope.resize(afterCond); BasicBlock* g = style == 2 || s.coin() ? &newBlock() : nullptr;
				if (style == 1) { BasicBlock& r = h.Loop(c, ct2, b, g, mask); CHECK_SIG(!g || &r == g, "merge block", "Loop returned another merge block than the one given"); g = &r; }
				else { h->opLoopMerge(g, &ct2, mask); h->opBranch(&k); k->opBranchConditional(c, &b, g); ct2->opBranch(&h); }
				eb.resolve(*g); mergeB = g;
			}
			brk = sb; cnt = sc; keepOpen = so; hidden.pop_back(); bb = mergeB; scope.resize(afterCond); out.push_back(st);
		}
		void statements(std::vector<Stmt>& out, int depth, int n, size_t self)
		{
			for (int i = 0; i < n && !dead && budget > 0; ++i)
			{
				--budget; const uint32_t k = s.weighted({ 10, 4, 4, 3, depth > 0 ? 4u : 0u, depth > 0 ? 3u : 0u });
				switch (k) { case 0: { Expr e; std::string what; if (pickExpr(e, what)) let(out, e, what); break; } case 1: load(out); break; case 2: store(out); break; case 3: call(out, self); break; case 4: ifS(out, depth, self); if (dead) return; break; default: loopS(out, depth, self); }
			}
		}
		void run(Ctx&)
		{
			using C = sp::Capability; for (C c : { C::Shader, C::Float64, C::Int64, C::Int16, C::Int8, C::Matrix }) m.addCapability(c); m.setSpvVersion(1, 3); m.setMemoryModel(sp::AddressingModel::Logical, sp::MemoryModel::GLSL450);
			const uint32_t ng = s.range(2, 6); for (uint32_t i = 0; i < ng; ++i) { static const uint32_t cs[] = { 6, 1, 3 }; Glob g; g.sc = s.pick(cs); do g.t = i == 0 || s.coin() ? simple() : any(); while (g.sc != 6 && !interface(*g.t)); CP c = nice(g.t); g.init = g.sc == 6 ? constValue(*c) : V(); Instruction* ini = g.sc == 6 ? constI(c) : nullptr; g.i = m.variable(typeI(tPtr(g.sc, g.t)), sp::StorageClass(g.sc), nullptr, ini); globs.push_back(g); }
			const size_t n = s.range(1, 4); fns.resize(n);
			for (size_t k = 0; k < n; ++k)
			{
				fns.reserve(n); fn = &fns[k]; scope.clear(); hidden.clear(); brk = cnt = nullptr; dead = false; const bool entry = k + 1 == n; budget = s.chance(1, 3) ? 40 : 14;
				fn->ret = entry || s.chance(1, 4) ? tVoid() : any(1);
				if (!entry) { const uint32_t np = s.below(4); for (uint32_t i = 0; i < np; ++i) { fn->params.push_back(any(1)); fn->ptr.push_back(s.chance(1, 3)); } }
				if (entry) { auto& e = m.addEntryPoint(); e.setReturnType(typeI(tVoid())); e.finalize(sp::ExecutionModel::GLCompute, sg::Flag<sp::FunctionControlMask>(sp::FunctionControlMask::MaskNone), "main"); e.addExecutionMode(sp::ExecutionMode::LocalSize, 1u, 1u, 1u); fn->f = &e; }
				else { auto& f = m.addFunction(); f.setReturnType(typeI(fn->ret)); for (size_t i = 0; i < fn->params.size(); ++i) f.addParameters(typeI(fn->ptr[i] ? tPtr(7, fn->params[i]) : fn->params[i])); f.finalize(sp::FunctionControlMask(s.below(4))); fn->f = &f; }
				// pointers come before the local variables and values are the first slots
				for (size_t i = 0; i < fn->params.size(); ++i) { Instruction* p = fn->f->getParameter(uint32_t(i)); if (fn->ptr[i]) { Var v; v.t = fn->params[i]; v.i = p; fn->vars.push_back(v); fn->inits.push_back({}); fn->nVars = fn->vars.size(); } else newSlot(fn->params[i], p); }
				bb = &newBlock(); const uint32_t nl = s.below(3); for (uint32_t i = 0; i < nl; ++i) local(s.coin() ? simple() : any(), true);
				for (uint32_t i = 0; i < 3; ++i) load(fn->body);
				statements(fn->body, 3, int(s.range(2, 12)), k);
				if (!dead) { if (entry) for (size_t i = 0; i < globs.size(); ++i) if (globs[i].sc != 1) { bool have = false; for (int q : scope) have |= same(fn->types[size_t(q)], globs[i].t); if (have) { Ref r = ref(globs[i].t); store(fn->body, int(1000 + i), &r); } } if (entry && s.coin()) statements(fn->body, 0, 2, k); ret(fn->body); }
				dead = false;
			}
		}
	};
	std::string showV(const V& v) { std::string r = "("; for (auto x : v) { char b[32]; snprintf(b, sizeof b, "%s0x%llx", r.size() > 1 ? " " : "", static_cast<unsigned long long>(x)); r += b; } return r + ")"; }

	void p03(Src& s, Ctx& ctx)
	{
		sg::HeapAllocator heap; lu::Log log; sg::Module m(&heap, &log); Maker k(s, m, log); k.run(ctx);
		lu::MemWriter wr; CHECK_SIG(m.finalizeAndWrite(wr, s.coin() ? &lu::grammar() : nullptr), "write", "writing failed: " + log.text);
		spv_ref::Mod mod; std::string err; CHECK_SIG(spv_ref::decode(wr.w, mod, err), "decode", err);
		err = spv_ref::validate(wr.w); CHECK_SIG(err.empty(), "invalid " + prog::kindOf(err), err + "\n" + spv_ref::dump(mod));
		if (ctx.wantSample || ctx.verbose) ctx.note(spv_ref::dump(mod));
		size_t executed = 0, iters = 0, taken = 0, calls = 0;
		for (int round = 0; round < 3; ++round)
		{
			Eval ev(k.fns); ev.globs = &k.globs; std::vector<V> in; for (auto& g : k.globs) { V v = g.init; if (g.sc == 1) v = constValue(*k.nice(g.t)); else if (v.empty()) v.assign(count(*g.t), 0xdeadbeef); if (g.sc == 1 && ctx.verbose) ctx.note("input " + showV(v) + "\n"); in.push_back(v); } ev.globals = in;
			try { ev.call(k.fns.back(), {}, {}); } catch (OutOfFuel&) { ctx.label("too long"); continue; }
			++executed; iters += ev.iters; taken += ev.taken; calls += ev.callsMade;
			try
			{
				Machine mc(mod); for (size_t i = 0; i < k.globs.size(); ++i) if (k.globs[i].sc == 1) mc.objects[mc.globalObj.at(uint32_t(k.globs[i].i->getResultId()))] = in[i];
				mc.call(uint32_t(k.fns.back().f->getFunction()->getResultId()), {});
				for (size_t i = 0; i < k.globs.size(); ++i) { const V& got = mc.objects[mc.globalObj.at(uint32_t(k.globs[i].i->getResultId()))]; CHECK_SIG(got == ev.globals[i], "result", "global %" + num(uint32_t(k.globs[i].i->getResultId())) + " is " + showV(got) + " instead of " + showV(ev.globals[i])); }
			}
			catch (pbt::Fail& f) { std::string msg = f.what(); for (size_t i = 0; i < in.size(); ++i) msg += "\n%" + num(uint32_t(k.globs[i].i->getResultId())) + " starts as " + showV(in[i]); throw pbt::Fail(f.sig, msg + "\n" + spv_ref::dump(mod)); }
		}
		ctx.mix(wr.w.data(), wr.w.size() * 4); for (auto& u : k.used) ctx.label(u.first, u.second);
		ctx.label("ifs", k.ifs); ctx.label("loops", k.loops); ctx.label("phis", k.phis); ctx.label("calls", k.callsN); ctx.label("breaks", k.breaks); ctx.label("iterations executed", iters); ctx.label("branches taken", taken); ctx.label("calls executed", calls); ctx.label("executions", executed);
		ctx.nontrivial = executed > 0 && k.ops >= 5 && (iters > 0 || taken > 0 || calls > 0);
	}
	pbt::Reg r03("P03", "a program of at least five operations in which a branch, a loop body or a call was executed", p03);
}
