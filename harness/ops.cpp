// What the SPIR-V specification says about the operations of the building interface.
#include "apigen.h"
namespace ag
{
	namespace sp = spvgentwo::spv;
	using sp::Op;
	using sg::GLSL450Intruction;
	typedef Instruction* (Instruction::*M1)(Instruction*);
	typedef Instruction* (Instruction::*M2)(Instruction*, Instruction*);
	typedef Instruction* (Instruction::*M3)(Instruction*, Instruction*, Instruction*);
	typedef Instruction* (Instruction::*M4)(Instruction*, Instruction*, Instruction*, Instruction*);
	typedef Instruction* (GLSL450Intruction::*G1)(Instruction*);
	typedef Instruction* (GLSL450Intruction::*G2)(Instruction*, Instruction*);
	typedef Instruction* (GLSL450Intruction::*G3)(Instruction*, Instruction*, Instruction*);
	using Args = std::vector<Instruction*>;
	using Spec = std::function<Verdict(const Call&)>;
	using GenF = std::function<bool(Gen&, Call&)>;
	using CallF = std::function<Instruction*(BasicBlock&, const Args&, const Call&)>;

	static bool F(const T& t) { return t.sv(K::Float); }
	static bool I(const T& t) { return t.sv(K::Int); }
	static bool B(const T& t) { return t.sv(K::Bool); }
	static bool shape(const T& a, const T& b) { return a.comps() == b.comps() && a.comps() > 0; }
	static bool alike(const T& a, const T& b) { return shape(a, b) && a.e().k == b.e().k && a.width() == b.width(); } // but for the sign
	static Verdict no() { return {}; }
	static Verdict yes(TP r, bool must = true, Fit f = Fit::Exact) { Verdict v; v.legal = true; v.must = must; v.res = std::move(r); v.fit = f; return v; }
	static TP bools(const T& t) { return like(t, tBool()); }
	static const std::initializer_list<uint32_t> FW = { 32, 32, 32, 64, 16 }, F32 = { 32 }, FH = { 32, 32, 16 }, IW = { 32, 32, 32, 64, 16, 8 }, I32 = { 32 };

	static CallF c1(M1 f) { return [f](BasicBlock& b, const Args& a, const Call&) { return (b.addInstruction()->*f)(a[0]); }; }
	static CallF c2(M2 f) { return [f](BasicBlock& b, const Args& a, const Call&) { return (b.addInstruction()->*f)(a[0], a[1]); }; }
	static CallF c3(M3 f) { return [f](BasicBlock& b, const Args& a, const Call&) { return (b.addInstruction()->*f)(a[0], a[1], a[2]); }; }
	static CallF c4(M4 f) { return [f](BasicBlock& b, const Args& a, const Call&) { return (b.addInstruction()->*f)(a[0], a[1], a[2], a[3]); }; }
	static CallF g1(G1 f) { return [f](BasicBlock& b, const Args& a, const Call&) { return (b.glsl()->*f)(a[0]); }; }
	static CallF g2(G2 f) { return [f](BasicBlock& b, const Args& a, const Call&) { return (b.glsl()->*f)(a[0], a[1]); }; }
	static CallF g3(G3 f) { return [f](BasicBlock& b, const Args& a, const Call&) { return (b.glsl()->*f)(a[0], a[1], a[2]); }; }

	// n operands of one type
	static GenF same(K k, std::initializer_list<uint32_t> w, int n, int sign = -1)
	{
		std::vector<uint32_t> ws(w);
		return [=](Gen& g, Call& c) { TP t; switch (ws.size()) { case 1: t = g.sv(k, { ws[0] }, sign); break; default: t = g.sv(k, k == K::Float ? (ws.size() == 3 ? FH : FW) : IW, sign); } c.at.assign(n, t); return true; };
	}
	// two integer operands that may differ in sign
	static bool mixedInts(Gen& g, Call& c)
	{
		TP t = g.sv(K::Int, IW); c.at = { t, t };
		if (g.s.chance(1, 4) && !g.o.kernel) c.at[1] = like(*t, tInt(t->width(), !t->e().s));
		return true;
	}
	static bool fw(const T& t, bool all) { return F(t) && (all ? true : t.width() <= 32); }

	static std::vector<OpDef> make()
	{
		std::vector<OpDef> v;
		auto op = [&](const char* n, Op o, GenF g, Spec s, CallF c) -> OpDef& { OpDef d; d.name = n; d.op = uint32_t(o); d.ext = false; d.gen = std::move(g); d.spec = std::move(s); d.call = std::move(c); v.push_back(std::move(d)); return v.back(); };
		auto gl = [&](const char* n, uint32_t o, GenF g, Spec s, CallF c) -> OpDef& { OpDef d; d.name = n; d.op = o; d.ext = true; d.gen = std::move(g); d.spec = std::move(s); d.call = std::move(c); v.push_back(std::move(d)); return v.back(); };
#define OP(N) #N, Op::N
#define CALL1(N) c1(static_cast<M1>(&Instruction::N))
#define CALL2(N) c2(static_cast<M2>(&Instruction::N))
		// ---- conversions
		auto conv = [](K from, K to, int must, int sign) { return Spec([=](const Call& c) { const T& a = *c.at[0]; if (a.e().k != from || !a.comps()) return no();
			if (to == K::Float && a.width() == 8) { Verdict x = yes(nullptr, false, Fit::Any); return x; }
			return yes(like(a, to == K::Float ? tFloat(a.width()) : tInt(a.width(), sign == 1)), must < 0 || a.e().s == (must == 1)); }); };
		op("opConvertFToU", Op::OpConvertFToU, same(K::Float, FW, 1), conv(K::Float, K::Int, -1, 0), c1(&Instruction::opConvertFToU));
		op("opConvertFToS", Op::OpConvertFToS, same(K::Float, FW, 1), conv(K::Float, K::Int, -1, 1), c1(&Instruction::opConvertFToS));
		op("opConvertSToF", Op::OpConvertSToF, same(K::Int, IW, 1, 1), conv(K::Int, K::Float, 1, 0), c1(&Instruction::opConvertSToF));
		op("opConvertUToF", Op::OpConvertUToF, same(K::Int, IW, 1, 0), conv(K::Int, K::Float, 0, 0), c1(&Instruction::opConvertUToF));
		auto widthOf = [](K k) { return GenF([k](Gen& g, Call& c) { c.at = { g.sv(k, k == K::Float ? FW : IW) }; static const uint32_t iw[] = { 32, 64, 16, 8 }, fl[] = { 32, 64, 16 }; uint32_t w = k == K::Float ? g.s.pick(fl) : g.s.pick(iw); if (w == c.at[0]->width()) w = w == 32 ? 64 : 32; c.lits = { w }; return true; }); };
		op("opUConvert", Op::OpUConvert, widthOf(K::Int), [](const Call& c) { const T& a = *c.at[0]; if (!I(a) || a.width() == c.lits[0]) return no(); return yes(like(a, tInt(c.lits[0], false)), !a.e().s); }, [](BasicBlock& b, const Args& a, const Call& c) { return b->opUConvert(a[0], c.lits[0]); }).raw = true;
		op("opSConvert", Op::OpSConvert, widthOf(K::Int), [](const Call& c) { const T& a = *c.at[0]; if (!I(a) || a.width() == c.lits[0]) return no(); return yes(like(a, tInt(c.lits[0], true)), a.e().s, a.e().s ? Fit::Exact : Fit::AnySign); }, [](BasicBlock& b, const Args& a, const Call& c) { return b->opSConvert(a[0], c.lits[0]); }).raw = true;
		op("opFConvert", Op::OpFConvert, widthOf(K::Float), [](const Call& c) { const T& a = *c.at[0]; if (!F(a) || a.width() == c.lits[0]) return no(); return yes(like(a, tFloat(c.lits[0]))); }, [](BasicBlock& b, const Args& a, const Call& c) { return b->opFConvert(a[0], c.lits[0]); }).raw = true;
		op("opQuantizeToF16", Op::OpQuantizeToF16, same(K::Float, F32, 1), [](const Call& c) { const T& a = *c.at[0]; if (!F(a) || a.width() != 32) return no(); return yes(c.at[0]); }, c1(&Instruction::opQuantizeToF16));
		auto sat = [](const Call& c) { if (!I(*c.at[0])) return no(); return yes(c.at[0], true, Fit::AnySign); };
		op("opSatConvertSToU", Op::OpSatConvertSToU, same(K::Int, IW, 1, 0), sat, c1(&Instruction::opSatConvertSToU)).kernel = true;
		op("opSatConvertUToS", Op::OpSatConvertUToS, same(K::Int, IW, 1, 0), sat, c1(&Instruction::opSatConvertUToS)).kernel = true;
		{
			OpDef& d = op("opBitcast", Op::OpBitcast, [](Gen& g, Call& c) {
				TP a = g.s.coin() ? g.sv(K::Int, IW) : g.sv(K::Float, FW); c.at = { a };
				const uint32_t bits = a->comps() * a->width(); std::vector<TP> to;
				for (uint32_t w : { 8u, 16u, 32u, 64u }) for (uint32_t n = 1; n <= 4; ++n) if (w * n == bits) for (int k = 0; k < 3; ++k)
				{ if (k == 2 && w == 8) continue; if (g.o.kernel && k == 0) continue; TP e = k == 2 ? tFloat(w) : tInt(w, k == 0); TP x = n == 1 ? e : tVec(e, n); if (!ag::same(x, a)) to.push_back(x); }
				if (to.empty()) return false; c.tp = g.s.pick(to); return true; },
				[](const Call& c) { const T& a = *c.at[0]; const T& r = *c.tp; if (!(F(a) || I(a)) || !(F(r) || I(r))) return no(); if (a.comps() * a.width() != r.comps() * r.width()) return no(); return yes(c.tp); },
				[](BasicBlock& b, const Args& a, const Call& c) { (void)c; return b->opBitcast(a[0], a[1]); });
			d.typeFirst = true;
		}
		// ---- arithmetic
		auto fsame = [](const Call& c) { for (auto& x : c.at) if (!F(*x) || !ag::same(x, c.at[0])) return no(); return yes(c.at[0]); };
		auto isame = [](const Call& c) { const T& a = *c.at[0]; for (auto& x : c.at) if (!I(*x) || !alike(*x, a)) return no(); bool mixed = c.at.size() > 1 && !ag::same(c.at[0], c.at[1]); return yes(c.at[0], true, mixed ? Fit::AnySign : Fit::Exact); };
		op("opSNegate", Op::OpSNegate, same(K::Int, IW, 1, 1), [](const Call& c) { if (!I(*c.at[0])) return no(); return yes(c.at[0], c.at[0]->e().s); }, c1(&Instruction::opSNegate));
		op("opFNegate", Op::OpFNegate, same(K::Float, FW, 1), fsame, c1(&Instruction::opFNegate));
#define F2(N) op(#N, Op::O##N, same(K::Float, FW, 2), fsame, c2(&Instruction::o##N))
#define FF(N) op("op" #N, Op::Op##N, same(K::Float, FW, 2), fsame, c2(&Instruction::op##N))
#define II(N) op("op" #N, Op::Op##N, mixedInts, isame, c2(&Instruction::op##N))
		FF(FAdd); FF(FSub); FF(FMul); FF(FDiv); FF(FRem); FF(FMod);
		II(IAdd); II(ISub); II(IMul); II(BitwiseOr); II(BitwiseXor); II(BitwiseAnd);
		auto uns = [](const Call& c) { const T& a = *c.at[0]; for (auto& x : c.at) if (!I(*x) || x->e().s || !alike(*x, a)) return no(); return yes(c.at[0]); };
		op("opUDiv", Op::OpUDiv, same(K::Int, IW, 2, 0), uns, c2(&Instruction::opUDiv));
		op("opUMod", Op::OpUMod, same(K::Int, IW, 2, 0), uns, c2(&Instruction::opUMod));
		auto sdiv = [](const Call& c) { const T& a = *c.at[0]; for (auto& x : c.at) if (!I(*x) || !alike(*x, a)) return no(); bool s = c.at[0]->e().s && c.at[1]->e().s; return yes(c.at[0], true, s ? Fit::Exact : Fit::AnySign); };
		op("opSDiv", Op::OpSDiv, mixedInts, sdiv, c2(&Instruction::opSDiv)).kernel = false;
		op("opSRem", Op::OpSRem, mixedInts, sdiv, c2(&Instruction::opSRem));
		op("opSMod", Op::OpSMod, mixedInts, sdiv, c2(&Instruction::opSMod));
		op("opNot", Op::OpNot, same(K::Int, IW, 1), isame, c1(&Instruction::opNot));
		auto shift = [](const Call& c) { const T& a = *c.at[0]; const T& b = *c.at[1]; if (!I(a) || !I(b) || !shape(a, b)) return no(); return yes(c.at[0], a.width() == b.width(), ag::same(c.at[0], c.at[1]) ? Fit::Exact : Fit::AnySign); };
		op("opShiftRightLogical", Op::OpShiftRightLogical, mixedInts, shift, c2(&Instruction::opShiftRightLogical));
		op("opShiftRightArithmetic", Op::OpShiftRightArithmetic, mixedInts, shift, c2(&Instruction::opShiftRightArithmetic));
		op("opShiftLeftLogical", Op::OpShiftLeftLogical, mixedInts, shift, c2(&Instruction::opShiftLeftLogical));
		op("opBitReverse", Op::OpBitReverse, same(K::Int, I32, 1), isame, c1(&Instruction::opBitReverse));
		op("opBitCount", Op::OpBitCount, same(K::Int, I32, 1), [=](const Call& c) { Verdict r = isame(c); return r; }, c1(&Instruction::opBitCount));
		auto offs = [](Gen& g, Call& c, int n) { TP t = g.sv(K::Int, I32); c.at.assign(n, t); for (int i = 0; i < 2; ++i) c.at.push_back(tInt(32, g.o.kernel ? false : g.s.coin())); return true; };
		auto bits = [](int n) { return Spec([n](const Call& c) { if (!I(*c.at[0])) return no(); if (n == 2 && !ag::same(c.at[0], c.at[1])) return no(); for (size_t i = n; i < c.at.size(); ++i) if (!c.at[i]->isInt()) return no(); return yes(c.at[0]); }); };
		op("opBitFieldInsert", Op::OpBitFieldInsert, [=](Gen& g, Call& c) { return offs(g, c, 2); }, bits(2), c4(&Instruction::opBitFieldInsert));
		op("opBitFieldSExtract", Op::OpBitFieldSExtract, [=](Gen& g, Call& c) { return offs(g, c, 1); }, bits(1), c3(&Instruction::opBitFieldSExtract));
		op("opBitFieldUExtract", Op::OpBitFieldUExtract, [=](Gen& g, Call& c) { return offs(g, c, 1); }, bits(1), c3(&Instruction::opBitFieldUExtract));
		// ---- comparisons and logic
		auto fcmp = [](const Call& c) { for (auto& x : c.at) if (!F(*x) || !ag::same(x, c.at[0])) return no(); return yes(bools(*c.at[0])); };
		auto icmp = [](const Call& c) { for (auto& x : c.at) if (!I(*x) || !alike(*x, *c.at[0])) return no(); return yes(bools(*c.at[0])); };
		auto bcmp = [](const Call& c) { for (auto& x : c.at) if (!B(*x) || !ag::same(x, c.at[0])) return no(); return yes(c.at[0]); };
#define FC(N) op("op" #N, Op::Op##N, same(K::Float, FW, 2), fcmp, c2(&Instruction::op##N))
#define IC(N) op("op" #N, Op::Op##N, mixedInts, icmp, c2(&Instruction::op##N))
#define BC(N) op("op" #N, Op::Op##N, [](Gen& g, Call& c) { TP t = g.sv(K::Bool, {}); c.at = { t, t }; return true; }, bcmp, c2(&Instruction::op##N))
		FC(FOrdEqual); FC(FUnordEqual); FC(FOrdNotEqual); FC(FUnordNotEqual); FC(FOrdLessThan); FC(FUnordLessThan); FC(FOrdGreaterThan); FC(FUnordGreaterThan); FC(FOrdLessThanEqual); FC(FUnordLessThanEqual); FC(FOrdGreaterThanEqual); FC(FUnordGreaterThanEqual);
		IC(IEqual); IC(INotEqual); IC(UGreaterThan); IC(UGreaterThanEqual); IC(SGreaterThan); IC(SGreaterThanEqual); IC(ULessThan); IC(ULessThanEqual); IC(SLessThan); IC(SLessThanEqual);
		BC(LogicalEqual); BC(LogicalNotEqual); BC(LogicalOr); BC(LogicalAnd);
		auto oneBool = [](Gen& g, Call& c) { c.at = { g.sv(K::Bool, {}) }; return true; };
		op("opLogicalNot", Op::OpLogicalNot, oneBool, bcmp, c1(&Instruction::opLogicalNot));
		auto boolVec = [](Gen& g, Call& c) { TP t = g.find([](const T& t) { return t.vec() && B(t); }); c.at = { t ? t : tVec(tBool(), g.s.range(2, 4)) }; return true; };
		auto reduce = [](const Call& c) { if (!c.at[0]->vec() || !B(*c.at[0])) return no(); return yes(tBool()); };
		op("opAny", Op::OpAny, boolVec, reduce, c1(&Instruction::opAny));
		op("opAll", Op::OpAll, boolVec, reduce, c1(&Instruction::opAll));
		op("opIsNan", Op::OpIsNan, same(K::Float, FW, 1), fcmp, c1(&Instruction::opIsNan));
		op("opIsInf", Op::OpIsInf, same(K::Float, FW, 1), fcmp, c1(&Instruction::opIsInf));
		op("opIsFinite", Op::OpIsFinite, same(K::Float, FW, 1), fcmp, c1(&Instruction::opIsFinite)).kernel = true;
		op("opIsNormal", Op::OpIsNormal, same(K::Float, FW, 1), fcmp, c1(&Instruction::opIsNormal)).kernel = true;
		op("opSignBitSet", Op::OpSignBitSet, same(K::Float, FW, 1), fcmp, c1(&Instruction::opSignBitSet)).kernel = true;
		FC(Ordered).kernel = true; FC(Unordered).kernel = true;
		op("opSelect", Op::OpSelect, [](Gen& g, Call& c) {
				if (g.o.selectAny && g.s.chance(1, 3)) { TP t = g.find([](const T& t) { return t.vec() || t.mat() || t.k == K::Arr || t.k == K::Struct; }); if (t) { c.at = { tBool(), t, t }; return true; } }
				TP t = g.s.coin() ? g.sv(K::Float, FW) : g.s.coin() ? g.sv(K::Int, IW) : g.sv(K::Bool, {}); c.at = { bools(*t), t, t }; return true; },
			[](const Call& c) { if (!ag::same(c.at[1], c.at[2])) return no(); const T& t = *c.at[1]; const T& q = *c.at[0]; if (!B(q)) return no();
				if (t.comps() && shape(q, t)) return yes(c.at[1]);
				if (q.isBool() && (t.vec() || t.mat() || t.k == K::Arr || t.k == K::Struct)) return yes(c.at[1]); // raises the version to 1.4
				if (q.isBool() && (t.comps() || t.mat() || t.k == K::Arr || t.k == K::Struct || t.k == K::Ptr)) return yes(c.at[1], false, Fit::Any); // from 1.4 on, pointers with a capability
				return no(); },
			c3(&Instruction::opSelect));
		// ---- generic operations
		auto generic = [](Spec i, Spec f, Op io, Op fo) { return Spec([=](const Call& c) { Verdict r; if (I(*c.at[0])) { r = i(c); r.op = uint32_t(io); } else { r = f(c); r.op = uint32_t(fo); } return r; }); };
		auto num2 = [](Gen& g, Call& c) { if (g.s.coin()) return mixedInts(g, c); TP t = g.sv(K::Float, FW); c.at = { t, t }; return true; };
		op("Add", Op::OpNop, num2, generic(isame, fsame, Op::OpIAdd, Op::OpFAdd), c2(&Instruction::Add));
		op("Sub", Op::OpNop, num2, generic(isame, fsame, Op::OpISub, Op::OpFSub), c2(&Instruction::Sub));
		auto cmp = [=](Op s, Op u, Op f) { return Spec([=](const Call& c) { if (F(*c.at[0])) { Verdict r = fcmp(c); r.op = uint32_t(f); return r; } Verdict r = icmp(c); if (!r.legal) return r;
			if (c.at[0]->e().s != c.at[1]->e().s) { r.op = uint32_t(s); r.order = { -1 }; } // which one is meant for mixed signs is not stated
			else r.op = uint32_t(c.at[0]->e().s ? s : u); return r; }); };
		auto samenum = [](Gen& g, Call& c) { TP t = g.s.coin() ? g.sv(K::Int, IW) : g.sv(K::Float, FW); c.at = { t, t }; return true; };
		op("Less", Op::OpNop, samenum, cmp(Op::OpSLessThan, Op::OpULessThan, Op::OpFOrdLessThan), c2(&Instruction::Less));
		op("LessEqual", Op::OpNop, samenum, cmp(Op::OpSLessThanEqual, Op::OpULessThanEqual, Op::OpFOrdLessThanEqual), c2(&Instruction::LessEqual));
		op("Greater", Op::OpNop, samenum, cmp(Op::OpSGreaterThan, Op::OpUGreaterThan, Op::OpFOrdGreaterThan), c2(&Instruction::Greater));
		op("GreaterEqual", Op::OpNop, samenum, cmp(Op::OpSGreaterThanEqual, Op::OpUGreaterThanEqual, Op::OpFOrdGreaterThanEqual), c2(&Instruction::GreaterEqual));
		auto eq = [=](Op i, Op f, Op b) { return Spec([=](const Call& c) { Verdict r; const T& a = *c.at[0]; if (F(a)) { r = fcmp(c); r.op = uint32_t(f); } else if (I(a)) { r = icmp(c); r.op = uint32_t(i); } else { r = bcmp(c); r.op = uint32_t(b); } return r; }); };
		auto any2 = [=](Gen& g, Call& c) { if (g.s.chance(1, 4)) { TP t = g.sv(K::Bool, {}); c.at = { t, t }; return true; } return num2(g, c); };
		op("Equal", Op::OpNop, any2, eq(Op::OpIEqual, Op::OpFOrdEqual, Op::OpLogicalEqual), c2(&Instruction::Equal));
		op("NotEqual", Op::OpNop, any2, eq(Op::OpINotEqual, Op::OpFOrdNotEqual, Op::OpLogicalNotEqual), c2(&Instruction::NotEqual));
		op("Not", Op::OpNop, [](Gen& g, Call& c) { c.at = { g.s.coin() ? g.sv(K::Bool, {}) : g.sv(K::Int, IW) }; return true; }, [=](const Call& c) { Verdict r; if (I(*c.at[0])) { r = isame(c); r.op = uint32_t(Op::OpNot); } else { r = bcmp(c); r.op = uint32_t(Op::OpLogicalNot); } return r; }, c1(&Instruction::Not));
		// ---- matrices
		auto matT = [](Gen& g) { TP t = g.find([](const T& t) { return t.mat(); }); if (t) return t; static const uint32_t w[] = { 32, 32, 32, 64, 16 }; uint32_t r = g.s.range(2, 4); return tMat(tVec(tFloat(g.s.pick(w)), r), g.s.range(2, 4)); };
		auto fvec = [](Gen& g, std::initializer_list<uint32_t> w) { TP t = g.find([&](const T& t) { bool ok = false; for (auto x : w) ok |= t.width() == x; return t.vec() && F(t) && ok; }); if (t) return t; std::vector<uint32_t> ws(w); return tVec(tFloat(g.s.pick(ws)), g.s.range(2, 4)); };
		auto vts = [](const Call& c) { const T& a = *c.at[0]; if (!a.vec() || !F(a) || !ag::same(c.at[1], a.sub[0])) return no(); return yes(c.at[0]); };
		auto mts = [](const Call& c) { const T& a = *c.at[0]; if (!a.mat() || !ag::same(c.at[1], a.sub[0]->sub[0])) return no(); return yes(c.at[0]); };
		auto vtm = [](const Call& c) { const T& a = *c.at[0]; const T& m = *c.at[1]; if (!m.mat() || !ag::same(c.at[0], m.sub[0])) return no(); return yes(tVec(a.sub[0], m.n)); };
		auto mtv = [](const Call& c) { const T& m = *c.at[0]; const T& a = *c.at[1]; if (!m.mat() || !a.vec() || !F(a) || a.n != m.n || a.width() != m.base().w) return no(); return yes(m.sub[0]); };
		auto mtm = [](const Call& c) { const T& l = *c.at[0]; const T& r = *c.at[1]; if (!l.mat() || !r.mat() || l.base().w != r.base().w || l.n != r.sub[0]->n) return no(); return yes(tMat(l.sub[0], r.n)); };
		auto gvts = [=](Gen& g, Call& c) { TP t = fvec(g, FW); c.at = { t, t->sub[0] }; return true; };
		auto gmts = [=](Gen& g, Call& c) { TP t = matT(g); c.at = { t, t->sub[0]->sub[0] }; return true; };
		auto gvtm = [=](Gen& g, Call& c) { TP t = matT(g); c.at = { t->sub[0], t }; return true; };
		auto gmtv = [=](Gen& g, Call& c) { TP t = matT(g); c.at = { t, tVec(t->sub[0]->sub[0], t->n) }; return true; };
		auto gmtm = [=](Gen& g, Call& c) { TP t = matT(g); c.at = { t, tMat(tVec(t->sub[0]->sub[0], t->n), g.s.range(2, 4)) }; return true; };
		op("opVectorTimesScalar", Op::OpVectorTimesScalar, gvts, vts, c2(&Instruction::opVectorTimesScalar));
		op("opMatrixTimesScalar", Op::OpMatrixTimesScalar, gmts, mts, c2(&Instruction::opMatrixTimesScalar));
		op("opVectorTimesMatrix", Op::OpVectorTimesMatrix, gvtm, vtm, c2(&Instruction::opVectorTimesMatrix));
		op("opMatrixTimesVector", Op::OpMatrixTimesVector, gmtv, mtv, c2(&Instruction::opMatrixTimesVector));
		op("opMatrixTimesMatrix", Op::OpMatrixTimesMatrix, gmtm, mtm, c2(&Instruction::opMatrixTimesMatrix));
		op("opOuterProduct", Op::OpOuterProduct, [=](Gen& g, Call& c) { TP t = fvec(g, FW); c.at = { t, tVec(t->sub[0], g.s.range(2, 4)) }; return true; },
			[](const Call& c) { const T& a = *c.at[0]; const T& b = *c.at[1]; if (!a.vec() || !b.vec() || !F(a) || !ag::same(a.sub[0], b.sub[0])) return no(); return yes(tMat(c.at[0], b.n)); }, c2(&Instruction::opOuterProduct));
		op("opDot", Op::OpDot, [=](Gen& g, Call& c) { TP t = fvec(g, FW); c.at = { t, t }; return true; }, [](const Call& c) { const T& a = *c.at[0]; if (!a.vec() || !F(a) || !ag::same(c.at[0], c.at[1])) return no(); return yes(a.sub[0]); }, c2(&Instruction::opDot));
		op("opTranspose", Op::OpTranspose, [=](Gen& g, Call& c) { c.at = { matT(g) }; return true; }, [](const Call& c) { const T& m = *c.at[0]; if (!m.mat()) return no(); return yes(tMat(tVec(m.sub[0]->sub[0], m.n), m.sub[0]->n)); }, c1(&Instruction::opTranspose));
		op("Mul", Op::OpNop, [=](Gen& g, Call& c) {
			switch (g.s.below(8)) { case 0: case 1: return num2(g, c); case 2: gvts(g, c); break; case 3: gmts(g, c); break; case 4: return gvtm(g, c); case 5: return gmtv(g, c); case 6: return gmtm(g, c); default: { TP t = g.sv(K::Float, FW); c.at = { t, t }; return true; } }
			if (g.s.coin()) std::swap(c.at[0], c.at[1]); return true; },
			[=](const Call& c) {
				const T& a = *c.at[0]; const T& b = *c.at[1]; Verdict r;
				auto sw = [&] { Call d = c; std::swap(d.at[0], d.at[1]); return d; };
				if (I(a) && I(b)) { r = isame(c); r.op = uint32_t(Op::OpIMul); }
				else if (a.mat() && b.mat()) { r = mtm(c); r.op = uint32_t(Op::OpMatrixTimesMatrix); }
				else if (a.mat() && b.vec()) { r = mtv(c); r.op = uint32_t(Op::OpMatrixTimesVector); }
				else if (a.vec() && b.mat()) { r = vtm(c); r.op = uint32_t(Op::OpVectorTimesMatrix); }
				else if (a.mat()) { r = mts(c); r.op = uint32_t(Op::OpMatrixTimesScalar); }
				else if (b.mat()) { r = mts(sw()); r.op = uint32_t(Op::OpMatrixTimesScalar); r.order = { 1, 0 }; }
				else if (F(a) && F(b) && a.vec() && b.isFloat()) { r = vts(c); r.op = uint32_t(Op::OpVectorTimesScalar); }
				else if (F(a) && F(b) && b.vec() && a.isFloat()) { r = vts(sw()); r.op = uint32_t(Op::OpVectorTimesScalar); r.order = { 1, 0 }; }
				else { r = fsame(c); r.op = uint32_t(Op::OpFMul); }
				return r; }, c2(&Instruction::Mul));
		op("Div", Op::OpNop, samenum, [=](const Call& c) { Verdict r; const T& a = *c.at[0]; if (F(a) && a.vec() && ag::same(c.at[1], a.sub[0])) return yes(c.at[0], false); /* becomes several instructions */ if (F(a)) { r = fsame(c); r.op = uint32_t(Op::OpFDiv); } else { r = sdiv(c); bool u = r.legal && !a.e().s && !c.at[1]->e().s; r.op = uint32_t(u ? Op::OpUDiv : Op::OpSDiv); if (u) r.fit = Fit::Exact; if (r.legal && a.e().s != c.at[1]->e().s) r.order = { -1 }; } return r; },
			[](BasicBlock& b, const Args& a, const Call&) { return b->Div(a[0], a[1]); });
		// ---- extended arithmetic
		auto carry = [](bool anySign) { return Spec([=](const Call& c) { const T& a = *c.at[0]; if (!I(a) || !ag::same(c.at[0], c.at[1]) || (a.e().s && !anySign)) return no(); return yes(tStruct({ c.at[0], c.at[0] }), !anySign || a.e().s); }); };
		op("opIAddCarry", Op::OpIAddCarry, same(K::Int, IW, 2, 0), carry(false), c2(&Instruction::opIAddCarry));
		op("opISubBorrow", Op::OpISubBorrow, same(K::Int, IW, 2, 0), carry(false), c2(&Instruction::opISubBorrow));
		op("opUMulExtended", Op::OpUMulExtended, same(K::Int, IW, 2, 0), carry(false), c2(&Instruction::opUMulExtended));
		op("OpSMulExtended", Op::OpSMulExtended, same(K::Int, IW, 2, 1), carry(true), c2(&Instruction::OpSMulExtended));
		// ---- vectors and composites
		auto anyVec = [](Gen& g) { TP t = g.find([](const T& t) { return t.vec(); }); if (t) return t; TP e = g.scalar(g.s.coin() ? K::Float : K::Int, {}); return tVec(e, g.s.range(2, 4)); };
		auto idxT = [](Gen& g) { return tInt(32, g.o.kernel ? false : g.s.coin()); };
		op("opVectorExtractDynamic", Op::OpVectorExtractDynamic, [=](Gen& g, Call& c) { TP t = anyVec(g); c.at = { t, idxT(g) }; return true; }, [](const Call& c) { if (!c.at[0]->vec() || !c.at[1]->isInt()) return no(); return yes(c.at[0]->sub[0]); }, c2(&Instruction::opVectorExtractDynamic));
		op("opVectorInsertDynamic", Op::OpVectorInsertDynamic, [=](Gen& g, Call& c) { TP t = anyVec(g); c.at = { t, t->sub[0], idxT(g) }; return true; }, [](const Call& c) { if (!c.at[0]->vec() || !ag::same(c.at[1], c.at[0]->sub[0]) || !c.at[2]->isInt()) return no(); return yes(c.at[0]); }, c3(&Instruction::opVectorInsertDynamic));
		op("opVectorShuffle", Op::OpVectorShuffle, [=](Gen& g, Call& c) { TP t = anyVec(g); TP u = g.s.coin() ? t : tVec(t->sub[0], g.s.range(2, 4)); c.at = { t, u }; uint32_t n = g.s.range(2, 4); for (uint32_t i = 0; i < n; ++i) c.lits.push_back(g.s.below(t->n + u->n)); return true; },
			[](const Call& c) { const T& a = *c.at[0]; const T& b = *c.at[1]; if (!a.vec() || !b.vec() || !ag::same(a.sub[0], b.sub[0])) return no(); for (auto l : c.lits) if (l != ~0u && l >= a.n + b.n) return no(); return yes(tVec(a.sub[0], uint32_t(c.lits.size()))); },
			[](BasicBlock& b, const Args& a, const Call& c) { auto& l = c.lits; return l.size() == 2 ? b->opVectorShuffle(a[0], a[1], l[0], l[1]) : l.size() == 3 ? b->opVectorShuffle(a[0], a[1], l[0], l[1], l[2]) : b->opVectorShuffle(a[0], a[1], l[0], l[1], l[2], l[3]); });
		{
			OpDef& d = op("opCompositeConstruct", Op::OpCompositeConstruct, [](Gen& g, Call& c) {
				switch (g.s.below(4))
				{
				case 0: case 1: { TP e = g.s.coin() ? g.scalar(K::Float, {}) : g.s.coin() ? g.scalar(K::Int, {}) : tBool(); uint32_t n = g.s.range(2, 4), left = n; c.tp = tVec(e, n); while (left) { uint32_t k = left == n ? g.s.range(1, left - 1) : g.s.range(1, left); c.at.push_back(k == 1 ? e : tVec(e, k)); left -= k; } return true; }
				case 2: if (!g.o.kernel) { static const uint32_t w[] = { 32, 32, 64, 16 }; TP col = tVec(tFloat(g.s.pick(w)), g.s.range(2, 4)); uint32_t n = g.s.range(2, 4); c.tp = tMat(col, n); c.at.assign(n, col); return true; } // else fall through
				default: if (g.s.coin()) { TP e = g.valueType(1); uint32_t n = g.s.range(1, 4); c.tp = tArr(e, n); c.at.assign(n, e); } else { std::vector<TP> m; uint32_t n = g.s.range(1, 4); for (uint32_t i = 0; i < n; ++i) m.push_back(g.valueType(1)); c.tp = tStruct(m); c.at = m; } return true;
				} },
				[](const Call& c) { const T& t = *c.tp; std::vector<TP> m; if (t.vec()) { uint32_t n = 0; for (auto& x : c.at) { if (!x->comps() || !ag::same(x->vec() ? x->sub[0] : x, t.sub[0])) return no(); n += x->comps(); } return n == t.n && c.at.size() > 1 ? yes(c.tp) : no(); }
					if (t.k == K::Struct) m = t.sub; else m.assign(t.n, t.sub[0]); if (m.size() != c.at.size()) return no(); for (size_t i = 0; i < m.size(); ++i) if (!ag::same(m[i], c.at[i])) return no(); return yes(c.tp); },
				[](BasicBlock& b, const Args& a, const Call& c) -> Instruction* {
					if (c.lits.empty()) switch (a.size()) { case 2: return b->opCompositeConstruct(a[0], a[1]); case 3: return b->opCompositeConstruct(a[0], a[1], a[2]); case 4: return b->opCompositeConstruct(a[0], a[1], a[2], a[3]); default: break; }
					sg::List<Instruction*> l(b.getAllocator()); for (size_t i = 1; i < a.size(); ++i) l.emplace_back(a[i]); return b->opCompositeConstructDynamic(a[0], l); });
			d.typeFirst = true;
		}
		auto path = [](Gen& g, Call& c, TP& t) { // a random path into a composite
			TP x = g.find([](const T& t) { return t.vec() || t.mat() || t.k == K::Arr || t.k == K::Struct; }); if (!x) { x = g.valueType(2); if (x->scalar()) x = tVec(x, 3); }
			c.at = { x }; uint32_t n = g.s.range(1, 3);
			for (uint32_t i = 0; i < n && !x->scalar(); ++i) { uint32_t lim = x->k == K::Struct ? uint32_t(x->sub.size()) : x->n; uint32_t k = g.s.below(lim); c.lits.push_back(k); x = x->k == K::Struct ? x->sub[k] : x->sub[0]; }
			t = x; return true; };
		auto walk = [](TP x, const std::vector<uint32_t>& l) -> TP { for (auto k : l) { if (x->vec() || x->mat() || x->k == K::Arr) { if (k >= x->n) return nullptr; x = x->sub[0]; } else if (x->k == K::Struct) { if (k >= x->sub.size()) return nullptr; x = x->sub[k]; } else return nullptr; } return x; };
		op("opCompositeExtract", Op::OpCompositeExtract, [=](Gen& g, Call& c) { TP t; return path(g, c, t); }, [=](const Call& c) { TP r = walk(c.at[0], c.lits); return r ? yes(r) : no(); },
			[](BasicBlock& b, const Args& a, const Call& c) -> Instruction* { auto& l = c.lits;
				if (l.size() % 2 == 0 || l.size() > 3) { sg::List<unsigned int> x(b.getAllocator()); for (auto k : l) x.emplace_back(k); return b->opCompositeExtractDynamic(a[0], x); }
				return l.size() == 1 ? b->opCompositeExtract(a[0], l[0]) : b->opCompositeExtract(a[0], l[0], l[1], l[2]); });
		op("opCompositeInsert", Op::OpCompositeInsert, [=](Gen& g, Call& c) { TP t; path(g, c, t); c.at.push_back(t); return true; }, [=](const Call& c) { TP r = walk(c.at[0], c.lits); if (!r || !ag::same(r, c.at[1])) return no(); Verdict x = yes(c.at[0]); x.order = { 1, 0 }; return x; },
			[](BasicBlock& b, const Args& a, const Call& c) -> Instruction* { auto& l = c.lits; return l.size() == 1 ? b->opCompositeInsert(a[0], a[1], l[0]) : l.size() == 2 ? b->opCompositeInsert(a[0], a[1], l[0], l[1]) : b->opCompositeInsert(a[0], a[1], l[0], l[1], l[2]); });
		op("opCopyObject", Op::OpCopyObject, [](Gen& g, Call& c) { c.at = { g.valueType(2) }; return true; }, [](const Call& c) { return c.at[0]->k == K::Void ? no() : yes(c.at[0]); }, c1(&Instruction::opCopyObject));
		// ---- derivatives
		auto deriv = [](const Call& c) { if (!F(*c.at[0]) || c.at[0]->width() != 32) return no(); return yes(c.at[0]); };
#define DV(N) op("op" #N, Op::Op##N, same(K::Float, F32, 1), deriv, c1(&Instruction::op##N)).fragment = true
		DV(DPdx); DV(DPdy); DV(Fwidth); DV(DPdxFine); DV(DPdyFine); DV(FwidthFine); DV(DPdxCoarse); DV(DPdyCoarse); DV(FwidthCoarse);
		// ---- GLSL.std.450
		using G = GLSL450Intruction;
		auto gf = [](bool all) { return Spec([all](const Call& c) { for (auto& x : c.at) if (!fw(*x, all) || !ag::same(x, c.at[0])) return no(); return yes(c.at[0]); }); };
#define GF1(N, X, ALL) gl("glsl " #N, X, same(K::Float, ALL ? FW : FH, 1), gf(ALL), g1(&G::N))
#define GF2(N, X, ALL) gl("glsl " #N, X, same(K::Float, ALL ? FW : FH, 2), gf(ALL), g2(&G::N))
#define GF3(N, X, ALL) gl("glsl " #N, X, same(K::Float, ALL ? FW : FH, 3), gf(ALL), g3(&G::N))
		GF1(opRound, 1, true); GF1(opRoundEven, 2, true); GF1(opTrunc, 3, true); GF1(opFAbs, 4, true); GF1(opFSign, 6, true); GF1(opFloor, 8, true); GF1(opCeil, 9, true); GF1(opFract, 10, true);
		GF1(opRadians, 11, false); GF1(opDegrees, 12, false); GF1(opSin, 13, false); GF1(opCos, 14, false); GF1(opTan, 15, false); GF1(opASin, 16, false); GF1(opACos, 17, false); GF1(opATan, 18, false); GF1(opSinh, 19, false); GF1(opCosh, 20, false); GF1(opTanh, 21, false); GF1(opAsinh, 22, false); GF1(opAcosh, 23, false); GF1(opAtanh, 24, false);
		GF2(opAtan2, 25, false); GF2(opPow, 26, false); GF1(opExp, 27, false); GF1(opLog, 28, false); GF1(opExp2, 29, false); GF1(opLog2, 30, false); GF1(opSqrt, 31, true); GF1(opInverseSqrt, 32, true);
		GF2(opFMin, 37, true); GF2(opFMax, 40, true); GF3(opFClamp, 43, true); GF3(opFMix, 46, true); GF2(opStep, 48, true); GF3(opSmoothStep, 49, true); GF3(opFma, 50, true); GF1(opNormalize, 69, true); GF3(opFaceForward, 70, true); GF2(opReflect, 71, true); GF2(opNMin, 79, true); GF2(opNMax, 80, true); GF3(opNClamp, 81, true);
		auto gi = [](int sign) { return Spec([sign](const Call& c) { for (auto& x : c.at) if (!I(*x) || !alike(*x, *c.at[0])) return no(); bool must = true, eq = true; for (auto& x : c.at) { must &= x->e().s == (sign == 1); eq &= ag::same(x, c.at[0]); } return yes(c.at[0], must && eq, eq ? Fit::Exact : Fit::AnySign); }); };
#define GI(N, X, S, C, A) gl("glsl " #N, X, same(K::Int, IW, A, S), gi(S), C(&G::N))
		GI(opSAbs, 5, 1, g1, 1); GI(opSSign, 7, 1, g1, 1); GI(opUMin, 38, 0, g2, 2); GI(opSMin, 39, 1, g2, 2); GI(opUMax, 41, 0, g2, 2); GI(opSMax, 42, 1, g2, 2); GI(opUClamp, 44, 0, g3, 3); GI(opSClamp, 45, 1, g3, 3);
		auto sq = [](Gen& g, Call& c) { uint32_t n = g.s.range(2, 4); static const uint32_t w[] = { 32, 32, 64, 16 }; c.at = { tMat(tVec(tFloat(g.s.pick(w)), n), n) }; return true; };
		gl("glsl opDeterminant", 33, sq, [](const Call& c) { const T& m = *c.at[0]; if (!m.mat() || m.n != m.sub[0]->n) return no(); return yes(m.sub[0]->sub[0]); }, g1(&G::opDeterminant));
		gl("glsl opMatrixInverse", 34, sq, [](const Call& c) { const T& m = *c.at[0]; if (!m.mat() || m.n != m.sub[0]->n) return no(); return yes(c.at[0]); }, g1(&G::opMatrixInverse));
		gl("glsl opModfStruct", 36, same(K::Float, FW, 1), [](const Call& c) { if (!F(*c.at[0])) return no(); return yes(tStruct({ c.at[0], c.at[0] })); }, g1(&G::opModfStruct));
		gl("glsl opFrexpStruct", 52, same(K::Float, FW, 1), [](const Call& c) { if (!F(*c.at[0])) return no(); return yes(tStruct({ c.at[0], like(*c.at[0], tInt(32, true)) }), true, Fit::AnySign); }, g1(&G::opFrexpStruct));
		gl("glsl opLdexp", 53, [](Gen& g, Call& c) { TP t = g.sv(K::Float, FW); c.at = { t, like(*t, tInt(32, true)) }; return true; }, [](const Call& c) { const T& a = *c.at[0]; const T& b = *c.at[1]; if (!F(a) || !I(b) || !shape(a, b)) return no(); return yes(c.at[0], b.width() == 32); }, g2(&G::opLdexp));
		auto pack = [](uint32_t n) { return Spec([n](const Call& c) { const T& a = *c.at[0]; if (!a.vec() || !F(a) || a.n != n || a.width() != 32) return no(); return yes(tInt(32, false), true, Fit::AnySign); }); };
		auto gpack = [](uint32_t n) { return GenF([n](Gen& g, Call& c) { (void)g; c.at = { tVec(tFloat(32), n) }; return true; }); };
		auto unpack = [](uint32_t n) { return Spec([n](const Call& c) { const T& a = *c.at[0]; if (!a.isInt() || a.w != 32) return no(); return yes(tVec(tFloat(32), n)); }); };
		auto gunpack = [](Gen& g, Call& c) { c.at = { tInt(32, g.s.chance(1, 4)) }; return true; };
		gl("glsl opPackSnorm4x8", 54, gpack(4), pack(4), g1(&G::opPackSnorm4x8)); gl("glsl opPackUnorm4x8", 55, gpack(4), pack(4), g1(&G::opPackUnorm4x8)); gl("glsl opPackSnorm2x16", 56, gpack(2), pack(2), g1(&G::opPackSnorm2x16)); gl("glsl opPackUnorm2x16", 57, gpack(2), pack(2), g1(&G::opPackUnorm2x16)); gl("glsl opPackHalf2x16", 58, gpack(2), pack(2), g1(&G::opPackHalf2x16));
		gl("glsl opPackDouble2x32", 59, [](Gen&, Call& c) { c.at = { tVec(tInt(32, false), 2) }; return true; }, [](const Call& c) { const T& a = *c.at[0]; if (!a.vec() || !I(a) || a.n != 2 || a.width() != 32) return no(); return yes(tFloat(64), !a.e().s); }, g1(&G::opPackDouble2x32));
		gl("glsl opUnpackSnorm2x16", 60, gunpack, unpack(2), g1(&G::opUnpackSnorm2x16)); gl("glsl opUnpackUnorm2x16", 61, gunpack, unpack(2), g1(&G::opUnpackUnorm2x16)); gl("glsl opUnpackHalf2x16", 62, gunpack, unpack(2), g1(&G::opUnpackHalf2x16)); gl("glsl opUnpackSnorm4x8", 63, gunpack, unpack(4), g1(&G::opUnpackSnorm4x8)); gl("glsl opUnpackUnorm4x8", 64, gunpack, unpack(4), g1(&G::opUnpackUnorm4x8));
		gl("glsl opUnpackDouble2x32", 65, [](Gen&, Call& c) { c.at = { tFloat(64) }; return true; }, [](const Call& c) { const T& a = *c.at[0]; if (!a.isFloat() || a.w != 64) return no(); return yes(tVec(tInt(32, false), 2), true, Fit::AnySign); }, g1(&G::opUnpackDouble2x32));
		gl("glsl opLength", 66, same(K::Float, FW, 1), [](const Call& c) { if (!F(*c.at[0])) return no(); return yes(c.at[0]->vec() ? c.at[0]->sub[0] : c.at[0]); }, g1(&G::opLength));
		gl("glsl opDistance", 67, same(K::Float, FW, 2), [](const Call& c) { if (!F(*c.at[0]) || !ag::same(c.at[0], c.at[1])) return no(); return yes(c.at[0]->vec() ? c.at[0]->sub[0] : c.at[0]); }, g2(&G::opDistance));
		gl("glsl opCross", 68, [](Gen& g, Call& c) { TP t = tVec(g.scalar(K::Float, {}), 3); c.at = { t, t }; return true; }, [](const Call& c) { const T& a = *c.at[0]; if (!a.vec() || !F(a) || a.n != 3 || !ag::same(c.at[0], c.at[1])) return no(); return yes(c.at[0]); }, g2(&G::opCross));
		gl("glsl opRefract", 72, [](Gen& g, Call& c) { TP t = g.sv(K::Float, FH); c.at = { t, t, t->vec() ? t->sub[0] : t }; return true; }, [](const Call& c) { const T& a = *c.at[0]; if (!F(a) || !ag::same(c.at[0], c.at[1]) || !c.at[2]->isFloat()) return no(); return yes(c.at[0], ag::same(c.at[2], a.vec() ? a.sub[0] : c.at[0])); }, g3(&G::opRefract));
		auto find32 = [](const Call& c) { if (!I(*c.at[0]) || c.at[0]->width() != 32) return no(); return yes(c.at[0], true, Fit::AnySign); };
		gl("glsl opFindILsb", 73, same(K::Int, I32, 1), find32, g1(&G::opFindILsb)); gl("glsl opFindSMsb", 74, same(K::Int, I32, 1), find32, g1(&G::opFindSMsb)); gl("glsl opFindUMsb", 75, same(K::Int, I32, 1), find32, g1(&G::opFindUMsb));
		return v;
	}
	const std::vector<OpDef>& opTable() { static const std::vector<OpDef> t = make(); return t; }
}
