// P07: types are declared once and described faithfully.  P08: the same for constants.
#include "ty.h"
#include "spvgentwo/Constant.h"
#include "spvgentwo/TypeAlias.h"
using namespace ag;
using pbt::Src; using pbt::Ctx;
namespace sg = spvgentwo;
using lu::MemWriter; using lu::MemReader; using lu::Log;

namespace
{
	struct Decoded { lu::Words w; spv_ref::Mod m; };
	void emit(sg::Module& m, Decoded& d, const char* what)
	{
		MemWriter wr; CHECK_SIG(m.finalizeAndWrite(wr), "write", std::string(what) + ": writing failed");
		d.w = wr.w; std::string err; CHECK_SIG(spv_ref::decode(d.w, d.m, err), "decode", std::string(what) + ": " + err);
		err = spv_ref::checkLayout(d.m); CHECK_SIG(err.empty(), "layout", std::string(what) + ": " + err);
	}
	// variants of a type that differ in one place
	TP tweak(Src& s, const TP& t)
	{
		auto c = std::make_shared<T>(*t);
		switch (t->k)
		{
		case K::Int: if (s.coin()) c->s = !c->s; else c->w = c->w == 32 ? 64 : 32; break;
		case K::Float: c->w = c->w == 32 ? 64 : 32; break;
		case K::Vec: if (s.coin()) c->n = c->n == 4 ? 2 : c->n + 1; else c->sub[0] = tweak(s, t->sub[0]); if (c->sub[0]->k == K::Void) return tBool(); break;
		case K::Mat: if (s.coin()) c->n = c->n == 4 ? 2 : c->n + 1; else return tMat(tVec(t->sub[0]->sub[0], t->sub[0]->n == 4 ? 2 : t->sub[0]->n + 1), t->n); break;
		case K::Arr: if (s.coin()) c->n = c->n + 1; else c->sub[0] = tweak(s, t->sub[0]); break;
		case K::RtArr: c->sub[0] = tweak(s, t->sub[0]); break;
		case K::Struct: case K::Func:
			if (c->sub.size() > 1 && s.chance(1, 3)) { auto x = c->sub.back(); c->sub.pop_back(); if (t->k == K::Struct && s.coin()) c->sub.back() = tStruct({ c->sub.back(), x }); }
			else if (s.coin()) c->sub.push_back(tFloat(32));
			else if (!c->sub.empty()) { auto& x = c->sub[s.below(uint32_t(c->sub.size()))]; x = tweak(s, x); }
			break;
		case K::Ptr: if (s.coin()) c->sc = c->sc == 7 ? 6 : 7; else c->sub[0] = tweak(s, t->sub[0]); break;
		case K::Image:
			switch (s.below(8)) { case 0: c->depth = (c->depth + 1) % 3; break; case 1: c->arrayed ^= 1; break; case 2: c->ms ^= 1; break; case 3: c->sampled = (c->sampled + 1) % 3; break; case 4: c->format = (c->format + 1) % 42; break; case 5: c->dim = (c->dim + 1) % 7; break; case 6: c->access = c->access < 0 ? 1 : -1; break; default: c->sub[0] = c->sub[0]->isFloat() ? tInt(32, true) : tFloat(32); }
			break;
		case K::SampImg: c->sub[0] = tweak(s, t->sub[0]); break;
		case K::Bool: return tInt(32, false);
		default: return tSampler();
		}
		return c;
	}
	void collect(const TP& t, std::set<std::string>& o) { o.insert(t->key()); for (auto& x : t->sub) collect(x, o); if (t->k == K::Arr) o.insert("u32"); }

	void p07(Src& s, Ctx& ctx)
	{
		sg::HeapAllocator alloc; Log log;
		sg::Module m(&alloc, &log);
		m.addCapability(sg::spv::Capability::Shader); m.setMemoryModel(sg::spv::AddressingModel::Logical, sg::spv::MemoryModel::GLSL450);
		TypeOpts o; o.opaque = true; o.pointers = true; o.functions = true;
		std::map<std::string, sg::Instruction*> model; std::map<sg::Instruction*, std::string> back; std::vector<TP> pool; std::set<std::string> want;
		const uint32_t n = s.range(1, 30); uint32_t repeats = 0, variants = 0;
		for (uint32_t i = 0; i < n; ++i)
		{
			TP t; uint32_t r = pool.empty() ? 0 : s.weighted({ 4, 3, 3, 2 });
			if (r == 0) t = genType(s, o, 3);
			else if (r == 1) { t = s.pick(pool); ++repeats; }
			else if (r == 2) { const TP& b = s.pick(pool); t = tweak(s, b); ++variants; }
			else { const TP& b = s.pick(pool); static const uint32_t sc[] = { 7, 6, 1, 3, 2, 12 }; uint32_t k = s.below(3); t = k == 0 ? tPtr(s.pick(sc), b) : k == 1 ? tArr(b, s.range(1, 4)) : tStruct({ b, s.pick(pool) }); }
			pool.push_back(t);
			const std::string key = t->key(); ctx.mix(key); ctx.note(key + " ");
			sg::Instruction* in = requestType(m, *t, s);
			CHECK_SIG(in != nullptr && !in->isErrorInstr(), "null", "no declaration for " + key);
			auto f = model.find(key);
			if (f != model.end()) CHECK_SIG(f->second == in, "twice", "second declaration for equal type " + key);
			auto b = back.find(in);
			if (b != back.end()) CHECK_SIG(b->second == key, "shared", "types " + b->second + " and " + key + " share one declaration");
			model[key] = in; back[in] = key; collect(t, want);
			const sg::Type* info = in->getType();
			CHECK_SIG(info && fromLib(*info)->key() == key, "info", "description of " + key + " is " + (info ? fromLib(*info)->key() : "missing"));
			CHECK_SIG(m.getTypeInstr(*info) == in, "lookup", "looking up " + key + " does not find its declaration");
			{
				sg::Type again = toLib(&alloc, *t, s);
				CHECK_SIG(again == *info && !(again != *info), "equal", "equal descriptions of " + key + " compare unequal");
				TP other = tweak(s, t); sg::Type diff = toLib(&alloc, *other, s);
				CHECK_SIG((diff == *info) == (other->key() == key), "unequal", "comparison of " + key + " and " + other->key() + " is wrong");
			}
			for (auto& kv : model) CHECK_SIG(kv.second->getType() && fromLib(*kv.second->getType())->key() == kv.first, "info-later", "description of " + kv.first + " changed");
		}
		ctx.label("requests", n); ctx.label("repeats", repeats); ctx.label("variants", variants); ctx.label("distinct types", model.size());
		ctx.nontrivial = repeats > 0 && model.size() >= 3;
		Decoded d; emit(m, d, "built");
		std::map<std::string, uint32_t> decl;
		for (auto& i : d.m.insts) if (isTypeOp(i.op))
		{
			const std::string k = decodeType(d.m, i.result)->key();
			CHECK_SIG(decl.emplace(k, i.result).second, "duplicate", "type " + k + " declared twice in the module\n" + spv_ref::dump(d.m));
		}
		std::set<std::string> have; for (auto& kv : decl) have.insert(kv.first);
		for (auto& k : want) CHECK_SIG(have.count(k), "missing", "type " + k + " is not declared as requested\n" + spv_ref::dump(d.m));
		for (auto& k : have) CHECK_SIG(want.count(k) || k == "u32", "extra", "type " + k + " was never requested\n" + spv_ref::dump(d.m));
		for (auto& kv : model) CHECK_SIG(decl[kv.first] == uint32_t(kv.second->getResultId()), "id", "declaration handed out for " + kv.first + " declares another type");
		// after reading the module back
		sg::Module r(&alloc, &log); MemReader rd(d.w);
		CHECK_SIG(r.readAndInit(rd, lu::grammar()), "read", "reading the module back failed: " + log.text);
		const size_t before = d.m.insts.size();
		for (auto& kv : decl)
		{
			sg::Instruction* in = nullptr;
			for (sg::Instruction& x : r.getTypesAndConstants()) if (x.isType()) { const sg::Type* ti = r.getTypeInfo(&x); if (ti && fromLib(*ti)->key() == kv.first) { CHECK_SIG(in == nullptr, "read-twice", "type " + kv.first + " described twice after reading"); in = &x; } }
			CHECK_SIG(in != nullptr, "read-info", "no description of " + kv.first + " after reading the module back");
		}
		for (auto& t : pool)
		{
			sg::Instruction* in = requestType(r, *t, s);
			CHECK_SIG(in && in->getType() && fromLib(*in->getType())->key() == t->key(), "reread-info", "after reading, requesting " + t->key() + " gives something else");
		}
		Decoded e; emit(r, e, "re-read");
		CHECK_SIG(e.m.insts.size() == before, "reread-dup", "requesting the types again after reading added declarations\n" + spv_ref::dump(e.m));
		std::string iso = spv_ref::isoDiff(d.m, e.m); CHECK_SIG(iso.empty(), "reread-diff", iso);
	}

	bool hasWide(const TP& t) { return t->key().find("64") != std::string::npos; }
	void p08(Src& s, Ctx& ctx)
	{
		sg::HeapAllocator alloc; Log log;
		sg::Module m(&alloc, &log);
		m.addCapability(sg::spv::Capability::Shader); m.setMemoryModel(sg::spv::AddressingModel::Logical, sg::spv::MemoryModel::GLSL450);
		TypeOpts o; std::map<std::string, sg::Instruction*> model; std::map<sg::Instruction*, CP> all; std::vector<CP> pool; std::vector<TP> types;
		const uint32_t n = s.range(1, 30); uint32_t repeats = 0, specs = 0, odd = 0;
		std::function<void(const CP&, std::set<std::string>&)> sub = [&](const CP& c, std::set<std::string>& w) { if (!c->spec) w.insert(c->key()); for (auto& x : c->comps) sub(x, w); };
		std::set<std::string> want; std::map<std::string, uint32_t> wantSpec;
		std::function<void(const CP&)> subSpec = [&](const CP& c) { if (c->spec) ++wantSpec[c->key()]; for (auto& x : c->comps) if (c->spec) subSpec(x); };
		std::function<CP(const CP&)> toSpec = [&](const CP& c) -> CP { if (c->k == CK::Null || c->k == CK::Sampler) return c; auto d = std::make_shared<C>(*c); d->spec = true; if (s.coin()) for (auto& x : d->comps) x = toSpec(x); return d; };
		for (uint32_t i = 0; i < n; ++i)
		{
			CP c; uint32_t r = pool.empty() ? 0 : s.weighted({ 4, 3, 3, 2, 2 });
			if (r == 0) { TP t = s.chance(1, 12) ? tSampler() : genType(s, o, 2); c = genConst(s, t); }
			else if (r == 1) { c = s.pick(pool); ++repeats; }
			else if (r == 2) { const CP& b = s.pick(pool); c = genConst(s, b->t); ++odd; } // another value of the same type
			else if (r == 3) // the same bits in another type
			{
				const CP& b = s.pick(pool);
				if (b->k == CK::Scalar && b->t->w >= 32) { static const uint32_t k[] = { 0, 1, 2 }; uint32_t x = s.pick(k); TP t = x == 0 ? tInt(b->t->w, true) : x == 1 ? tInt(b->t->w, false) : tFloat(b->t->w); c = cScalar(t, b->words[0] | (b->words.size() > 1 ? uint64_t(b->words[1]) << 32 : 0)); }
				else if (b->k == CK::Comp && !b->spec && b->t->k == K::Arr && b->t->n >= 2 && b->t->n <= 4 && b->t->sub[0]->scalar()) c = cComp(tVec(b->t->sub[0], b->t->n), b->comps);
				else c = cNull(b->t);
				++odd;
			}
			else { const CP& b = s.pick(pool); c = toSpec(b); }
			if (c->spec) ++specs;
			pool.push_back(c);
			const std::string key = c->key(); ctx.mix(key); ctx.note(key + " ");
			sg::Instruction* in = requestConst(m, *c, s);
			CHECK_SIG(in != nullptr && !in->isErrorInstr(), "null", "no declaration for " + key);
			if (c->spec) { CHECK_SIG(!all.count(in), "spec-merged", "specialization constant " + key + " shares a declaration"); }
			else
			{
				auto f = model.find(key);
				if (f != model.end()) CHECK_SIG(f->second == in, "twice", "second declaration for equal constant " + key);
				auto b = all.find(in);
				if (b != all.end()) CHECK_SIG(b->second->key() == key, "shared", "constants " + b->second->key() + " and " + key + " share one declaration");
				model[key] = in;
			}
			all[in] = c; sub(c, want); subSpec(c);
			const sg::Constant* info = in->getConstant();
			CHECK_SIG(info && fromLibConst(*info)->key() == key, "info", "description of " + key + " is " + (info ? fromLibConst(*info)->key() : "missing"));
			CHECK_SIG(in->getType() && fromLib(*in->getType())->key() == c->t->key(), "type", "type of constant " + key + " is wrong");
			if (c->k == CK::Scalar && c->t->key() == "u32") { const unsigned* p = info->getDataAs<unsigned>(); CHECK_SIG(p && *p == c->words[0], "data", "getDataAs of " + key); CHECK_SIG(info->getDataAs<float>() == nullptr, "data-type", "getDataAs ignores the type of " + key); }
		}
		ctx.label("requests", n); ctx.label("repeats", repeats); ctx.label("spec constants", specs); ctx.label("same type or same bits", odd);
		ctx.nontrivial = model.size() >= 2 && (repeats || odd || specs);
		Decoded d; emit(m, d, "built");
		std::map<std::string, uint32_t> decl; std::map<std::string, uint32_t> spec;
		for (auto& i : d.m.insts) if (isConstOp(i.op))
		{
			CP c = decodeConst(d.m, i.result);
			if (c->spec) { ++spec[c->key()]; continue; }
			CHECK_SIG(decl.emplace(c->key(), i.result).second, "duplicate", "constant " + c->key() + " declared twice in the module\n" + spv_ref::dump(d.m));
		}
		for (auto& k : want) CHECK_SIG(decl.count(k), "missing", "constant " + k + " is not declared as requested\n" + spv_ref::dump(d.m));
		for (auto& kv : decl) CHECK_SIG(want.count(kv.first) || kv.first.find("c:u32") == 0, "extra", "constant " + kv.first + " was never requested\n" + spv_ref::dump(d.m)); // array lengths are u32
		CHECK_SIG(spec == wantSpec, "spec-count", "specialization constants are not declared once per request\n" + spv_ref::dump(d.m));
		for (auto& kv : all) { CP c = decodeConst(d.m, uint32_t(kv.first->getResultId())); CHECK_SIG(c->key() == kv.second->key(), "value", "declaration handed out for " + kv.second->key() + " encodes " + c->key()); }
		// after reading back
		sg::Module r(&alloc, &log); MemReader rd(d.w);
		CHECK_SIG(r.readAndInit(rd, lu::grammar()), "read", "reading the module back failed: " + log.text);
		std::map<std::string, uint32_t> got;
		for (sg::Instruction& x : r.getTypesAndConstants()) if (x.isSpecOrConstant())
		{
			const sg::Constant* info = r.getConstantInfo(&x);
			CHECK_SIG(info != nullptr, "read-info", "a constant has no description after reading the module back");
			++got[fromLibConst(*info)->key()];
		}
		std::map<std::string, uint32_t> exp = spec; for (auto& kv : decl) ++exp[kv.first];
		for (auto& kv : exp) CHECK_SIG(got[kv.first] == kv.second, "read-value", "after reading, " + kv.first + " is described " + std::to_string(got[kv.first]) + " times instead of " + std::to_string(kv.second));
		for (auto& c : pool) if (!c->spec)
		{
			sg::Instruction* in = requestConst(r, *c, s);
			CHECK_SIG(in && in->getConstant() && fromLibConst(*in->getConstant())->key() == c->key(), "reread-info", "after reading, requesting " + c->key() + " gives something else");
		}
		Decoded e; emit(r, e, "re-read");
		std::string iso = spv_ref::isoDiff(d.m, e.m); CHECK_SIG(iso.empty(), "reread-diff", "requesting the constants again after reading changed the module: " + iso + "\n" + spv_ref::dump(e.m));
	}

	// ------------------------------------------------------------------------------------------ P29: queries of a description
	uint32_t opOf(const T& t)
	{
		switch (t.k)
		{
		case K::Void: return 19; case K::Bool: return 20; case K::Int: return 21; case K::Float: return 22; case K::Vec: return 23; case K::Mat: return 24; case K::Image: return 25; case K::Sampler: return 26; case K::SampImg: return 27;
		case K::Arr: return 28; case K::RtArr: return 29; case K::Struct: return 30; case K::Ptr: return 32; case K::Func: return 33; case K::Event: return 34; case K::DeviceEvent: return 35; case K::ReserveId: return 36; case K::Queue: return 37;
		case K::Pipe: return 38; case K::PipeStorage: return 322; case K::NamedBarrier: return 327; case K::RayQuery: return 4472; case K::AccelStruct: return 5341; default: return 0;
		}
	}
	const T& baseOf(const T& t) { return t.sub.empty() ? t : baseOf(*t.sub[0]); }
	bool contains(const T& t, const std::function<bool(const T&)>& f) { if (f(t)) return true; for (auto& x : t.sub) if (contains(*x, f)) return true; return false; }
	TP elementOf(const TP& t, uint32_t i)
	{
		switch (t->k)
		{
		case K::Struct: return i < t->sub.size() ? t->sub[i] : nullptr;
		case K::Vec: case K::Mat: return i < t->n ? t->sub[0] : nullptr;
		case K::Arr: return t->n == 0 || i < t->n ? t->sub[0] : nullptr;
		case K::RtArr: return t->sub[0];
		case K::Ptr: return i == 0 ? t->sub[0] : nullptr;
		default: return nullptr;
		}
	}
	std::string scalarName(const T& t) { if (t.isBool()) return "bool"; if (t.isInt()) return (t.s ? "int" : "uint") + std::to_string(t.w); return t.w == 16 ? "half" : t.w == 32 ? "float" : "double"; }
	TP anyType(Src& s)
	{
		TypeOpts o; o.opaque = true; o.pointers = true; o.functions = true;
		switch (s.weighted({ 3, 3, 2, 4 })) { case 0: return genScalar(s, true, true); case 1: return tVec(genScalar(s, true, true), s.range(2, 4)); case 2: return tMat(tVec(s.chance(1, 3) ? genScalar(s, true, false) : tFloat(32u << s.below(2)), s.range(2, 4)), s.range(2, 4)); default: return genType(s, o, 3); }
	}
	// formats with channels of one width, as the specification names them
	struct Fmt { sg::spv::ImageFormat f; uint32_t n, w; char kind; }; // f float, n normalized, i signed, u unsigned
	const std::vector<Fmt>& formats()
	{
		using F = sg::spv::ImageFormat;
		static const std::vector<Fmt> v = { { F::Rgba32f, 4, 32, 'f' }, { F::Rgba16f, 4, 16, 'f' }, { F::R32f, 1, 32, 'f' }, { F::Rg32f, 2, 32, 'f' }, { F::Rg16f, 2, 16, 'f' }, { F::R16f, 1, 16, 'f' }, { F::Rgba8, 4, 8, 'n' }, { F::Rgba8Snorm, 4, 8, 'n' }, { F::Rgba16, 4, 16, 'n' }, { F::Rg16, 2, 16, 'n' }, { F::Rg8, 2, 8, 'n' }, { F::R16, 1, 16, 'n' }, { F::R8, 1, 8, 'n' }, { F::Rgba16Snorm, 4, 16, 'n' }, { F::Rg16Snorm, 2, 16, 'n' }, { F::Rg8Snorm, 2, 8, 'n' }, { F::R16Snorm, 1, 16, 'n' }, { F::R8Snorm, 1, 8, 'n' },
			{ F::Rgba32i, 4, 32, 'i' }, { F::Rgba16i, 4, 16, 'i' }, { F::Rgba8i, 4, 8, 'i' }, { F::R32i, 1, 32, 'i' }, { F::Rg32i, 2, 32, 'i' }, { F::Rg16i, 2, 16, 'i' }, { F::Rg8i, 2, 8, 'i' }, { F::R16i, 1, 16, 'i' }, { F::R8i, 1, 8, 'i' }, { F::R64i, 1, 64, 'i' },
			{ F::Rgba32ui, 4, 32, 'u' }, { F::Rgba16ui, 4, 16, 'u' }, { F::Rgba8ui, 4, 8, 'u' }, { F::R32ui, 1, 32, 'u' }, { F::Rg32ui, 2, 32, 'u' }, { F::Rg16ui, 2, 16, 'u' }, { F::Rg8ui, 2, 8, 'u' }, { F::R16ui, 1, 16, 'u' }, { F::R8ui, 1, 8, 'u' }, { F::R64ui, 1, 64, 'u' }, { F::R11fG11fB10f, 0, 0, 'x' }, { F::Rgb10A2, 0, 0, 'x' }, { F::Rgb10a2ui, 0, 0, 'x' }, { F::Unknown, 0, 0, 'x' } };
		return v;
	}
	template <class X> void cppType(sg::IAllocator* a, const TP& want, const char* name) { sg::Type t(a); t.FloatM(); t.make<X>(); auto k = fromLib(t)->key(); CHECK_SIG(k == want->key(), "C++ type", std::string("type of C++ type ") + name + " is " + k + " instead of " + want->key()); }
	template <class X> void cppScalar(Src& s, Ctx& ctx, sg::Module& m, TP want, const char* name)
	{
		cppType<X>(m.getAllocator(), want, name); ctx.label("C++ type"); ctx.note(std::string("constant of C++ type ") + name + "\n"); ctx.mix(name);
		const uint64_t bits = s.chance(1, 4) ? (s.coin() ? ~0ull : uint64_t(s.range(0, 3)) - 1) : s.word64(); X v; const uint64_t b2 = bits; memcpy(&v, &b2, sizeof(X)); ctx.mix(bits); ctx.nontrivial = true;
		sg::Instruction* i = m.constant(v); CP c = cScalar(want, bits);
		CHECK_SIG(i && i->getConstant() && fromLibConst(*i->getConstant())->key() == c->key(), "C++ constant", std::string("constant of C++ type ") + name + " is " + (i && i->getConstant() ? fromLibConst(*i->getConstant())->key() : "missing") + " instead of " + c->key());
		if (sizeof(X) >= 4) { auto* d = i->getConstant()->getDataAs<X>(); CHECK_SIG(d && !memcmp(d, &v, sizeof(X)), "C++ constant", std::string("value of C++ type ") + name); }
	}
	// composites built from C arrays and from single values
	template <class X> void cppComposite(Src& s, Ctx& ctx, sg::Module& m, TP e, const char* name)
	{
		X v[3][2]; CP c[3][2]; for (int i = 0; i < 3; ++i) for (int j = 0; j < 2; ++j) { const uint64_t b = s.chance(1, 4) ? ~0ull : s.word64(); memcpy(&v[i][j], &b, sizeof(X)); c[i][j] = cScalar(e, b); ctx.mix(b); }
		ctx.label("C++ composite"); ctx.note(std::string("composites of ") + name + "\n"); ctx.nontrivial = true; ctx.mix(name); const bool spec = s.coin();
		auto is = [&](sg::Instruction* i, CP want, const char* q) { CHECK_SIG(i && i->getConstant() && fromLibConst(*i->getConstant())->key() == want->key(), "C++ composite", std::string(q) + " of " + name + " is " + (i && i->getConstant() ? fromLibConst(*i->getConstant())->key() : "missing") + " instead of " + want->key()); };
		auto row = [&](int i) { return cComp(tVec(e, 2), { c[i][0], c[i][1] }); }; const X flat[4] = { v[0][0], v[0][1], v[1][0], v[1][1] }; const std::vector<CP> fc = { c[0][0], c[0][1], c[1][0], c[1][1] };
		switch (s.below(6))
		{
		case 0: is(m.constant(sg::make_vector(flat), spec), cComp(tVec(e, 4), fc, spec), "a vector of an array"); break;
		case 1: is(m.constant(sg::make_vector(X(flat[0]), X(flat[1]), X(flat[2])), spec), cComp(tVec(e, 3), { fc[0], fc[1], fc[2] }, spec), "a vector of values"); break;
		case 2: is(m.constant(sg::make_array(flat), spec), cComp(tArr(e, 4), fc, spec), "an array of an array"); break;
		case 3: is(m.constant(sg::make_array(X(flat[3]), X(flat[2]), X(flat[1]), X(flat[0])), spec), cComp(tArr(e, 4), { fc[3], fc[2], fc[1], fc[0] }, spec), "an array of values"); break;
		case 4: is(m.constant(sg::make_matrix(v), spec), cComp(tMat(tVec(e, 2), 3), { row(0), row(1), row(2) }, spec), "a matrix of an array"); break;
		default: is(m.constant(sg::make_matrix(sg::make_vector(v[2]), sg::make_vector(v[1]), sg::make_vector(v[0])), spec), cComp(tMat(tVec(e, 2), 3), { row(2), row(1), row(0) }, spec), "a matrix of columns"); break;
		}
	}
	void p29(Src& s, Ctx& ctx)
	{
		using sg::Sign; sg::HeapAllocator alloc; sg::IAllocator* a = &alloc;
		switch (s.weighted({ 30, 2, 2, 1, 2 }))
		{
		case 1: { auto& f = s.pick(formats()); const bool norm = s.coin(); ctx.mix(uint64_t(f.f) << 1 | norm); ctx.label("image format"); ctx.nontrivial = f.n > 0; sg::Type t(a); if (s.coin()) t.FloatM(64); t.fromImageFormat(f.f, norm); auto k = fromLib(t); ctx.note("format " + std::to_string(uint32_t(f.f)) + " gives " + k->key());
			if (!f.n) { CHECK_SIG(k->k == K::Void, "image format", "packed format " + std::to_string(uint32_t(f.f)) + " gives " + k->key()); return; }
			const T& e = k->e(); bool ok = k->comps() == f.n && e.w == f.w; if (f.kind == 'f') ok &= e.isFloat(); else if (f.kind == 'n') ok &= norm ? e.isFloat() : e.isInt(); else ok &= e.isInt() && e.s == (f.kind == 'i');
			CHECK_SIG(ok, "image format", "format " + std::to_string(uint32_t(f.f)) + " gives " + k->key()); return; }
		case 2: { Log log; sg::Module m(a, &log); m.addCapability(sg::spv::Capability::Shader);
			switch (s.below(12)) { case 0: cppScalar<char>(s, ctx, m, tInt(8, true), "char"); break; case 1: cppScalar<unsigned char>(s, ctx, m, tInt(8, false), "unsigned char"); break; case 2: cppScalar<short>(s, ctx, m, tInt(16, true), "short"); break; case 3: cppScalar<unsigned short>(s, ctx, m, tInt(16, false), "unsigned short"); break; case 4: cppScalar<int>(s, ctx, m, tInt(32, true), "int"); break; case 5: cppScalar<unsigned>(s, ctx, m, tInt(32, false), "unsigned"); break;
			case 6: case 7: case 8: cppScalar<long long>(s, ctx, m, tInt(64, true), "long long"); break; case 9: cppScalar<unsigned long long>(s, ctx, m, tInt(64, false), "unsigned long long"); break; case 10: cppScalar<float>(s, ctx, m, tFloat(32), "float"); break; default: cppScalar<double>(s, ctx, m, tFloat(64), "double"); }
			return; }
		case 3: { ctx.label("C++ type"); const uint32_t k = s.below(20); ctx.mix(k + 1000); ctx.note("C++ type " + std::to_string(k)); ctx.nontrivial = true;
			switch (k) { case 0: cppType<void>(a, tVoid(), "void"); break; case 1: cppType<bool>(a, tBool(), "bool"); break; case 2: cppType<sg::vector_t<short, 3>>(a, tVec(tInt(16, true), 3), "vector of short"); break; case 3: cppType<sg::matrix_t<double, 2, 3>>(a, tMat(tVec(tFloat(64), 3), 2), "matrix"); break; case 4: cppType<sg::array_t<sg::vector_t<unsigned, 2>, 7>>(a, tArr(tVec(tInt(32, false), 2), 7), "array"); break; case 5: cppType<sg::array_t<long long, 2>>(a, tArr(tInt(64, true), 2), "array of long long"); break;
			case 6: cppType<sg::event_t>(a, tOpaque(K::Event), "event"); break; case 7: cppType<sg::device_event_t>(a, tOpaque(K::DeviceEvent), "device event"); break; case 8: cppType<sg::reserve_id_t>(a, tOpaque(K::ReserveId), "reserve id"); break; case 9: cppType<sg::queue_t>(a, tOpaque(K::Queue), "queue"); break; case 10: cppType<sg::pipe_storage_t>(a, tOpaque(K::PipeStorage), "pipe storage"); break; case 11: cppType<sg::named_barrier_t>(a, tOpaque(K::NamedBarrier), "named barrier"); break; case 12: cppType<sg::ray_query_khr_t>(a, tOpaque(K::RayQuery), "ray query"); break; case 13: cppType<sg::acceleration_structure_khr_t>(a, tOpaque(K::AccelStruct), "acceleration structure"); break; case 14: cppType<sg::sampler_t>(a, tSampler(), "sampler"); break; case 15: cppType<float>(a, tFloat(32), "float"); break;
			case 16: { using namespace sg::glsl; auto f = tFloat(32), d = tFloat(64), i = tInt(32, true), u = tInt(32, false), b = tBool(); cppType<vec2>(a, tVec(f, 2), "vec2"); cppType<vec3>(a, tVec(f, 3), "vec3"); cppType<vec4>(a, tVec(f, 4), "vec4"); cppType<dvec2>(a, tVec(d, 2), "dvec2"); cppType<dvec3>(a, tVec(d, 3), "dvec3"); cppType<dvec4>(a, tVec(d, 4), "dvec4"); cppType<ivec2>(a, tVec(i, 2), "ivec2"); cppType<ivec3>(a, tVec(i, 3), "ivec3"); cppType<ivec4>(a, tVec(i, 4), "ivec4"); cppType<uvec2>(a, tVec(u, 2), "uvec2"); cppType<uvec3>(a, tVec(u, 3), "uvec3"); cppType<uvec4>(a, tVec(u, 4), "uvec4"); cppType<bvec2>(a, tVec(b, 2), "bvec2"); cppType<bvec3>(a, tVec(b, 3), "bvec3"); cppType<bvec4>(a, tVec(b, 4), "bvec4"); cppType<mat2>(a, tMat(tVec(f, 2), 2), "mat2"); cppType<mat3>(a, tMat(tVec(f, 3), 3), "mat3"); cppType<mat4>(a, tMat(tVec(f, 4), 4), "mat4"); break; }
			case 17: { using namespace sg::hlsl; auto f = tFloat(32), d = tFloat(64), i = tInt(32, true), u = tInt(32, false); cppType<float2>(a, tVec(f, 2), "float2"); cppType<float3>(a, tVec(f, 3), "float3"); cppType<float4>(a, tVec(f, 4), "float4"); cppType<double2>(a, tVec(d, 2), "double2"); cppType<double3>(a, tVec(d, 3), "double3"); cppType<double4>(a, tVec(d, 4), "double4"); cppType<int2>(a, tVec(i, 2), "int2"); cppType<int3>(a, tVec(i, 3), "int3"); cppType<int4>(a, tVec(i, 4), "int4"); cppType<uint2>(a, tVec(u, 2), "uint2"); cppType<uint3>(a, tVec(u, 3), "uint3"); cppType<uint4>(a, tVec(u, 4), "uint4"); cppType<float2x2>(a, tMat(tVec(f, 2), 2), "float2x2"); cppType<float3x3>(a, tMat(tVec(f, 3), 3), "float3x3"); cppType<float4x4>(a, tMat(tVec(f, 4), 4), "float4x4"); break; }
			case 18: cppType<sg::matrix_t<float, 4, 2>>(a, tMat(tVec(tFloat(32), 2), 4), "matrix of four columns"); cppType<sg::array_t<sg::array_t<sg::glsl::mat3, 3>, 5>>(a, tArr(tArr(tMat(tVec(tFloat(32), 3), 3), 3), 5), "array of arrays"); cppType<const float>(a, tFloat(32), "const float"); { const auto sc = sg::spv::StorageClass(s.below(13)); sg::Type q(a); q.FloatM(); auto ptr = [&](const std::string& k) { const std::string got = fromLib(q)->key(), want = tPtr(uint32_t(sc), tFloat(32))->key(); CHECK_SIG(got == want, "C++ type", "type of C++ type " + k + " is " + got + " instead of " + want); q.reset(); }; q.make<float*>(sc); ptr("float*"); q.make<const float*>(sc); ptr("const float*"); q.make<float* const>(sc); ptr("float* const"); } break;
			default: cppType<sg::const_vector_t<short, 4>>(a, tVec(tInt(16, true), 4), "constant vector"); cppType<sg::const_matrix_t<double, 3, 2>>(a, tMat(tVec(tFloat(64), 2), 3), "constant matrix"); cppType<sg::const_array_t<unsigned, 9>>(a, tArr(tInt(32, false), 9), "constant array"); cppType<sg::const_null_t<sg::glsl::vec3>>(a, tVec(tFloat(32), 3), "null constant"); break; }
			return; }
		case 4: { Log log; sg::Module m(a, &log); m.addCapability(sg::spv::Capability::Shader);
			switch (s.below(8)) { case 0: cppComposite<short>(s, ctx, m, tInt(16, true), "short"); break; case 1: cppComposite<unsigned char>(s, ctx, m, tInt(8, false), "unsigned char"); break; case 2: cppComposite<long long>(s, ctx, m, tInt(64, true), "long long"); break; case 3: cppComposite<double>(s, ctx, m, tFloat(64), "double"); break; case 4: cppComposite<int>(s, ctx, m, tInt(32, true), "int"); break; case 5: cppComposite<unsigned>(s, ctx, m, tInt(32, false), "unsigned"); break; default: cppComposite<float>(s, ctx, m, tFloat(32), "float"); }
			return; }
		default: break;
		}
		const TP t = anyType(s); TP u; switch (s.below(5)) { case 0: u = anyType(s); break; case 1: u = t; break; case 2: { u = t; while (!u->sub.empty() && s.coin()) u = s.pick(u->sub); break; } case 3: u = t->comps() && s.coin() ? like(*t, genScalar(s, true, true)) : t->vec() ? tVec(t->sub[0], s.range(2, 4)) : tweak(s, t); break; default: u = tweak(s, t); }
		const sg::Type X = toLib(a, *t, s), Y = toLib(a, *u, s); const std::string what = t->key() + " and " + u->key(); ctx.mix(what); ctx.note(what + "\n"); ctx.label("kind " + std::to_string(opOf(*t))); ctx.nontrivial = !t->sub.empty() || !u->sub.empty() || t->key() != u->key();
		auto eq = [&](auto got, auto want, const char* q) { CHECK_SIG(uint64_t(got) == uint64_t(want), std::string("query ") + q, std::string(q) + " answers " + std::to_string(uint64_t(got)) + " for " + what); };
		auto key = [&](const sg::Type& x, const std::string& k, const char* q) { CHECK_SIG(fromLib(x)->key() == k, std::string("result of ") + q, std::string(q) + " of " + what + " gives " + fromLib(x)->key()); };
		const T& b = baseOf(*t); const T& c = baseOf(*u); const T& e = t->e(); using Op = sg::spv::Op;
		static const uint32_t ops[] = { 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 32, 33, 19, 37, 38 }; const uint32_t op = s.coin() ? opOf(b) : s.coin() ? opOf(*t) : s.pick(ops);
		static const uint32_t wds[] = { 0, 8, 16, 32, 64 }; const uint32_t w = s.coin() ? b.w : s.pick(wds), n = s.coin() ? t->n : s.below(5), row = s.coin() && t->mat() ? t->sub[0]->n : s.below(5);
		const Sign sg_ = b.isInt() && op == 21 ? (s.coin() ? (b.s ? Sign::Signed : Sign::Unsigned) : s.coin() ? Sign::Any : Sign::Signed) : Sign::Any;
		auto width = [&](const T& x) { return w == 0 || x.w == w; }; auto sign = [&](const T& x) { return sg_ == Sign::Any || (x.isInt() && x.s == (sg_ == Sign::Signed)); }; auto kindOp = [&](const T& x) { return opOf(x) == op; };
		ctx.note("op " + std::to_string(op) + " width " + std::to_string(w) + " count " + std::to_string(n) + " rows " + std::to_string(row) + " sign " + std::to_string(int(sg_)) + "\n");
		// what it is
		eq(X == Y, t->key() == u->key(), "operator=="); eq(X != Y, t->key() != u->key(), "operator!="); eq(X == Op(op), opOf(*t) == op, "operator== of an operation"); eq(X != Op(op), opOf(*t) != op, "operator!= of an operation"); eq(X.getType(), opOf(*t), "getType");
		if (t->key() == u->key()) { sg::FNV1aHasher h1, h2; sg::Hasher<sg::Type>()(X, h1); sg::Hasher<sg::Type>()(Y, h2); eq(sg::Hash64(h1), sg::Hash64(h2), "hash"); }
		eq(X.isVoid(), t->k == K::Void, "isVoid"); eq(X.isBool(), t->isBool(), "isBool"); eq(X.isPointer(), t->k == K::Ptr, "isPointer"); { const uint32_t sc = s.coin() ? t->sc : s.below(13); eq(X.isPointer(sg::spv::StorageClass(sc)), t->k == K::Ptr && t->sc == sc, "isPointer of a storage class"); } eq(X.isForwardPointer(), false, "isForwardPointer");
		eq(X.isStruct(), t->k == K::Struct, "isStruct"); eq(X.isArray(), t->k == K::Arr, "isArray"); eq(X.isRuntimeArray(), t->k == K::RtArr, "isRuntimeArray"); eq(X.isImage(), t->k == K::Image, "isImage"); eq(X.isSampler(), t->k == K::Sampler, "isSampler"); eq(X.isSampledImage(), t->k == K::SampImg, "isSampledImage"); eq(X.isVector(), t->vec(), "isVector"); eq(X.isMatrix(), t->mat(), "isMatrix");
		eq(X.isFunction(), t->k == K::Func, "isFunction"); eq(X.isEvent(), t->k == K::Event, "isEvent"); eq(X.isDeviceEvent(), t->k == K::DeviceEvent, "isDeviceEvent"); eq(X.isReservedId(), t->k == K::ReserveId, "isReservedId"); eq(X.isPipe(), t->k == K::Pipe, "isPipe"); eq(X.isPipeStorage(), t->k == K::PipeStorage, "isPipeStorage"); eq(X.isQueue(), t->k == K::Queue, "isQueue"); eq(X.isRayQueryKHR(), t->k == K::RayQuery, "isRayQueryKHR"); eq(X.isAccelerationStructure(), t->k == K::AccelStruct, "isAccelerationStructure"); eq(X.isOpaque(), false, "isOpaque");
		eq(X.isInt(w, sg_), t->isInt() && width(*t) && sign(*t), "isInt"); eq(X.isUInt(w), t->isInt() && !t->s && width(*t), "isUInt"); eq(X.isSInt(w), t->isInt() && t->s && width(*t), "isSInt"); eq(X.isFloat(w), t->isFloat() && width(*t), "isFloat");
		{ auto is = [&](K k, uint32_t ww, int sn) { return t->k == k && t->w == ww && (sn < 0 || t->s == bool(sn)); };
			eq(X.isI8(), is(K::Int, 8, -1), "isI8"); eq(X.isU8(), is(K::Int, 8, 0), "isU8"); eq(X.isS8(), is(K::Int, 8, 1), "isS8"); eq(X.isI16(), is(K::Int, 16, -1), "isI16"); eq(X.isU16(), is(K::Int, 16, 0), "isU16"); eq(X.isS16(), is(K::Int, 16, 1), "isS16"); eq(X.isI32(), is(K::Int, 32, -1), "isI32"); eq(X.isU32(), is(K::Int, 32, 0), "isU32"); eq(X.isS32(), is(K::Int, 32, 1), "isS32"); eq(X.isI64(), is(K::Int, 64, -1), "isI64"); eq(X.isU64(), is(K::Int, 64, 0), "isU64"); eq(X.isS64(), is(K::Int, 64, 1), "isS64"); eq(X.isF16(), is(K::Float, 16, -1), "isF16"); eq(X.isF32(), is(K::Float, 32, -1), "isF32"); eq(X.isF64(), is(K::Float, 64, -1), "isF64"); }
		const bool num = t->isInt() || t->isFloat(); eq(X.isNumerial(), num, "isNumerial"); eq(X.isScalar(), t->scalar(), "isScalar");
		if (t->k != K::RtArr) { eq(X.isAggregate(), t->k == K::Struct || t->k == K::Arr, "isAggregate"); eq(X.isComposite(), t->k == K::Struct || t->k == K::Arr || t->mat() || t->vec(), "isComposite"); }
		// the innermost type
		key(X.getBaseType(), b.key(), "getBaseType"); eq(X.getBaseTypeOp(), opOf(b), "getBaseTypeOp"); eq(X.isBaseTypeOf(Op(op)), opOf(b) == op, "isBaseTypeOf"); eq(X.hasSameBase(Y), b.key() == c.key(), "hasSameBase"); eq(X.hasSameBase(Y, true), opOf(b) == opOf(c), "hasSameBase of operations");
		eq(X.isSigned(), b.isInt() && b.s, "isSigned"); eq(X.isUnsigned(), b.isInt() && !b.s, "isUnsigned"); if (b.isInt()) { eq(X.hasSign(Sign::Signed), b.s, "hasSign"); eq(X.hasSign(Sign::Unsigned), !b.s, "hasSign"); } eq(X.hasSign(Sign::Any), true, "hasSign");
		eq(X.containsType(Y), contains(*t, [&](const T& x) { return x.key() == u->key(); }), "containsType"); eq(X.containsType(Op(op)), contains(*t, kindOp), "containsType of an operation");
		// vectors and matrices
		const bool len = t->vec() && (n == 0 || t->n == n), vb = t->vec() && (e.isInt() || sg_ == Sign::Any);
		eq(X.isVectorOf(Op(op), n, w, sg_), len && kindOp(e) && width(e) && sign(e), "isVectorOf"); if (!t->vec() || vb) eq(X.isVectorOfLength(n, w, sg_), len && width(e) && sign(e), "isVectorOfLength"); eq(X.isVectorOfInt(n, w, sg_), len && e.isInt() && width(e) && sign(e), "isVectorOfInt"); eq(X.isVectorOfSInt(n, w), len && e.isInt() && e.s && width(e), "isVectorOfSInt"); eq(X.isVectorOfUInt(n, w), len && e.isInt() && !e.s && width(e), "isVectorOfUInt"); eq(X.isVectorOfFloat(n, w), len && e.isFloat() && width(e), "isVectorOfFloat"); eq(X.isVectorOfBool(n), len && e.isBool(), "isVectorOfBool");
		if (op == 20 || op == 21 || op == 22) eq(X.isScalarOrVectorOf(Op(op), n, w, sg_), (kindOp(*t) || (len && kindOp(e))) && width(e) && sign(e), "isScalarOrVectorOf");
		if (!t->comps() || e.isInt() || sg_ == Sign::Any) eq(X.isNumericalScalarOrVector(n, w, sg_), (num || (len && !e.isBool())) && width(e) && sign(e), "isNumericalScalarOrVector");
		const bool sameLen = t->vec() && u->vec() && t->n == u->n; eq(X.hasSameVectorLength(Y), sameLen, "hasSameVectorLength"); eq(X.hasSameVectorLength(Y, Op(op)), sameLen && kindOp(e) && kindOp(u->e()), "hasSameVectorLength of an operation");
		const bool shape = sameLen || (t->scalar() && u->scalar()); const bool sw = s.coin(); eq(X.isScalarOrVectorOfSameLength(Y, sw), shape && (!sw || e.w == u->e().w), "isScalarOrVectorOfSameLength"); eq(X.isScalarOrVectorOfSameLength(Op(op), Y, sw), shape && kindOp(e) && kindOp(u->e()) && (!sw || e.w == u->e().w), "isScalarOrVectorOfSameLength of an operation");
		auto numeric = [](const T& x) { return x.isInt() || x.isFloat(); }; eq(X.hasSameComponentWidth(Y), numeric(b) && numeric(c) && b.w == c.w, "hasSameComponentWidth"); eq(X.getScalarOrVectorLength(), t->comps(), "getScalarOrVectorLength");
		const bool dims = t->mat() && (n == 0 || t->n == n) && (row == 0 || t->sub[0]->n == row); eq(X.isMatrixOf(Op(op), n, row, w, sg_), dims && kindOp(b) && width(b) && sign(b), "isMatrixOf"); eq(X.isMatrixOfFloat(n, row, w), dims && b.isFloat() && width(b), "isMatrixOfFloat"); eq(X.isMatrixOfInt(n, row, w, sg_), dims && b.isInt() && width(b) && sign(b), "isMatrixOfInt");
		eq(X.isSqareMatrix(), t->mat() && t->n == t->sub[0]->n, "isSqareMatrix"); eq(X.isSqareMatrixOf(Op(op)), t->mat() && t->n == t->sub[0]->n && kindOp(b), "isSqareMatrixOf"); eq(X.getMatrixRowCount(), t->mat() ? t->sub[0]->n : 0, "getMatrixRowCount");
		// parts
		{ auto at = [&](uint32_t i) { auto it = X.getElementType(i); TP m = elementOf(t, i); eq(it != nullptr, m != nullptr, "getElementType"); if (m && it != nullptr) key(*it, m->key(), "getElementType"); }; at(0); at(s.below(6)); if (t->n) { at(t->n - 1); at(t->n); at(t->n + 1); } if (t->k == K::Struct) { at(uint32_t(t->sub.size()) - 1); at(uint32_t(t->sub.size())); at(uint32_t(t->sub.size()) + 3); } }
		{ TP m = t; sg::List<unsigned> l(a); std::vector<uint32_t> idx; const uint32_t depth = s.range(1, 4); for (uint32_t i = 0; i < depth; ++i) { uint32_t x = s.below(s.coin() ? 2 : 6); l.emplace_back(x); idx.push_back(x); if (m) m = elementOf(m, x); }
			auto it = X.getSubType(l); eq(it != nullptr, m != nullptr, "getSubType of a list"); if (m && it != nullptr) key(*it, m->key(), "getSubType of a list");
			auto jt = depth == 1 ? X.getSubType(idx[0]) : depth == 2 ? X.getSubType(idx[0], idx[1]) : depth == 3 ? X.getSubType(idx[0], idx[1], idx[2]) : X.getSubType(idx[0], idx[1], idx[2], idx[3]); eq(jt != nullptr, m != nullptr, "getSubType"); if (m && jt != nullptr) key(*jt, m->key(), "getSubType"); if (m) ctx.label("sub type found"); }
		// built from it
		const std::string k = t->key(); const uint32_t cnt = s.range(2, 4), sc = s.below(13); key(X.New(), tVoid()->key(), "New"); key(X.wrapPointer(sg::spv::StorageClass(sc)), tPtr(sc, t)->key(), "wrapPointer"); key(X.wrapVector(cnt), tVec(t, cnt)->key(), "wrapVector"); key(X.wrapMatrix(cnt), tMat(t, cnt)->key(), "wrapMatrix"); key(X.wrapArray(cnt), tArr(t, cnt)->key(), "wrapArray"); key(X.wrapStruct(), tStruct({ t })->key(), "wrapStruct"); key(X.wrap(Op::OpTypeStruct), tStruct({ t })->key(), "wrap"); key(X.wrap(Op::OpTypeRuntimeArray), tRt(t)->key(), "wrap");
		{ sg::Type z(X); sg::Type y = z.moveWrap(Op::OpTypeStruct); key(y, tStruct({ t })->key(), "moveWrap"); z.Void(); key(y, tStruct({ t })->key(), "moveWrap"); y.MemberM(&Y); key(y, tStruct({ t, u })->key(), "MemberM"); y.Member(&X); key(y, tStruct({ t, u, t })->key(), "Member"); key(y.front(), k, "front"); key(y.back(), k, "back"); y = Y; key(y, u->key(), "assignment"); key(X, k, "copy"); sg::Type q = X.clone(a); q.IntM(16); key(X, k, "clone"); }
		if (b.isInt()) { sg::Type z(X); z.setSign(!b.s); eq(z.isSigned(), !b.s, "setSign"); if (!(t->k == K::Image || t->k == K::SampImg)) eq(z == X, false, "setSign"); z.setSign(b.s); key(z, k, "setSign"); key(X, k, "setSign"); }
		// printed
		{ const char* got = X.getString(); std::string want; if (t->k == K::Void) want = "void"; else if (t->scalar()) want = scalarName(*t); else if (t->vec() && t->sub[0]->scalar()) want = scalarName(*t->sub[0]) + "_" + std::to_string(t->n); else if (t->mat()) want = scalarName(b) + "_" + std::to_string(t->n) + "x" + std::to_string(t->sub[0]->n); if (!want.empty()) CHECK_SIG(got && want == got, "getString", "getString of " + k + " is " + (got ? got : "missing") + " instead of " + want); }
	}
	// the types of C++ types are compared by size; long is recorded (tests rely on it)
	pbt::RegKnown k29("P29", "long-has-32-bits", [](std::string& d) { sg::HeapAllocator a; sg::Type t(&a), u(&a); t.make<long>(); u.make<unsigned long>(); d = "long gives " + fromLib(t)->key() + ", unsigned long gives " + fromLib(u)->key(); return sizeof(long) == 8 && t.isInt(32) && u.isInt(32); });
	pbt::Reg r29("P29", "a pair of types of which one has sub types or both differ; a format with channels; a C++ type", p29);
	pbt::Reg r7("P07", "at least one repeated request and three distinct types", p07);
	pbt::Reg r8("P08", "at least two distinct constants and a repeat, an equal bit pattern, another value of the same type or a specialization constant", p08);
}
