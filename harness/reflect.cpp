// P16 reflection queries against a scan of the binary; P17 Vulkan classification against the Vulkan tables
#include "prog.h"
#include "bgen.h"
#include "common/ReflectionHelper.h"
#include "common/ReflectionHelperTemplate.inl"
#include "common/VulkanInterop.h"
#include "common/TypeHelper.h"
#include "spvgentwo/String.h"
#include <set>
using namespace prog;
using lu::Words;

namespace
{
	namespace rh = sg::ReflectionHelper;
	using spv_ref::Inst;
	enum : uint32_t { Name = 5, MemberName = 6, Mode = 16, ModeId = 331, Deco = 71, MemDeco = 72, DecoGroup = 73, DecoId = 332, DecoStr = 5632, MemDecoStr = 5633, Variable = 59 };
	void emit(Words& w, uint32_t op, const Words& rest) { w.push_back(uint32_t(rest.size() + 1) << 16 | op); w.insert(w.end(), rest.begin(), rest.end()); }
	bool isAnnotation(uint32_t op) { return op == Deco || op == MemDeco || op == DecoGroup || op == 74 || op == 75 || op == DecoId || op == DecoStr || op == MemDecoStr; }
	bool known(const OKindInfo& k, const OEnum& e) { return !bgen::newer((std::string(k.name) + "." + e.name).c_str()); }

	// operands of an enumerant; ids: ids that may be used, hadId tells if there was one, hadString likewise
	bool parameters(Src& s, const std::vector<OOperand>& ps, const std::vector<uint32_t>& ids, Words& w, bool& hadId, bool& hadString)
	{
		for (auto& p : ps)
		{
			if (p.quant != '1') { if (p.quant == '?' && s.coin()) continue; }
			switch (p.kind)
			{
			case K_LiteralInteger: w.push_back(s.coin() ? s.below(4) : s.word()); break;
			case K_LiteralFloat: w.push_back(s.word()); break;
			case K_LiteralString: { std::string t; for (unsigned n = s.below(9); n--;) t += char('a' + s.below(26)); auto q = spv_ref::packString(t); w.insert(w.end(), q.begin(), q.end()); hadString = true; break; }
			case K_IdRef: case K_IdScope: case K_IdMemorySemantics: if (ids.empty()) return false; w.push_back(s.pick(ids)); hadId = true; break;
			default:
			{
				auto& k = spv_ref::kind(p.kind); std::vector<uint32_t> v; for (auto& e : k.enums) if (e.params.empty() && known(k, e)) v.push_back(e.value);
				if (v.empty()) return false; w.push_back(s.pick(v));
			} }
		}
		return true;
	}

	// a module with many decorations, names and execution modes
	Words decorated(Src& s, Ctx& ctx)
	{
		bgen::Opts o; o.mayBeLarge = false; o.maxBody = 2; auto in = bgen::generate(s, o); spv_ref::Mod m; std::string err; CHECK_SIG(spv_ref::decode(in.words, m, err), "generator", err);
		std::vector<uint32_t> targets, structs, types, consts, entries, globals;
		for (auto& i : m.insts)
		{
			if (i.op == 15) entries.push_back(i.w(1));
			if (!i.result || i.op == 11 || i.op == DecoGroup || i.op == 7 || i.op == 248) continue;
			(void)types; targets.push_back(i.result); if (i.op == 30 && !i.ops.empty()) structs.push_back(i.result); if (i.op == 43 && i.ops[0].w.size() == 1) consts.push_back(i.result); if (i.op == Variable) globals.push_back(i.result);
		}
		// a few favourites so that targets have several decorations
		std::vector<uint32_t> fav; for (unsigned k = 0; k < 3 && !targets.empty(); ++k) fav.push_back(s.pick(targets)); if (!globals.empty()) fav.push_back(s.pick(globals)); if (!structs.empty()) fav.push_back(s.pick(structs));
		auto target = [&] { return s.coin() || fav.empty() ? s.pick(targets) : s.pick(fav); };
		auto& dk = spv_ref::kind(K_Decoration); std::vector<const OEnum*> ds; for (auto& e : dk.enums) if (known(dk, e) && e.value < 6147) ds.push_back(&e);
		std::vector<const OEnum*> common; for (auto* e : ds) if (e->value == 0 || e->value == 1 || e->value == 2 || e->value == 3 || e->value == 6 || e->value == 11 || e->value == 14 || (e->value >= 24 && e->value <= 35)) common.push_back(e);
		std::vector<Words> decos, names, modes;
		if (!targets.empty()) for (unsigned n = s.below(13); n--;)
		{
			const OEnum* e = s.chance(1, 4) ? s.pick(ds) : s.pick(common); Words ps, w; bool id = false, str = false; if (!parameters(s, e->params, consts, ps, id, str)) continue; if (id && str) continue;
			if (!structs.empty() && !id && s.chance(1, 3)) { Words r = { s.pick(structs), s.below(2), e->value }; r[1] = s.below(uint32_t(m.find(r[0])->ops.size())); r.insert(r.end(), ps.begin(), ps.end()); emit(w, str && e->value >= 5000 ? uint32_t(MemDecoStr) : uint32_t(MemDeco), r); }
			else { Words r = { target(), e->value }; r.insert(r.end(), ps.begin(), ps.end()); emit(w, id ? uint32_t(DecoId) : str && e->value >= 5000 ? uint32_t(DecoStr) : uint32_t(Deco), r); }
			decos.push_back(w); if (s.chance(1, 8)) decos.push_back(w); // the same one twice
		}
		if (!targets.empty()) for (unsigned n = s.below(4); n--;) { Words w; auto t = spv_ref::packString(s.coin() ? "aName" : "b"); if (!structs.empty() && s.coin()) { Words r = { s.pick(structs), s.below(3) }; r.insert(r.end(), t.begin(), t.end()); emit(w, MemberName, r); } else { Words r = { target() }; r.insert(r.end(), t.begin(), t.end()); emit(w, Name, r); } names.push_back(w); }
		if (!entries.empty()) for (unsigned n = s.below(3); n--;)
		{
			Words w; auto lit = [&] { return s.coin() ? 1 + s.below(64) : s.word(); };
			switch (s.below(6))
			{
			case 0: emit(w, Mode, { s.pick(entries), 17, lit(), lit(), lit() }); break;
			case 1: emit(w, Mode, { s.pick(entries), 18, lit(), lit(), lit() }); break;
			case 2: if (!consts.empty()) emit(w, ModeId, { s.pick(entries), 38, s.pick(consts), s.pick(consts), s.pick(consts) }); break;
			case 3: if (!consts.empty()) emit(w, ModeId, { s.pick(entries), 39, s.pick(consts), s.pick(consts), s.pick(consts) }); break;
			case 4: emit(w, Mode, { s.pick(entries), 31 }); break;
			default: emit(w, Mode, { s.pick(entries), s.coin() ? 26u : 30u, lit() }); break;
			}
			if (!w.empty()) modes.push_back(w);
		}
		// splice: modes behind the entry points, names and decorations in their sections, interleaved with what is there
		Words out = { m.magic, 0x10600, m.generator, m.bound, m.schema };
		auto spread = [&](std::vector<Words>& l, bool all) { while (!l.empty() && (all || s.coin())) { size_t k = s.below(uint32_t(l.size())); out.insert(out.end(), l[k].begin(), l[k].end()); l.erase(l.begin() + long(k)); } };
		bool modesDone = false, namesDone = false, decosDone = false;
		for (auto& i : m.insts)
		{
			int sec = spv_ref::section(i.op, m, i, false);
			auto before = [&](uint32_t op) { return op == 17 || op == 10 || op == 11 || op == 14 || op == 15; };
			if (!modesDone && !before(i.op)) { spread(modes, i.op != Mode && i.op != ModeId); modesDone = i.op != Mode && i.op != ModeId; }
			const bool dbg = i.op == 7 || i.op == 3 || i.op == 4 || i.op == 2;
			if (modesDone && !namesDone && !dbg) { bool last = i.op != Name && i.op != MemberName; spread(names, last); namesDone = last; }
			if (namesDone && !decosDone && i.op != 330) { bool last = !isAnnotation(i.op); spread(decos, last); decosDone = last; }
			(void)sec; out.insert(out.end(), i.words.begin(), i.words.end());
		}
		if (!modesDone) spread(modes, true);
		if (!namesDone) spread(names, true);
		if (!decosDone) spread(decos, true);
		(void)ctx; return out;
	}

	struct Scan
	{
		const spv_ref::Mod& d; std::vector<const Inst*> decos, names, modes, globals;
		explicit Scan(const spv_ref::Mod& m) : d(m) { bool fn = false; for (auto& i : m.insts) { fn |= i.op == 54; if (isAnnotation(i.op)) decos.push_back(&i); if (i.op == Name || i.op == MemberName) names.push_back(&i); if (i.op == Mode || i.op == ModeId) modes.push_back(&i); if (i.op == Variable && !fn) globals.push_back(&i); } }
	};
	// decoration and the words behind it; false if it is neither OpDecorate nor OpMemberDecorate
	bool parts(const Inst& i, uint32_t& target, uint32_t& deco, Words& rest)
	{
		if (i.op != Deco && i.op != MemDeco) return false;
		const size_t skip = i.op == MemDeco ? 3 : 2; target = i.words[1]; deco = i.words[skip]; rest.assign(i.words.begin() + long(skip) + 1, i.words.end()); return true;
	}
	template <class L> std::vector<const sg::Instruction*> vec(const L& l) { std::vector<const sg::Instruction*> v; for (auto& x : l) v.push_back(x); return v; }

	void queries(Src& s, Ctx& ctx, sg::Module& mod, const spv_ref::Mod& d)
	{
		Scan sc(d); auto dump = [&] { return "\n" + spv_ref::dump(d); };
		if (ctx.wantSample || ctx.verbose) ctx.note(spv_ref::dump(d).substr(0, ctx.verbose ? 100000 : 1800));
		std::map<uint32_t, sg::Instruction*> byId; mod.iterateInstructions([&](sg::Instruction& i) { if (i.hasResult()) byId[unsigned(i.getResultId())] = &i; });
		auto id = [](const sg::Instruction* i) { return i ? unsigned(i->getResultId()) : 0u; };
		std::vector<sg::Instruction*> decos, names; for (auto& i : mod.getDecorations()) decos.push_back(&i); for (auto& i : mod.getNames()) names.push_back(&i);
		CHECK_SIG(decos.size() == sc.decos.size() && names.size() == sc.names.size(), "declarations", "declarations of the module and its binary differ" + dump());
		// workgroup size
		{
			unsigned x = 7, y = 8, z = 9, e[3] = { 7, 8, 9 }; bool has = false, certain = true;
			for (auto* i : sc.modes) if ((i->op == Mode && (i->w(1) == 17 || i->w(1) == 18)) || (i->op == ModeId && (i->w(1) == 38 || i->w(1) == 39)))
			{
				has = true;
				for (unsigned k = 0; k < 3; ++k) { if (i->op == Mode) e[k] = i->words[3 + k]; else { auto* c = d.find(i->words[3 + k]); if (c && (c->op == 43 || c->op == 50) && c->ops[0].w.size() == 1) e[k] = c->w(0); else certain = false; } }
				ctx.label(i->op == Mode ? "local size" : "local size by id"); break;
			}
			CHECK_SIG(rh::getLocalSize(mod, x, y, z) == has, "getLocalSize", "found " + std::to_string(!has) + dump());
			if (certain) CHECK_SIG(x == e[0] && y == e[1] && z == e[2], "local size", std::to_string(x) + " " + std::to_string(y) + " " + std::to_string(z) + " instead of " + std::to_string(e[0]) + " " + std::to_string(e[1]) + " " + std::to_string(e[2]) + dump());
		}
		// globals by storage class
		std::set<uint32_t> classes = { 0, 1, 2, 3, 4, 5, 6, 9, 12 }; for (auto* g : sc.globals) classes.insert(g->w(0));
		for (auto c : classes)
		{
			sg::List<const sg::Instruction*> l(sg::HeapAllocator::instance()); rh::getGlobalVariablesByStorageClass(mod, sg::spv::StorageClass(c), l);
			std::vector<uint32_t> got, want; for (auto* i : vec(l)) got.push_back(id(i)); for (auto* g : sc.globals) if (g->w(0) == c) want.push_back(g->result);
			CHECK_SIG(got == want, "globals", "storage class " + std::to_string(c) + dump());
		}
		ctx.label("globals", sc.globals.size()); ctx.label("decorations", sc.decos.size()); ctx.label("names", sc.names.size());
		// targets of a decoration
		std::set<std::pair<uint32_t, uint32_t>> ask; std::set<uint32_t> kinds = { 2, 33, 34, 30 };
		for (auto* i : sc.decos) { uint32_t t, k; Words r; if (parts(*i, t, k, r)) { kinds.insert(k); if (!r.empty()) ask.insert({ k, r[0] }); } else if (i->words.size() > 2) kinds.insert(i->words[2]); }
		for (auto k : kinds) ask.insert({ k, s.below(4) });
		auto expect = [&](uint32_t kind, const uint32_t* v) { std::vector<uint32_t> w; for (auto* i : sc.decos) { uint32_t t, k; Words r; if (parts(*i, t, k, r) && k == kind && (!v || (!r.empty() && r[0] == *v))) w.push_back(t); } return w; };
		auto targets = [&](uint32_t kind, const uint32_t* v)
		{
			sg::List<const sg::Instruction*> l(sg::HeapAllocator::instance()); rh::getVariablesWithDecoration(mod, sg::spv::Decoration(kind), l, v); std::vector<uint32_t> got; for (auto* i : vec(l)) got.push_back(id(i));
			auto want = expect(kind, v); std::string a, b; for (auto x : got) a += std::to_string(x) + " "; for (auto x : want) b += std::to_string(x) + " ";
			CHECK_SIG(got == want, v ? "targets by value" : "targets", "decoration " + std::to_string(kind) + (v ? " value " + std::to_string(*v) : std::string()) + ": " + a + "instead of " + b + dump());
			std::vector<uint32_t> fn; rh::getVariablesWithDecorationFunc(mod, sg::spv::Decoration(kind), [&](const sg::Instruction* i) { fn.push_back(id(i)); }, v); CHECK_SIG(fn == want, "targets by function", dump());
		};
		for (auto k : kinds) targets(k, nullptr);
		for (auto& a : ask) targets(a.first, &a.second);
		// decorations and names of a target
		unsigned multi = 0;
		for (auto& p : byId)
		{
			std::vector<const sg::Instruction*> want, got; for (size_t k = 0; k < decos.size(); ++k) if (sc.decos[k]->words[1] == p.first && sc.decos[k]->op != DecoGroup) want.push_back(decos[k]);
			multi += want.size() > 1;
			sg::List<sg::Instruction*> l(sg::HeapAllocator::instance()); rh::getDecorations(p.second, l); got = vec(l); CHECK_SIG(got == want, "getDecorations", "%" + std::to_string(p.first) + ": " + std::to_string(got.size()) + " instead of " + std::to_string(want.size()) + dump());
			got.clear(); rh::getDecorationsFunc(p.second, [&](const sg::Instruction* i) { got.push_back(i); }); CHECK_SIG(got == want, "getDecorationsFunc", dump());
			want.clear(); got.clear(); for (size_t k = 0; k < names.size(); ++k) if (sc.names[k]->words[1] == p.first) want.push_back(names[k]);
			rh::getNamesFunc(p.second, [&](const sg::Instruction* i) { got.push_back(i); }); CHECK_SIG(got == want, "getNamesFunc", dump());
			for (auto k : kinds)
			{
				uint32_t v = ~0u; const sg::Instruction* e = nullptr; for (size_t n = 0; n < decos.size() && !e; ++n) { uint32_t t, q; Words r; if (parts(*sc.decos[n], t, q, r) && t == p.first && q == k && !r.empty()) { v = r[0]; e = decos[n]; } }
				const sg::Instruction* o = nullptr; unsigned x = rh::getDecorationLiteralFromTarget(sg::spv::Decoration(k), p.second, s.coin() ? &o : nullptr);
				CHECK_SIG(x == v && (!o || o == e), "literal of target", "decoration " + std::to_string(k) + " of %" + std::to_string(p.first) + ": " + std::to_string(x) + " instead of " + std::to_string(v) + dump());
			}
		}
		ctx.label("targets with several decorations", multi);
		// one decoration
		for (size_t n = 0; n < decos.size(); ++n)
		{
			uint32_t t, k = 0; Words r; bool is = parts(*sc.decos[n], t, k, r); auto what = [&] { return spv_ref::dump(*sc.decos[n]); };
			CHECK_SIG(unsigned(rh::getSpvDecorationKindFromDecoration(decos[n])) == (is ? k : unsigned(sg::spv::Decoration::Max)), "kind", what());
			sg::spv::Decoration dk{}; unsigned v = 4711; bool ok = rh::getSpvDecorationAndLiteralFromDecoration(decos[n], dk, v); CHECK_SIG(ok == is, "kind and literal", what() + ": " + std::to_string(ok));
			if (is) CHECK_SIG(unsigned(dk) == k && v == (r.empty() ? 4711 : r[0]), "kind and literal", what());
			if (is && sc.decos[n]->op == Deco) { CHECK_SIG(rh::getLiteralFromDecoration(sg::spv::Decoration(k), decos[n]) == (r.empty() ? ~0u : r[0]), "literal", what()); CHECK_SIG(rh::getLiteralFromDecoration(sg::spv::Decoration(k + 1), decos[n]) == ~0u, "literal of another decoration", what()); }
			ctx.label(sc.decos[n]->op == Deco ? r.empty() ? "decoration without literals" : "decoration with literals" : sc.decos[n]->op == MemDeco ? "member decoration" : "other decoration");
		}
		for (auto* i : names) { CHECK_SIG(rh::getSpvDecorationKindFromDecoration(i) == sg::spv::Decoration::Max, "kind of a name", ""); sg::spv::Decoration dk{}; unsigned v = 1; CHECK_SIG(!rh::getSpvDecorationAndLiteralFromDecoration(i, dk, v), "kind of a name", ""); }
		CHECK_SIG(rh::getSpvDecorationKindFromDecoration(nullptr) == sg::spv::Decoration::Max && rh::getDecorationLiteralFromTarget(sg::spv::Decoration::Binding, nullptr) == ~0u && rh::getLiteralFromDecoration(sg::spv::Decoration::Binding, nullptr) == ~0u, "nothing", "");
		ctx.nontrivial = sc.decos.size() >= 4 && multi >= 1;
	}
	// names of types made of scalars; "" if the name is not specified
	std::string typeName(const spv_ref::Mod& d, uint32_t id, const std::set<uint32_t>& named)
	{
		auto* i = d.find(id); if (!i || named.count(id)) return "";
		auto n = [](uint32_t x) { return std::to_string(x); };
		switch (i->op)
		{
		case 19: return "void"; case 20: return "bool";
		case 21: return (i->w(1) ? "int" : "uint") + n(i->w(0));
		case 22: return i->w(0) == 16 ? "half" : i->w(0) == 32 ? "float" : i->w(0) == 64 ? "double" : "";
		case 23: { auto b = typeName(d, i->w(0), named); return b.empty() || i->w(1) > 4 ? "" : b + "_" + n(i->w(1)); }
		case 24: { auto* v = d.find(i->w(0)); auto b = typeName(d, v->w(0), named); return b.empty() || named.count(v->result) || i->w(1) > 4 || v->w(1) > 4 ? "" : b + "_" + n(i->w(1)) + "x" + n(v->w(1)); }
		case 28: { auto b = typeName(d, i->w(0), named); auto* c = d.find(i->w(1)); if (!c || c->op != 43 || c->ops[0].w.size() != 1) return ""; return b.empty() || b.find('[') != b.npos || b.find('*') != b.npos ? "" : b + "[" + n(c->w(0)) + "]"; }
		case 32: { auto b = typeName(d, i->w(1), named); return b.empty() || b.find('[') != b.npos ? "" : b + "*"; }
		}
		return "";
	}
	void typeNames(Ctx& ctx, sg::Module& mod, const spv_ref::Mod& d)
	{
		std::set<uint32_t> named; for (auto& i : d.insts) if (i.op == Name || i.op == MemberName) named.insert(i.words[1]);
		for (auto& i : mod.getTypesAndConstants()) if (i.isType()) if (auto* t = i.getType())
		{
			sg::String a(sg::HeapAllocator::instance()), b(sg::HeapAllocator::instance()); sg::TypeHelper::getTypeName(*t, a, &i); sg::TypeHelper::getTypeName(*t, b);
			auto want = typeName(d, unsigned(i.getResultId()), named); if (want.empty()) { ctx.label("type name not specified"); continue; }
			ctx.label("type name"); std::string sa = a.c_str() ? a.c_str() : "", sb = b.c_str() ? b.c_str() : "";
			CHECK_SIG(sa == want, "type name", "'" + sa + "' instead of '" + want + "'\n" + spv_ref::dump(d)); CHECK_SIG(sb == want, "type name without instruction", "'" + sb + "' instead of '" + want + "'");
		}
	}
	void p16(Src& s, Ctx& ctx)
	{
		if (s.chance(1, 5)) // a module that was built
		{
			Opts o = opts(s); o.size = std::min(o.size, 6); Prog p(s, o); p.g.run(); std::vector<sg::Instruction*> t, st; p.m.iterateInstructions([&](sg::Instruction& i) { if (i.hasResult() && (i.isType() || i.getOperation() == sg::spv::Op::OpVariable || i.getOperation() == sg::spv::Op::OpFunction)) t.push_back(&i); if (i.getOperation() == sg::spv::Op::OpTypeStruct && !i.getType()->getSubTypes().empty()) st.push_back(&i); });
			for (unsigned n = s.below(8); n-- && !t.empty();)
			{
				auto* d = p.m.addDecorationInstr(); uint32_t k = s.below(4);
				auto dec = k == 0 ? sg::spv::Decoration::Binding : k == 1 ? sg::spv::Decoration::DescriptorSet : k == 2 ? sg::spv::Decoration::Restrict : sg::spv::Decoration::Location;
				if (!st.empty() && s.coin()) { if (k == 2) d->opMemberDecorate(s.pick(st), 0u, dec); else d->opMemberDecorate(s.pick(st), 0u, dec, s.below(4)); }
				else { if (k == 2) d->opDecorate(s.pick(t), dec); else d->opDecorate(s.pick(t), dec, s.below(4)); }
			}
			Built b; write(p, b, false); ctx.mix(b.w.data(), b.w.size() * 4); ctx.label("built"); queries(s, ctx, p.m, b.m); typeNames(ctx, p.m, b.m); return;
		}
		Words w = decorated(s, ctx); sg::HeapAllocator alloc; Log log; sg::Module mod(&alloc, &log); MemReader rd(w); spv_ref::Mod d; std::string err; CHECK_SIG(spv_ref::decode(w, d, err), "generator", err + spv_ref::dump(d));
		CHECK_SIG(mod.readAndInit(rd, lu::grammar()), "read", log.text + spv_ref::dump(d)); ctx.mix(w.data(), w.size() * 4); ctx.label("read");
		// the written form is what is scanned, it has the ids of the instructions
		MemWriter wr; CHECK_SIG(mod.finalizeAndWrite(wr), "write", log.text); spv_ref::Mod d2; CHECK(spv_ref::decode(wr.w, d2, err));
		queries(s, ctx, mod, d2); typeNames(ctx, mod, d2);
	}

	// ---- P17 ----
	struct Res { int kind; uint32_t dim = 1, sampled = 1; uint32_t storage = 0; bool array = false, runtime = false; int set = -1, binding = -1; uint32_t depth = 0, ms = 0, arrayed = 0; uint32_t var = 0; bool block = true; }; // 0 sampler 1 image 2 sampled image 3 buffer 4 acceleration structure 5 other
	using DT = sg::vk::DescriptorType;
	bool sameSlot(const Res& a, const Res& b) { return a.set >= 0 && a.binding >= 0 && a.set == b.set && a.binding == b.binding && a.storage == 0 && b.storage == 0; }
	DT expected(const Res& r, const std::vector<Res>& all)
	{
		// several variables on one binding, with samplers and sampled images among them, are a combined image sampler
		bool smp = false, img = false; auto scan = [&](const Res& x) { smp |= x.kind == 0 || x.kind == 2; img |= (x.kind == 1 && x.sampled == 1 && x.dim != 5) || x.kind == 2; };
		if (r.kind == 0 || (r.kind == 1 && r.sampled == 1 && r.dim != 5) || r.kind == 2) { for (auto& x : all) if (x.var == r.var || sameSlot(x, r)) scan(x); if (smp && img) return DT::VK_DESCRIPTOR_TYPE_COMBINED_IMAGE_SAMPLER; }
		switch (r.kind)
		{
		case 0: return DT::VK_DESCRIPTOR_TYPE_SAMPLER;
		case 1: if (r.dim == 6) return DT::VK_DESCRIPTOR_TYPE_INPUT_ATTACHMENT; if (r.dim == 5) return r.sampled == 1 ? DT::VK_DESCRIPTOR_TYPE_UNIFORM_TEXEL_BUFFER : DT::VK_DESCRIPTOR_TYPE_STORAGE_TEXEL_BUFFER; return r.sampled == 1 ? DT::VK_DESCRIPTOR_TYPE_SAMPLED_IMAGE : DT::VK_DESCRIPTOR_TYPE_STORAGE_IMAGE;
		case 2: return DT::VK_DESCRIPTOR_TYPE_COMBINED_IMAGE_SAMPLER;
		case 3: if (r.storage == 12) return DT::VK_DESCRIPTOR_TYPE_STORAGE_BUFFER; return r.block ? DT::VK_DESCRIPTOR_TYPE_UNIFORM_BUFFER : DT::VK_DESCRIPTOR_TYPE_STORAGE_BUFFER;
		case 4: return DT::VK_DESCRIPTOR_TYPE_ACCELERATION_STRUCTURE_KHR;
		default: return DT::VK_DESCRIPTOR_TYPE_MAX_ENUM;
		}
	}
	const char* kindName(int k) { static const char* n[] = { "sampler", "image", "sampled image", "buffer", "acceleration structure", "no resource" }; return n[k]; }
	Words resources(Src& s, std::vector<Res>& rs)
	{
		const unsigned n = 1 + s.below(5);
		for (unsigned k = 0; k < n; ++k)
		{
			Res r; r.kind = int(s.weighted({ 5, 6, 4, 5, 1, 3 }));
			if (r.kind == 1) { r.dim = s.below(7); r.sampled = r.dim == 6 ? 2 : 1 + s.below(2); }
			if (r.kind == 2) { r.dim = s.below(5); r.sampled = 1; }
			if (r.kind == 1 || r.kind == 2) { r.depth = s.below(3); r.ms = r.dim == 1 && s.chance(1, 4); r.arrayed = r.dim <= 3 && r.dim != 2 && s.chance(1, 3); }
			if (r.kind == 3) { r.storage = s.coin() ? 2 : 12; r.block = r.storage == 12 || s.coin(); }
			if (r.kind == 5) { static const uint32_t c[] = { 1, 3, 4, 6, 9 }; r.storage = s.pick(c); }
			if (r.kind != 5) { if (s.chance(1, 4)) r.array = true; else if (s.chance(1, 10)) r.runtime = true; if (s.chance(9, 10)) r.set = int(s.below(2)); if (s.chance(9, 10)) r.binding = int(s.below(3)); }
			rs.push_back(r);
		}
		Words w = { 0x07230203, 0x10500, 0, 0, 0 }, deco, types; uint32_t next = 1; auto fresh = [&] { return next++; };
		emit(w, 17, { 1 }); emit(w, 17, { 5 }); emit(w, 14, { 0, 1 });
		const uint32_t f = fresh(), u = fresh(), c = fresh(), v4 = fresh(); emit(types, 22, { f, 32 }); emit(types, 21, { u, 32, 0 }); emit(types, 43, { u, c, 3 }); emit(types, 23, { v4, f, 4 });
		std::map<std::vector<uint32_t>, uint32_t> made; auto type = [&](uint32_t op, Words o) { Words key = o; key.push_back(op); auto& x = made[key]; if (!x) { x = fresh(); o.insert(o.begin(), x); emit(types, op, o); } return x; };
		for (auto& r : rs)
		{
			uint32_t t = 0;
			switch (r.kind)
			{
			case 0: t = type(26, {}); break;
			case 1: t = type(25, { f, r.dim, r.depth, r.arrayed, r.ms, r.sampled, r.sampled == 2 && r.dim != 6 ? 1u : 0u }); break;
			case 2: t = type(27, { type(25, { f, r.dim, r.depth, r.arrayed, r.ms, 1, 0 }) }); break;
			case 3: { t = fresh(); emit(types, 30, { t, v4 }); emit(deco, Deco, { t, r.block ? 2u : 3u }); emit(deco, MemDeco, { t, 0, 35, 0 }); break; }
			case 4: t = type(5341, {}); break;
			default: if (r.storage == 9) { t = fresh(); emit(types, 30, { t, v4 }); emit(deco, Deco, { t, 2 }); emit(deco, MemDeco, { t, 0, 35, 0 }); } else t = v4; break;
			}
			if (r.array) t = type(28, { t, c }); else if (r.runtime) t = type(29, { t });
			uint32_t p = type(32, { r.storage, t }); r.var = fresh(); emit(types, Variable, { p, r.var, r.storage });
		}
		std::vector<Words> dl; for (auto& r : rs) { if (r.set >= 0) dl.push_back({ r.var, 34, uint32_t(r.set) }); if (r.binding >= 0) dl.push_back({ r.var, 33, uint32_t(r.binding) }); if (r.kind == 1 && r.dim == 6) dl.push_back({ r.var, 43, s.below(4) }); if (s.chance(1, 6)) dl.push_back({ r.var, 19 }); }
		while (!dl.empty()) { size_t k = s.below(uint32_t(dl.size())); emit(deco, Deco, dl[k]); dl.erase(dl.begin() + long(k)); }
		w.insert(w.end(), deco.begin(), deco.end()); w.insert(w.end(), types.begin(), types.end()); w[3] = next; return w;
	}
	void p17(Src& s, Ctx& ctx)
	{
		if (s.chance(1, 40))
		{
			using B = sg::vk::ShaderStageFlagBits; auto& e = s.pick(spv_ref::kind(K_ExecutionModel).enums); B want = B::VK_SHADER_STAGE_FLAG_BITS_MAX_ENUM;
			static const std::pair<uint32_t, uint32_t> tab[] = { { 0, 1 }, { 1, 2 }, { 2, 4 }, { 3, 8 }, { 4, 0x10 }, { 5, 0x20 }, { 5267, 0x40 }, { 5268, 0x80 }, { 5313, 0x100 }, { 5314, 0x1000 }, { 5315, 0x200 }, { 5316, 0x400 }, { 5317, 0x800 }, { 5318, 0x2000 }, { 5364, 0x40 }, { 5365, 0x80 } };
			for (auto& t : tab) if (t.first == e.value) want = B(t.second);
			ctx.label("execution model"); ctx.mix(uint64_t(e.value)); ctx.note(std::string("execution model ") + e.name); ctx.nontrivial = true;
			auto got = sg::vk::getShaderStageFromExecutionModel(sg::spv::ExecutionModel(e.value)); CHECK_SIG(got == want, "shader stage", std::string(e.name) + ": " + std::to_string(unsigned(got)) + " instead of " + std::to_string(unsigned(want))); return;
		}
		std::vector<Res> rs; Words w = resources(s, rs); ctx.mix(w.data(), w.size() * 4); spv_ref::Mod d; std::string err; CHECK_SIG(spv_ref::decode(w, d, err), "generator", err);
		if (ctx.wantSample || ctx.verbose) ctx.note(spv_ref::dump(d));
		sg::HeapAllocator alloc; Log log; sg::Module mod(&alloc, &log); MemReader rd(w); CHECK_SIG(mod.readAndInit(rd, lu::grammar()), "read", log.text + spv_ref::dump(d));
		bool shared = false; size_t k = 0;
		for (auto& v : mod.getGlobalVariables())
		{
			CHECK(k < rs.size()); auto& r = rs[k++]; DT want = expected(r, rs), got = sg::vk::getDescriptorTypeFromVariable(v);
			for (auto& x : rs) shared |= x.var != r.var && sameSlot(x, r);
			ctx.label(kindName(r.kind)); if (r.array || r.runtime) ctx.label("array");
			std::string cls = std::string(kindName(r.kind)) + (r.array ? " array" : r.runtime ? " runtime array" : "") + (want == DT::VK_DESCRIPTOR_TYPE_COMBINED_IMAGE_SAMPLER && r.kind != 2 ? " combined" : "");
			CHECK_SIG(got == want, cls, "%" + std::to_string(r.var) + ": " + std::to_string(int(got)) + " instead of " + std::to_string(int(want)) + "\n" + spv_ref::dump(d));
		}
		CHECK(k == rs.size()); if (shared) ctx.label("shared binding");
		mod.iterateInstructions([&](const sg::Instruction& i) { if (i.getOperation() != sg::spv::Op::OpVariable) CHECK_SIG(sg::vk::getDescriptorTypeFromVariable(i) == DT::VK_DESCRIPTOR_TYPE_MAX_ENUM, "not a variable", ""); });
		ctx.nontrivial = rs.size() >= 2 && (shared || rs.size() >= 3);
	}
	pbt::Reg r16("P16", "at least four decorations and a target with several of them", p16);
	pbt::Reg r17("P17", "at least three resources, or two that share a set and a binding", p17);
}
