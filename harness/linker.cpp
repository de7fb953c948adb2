// P11, P12: importing the exported functions and variables of a library into a consumer.
#include "prog.h"
#include "track.h"
#include "linker.h"
#include "common/LinkerHelper.h"
#include "common/ModulePrinter.h"
#include "common/ReflectionHelper.h"
using namespace prog;
using spv_ref::Mod; using spv_ref::Inst;

namespace
{
	using sg::LinkerHelper::LinkerOptionBits;
	using IdMap = std::map<uint32_t, uint32_t>;
	std::string num(uint64_t v) { return std::to_string(v); }
	enum : uint32_t { TypesF = 1, ConstsF = 2, ExtF = 4, DecoF = 8, NameF = 16, FuncF = 32, VarF = 64, StrF = 128, IdsF = 256, RmF = 512, AutoF = 1024, IfaceF = 2048, SrcF = 4096, LineF = 8192, ProcF = 16384 };
	const std::pair<uint32_t, LinkerOptionBits> bits[] = { { TypesF, LinkerOptionBits::ImportMissingTypes }, { ConstsF, LinkerOptionBits::ImportMissingConstants }, { ExtF, LinkerOptionBits::ImportMissingExtensionSets }, { DecoF, LinkerOptionBits::ImportReferencedDecorations }, { NameF, LinkerOptionBits::ImportReferencedNames }, { FuncF, LinkerOptionBits::ImportReferencedFunctions }, { VarF, LinkerOptionBits::ImportReferencedVariables }, { StrF, LinkerOptionBits::ImportReferencedStrings }, { IdsF, LinkerOptionBits::AssignResultIDs }, { RmF, LinkerOptionBits::RemoveLinkageCapability }, { AutoF, LinkerOptionBits::AutoAddRequiredCapabilitiesAndExtensions }, { IfaceF, LinkerOptionBits::UpdateEntryPointGlobalVarInterface }, { SrcF, LinkerOptionBits::CopyOpSourceStringInstructions }, { LineF, LinkerOptionBits::CopyOpLineInstructions }, { ProcF, LinkerOptionBits::CopyOpModuleProcessedInstructions } };
	const uint32_t Permissions = TypesF | ConstsF | ExtF | FuncF | VarF | StrF;

	// what is said about a decoded module
	struct View
	{
		Mod m; std::map<uint32_t, size_t> func, end; std::map<uint32_t, std::multiset<std::string>> names, decos; std::map<std::string, uint32_t> imports, exports;
		std::set<uint32_t> caps; std::set<std::string> exts; bool twice = false; std::set<uint32_t> ids; std::vector<std::string> strings, processed; std::vector<size_t> entries, modes, model; std::set<std::string> typeKeys, constKeys, sets;
		std::set<uint32_t> resultTypes(uint32_t f) const { std::set<uint32_t> r; for (size_t i = func.at(f); i <= end.at(f); ++i) if (m.insts[i].result) r.insert(m.insts[i].result); return r; }
		bool defined(uint32_t f) const { return end.at(f) > func.at(f) && m.insts[end.at(f) - 1].op != 55 && m.insts[end.at(f) - 1].op != 54; }
	};
	std::vector<uint32_t> flat(const Inst& i, size_t from = 0) { std::vector<uint32_t> r; for (size_t k = from; k < i.ops.size(); ++k) r.insert(r.end(), i.ops[k].w.begin(), i.ops[k].w.end()); return r; }
	std::string words(const Inst& i, size_t from) { std::string r = num(i.op); for (auto w : flat(i, from)) r += "," + num(w); return r; }
	bool isLinkage(const Inst& i) { return i.op == 71 && i.w(1) == 41; }
	std::string linkName(const Inst& i) { return i.str(2); }
	uint32_t linkType(const Inst& i) { return i.w(3); } // 0 export, 1 import
	void view(const lu::Words& w, View& v, const char* what)
	{
		std::string err; CHECK_SIG(spv_ref::decode(w, v.m, err), "decode", std::string(what) + ": " + err + "\n" + spv_ref::dump(v.m)); uint32_t cur = 0;
		for (size_t i = 0; i < v.m.insts.size(); ++i)
		{
			auto& d = v.m.insts[i]; if (d.result) v.ids.insert(d.result);
			if (d.op == 54) v.func[cur = d.result] = i; if (d.op == 56) { v.end[cur] = i; cur = 0; }
			if (cur) continue;
			switch (d.op)
			{
			case 5: case 6: v.names[d.w(0)].insert(words(d, 1)); break;
			case 71: case 72: case 332: case 5632: if (isLinkage(d)) v.twice |= !(linkType(d) ? v.imports : v.exports).emplace(linkName(d), d.w(0)).second; else v.decos[d.w(0)].insert(words(d, 1)); break;
			case 17: v.caps.insert(d.w(0)); break; case 10: v.exts.insert(d.str(0)); break; case 11: v.sets.insert(d.str(0)); break;
			case 15: v.entries.push_back(i); break; case 16: case 331: v.modes.push_back(i); break; case 14: v.model.push_back(i); break;
			case 7: v.strings.push_back("string " + d.str(0)); break; case 3: v.strings.push_back("source " + num(d.w(0)) + " " + num(d.w(1))); break; case 4: v.strings.push_back("extension " + d.str(0)); break; case 330: v.processed.push_back(d.str(0)); break;
			default: if (isTypeOp(d.op)) v.typeKeys.insert(decodeType(v.m, d.result)->key()); else if (isConstOp(d.op)) v.constKeys.insert(decodeConst(v.m, d.result)->key());
			}
		}
	}
	std::string normed(const Inst& i, const std::function<uint32_t(uint32_t)>& f)
	{
		std::string r = num(i.op) + ":" + (i.type ? num(f(i.type)) : "") + ":" + (i.result ? num(f(i.result)) : "");
		for (auto& o : i.ops) { r += ' '; for (auto w : o.w) r += (o.isId() ? "%" + num(f(w)) : num(w)) + ","; }
		return r;
	}

	// ids of the library and what became of them
	struct Match
	{
		const View& L; const View& R; const View& C; const std::set<uint32_t>& old; const IdMap& cm; IdMap lm; std::set<uint32_t> fresh; std::string err;
		bool fail(const std::string& s) { if (err.empty()) err = s; return false; }
		std::string show(const View& v, uint32_t id) { auto* d = v.m.find(id); return "%" + num(id) + (d ? " (" + spv_ref::dump(*d) + ")" : ""); }
		std::set<uint32_t> vague; // lengths of arrays
		bool bind(uint32_t l, uint32_t r)
		{
			auto it = lm.find(l); if (it != lm.end()) return it->second == r || fail("library " + show(L, l) + " became " + show(R, it->second) + " and " + show(R, r));
			auto *a = L.m.find(l), *b = R.m.find(r); if (!a || !b) return fail("library " + show(L, l) + " became " + show(R, r));
			if (a->op != b->op) return fail("library " + show(L, l) + " became " + show(R, r));
			lm[l] = r;
			auto operands = [&]() -> bool {
				if (a->type ? !b->type || !bind(a->type, b->type) : b->type != 0) return fail("type of " + show(L, l));
				if (a->ops.size() != b->ops.size()) return fail("operands of library " + show(L, l) + " and " + show(R, r));
				for (size_t k = 0; k < a->ops.size(); ++k) { auto &x = a->ops[k], &y = b->ops[k]; if (x.kind != y.kind || x.w.size() != y.w.size()) return fail("operands of library " + show(L, l) + " and " + show(R, r)); if (x.isId()) { if (!bind(x.w[0], y.w[0])) return false; } else if (x.w != y.w) return fail("literals of library " + show(L, l) + " and " + show(R, r)); }
				return true; };
			if (isTypeOp(a->op)) { if (decodeType(L.m, l)->key() != decodeType(R.m, r)->key()) return fail("library type " + show(L, l) + " became " + show(R, r)); return a->op == 39 || (a->op == 28 ? (vague.insert(b->w(1)), vague.insert(R.m.find(b->w(1))->type), bind(a->w(0), b->w(0))) : operands()); } // the length of an array may be given by another constant
			if (a->op == 59 || a->op == 54) { if (old.count(r)) return fail("library " + show(L, l) + " became the unrelated " + show(R, r)); if (!fresh.insert(r).second) return fail("two of the library became " + show(R, r)); if (a->op == 54) return function(l, r, false); }
			return operands();
		}
		bool function(uint32_t l, uint32_t r, bool declared)
		{
			size_t i = L.func.at(l), j = R.func.at(r), n = L.end.at(l) - i; if (R.end.at(r) - j != n) return fail("function " + show(L, l) + " has " + num(n) + " instructions, its image " + num(R.end.at(r) - j));
			for (size_t k = 0; k <= n; ++k)
			{
				auto &a = L.m.insts[i + k], &b = R.m.insts[j + k]; if (a.op != b.op) return fail("instruction " + num(k) + " of function " + show(L, l) + ": " + spv_ref::dump(a) + " became " + spv_ref::dump(b));
				if (!k || !a.result) continue; if (!b.result) return fail("result"); auto it = lm.find(a.result); if (it != lm.end() && it->second != b.result) return fail("result of " + spv_ref::dump(a)); lm[a.result] = b.result;
				if (!(declared && a.op == 55) && !fresh.insert(b.result).second) return fail("two of the library became " + show(R, b.result)); if (old.count(b.result) && !(declared && a.op == 55)) return fail("library instruction became an old " + show(R, b.result));
			}
			for (size_t k = 0; k <= n; ++k)
			{
				auto &a = L.m.insts[i + k], &b = R.m.insts[j + k]; auto where = [&] { return "instruction " + num(k) + " of function " + show(L, l) + ": " + spv_ref::dump(a) + " became " + spv_ref::dump(b); };
				if (a.type ? !b.type || !bind(a.type, b.type) : b.type != 0) return fail(where());
				if (a.ops.size() != b.ops.size()) return fail("operands, " + where());
				for (size_t q = 0; q < a.ops.size(); ++q) { auto &x = a.ops[q], &y = b.ops[q]; if (x.isId()) { if (!y.isId() || !bind(x.w[0], y.w[0])) { err += ", " + where(); return false; } } else if (x.w != y.w && !(declared && !k)) return fail("literals, " + where()); }
			}
			return true;
		}
	};
	// what an import needs besides itself; mapped: symbols of the library for which the consumer has an import
	struct Need { uint32_t must = 0, may = 0; };
	void need(const View& L, const View& C, uint32_t id, const std::set<uint32_t>& mapped, std::set<uint32_t>& seen, const std::set<uint32_t>& local, Need& n, bool top = false)
	{
		if (local.count(id) || (!top && mapped.count(id)) || !seen.insert(id).second) return;
		auto* d = L.m.find(id); if (!d) return;
		auto sub = [&] { if (d->type) need(L, C, d->type, mapped, seen, local, n); for (auto& o : d->ops) if (o.isId()) need(L, C, o.w[0], mapped, seen, local, n); };
		auto want = [&](uint32_t f, bool present) { (present ? n.may : n.must) |= f; };
		if (d->op == 28) // the length of an array is part of its type
		{
			want(TypesF, C.typeKeys.count(decodeType(L.m, id)->key())); need(L, C, d->w(0), mapped, seen, local, n);
			Need len; need(L, C, d->w(1), mapped, seen, local, len); n.may |= len.must | len.may;
		}
		else if (isTypeOp(d->op)) { want(TypesF, C.typeKeys.count(decodeType(L.m, id)->key())); sub(); }
		else if (isConstOp(d->op)) { want(ConstsF, C.constKeys.count(decodeConst(L.m, id)->key())); sub(); }
		else if (d->op == 11) want(ExtF, C.sets.count(d->str(0)));
		else if (d->op == 7) want(StrF, false);
		else if (d->op == 59) { if (!top) want(VarF, false); sub(); }
		else if (d->op == 54)
		{
			if (!top) want(FuncF, false); auto in = L.resultTypes(id);
			for (size_t i = L.func.at(id); i <= L.end.at(id); ++i) { auto& x = L.m.insts[i]; if (x.type) need(L, C, x.type, mapped, seen, in, n); for (auto& o : x.ops) if (o.isId()) need(L, C, o.w[0], mapped, seen, in, n); }
		}
		else sub();
	}
	std::string interfaces(const View& v)
	{
		for (auto e : v.entries)
		{
			auto& x = v.m.insts[e]; std::set<uint32_t> seen, want, got; std::vector<uint32_t> todo{ x.w(1) };
			while (!todo.empty()) { uint32_t f = todo.back(); todo.pop_back(); if (!seen.insert(f).second || !v.func.count(f)) continue; for (size_t i = v.func.at(f); i < v.end.at(f); ++i) { auto& d = v.m.insts[i]; for (auto& o : d.ops) if (o.isId()) { if (v.func.count(o.w[0])) todo.push_back(o.w[0]); auto* t = v.m.find(o.w[0]); if (t && t->op == 59 && t->w(0) != 7 && (v.m.version >= 0x10400 || t->w(0) == 1 || t->w(0) == 3)) want.insert(o.w[0]); } } }
			for (size_t k = 3; k < x.ops.size(); ++k) if (!got.insert(x.w(k)).second) return "interface lists %" + num(x.w(k)) + " twice";
			if (got != want) { std::string r = "interface of %" + num(x.w(1)) + " is"; for (auto g : got) r += " %" + num(g); r += ", reached are"; for (auto g : want) r += " %" + num(g); return r; }
		}
		return "";
	}
	struct Sink final : sg::ModulePrinter::IModulePrinter { size_t n = 0; using sg::ModulePrinter::IModulePrinter::append; void append(const char* t, const char* = nullptr, const char* = nullptr) final { n += t ? strlen(t) : 0; } };

	void debugInfo(Src& s, sg::Module& m, const std::string& tag)
	{
		for (uint32_t k = s.below(3); k > 0; --k) switch (s.below(3))
		{
		case 0: m.addSourceStringInstr()->opString((tag + " file " + num(k)).c_str()); break;
		case 1: m.addSourceStringInstr()->opSource(sg::spv::SourceLanguage::GLSL, 400 + s.below(60)); break;
		default: if (m.getSpvVersion() >= sg::makeVersion(1, 1)) { sg::Instruction* i = m.addModuleProccessedInstr(); i->setOperation(sg::spv::Op::OpModuleProcessed); i->appendLiterals((tag + " pass " + num(k)).c_str()); }
		}
	}
	struct Export { std::string name; const EFunc* f = nullptr; const EVar* v = nullptr; };
	sg::Instruction* declare(Src& s, const Opts& o, Gen& g, const TP& ret, const std::vector<TP>& params)
	{
		g.e.funcs.emplace_back(); EFunc& f = g.e.funcs.back(); f.ret = ret; f.params = params;
		f.name = o.names && s.coin() ? g.text() : ""; f.control = s.below(4);
		sg::Function& d = g.m.addFunction(); f.f = &d; d.setReturnType(g.typeI(f.ret)); for (auto& t : f.params) d.addParameters(g.typeI(t)); d.finalize(sg::spv::FunctionControlMask(f.control), f.name.empty() ? nullptr : f.name.c_str());
		for (size_t q = 0; q < f.params.size(); ++q) { f.args.push_back(d.getParameter(uint32_t(q))); g.name(f.args.back()); }
		return d.getFunction();
	}
	sg::Instruction* declare(Src& s, const Opts& o, Gen& g, const TP& t, uint32_t sc)
	{
		EVar v; v.t = t; v.sc = sc; std::string nm = o.names && s.coin() ? g.text() : ""; v.i = g.m.variable(g.typeI(tPtr(v.sc, v.t)), sg::spv::StorageClass(v.sc), nm.empty() ? nullptr : nm.c_str());
		g.e.globals.push_back(v); g.gptrs.push_back({ tPtr(v.sc, v.t), v.i }); return v.i;
	}
	// what a library imports itself
	struct Wanted { std::string name; bool fn = true; TP ret; std::vector<TP> params; uint32_t sc = 6; int lib = -1; size_t ex = 0; };
	struct Lib { std::vector<Wanted> wants; std::set<const void*> foreign; std::unique_ptr<TrackAlloc> ta; std::unique_ptr<Prog> p; std::unique_ptr<sg::Module> re; sg::Module* m; std::vector<Export> ex; lu::Words w; View v; };

	void reread(Src&, const lu::Words& w, std::unique_ptr<sg::Module>& re, Log& log, sg::IAllocator* a)
	{
		re = std::make_unique<sg::Module>(a, &log); MemReader rd(w); CHECK_SIG(re->readAndInit(rd, lu::grammar()), "read", "a module of the library was not read back: " + log.text);
	}
	// storage class StorageBuffer is not known to SPIR-V 1.0
	bool newStorage(const TP& t) { if (t->k == K::Ptr && t->sc == 12) return true; for (auto& x : t->sub) if (newStorage(x)) return true; return false; }
	bool newStorage(const Export& x) { if (x.v) return x.v->sc == 12 || newStorage(x.v->t); if (newStorage(x.f->ret)) return true; for (auto& t : x.f->params) if (newStorage(t)) return true; return false; }
	// allocs: every module has an allocator of its own
	void run(Src& s, Ctx& ctx, bool all, bool allocs)
	{
		Opts o; o.ptrCompare = false; o.size = s.range(2, 7); o.depth = s.below(3); o.maxFuncs = 4; o.kernel = s.chance(1, 6); o.images = s.coin(); o.names = s.coin(); o.decorate = s.coin(); static const int models[] = { 4, 5, 0 }; o.model = s.pick(models);
		const uint32_t nl = s.chance(1, 4) ? 2 : 1; sg::HeapAllocator heap; std::vector<Lib> libs(nl);
		for (uint32_t li = nl; li-- > 0;)
		{
			Lib& l = libs[li]; Opts lo = o; lo.entries = 0; lo.minFuncs = 1;
			lo.afterSetup = [&, li](Gen& g) {
				auto want = [&](Wanted w) { sg::Instruction* sym = w.fn ? declare(s, o, g, w.ret, w.params) : declare(s, o, g, w.ret, w.sc); l.foreign.insert(sym); CHECK_SIG(sg::LinkerHelper::addLinkageDecoration(sym, sg::spv::LinkageType::Import, w.name.c_str()), "addLinkageDecoration", "no decoration"); l.wants.push_back(w); };
				for (size_t lj = li + 1; lj < libs.size(); ++lj) for (size_t k = 0; k < libs[lj].ex.size(); ++k) { auto& x = libs[lj].ex[k]; if (!s.chance(1, 3) || (g.minor < 3 && newStorage(x))) continue; Wanted w; w.name = x.name; w.fn = x.f; if (x.f) w.ret = x.f->ret, w.params = x.f->params; else w.ret = x.v->t, w.sc = x.v->sc; w.lib = int(lj); w.ex = k; want(w); ctx.label("chained import"); }
				if (s.chance(1, 3)) for (uint32_t k = s.range(1, 3); k > 0; --k)
				{
					Wanted w; w.name = "elsewhere" + num(li) + "_" + num(k); w.fn = g.o.kernel || s.chance(2, 3); TypeOpts to; to.widths = false; auto any = [&] { return g.o.kernel ? s.coin() ? tFloat(32) : tVec(tInt(32, false), 2 + s.below(3)) : genType(s, to, 1); }; const bool none = w.fn && s.chance(1, 3); w.ret = none ? tVoid() : any();
					if (w.fn) for (uint32_t q = s.below(3); q > 0; --q) w.params.push_back(any());
					want(w); ctx.label("library imports");
				}
			};
 if (allocs) l.ta = std::make_unique<TrackAlloc>(); l.p = std::make_unique<Prog>(s, lo, l.ta.get()); Prog& p = *l.p; p.g.run(); p.m.addCapability(sg::spv::Capability::Linkage);
			if (s.coin()) debugInfo(s, p.m, "lib" + num(li));
			for (auto& f : p.g.e.funcs) if (!l.foreign.count(f.f->getFunction()) && (&f == &p.g.e.funcs.back() || s.coin())) l.ex.push_back({ p.g.text() + num(li) + "_" + num(l.ex.size()), &f, nullptr });
			for (auto& v : p.g.e.globals) if (!l.foreign.count(v.i) && s.chance(1, 3)) l.ex.push_back({ p.g.text() + num(li) + "_" + num(l.ex.size()), nullptr, &v });
			for (auto& x : l.ex) CHECK_SIG(sg::LinkerHelper::addLinkageDecoration(x.f ? x.f->f->getFunction() : x.v->i, sg::spv::LinkageType::Export, x.name.c_str()), "addLinkageDecoration", "no decoration");
			MemWriter wr; CHECK_SIG(p.m.finalizeAndWrite(wr, s.coin() ? &lu::grammar() : nullptr), "write lib", p.log.text); l.w = wr.w; view(l.w, l.v, "library"); l.m = &p.m;
			if (s.coin()) { reread(s, l.w, l.re, p.log, l.ta ? static_cast<sg::IAllocator*>(l.ta.get()) : &heap); l.m = l.re.get(); }
		}
		// consumer
		enum Kind { Match_, Missing, WrongType, WrongKind }; struct Import { std::string name; size_t lib, ex; Kind kind; }; std::vector<Import> imports; uint64_t missing = 0;
		Opts co = o; std::vector<EFunc*> stripped;
		co.afterSetup = [&](Gen& g) {
			g.m.addCapability(sg::spv::Capability::Linkage);
			for (size_t li = 0; li < libs.size(); ++li) for (size_t k = 0; k < libs[li].ex.size(); ++k)
			{
				auto& x = libs[li].ex[k]; bool wanted = false; for (auto& l : libs) for (auto& w : l.wants) wanted |= w.lib == int(li) && w.ex == k;
				if (!s.chance(2, 3)) { if (wanted) imports.push_back({ x.name, li, k, Match_ }); continue; } /* another library may bring the import */ if (g.minor < 3 && newStorage(x)) { if (wanted) imports.push_back({ x.name, li, k, Match_ }); continue; } Import im{ x.name, li, k, Match_ };
				if (!all && !wanted) switch (s.weighted({ 6, 1, 1, 1 })) { case 1: im.kind = Missing; im.name += "?"; break; case 2: im.kind = WrongType; break; case 3: im.kind = x.f && g.o.kernel ? WrongType : WrongKind; break; }
				const bool fn = (x.f != nullptr) != (im.kind == WrongKind); sg::Instruction* sym;
				if (fn)
				{
					struct { TP ret; std::vector<TP> params; } f; if (x.f) { f.ret = x.f->ret; f.params = x.f->params; } else f.ret = tVoid();
					if (im.kind == WrongType) switch (s.below(4)) { case 0: f.ret = f.ret->k == K::Void ? tFloat(32) : tVoid(); break; case 1: f.params.push_back(tFloat(32)); break; case 2: if (!f.params.empty()) { f.params.pop_back(); break; } f.params.push_back(tInt(32, false)); break; default: { if (f.params.empty()) { f.params.push_back(tBool()); break; } TP& t = s.pick(f.params) == f.params[0] ? f.params[0] : f.params.back(); t = t->isFloat() && t->w == 32 ? tInt(32, false) : tFloat(32); } }
					sym = declare(s, o, g, f.ret, f.params);
				}
				else
				{
					TP vt = x.v ? x.v->t : tFloat(32); uint32_t sc = x.v ? x.v->sc : 6; if (im.kind == WrongType) { if (sc == 0 || s.coin()) sc = sc == 6 ? 1 : 6, vt = tFloat(32); else vt = vt->isFloat() && vt->w == 32 ? tInt(32, false) : tFloat(32); }
					sym = declare(s, o, g, vt, sc);
				}
				CHECK_SIG(sg::LinkerHelper::addLinkageDecoration(sym, sg::spv::LinkageType::Import, im.name.c_str()), "addLinkageDecoration", "no decoration"); imports.push_back(im); missing += im.kind == Missing;
			}
			for (auto& l : libs) for (auto& w : l.wants) if (w.lib < 0 && s.coin())
			{
				sg::Instruction* sym = w.fn ? declare(s, o, g, w.ret, w.params) : declare(s, o, g, w.ret, w.sc); CHECK_SIG(sg::LinkerHelper::addLinkageDecoration(sym, sg::spv::LinkageType::Import, w.name.c_str()), "addLinkageDecoration", "no decoration"); ctx.label("import shared");
			}
			};
		TrackAlloc cta; auto cp = std::make_unique<Prog>(s, co, allocs ? &cta : nullptr); Prog& c = *cp; c.g.run(); if (s.coin()) debugInfo(s, c.m, "consumer");
		if (s.chance(1, 5)) { for (auto& f : c.g.e.funcs) if (!f.entry && !f.blocks.empty()) { sg::LinkerHelper::addLinkageDecoration(f.f->getFunction(), sg::spv::LinkageType::Export, "consumer"); break; } }
		lu::Words cw; { MemWriter wr; CHECK_SIG(c.m.finalizeAndWrite(wr, nullptr), "write consumer", c.log.text); cw = wr.w; }
		std::unique_ptr<sg::Module> cre; sg::Module* m = &c.m; if (s.coin()) { reread(s, cw, cre, c.log, allocs ? static_cast<sg::IAllocator*>(&cta) : &heap); m = cre.get(); }
		Sink sink; size_t resolvedTotal = 0, brought = 0;
		for (size_t li = 0; li < libs.size(); ++li)
		{
			Lib& l = libs[li]; View C; view(cw, C, "consumer");
			uint32_t flags = 0; for (auto& b : bits) if (b.first != LineF && (all && (b.first & Permissions) ? true : s.weighted({ 1, 2 }))) flags |= b.first; if (all) flags |= DecoF | (s.coin() ? NameF : 0u) | (s.coin() ? LineF : 0u);
			sg::LinkerHelper::LinkerOptions opt; for (auto& b : bits) if (flags & b.first) opt.flags |= b.second; const bool full = all && s.chance(1, 3); if (full) { opt.flags = LinkerOptionBits::All; flags = (LineF << 2) - 1; }
			TrackAlloc track; if (s.coin()) opt.allocator = &track; if (s.coin()) opt.grammar = &lu::grammar(); if (s.coin()) opt.printer = &sink;
			std::map<uint32_t, sg::Instruction*> ptr; m->iterateInstructions([&](sg::Instruction& i) { if (i.hasResult()) ptr[uint32_t(i.getResultId())] = &i; });
			std::string what = "options"; for (int b = 0; b < 15; ++b) if (flags >> b & 1) what += " " + num(b); what += l.re ? ", library read" : ", library built"; what += cre ? ", consumer read" : ", consumer built"; what += opt.grammar ? ", grammar" : "";
			c.log.text.clear(); lu::Words before = l.w;
			if (ctx.verbose) ctx.note(what + "\nlibrary\n" + spv_ref::dump(l.v.m) + "\nconsumer\n" + spv_ref::dump(C.m) + "\n");
			const bool ok = sg::LinkerHelper::import(*l.m, *m, opt);
			if (opt.allocator) track.checkAllReturned("intermediate allocations of import");
			// what should have been resolved
			std::set<uint32_t> mapped; bool mismatch = false; struct Sym { uint32_t l, c; bool must, may; bool done = false; std::string name; }; std::vector<Sym> syms;
			for (auto& im : imports) if (C.imports.count(im.name) && l.v.exports.count(im.name)) { if (im.kind != Match_) mismatch = true; else mapped.insert(l.v.exports[im.name]); }
			for (auto& x : l.v.imports) if (C.imports.count(x.first)) mapped.insert(x.second);
			for (auto& im : imports) if (im.kind == Match_ && C.imports.count(im.name) && l.v.exports.count(im.name))
			{
				Sym y; y.l = l.v.exports[im.name]; y.c = C.imports[im.name]; y.name = im.name; Need n; std::set<uint32_t> seen; need(l.v, C, y.l, mapped, seen, {}, n, true);
				if (flags & SrcF) n.must &= ~uint32_t(StrF), n.may &= ~uint32_t(StrF); y.must = ((n.must | n.may) & ~flags) == 0; y.may = (n.must & ~flags) == 0; syms.push_back(y);
			}
			lu::Words rw; { MemWriter wr; const bool direct = (flags & IdsF) && s.coin(); bool w; if (direct) { if (!(flags & IfaceF)) m->finalizeEntryPoints(); w = m->write(wr); } else w = m->finalizeAndWrite(wr, opt.grammar && s.coin() ? opt.grammar : nullptr); CHECK_SIG(w, ok ? "write" : "write after failure", "the linked module was not written (" + what + "): " + c.log.text); rw = wr.w; }
			View R; view(rw, R, "linked"); auto dumps = [&](const std::string& e) { return e + " (" + what + ")\nlog: " + c.log.text + "library\n" + spv_ref::dump(l.v.m) + "\nconsumer\n" + spv_ref::dump(C.m) + "\nlinked\n" + spv_ref::dump(R.m); };
			#define LCHECK(cond, sig, msg) do { if (!(cond)) throw pbt::Fail((sig), std::string(__FILE__ ":" PBT_STR(__LINE__) ": ") + dumps(msg)); } while (0)
			// the consumer is still there
			IdMap cm; std::set<uint32_t> old; for (auto& p : ptr) { cm[p.first] = uint32_t(p.second->getResultId()); }
			for (auto id : C.ids) { LCHECK(cm.count(id), "id", "id of the consumer unknown"); LCHECK(R.m.find(cm[id]), "lost", "%" + num(id) + " of the consumer got lost"); LCHECK(old.insert(cm[id]).second, "merged", "two ids of the consumer became one"); }
			auto cmap = [&](uint32_t id) { auto it = cm.find(id); return it == cm.end() ? 0u : it->second; };
			bool allDone = true;
			for (auto& y : syms)
			{
				auto it = R.imports.find(y.name); y.done = it == R.imports.end(); LCHECK(y.done || it->second == cmap(y.c), "linkage", "import " + y.name + " names another id");
				if (!y.must && !y.may) LCHECK(!y.done, "unpermitted", "import " + y.name + " was resolved without permission");
				if (y.must) LCHECK(y.done, "unresolved", "import " + y.name + " was not resolved");
				allDone &= y.done; resolvedTotal += y.done;
			}
			LCHECK(ok == (allDone && !mismatch), ok ? "failure hidden" : "success hidden", std::string("import returned ") + (ok ? "true" : "false"));
			for (auto& i : C.imports) { bool d = false; for (auto& y : syms) d |= y.done && y.name == i.first; if (!d) LCHECK(R.imports.count(i.first) && R.imports[i.first] == cmap(i.second), "import lost", "unresolved import " + i.first + " lost its decoration"); }
			for (auto& i : R.imports) LCHECK(C.imports.count(i.first) || l.v.imports.count(i.first), "import added", "import " + i.first + " appeared"); LCHECK(!R.twice, "import twice", "an import or export is declared twice");
			LCHECK(R.exports.size() == C.exports.size(), "exports", "exports of the consumer changed"); for (auto& x : C.exports) LCHECK(R.exports.count(x.first) && R.exports[x.first] == cmap(x.second), "exports", "export " + x.first);
			// ids of the library
			Match mt{ l.v, R, C, old, cm, {}, {}, {}, {} };
			std::map<uint32_t, uint32_t> initOf; // variable of the result -> initializer it may have got
			for (auto& y : syms) mt.lm[y.l] = cmap(y.c); for (auto& x : l.v.imports) if (C.imports.count(x.first)) mt.lm[x.second] = cmap(C.imports[x.first]);
			for (auto& y : syms) if (y.done)
			{
				auto *a = l.v.m.find(y.l), *b = R.m.find(cmap(y.c)); LCHECK(a->op == b->op, "symbol", "kind of " + y.name);
				if (a->op == 54) { LCHECK(R.defined(b->result), "no body", "import " + y.name + " has no body"); const bool same = mt.function(y.l, cmap(y.c), true); LCHECK(same, "body", mt.err); }
				else { const bool same = mt.bind(a->type, b->type); LCHECK(same, "variable type", mt.err); if (a->ops.size() > 1) { LCHECK(b->ops.size() > 1, "initializer lost", "import " + y.name + " lost its initializer"); const bool si = mt.bind(a->w(1), b->w(1)); LCHECK(si, "initializer", mt.err); } else LCHECK(b->ops.size() == 1, "initializer", "initializer from nowhere"); initOf[b->result] = 1; }
			}
			for (auto& y : syms) if (!y.done && R.func.count(cmap(y.c))) LCHECK(!R.defined(cmap(y.c)), "partial body", "unresolved import " + y.name + " has a body");
			if (flags & SrcF) { size_t k = 0; std::vector<std::string> want = C.strings; want.insert(want.end(), l.v.strings.begin(), l.v.strings.end()); auto got = R.strings; std::sort(want.begin(), want.end()); std::sort(got.begin(), got.end()); LCHECK(want == got, "strings", "debug strings"); (void)k; }
			else if (!(flags & StrF)) LCHECK(R.strings == C.strings, "strings", "debug strings changed");
			{ auto want = C.processed; if (flags & ProcF) want.insert(want.end(), l.v.processed.begin(), l.v.processed.end()); LCHECK(want == R.processed, "processed", "OpModuleProcessed instructions"); }
			// nothing else changed
			std::map<int, std::vector<std::string>> oldSeq, newSeq; std::string lost; std::set<uint32_t> resolvedF, resolvedV; for (auto& y : syms) if (y.done) (R.func.count(cmap(y.c)) ? resolvedF : resolvedV).insert(cmap(y.c));
			auto seq = [&](const View& v, const std::function<uint32_t(uint32_t)>& f, std::map<int, std::vector<std::string>>& out, bool filter) {
				uint32_t cur = 0;
				for (auto& d : v.m.insts)
				{
					if (d.op == 54) cur = f(d.result); const uint32_t in = cur; if (d.op == 56) cur = 0;
					if (in) { if (!old.count(in) && filter) continue; if (resolvedF.count(in) && d.op != 54 && d.op != 55) continue; out[int(1000 + in)].push_back(normed(d, f)); continue; }
					switch (d.op) { case 17: case 10: case 11: case 5: case 6: case 71: case 72: case 3: case 4: case 7: case 330: continue; }
					if (d.op == 15) { std::string r = "entry " + num(d.w(0)) + " " + num(f(d.w(1))) + " " + d.str(2); out[15].push_back(r); continue; }
					if (d.result && filter && !old.count(f(d.result))) continue;
					if (d.op == 59 && resolvedV.count(f(d.result))) { out[59].push_back("variable " + num(f(d.type)) + " " + num(f(d.result)) + " " + num(d.w(0))); continue; }
					out[isTypeOp(d.op) || isConstOp(d.op) ? 19 : d.op].push_back(normed(d, f));
				} };
			seq(C, cmap, oldSeq, false); seq(R, [](uint32_t i) { return i; }, newSeq, true);
			for (auto& q : oldSeq) { auto& n = newSeq[q.first]; size_t k = 0; while (k < q.second.size() && k < n.size() && q.second[k] == n[k]) ++k; if (k < q.second.size() || k < n.size()) { lost = "section " + num(q.first) + ": " + (k < q.second.size() ? q.second[k] : "nothing") + " of the consumer became " + (k < n.size() ? n[k] : "nothing"); break; } }
			LCHECK(lost.empty(), "consumer changed", lost);
			for (auto& q : newSeq) LCHECK(oldSeq.count(q.first), "consumer changed", "section " + num(q.first) + " appeared: " + q.second[0]);
			for (auto& x : C.sets) LCHECK(R.sets.count(x), "set lost", x); for (auto& x : C.exts) LCHECK(R.exts.count(x), "extension lost", x);
			for (auto& x : l.v.imports) if (!C.imports.count(x.first)) { const bool used = mt.lm.count(x.second); if (used) ctx.label("import brought"); LCHECK(used ? R.imports.count(x.first) && R.imports[x.first] == mt.lm[x.second] : !ok || !R.imports.count(x.first), "import of the library", "import " + x.first + " of the library is " + (used ? "not declared" : "declared without need")); if (used && R.func.count(mt.lm[x.second])) LCHECK(!R.defined(mt.lm[x.second]), "import of the library", "import " + x.first + " has a body"); }
			// nothing was added that is not referenced
			std::set<uint32_t> image = old; for (auto& p : mt.lm) image.insert(p.second); image.insert(mt.vague.begin(), mt.vague.end());
			const bool nothing = !ok; for (auto id : R.ids) if (!image.count(id)) { auto* d = R.m.find(id); if (d->op == 7 && (flags & SrcF)) continue; LCHECK(nothing, "surplus", "nothing refers to the added " + spv_ref::dump(*d)); }
			for (auto id : R.ids) if (!old.count(id)) { ++brought; auto* d = R.m.find(id); LCHECK(!isTypeOp(d->op) || (flags & TypesF), "type imported", "type without permission: " + spv_ref::dump(*d)); LCHECK(!isConstOp(d->op) || (flags & ConstsF) || mt.vague.count(id), "constant imported", "constant without permission: " + spv_ref::dump(*d)); LCHECK(d->op != 11 || (flags & ExtF), "set imported", "set without permission"); LCHECK(d->op != 54 || (flags & FuncF), "function imported", "function without permission"); }
			// names and decorations
			std::map<uint32_t, std::vector<uint32_t>> from; for (auto& y : syms) if (!y.done) mt.lm.erase(y.l); for (auto& p : mt.lm) from[p.second].push_back(p.first);
			auto show = [](const std::multiset<std::string>& a) { std::string r; for (auto& x : a) r += " {" + x + "}"; return r; };
			for (auto id : R.ids)
			{
				std::multiset<std::string> cn, cd; for (auto& p : cm) if (p.second == id && C.ids.count(p.first)) { if (C.names.count(p.first)) cn = C.names[p.first]; if (C.decos.count(p.first)) cd = C.decos[p.first]; }
				auto rn = R.names.count(id) ? R.names[id] : std::multiset<std::string>(), rd = R.decos.count(id) ? R.decos[id] : std::multiset<std::string>();
				std::set<std::string> ln, ld; bool anyFrom = from.count(id); bool added = false; std::vector<std::multiset<std::string>> options;
				if (anyFrom) for (auto k : from[id]) { if (l.v.names.count(k)) { options.push_back(l.v.names[k]); } if (l.v.decos.count(k)) for (auto& x : l.v.decos[k]) ld.insert(x); }
				if (cn.empty() && (flags & NameF) && !options.empty()) { bool f = false; for (auto& x : options) f |= x == rn; LCHECK(f, "names", "names of %" + num(id) + " are" + show(rn) + " instead of" + show(options[0])); }
				else LCHECK(rn == cn || (nothing && !old.count(id)), "names", "names of %" + num(id) + " are" + show(rn) + " instead of" + show(cn));
				std::multiset<std::string> want = cd; if (flags & DecoF) for (auto& x : ld) if (!cd.count(x)) want.insert(x); (void)added; (void)ln;
				LCHECK(want == rd || (nothing && !old.count(id)), "decorations", "decorations of %" + num(id) + " are" + show(rd) + " instead of" + show(want));
			}
			// capabilities
			const bool noLink = (flags & RmF) && R.imports.empty() && R.exports.empty() && !R.entries.empty(); // without entry points the capability is mandatory
			LCHECK(R.caps.count(5) == (noLink ? 0u : C.caps.count(5)), noLink ? "linkage kept" : "linkage removed", noLink ? "linkage capability not removed" : "linkage capability removed");
			for (auto x : C.caps) if (x != 5) LCHECK(R.caps.count(x), "capability lost", "capability " + num(x));
			if (!((flags & AutoF) && opt.grammar)) { for (auto x : l.v.caps) if (x != 5) LCHECK(R.caps.count(x), "capability", "capability " + num(x) + " of the library is missing"); for (auto& x : l.v.exts) LCHECK(R.exts.count(x), "extension", x); }
			LCHECK(R.m.version >= std::max(C.m.version, l.v.m.version), "version", "version " + num(R.m.version));
			{ std::string e = interfaces(R); LCHECK(e.empty(), "interface", e); e = spv_ref::checkLayout(R.m); LCHECK(e.empty(), "layout", e); e = spv_ref::validate(rw); LCHECK(e.empty(), "invalid " + kindOf(e), e); }
			// the library is as before
			{ MemWriter wr; CHECK_SIG(const_cast<const sg::Module*>(l.m)->write(wr), "library", "the library is not written any more"); LCHECK(wr.w == l.w, "library changed", "the library changed"); }
			ctx.mix(rw.data(), rw.size() * 4); ctx.label(ok ? "succeeded" : "failed"); ctx.label("brought", brought); ctx.label("mapped", mapped.size()); if (mismatch) ctx.label("mismatch"); bool either = false; for (auto& y : syms) either |= y.must != y.may; if (either) ctx.label("either"); 
			for (auto& y : syms) { if (!y.may) ctx.label("not permitted"); if (y.done && mt.lm.size() > 30) ctx.label("large bodies"); }
			if (ctx.wantSample || ctx.verbose) ctx.note(dumps(ok ? "succeeded" : "failed"));
			cw = rw;
			if (allocs && s.coin()) { l.re.reset(); l.p.reset(); l.ta->checkAllReturned("a library was destroyed"); }
		}
		if (allocs)
		{
			if (s.coin()) { for (auto& l : libs) { l.re.reset(); l.p.reset(); l.ta->checkAllReturned("a library was destroyed"); l.ta.reset(); } MemWriter wr; CHECK_SIG(m->write(wr) && wr.w == cw, "changed", "the linked module changed when its libraries were destroyed"); cre.reset(); cp.reset(); cta.checkAllReturned("the consumer was destroyed"); }
			else { cre.reset(); cp.reset(); cta.checkAllReturned("the consumer was destroyed"); for (auto& l : libs) { if (l.p) { MemWriter wr; CHECK_SIG(static_cast<const sg::Module*>(l.m)->write(wr) && wr.w == l.w, "changed", "a library changed when the consumer was destroyed"); } l.re.reset(); l.p.reset(); l.ta->checkAllReturned("a library was destroyed"); } }
		}
		ctx.label("imports", imports.size()); ctx.label("resolved", resolvedTotal); ctx.label("missing", missing);
		ctx.nontrivial = all ? resolvedTotal > 0 && brought >= 5 : imports.size() > 0;
	}
}
void linkCase(Src& s, Ctx& ctx, bool all, bool allocs) { run(s, ctx, all, allocs); }
