// P09: names and literal strings.
#include "prog.h"
using namespace prog;
using spv_ref::Mod; using spv_ref::Inst;
namespace
{
	std::string utf8(uint32_t c) { std::string r; if (c < 0x80) r += char(c); else if (c < 0x800) { r += char(0xc0 | c >> 6); r += char(0x80 | (c & 63)); } else if (c < 0x10000) { r += char(0xe0 | c >> 12); r += char(0x80 | (c >> 6 & 63)); r += char(0x80 | (c & 63)); } else { r += char(0xf0 | c >> 18); r += char(0x80 | (c >> 12 & 63)); r += char(0x80 | (c >> 6 & 63)); r += char(0x80 | (c & 63)); } return r; }
	struct Strings
	{
		Src& s; std::vector<std::string> used; uint64_t longest = 0, multibyte = 0;
		std::string make(bool empty = true, uint32_t maxLen = 40)
		{
			std::string r;
			if (!used.empty() && s.chance(1, 4)) // related to another one: the same, a prefix, an extension, one byte changed
			{
				r = s.pick(used);
				switch (s.below(4)) { case 0: break; case 1: r = r.substr(0, s.below(uint32_t(r.size()) + 1)); while (!r.empty() && (r.back() & 0x80)) r.pop_back(); break; case 2: r += utf8(s.range(1, 127)); break; default: if (!r.empty()) { size_t k = s.below(uint32_t(r.size())); if (!(r[k] & 0x80)) r[k] = char(s.range(1, 126)); } }
			}
			else
			{
				const uint32_t n = s.chance(1, 60) ? s.below(3000) : s.chance(1, 8) ? s.below(400) : s.below(maxLen); const bool ascii = s.coin();
				static const uint32_t cps[] = { 'a', 'b', '_', '.', '0', 1, 0x7f, 0x80, 0xe4, 0x7ff, 0x800, 0x20ac, 0xffff, 0x10000, 0x1f600, 0x10ffff };
				if (n > 100) { uint32_t c = ascii ? 'x' : s.pick(cps); for (uint32_t i = 0; i < n; ++i) r += utf8(c + (c < 0x7f ? i % 3 : 0)); }
				else for (uint32_t i = 0; i < n; ++i) r += utf8(ascii ? s.range(32, 126) : s.pick(cps));
			}
			if (r.empty() && !empty) r = "e";
			used.push_back(r); longest = std::max<uint64_t>(longest, r.size()); for (char c : r) if (c & 0x80) { ++multibyte; break; }
			return r;
		}
	};
	using NameSet = std::multiset<std::string>;
	struct Want
	{
		std::map<std::pair<Instruction*, uint32_t>, NameSet> names; // owner and member
		std::vector<std::pair<sg::EntryPoint*, std::string>> entries; std::vector<std::pair<sg::BasicBlock*, std::string>> blocks; std::vector<std::pair<sg::Function*, std::string>> funcs;
		std::vector<std::pair<Instruction*, std::string>> strings; std::set<std::string> exts, imports; std::map<std::string, Instruction*> importI;
		std::vector<std::vector<uint32_t>> sources; // words behind the leading one, results as ~0
		std::vector<std::string> processed;
	};
	std::string show(const std::string& s) { std::string r = "\""; for (unsigned char c : s.substr(0, 60)) if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\x%02x", c); r += b; } else r += char(c); return r + "\"" + (s.size() > 60 ? "... of " + std::to_string(s.size()) + " bytes" : ""); }

	void p09(Src& s, Ctx& ctx)
	{
		Strings st{ s }; Want w; sg::HeapAllocator alloc; Log log; sg::Module m(&alloc, &log); m.setSpvVersion(1, 3);
		std::vector<Instruction*> targets, structs; std::vector<sg::Function*> fns;
		auto nm = [&](Instruction* i, uint32_t mem, const std::string& x) { w.names[{ i, mem }].insert(x); };
		auto add = [&](const std::function<Instruction*(const char*)>& f) { const bool named = s.chance(3, 4); std::string x = named ? st.make() : ""; Instruction* i = f(named ? x.c_str() : nullptr); CHECK_SIG(i && !i->isErrorInstr(), "rejected", "building call rejected: " + log.text); if (std::find(targets.begin(), targets.end(), i) != targets.end()) return i; /* an existing type or constant keeps its name */ if (named) nm(i, ~0u, x); targets.push_back(i); return i; };
		auto implicit = [&](sg::Function* f) { nm(f->front().getLabel(), ~0u, "FunctionEntry"); }; // the library names the block it adds
		Instruction* f32 = m.type<float>(); Instruction* ptr = m.type<float*>(sg::spv::StorageClass::Private); (void)ptr; targets.push_back(f32);
		Instruction* file = nullptr;
		const uint32_t steps = s.range(1, 14);
		std::string what; auto step = [&](uint32_t k) { what += std::to_string(k) + " "; return k; };
		for (uint32_t k = 0; k < steps; ++k) switch (step(s.below(16)))
		{
		case 0: { // entry point
			std::string x = st.make(false); bool dup = false; for (auto& e : w.entries) dup |= e.second == x; if (dup) break; sg::EntryPoint* ep;
			if (s.coin()) { ep = &m.addEntryPoint<void>(sg::spv::ExecutionModel::Vertex, x.c_str()); implicit(ep); } else { ep = &m.addEntryPoint(); ep->setReturnType(m.type<void>()); ep->finalize(sg::spv::ExecutionModel::GLCompute, sg::spv::FunctionControlMask::MaskNone, x.c_str()); ep->addBasicBlock(); }
			for (auto& b : *ep) b.returnValue(); nm(ep->getFunction(), ~0u, x); w.entries.push_back({ ep, x }); fns.push_back(ep); targets.push_back(ep->getFunction()); break; }
		case 1: { // function
			const bool named = s.coin(); std::string x = named ? st.make() : ""; const char* p = named ? x.c_str() : nullptr; sg::Function* f;
			if (s.coin()) { f = &m.addFunction<void, float>(p); implicit(f); } else { f = &m.addFunction(); f->setReturnType(m.type<void>()); f->addParameters(f32); f->finalize(sg::spv::FunctionControlMask::MaskNone, p); f->addBasicBlock(); }
			for (auto& b : *f) b.returnValue(); if (named) { nm(f->getFunction(), ~0u, x); w.funcs.push_back({ f, x }); } fns.push_back(f); targets.push_back(f->getFunction()); targets.push_back(f->getParameter(0)); break; }
		case 2: if (!fns.empty()) { const bool named = s.coin(); std::string x = named ? st.make() : ""; sg::Function* f = s.pick(fns); sg::BasicBlock& b = f->addBasicBlock(named ? x.c_str() : nullptr); b.returnValue(); if (named) { nm(b.getLabel(), ~0u, x); w.blocks.push_back({ &b, x }); } targets.push_back(b.getLabel()); } break;
		case 3: add([&](const char* p) { return m.variable<float>(sg::spv::StorageClass::Private, p); }); break;
		case 4: if (!fns.empty()) { sg::Function* f = s.pick(fns); add([&](const char* p) { return s.coin() ? f->variable<float>(p) : f->variable<int>(p); }); } break;
		case 5: add([&](const char* p) { return m.constant(s.below(5), false, p); }); break;
		case 6: add([&](const char* p) { return m.specConstant(1.5f, p); }); break;
		case 7: { sg::Type t(m.newType()); t.Struct(); const uint32_t n = s.range(1, 6); for (uint32_t i = 0; i < n; ++i) t.Member().Float(); structs.push_back(add([&](const char* p) { return m.addType(t, p); })); break; }
		case 8: add([&](const char* p) { return m.uniformConstant<float>(p); }); break;
		case 9: if (!targets.empty()) { Instruction* t = s.pick(targets); std::string x = st.make(); if (s.coin()) m.addName(t, x.c_str()); else m.addName(t, x.c_str()); nm(t, ~0u, x); } break;
		case 10: case 11: if (!structs.empty()) { Instruction* t = s.pick(structs); std::string x = st.make(); uint32_t mem = s.chance(1, 6) ? s.word() % 70000 : s.below(8); m.addMemberName(t, x.c_str(), mem); nm(t, mem, x); } break;
		case 12: { std::string x = st.make(); file = m.addSourceStringInstr()->opString(x.c_str()); w.strings.push_back({ file, x }); std::vector<uint32_t> v{ 7, ~0u }; auto p = spv_ref::packString(x); v.insert(v.end(), p.begin(), p.end()); w.sources.push_back(v); break; }
		case 13: {
			std::string x = st.make(); std::vector<uint32_t> v; auto p = spv_ref::packString(x);
			switch (s.below(3))
			{
			case 0: m.addSourceStringInstr()->opSourceExtension(x.c_str()); v = { 4 }; v.insert(v.end(), p.begin(), p.end()); break;
			case 1: if (!file) { uint32_t ver = s.word(); m.addSourceStringInstr()->opSource(sg::spv::SourceLanguage::GLSL, ver); v = { 3, 2, ver }; w.sources.push_back(v); break; }
				{ uint32_t ver = s.word(); const bool text = s.coin(); m.addSourceStringInstr()->opSource(sg::spv::SourceLanguage::HLSL, ver, file, text ? x.c_str() : nullptr); v = { 3, 5, ver, ~1u }; if (text) v.insert(v.end(), p.begin(), p.end()); w.sources.push_back(v);
				while (text && s.chance(1, 3)) { std::string y = st.make(); auto q = spv_ref::packString(y); m.addSourceStringInstr()->opSourceContinued(y.c_str()); v = { 2 }; v.insert(v.end(), q.begin(), q.end()); w.sources.push_back(v); } } v.clear(); break;
			default: break;
			}
			if (!v.empty() && v[0] == 4) w.sources.push_back(v);
			break; }
		case 14: { std::string x = st.make(false); m.addExtension(x.c_str()); w.exts.insert(x); break; }
		default: { std::string x = st.make(false); Instruction* i = m.addExtensionInstructionImport(x.c_str()); auto it = w.importI.find(x); CHECK_SIG(it == w.importI.end() || it->second == i, "import twice", "importing " + show(x) + " again gives another instruction"); w.importI[x] = i; w.imports.insert(x); targets.push_back(i); break; }
		}
		auto described = [&] { std::string r; for (auto& x : st.used) r += show(x) + " "; return r + "; steps " + what; };
		if (ctx.wantSample || ctx.verbose) ctx.note(described());
		for (auto& x : st.used) ctx.mix(x); ctx.mix(steps); ctx.nontrivial = st.used.size() >= 3; ctx.label("strings", st.used.size()); ctx.label("with multibyte characters", st.multibyte); if (st.longest > 300) ctx.label("long");
		// lookups
		auto queries = [&] { std::vector<std::string> q = st.used; for (auto x : st.used) { if (q.size() > 60) break; q.push_back(x + "a"); if (!x.empty()) { x.pop_back(); q.push_back(x); } } q.push_back(""); return q; };
		auto lookups = [&](const sg::Module& mod, const char* when, const std::function<Instruction*(Instruction*)>& tr)
		{
			std::map<const Instruction*, std::pair<size_t, std::multiset<std::pair<uint32_t, std::string>>>> per;
			for (auto& n : w.names)
			{
				const Instruction* o = tr(n.first.first); CHECK_SIG(o, "owner", "owner not found");
				const char* g = n.first.second == ~0u && s.coin() ? o->getName() : s.coin() ? o->getName(n.first.second) : mod.getName(o, n.first.second);
				CHECK_SIG(g && n.second.count(g), "getName", std::string(when) + ": name " + show(*n.second.begin()) + " of member " + std::to_string(int(n.first.second)) + " is reported as " + (g ? show(g) : "null") + " " + described());
				for (auto& x : n.second) per[o].second.insert({ n.first.second, x });
			}
			for (auto& p : per) { std::multiset<std::pair<uint32_t, std::string>> got; for (auto& x : mod.getNames(p.first)) got.insert({ x.memberIndex, x.name }); CHECK_SIG(got == p.second.second, "getNames", std::string(when) + ": getNames lists " + std::to_string(got.size()) + " names instead of " + std::to_string(p.second.second.size()) + " " + described()); }
			for (auto* t : targets) if (!w.names.count({ t, ~0u })) { const Instruction* o = tr(t); CHECK_SIG(o->getName() == nullptr, "getName of nothing", std::string(when) + ": unnamed instruction has the name " + show(o->getName())); }
			for (auto& q : queries())
			{
				Instruction* i = mod.getInstructionByName(q.c_str()); bool exists = false, right = false;
				for (auto& n : w.names) if (n.first.second == ~0u && n.second.count(q)) { exists = true; right |= tr(n.first.first) == i; }
				CHECK_SIG(exists ? i && right : !i, "getInstructionByName", std::string(when) + ": " + show(q) + (exists ? i ? " finds an instruction of another name" : " is not found" : " finds an instruction, but nothing has that name"));
			}
			for (auto& x : w.imports) { auto* i = mod.getExtensionInstructionImport(x.c_str()); CHECK_SIG(i && i == tr(w.importI[x]), "import lookup", std::string(when) + ": import " + show(x)); }
		};
		auto self = [](Instruction* i) { return i; };
		lookups(m, "built", self);
		for (auto& e : w.entries) CHECK_SIG(e.second == e.first->getName(), "entry point name", "entry point " + show(e.second) + " calls itself " + show(e.first->getName()));
		for (auto& f : w.funcs) CHECK_SIG((f.first->getName() && w.names[{ f.first->getFunction(), ~0u }].count(f.first->getName())), "function name", "function " + show(f.second));
		for (auto& b : w.blocks) CHECK_SIG((b.first->getName() && w.names[{ b.first->getLabel(), ~0u }].count(b.first->getName())), "block name", "block " + show(b.second));
		// serialized form
		MemWriter wr; CHECK_SIG(m.finalizeAndWrite(wr), "write", log.text); Mod d; std::string err; CHECK_SIG(spv_ref::decode(wr.w, d, err), "decode", err + " " + described());
		auto serialized = [&](const Mod& d, const char* when)
		{
			std::map<std::pair<uint32_t, uint32_t>, NameSet> names; std::multiset<std::string> eps, exts, imps, strs; std::vector<std::vector<uint32_t>> src;
			for (auto& i : d.insts)
			{
				for (auto& o : i.ops) if (o.kind == K_LiteralString) { std::string x; for (auto v : o.w) x.append(reinterpret_cast<const char*>(&v), 4); x.resize(strnlen(x.data(), x.size())); CHECK_SIG(spv_ref::packString(x) == o.w, "padding", std::string(when) + ": literal " + show(x) + " is not padded with zeros to the next word"); }
				switch (i.op)
				{
				case 5: names[{ i.w(0), ~0u }].insert(i.str(1)); break; case 6: names[{ i.w(0), i.w(1) }].insert(i.str(2)); break;
				case 15: eps.insert(i.str(2)); break; case 10: exts.insert(i.str(0)); break; case 11: imps.insert(i.str(0)); break;
				case 2: case 3: case 4: case 7: { std::vector<uint32_t> v{ i.op }; if (i.op == 7) { v.push_back(~0u); strs.insert(i.str(0)); } for (size_t k = 0; k < i.ops.size(); ++k) if (i.ops[k].isId()) v.push_back(~1u); else v.insert(v.end(), i.ops[k].w.begin(), i.ops[k].w.end()); src.push_back(v); break; }
				}
			}
			std::map<std::pair<uint32_t, uint32_t>, NameSet> want; for (auto& n : w.names) want[{ uint32_t(n.first.first->getResultId()), n.first.second }] = n.second;
			CHECK_SIG(names == want, "serialized names", std::string(when) + ": names differ\n" + spv_ref::dump(d));
			std::multiset<std::string> we; for (auto& e : w.entries) we.insert(e.second); CHECK_SIG(eps == we, "serialized entry points", std::string(when) + ": entry point names differ\n" + spv_ref::dump(d));
			CHECK_SIG(exts == std::multiset<std::string>(w.exts.begin(), w.exts.end()), "serialized extensions", std::string(when) + ": extensions differ\n" + spv_ref::dump(d));
			CHECK_SIG(imps == std::multiset<std::string>(w.imports.begin(), w.imports.end()), "serialized imports", std::string(when) + ": imports differ\n" + spv_ref::dump(d));
			CHECK_SIG(src == w.sources, "serialized sources", std::string(when) + ": source instructions differ\n" + spv_ref::dump(d));
		};
		serialized(d, "written");
		// and read again
		Log l2; sg::Module r(&alloc, &l2); { MemReader rd(wr.w); CHECK_SIG(r.readAndInit(rd, lu::grammar()), "read", l2.text + described()); }
		auto other = [&](Instruction* i) { return r.getInstructionById(sg::spv::Id(uint32_t(m.getInstructionById(i->getResultId()) == i ? i->getResultId() : sg::spv::Id(0)))); };
		// reading forgets the ids: find the instruction by its place
		std::map<uint32_t, Instruction*> byId; { std::vector<Instruction*> at; r.iterateInstructions([&](Instruction& i) { at.push_back(&i); }); Mod x; MemWriter q; CHECK_SIG(r.finalizeAndWrite(q), "write", l2.text); CHECK_SIG(spv_ref::decode(q.w, x, err), "decode", err); CHECK_SIG(at.size() == d.insts.size() && x.insts.size() == d.insts.size(), "read", "number of instructions");
			CHECK_SIG(spv_ref::isoDiff(d, x).empty(), "read", spv_ref::isoDiff(d, x)); for (size_t i = 0; i < at.size(); ++i) if (d.insts[i].result) byId[d.insts[i].result] = at[i]; }
		(void)other;
		auto tr = [&](Instruction* i) -> Instruction* { auto it = byId.find(uint32_t(i->getResultId())); return it == byId.end() ? nullptr : it->second; };
		lookups(r, "read", tr);
		{ std::multiset<std::string> got, want; for (auto& e : r.getEntryPoints()) got.insert(e.getName()); for (auto& e : w.entries) want.insert(e.second); CHECK_SIG(got == want, "entry point names read", "entry points are called otherwise after reading"); }
		for (auto& x : w.strings) { auto* i = tr(x.first); std::string y; sg::String o(&alloc); sg::getLiteralString(o, i->getFirstActualOperand(), i->end()); CHECK_SIG((x.second.empty() ? o.empty() : !o.empty() && o.c_str() == x.second), "literal read", show(x.second));
			size_t left = 12; for (auto& q : queries())
			{
				if (!left--) break;
				CHECK_SIG(sg::compareLiteralString(q.c_str(), i->getFirstActualOperand(), i->end()) == (q == x.second), "literal compare", show(x.second) + " compared with " + show(q));
				const size_t k = s.below(uint32_t(q.size()) + 1); std::vector<char> part(q.begin(), q.begin() + k); // no terminator behind it
				CHECK_SIG(sg::compareLiteralString(part.data(), i->getFirstActualOperand(), i->end(), k) == (x.second.compare(0, k, q, 0, k) == 0), "literal prefix", show(x.second) + " compared with the first " + std::to_string(k) + " characters of " + show(q));
			} }
	}
	pbt::Reg r9("P09", "at least three strings", p09);
}
