// P31: preparing modules for linking: linkage decorations, exporting the variables of a function, turning definitions into declarations.
#include "prog.h"
#include "common/LinkerHelper.h"
using namespace prog;
using spv_ref::Mod; using spv_ref::Inst;

namespace
{
	std::string num(uint64_t v) { return std::to_string(v); }
	using Words = lu::Words;
	Words instr(uint32_t op, Words w) { w.insert(w.begin(), uint32_t(w.size() + 1) << 16 | op); return w; }
	void add(Words& w, const Words& x) { w.insert(w.end(), x.begin(), x.end()); }
	Mod decoded(const Words& w) { Mod m; std::string err; CHECK_SIG(spv_ref::decode(w, m, err), "decode", err + "\n" + spv_ref::dump(m)); return m; }
	Words encoded(const Mod& m, const std::vector<Words>& v) { Words w{ m.magic, m.version, m.generator, m.bound, m.schema }; for (auto& i : v) add(w, i); return w; }
	bool isDeco(uint32_t op) { return (op >= 71 && op <= 75) || op == 332 || op == 5632 || op == 5633; }
	// first instruction behind the given section (of those before the functions)
	size_t behind(const Mod& m, int section) { for (size_t k = 0; k < m.insts.size(); ++k) { const int x = spv_ref::section(m.insts[k].op, m, m.insts[k], false); if (x > section || x < 0) return k; } return m.insts.size(); }
	std::vector<Words> split(const Mod& m) { std::vector<Words> v; for (auto& i : m.insts) v.push_back(i.words); return v; }

	// more names and decorations, of instructions in bodies above all
	Words enrich(Src& s, const Words& w, uint32_t& groups)
	{
		Mod m = decoded(w); std::vector<uint32_t> body, other; bool fn = false, block = false; for (auto& i : m.insts) { if (i.op == 54) fn = true; if (i.op == 248) block = true; if (i.op == 56) fn = block = false; if (i.result) (block ? body : other).push_back(i.result); }
		auto any = [&] { return !body.empty() && s.chance(3, 4) ? s.pick(body) : s.pick(other); };
		std::vector<Words> v = split(m), names, decos; uint32_t n = s.below(6);
		for (uint32_t k = 0; k < n; ++k) { Words o{ any() }; add(o, spv_ref::packString("more" + num(k))); names.push_back(instr(5, o)); }
		n = s.below(6); for (uint32_t k = 0; k < n; ++k) decos.push_back(instr(71, { any(), s.coin() ? 0u : 42u }));
		if (s.chance(1, 4)) { const uint32_t id = m.bound++; decos.push_back(instr(71, { id, 0 })); decos.push_back(instr(73, { id })); Words o{ id }; n = s.range(1, 4); std::set<uint32_t> u; for (uint32_t k = 0; k < n; ++k) { const uint32_t x = any(); if (u.insert(x).second) o.push_back(x); } decos.push_back(instr(74, o)); ++groups; }
		size_t at = behind(m, 10); v.insert(v.begin() + at, decos.begin(), decos.end()); at = behind(m, 8); v.insert(v.begin() + at, names.begin(), names.end()); return encoded(m, v);
	}

	struct Fun { uint32_t id; size_t begin, end; bool blocks = false; std::set<uint32_t> ids; bool entry = false; };
	std::vector<Fun> functions(const Mod& m)
	{
		std::vector<Fun> r; bool block = false; std::set<uint32_t> eps;
		for (size_t k = 0; k < m.insts.size(); ++k) { auto& i = m.insts[k]; if (i.op == 15) eps.insert(i.w(1)); if (i.op == 54) { r.push_back({ i.result, k, k }); block = false; r.back().entry = eps.count(i.result) != 0; } if (r.empty()) continue; if (i.op == 248) block = r.back().blocks = true; if (block && i.result) r.back().ids.insert(i.result); if (i.op == 56) r.back().end = k; }
		return r;
	}
	void prepare(Src& s, Ctx& ctx)
	{
		Opts o; o.size = s.range(1, 7); o.depth = s.below(3); o.minFuncs = int(s.range(1, 3)); o.maxFuncs = o.minFuncs + int(s.below(3)); o.names = s.chance(4, 5); o.decorate = s.coin(); o.kernel = s.chance(1, 10); o.entries = s.coin() ? 0 : -1;
		Prog p(s, o); p.g.run(); Built b; write(p, b, false); uint32_t groups = 0; Words w = enrich(s, b.w, groups);
		sg::HeapAllocator a; Log log; sg::Module m(&a, &log); { MemReader rd(w); CHECK_SIG(m.readAndInit(rd, lu::grammar()), "read", "the module was not read: " + log.text + "\n" + spv_ref::dump(decoded(w))); }
		auto text = [&](const Words& x) { return "\n" + spv_ref::dump(decoded(x)); };
		{ MemWriter wr; CHECK_SIG(m.write(wr), "write", log.text); w = wr.w; }
		ctx.mix(w.data(), w.size() * 4); const uint32_t steps = s.range(1, 5); std::vector<uint32_t> order; for (auto& f : functions(decoded(w))) order.push_back(f.id); if (ctx.wantSample || ctx.verbose) ctx.note(spv_ref::dump(decoded(w)));
		for (uint32_t step = 0; step < steps; ++step)
		{
			const Mod d = decoded(w); std::vector<Words> want = split(d); std::string what; const auto fs = functions(d);
			auto inst = [&](uint32_t id) { auto* i = m.getInstructionById(sg::spv::Id{ id }); CHECK_SIG(i, "instruction", "no instruction of id " + num(id)); return i; };
			auto decorate = [&](uint32_t id, uint32_t type, const std::string& name) { Words x{ id, 41 }; add(x, spv_ref::packString(name)); x.push_back(type); return instr(71, x); };
			std::vector<uint32_t> vars; std::set<uint32_t> globals; { bool fn = false; for (auto& i : d.insts) { fn |= i.op == 54; if (i.op == 59) { vars.push_back(i.result); if (!fn) globals.insert(i.result); } } }
			switch (s.weighted({ 3, 4, 4, 2 }))
			{
			case 0: // a linkage decoration of anything
			{
				std::vector<uint32_t> ids; for (auto& i : d.insts) if (i.result && i.op != 73) ids.push_back(i.result);
				uint32_t id = s.pick(ids); if (s.chance(3, 4)) { if (!vars.empty() && s.coin()) id = s.pick(vars); else if (!fs.empty()) id = s.pick(fs).id; } const uint32_t op = d.find(id)->op;
				static const sg::spv::LinkageType types[] = { sg::spv::LinkageType::Export, sg::spv::LinkageType::Import, sg::spv::LinkageType::LinkOnceODR, sg::spv::LinkageType::Max }; const auto type = types[s.weighted({ 4, 4, 1, 1 })];
				const std::string name = s.chance(1, 5) ? std::string(s.below(9), 'x') : "symbol" + num(s.below(1000)); const bool null = s.chance(1, 20); const bool ok = !null && (op == 54 || op == 59) && type != sg::spv::LinkageType::Max;
				what = "addLinkageDecoration(%" + num(id) + ", " + num(uint32_t(type)) + ", \"" + name + "\")"; sg::Instruction* r = sg::LinkerHelper::addLinkageDecoration(null ? nullptr : inst(id), type, name.c_str());
				CHECK_SIG((r != nullptr) == ok, "linkage decoration", what + " on " + spv_ref::dump(*d.find(id)) + (ok ? " failed" : " succeeded"));
				if (ok) { want.insert(want.begin() + behind(d, 10), decorate(id, uint32_t(type), name)); sg::String n(&a); sg::Instruction* sym = nullptr; CHECK_SIG(sg::LinkerHelper::getLinkageTypeFromDecoration(r, &sym, &n) == type && sym == inst(id) && name == (n.c_str() ? n.c_str() : ""), "linkage type", what + " is not told back, the name is " + (n.c_str() ? n.c_str() : "null")); ctx.nontrivial = true; } ctx.label(ok ? "linkage decoration" : "linkage decoration refused"); break;
			}
			case 1: // variables of a function
			{
				if (fs.empty()) continue; const Fun& f = s.pick(fs); const bool imp = s.chance(1, 4); what = "addLinkageDecorateForUsedGlobalVariables(%" + num(f.id) + ")";
				std::set<uint32_t> seen{ f.id }, used; std::vector<uint32_t> todo{ f.id };
				while (!todo.empty()) { const uint32_t id = todo.back(); todo.pop_back(); for (auto& x : fs) if (x.id == id) { bool block = false; for (size_t k = x.begin; k <= x.end; ++k) { auto& i = d.insts[k]; block |= i.op == 248; if (!block) continue; for (auto& q : i.ops) if (q.isId() && globals.count(q.w[0])) used.insert(q.w[0]); if (i.op == 57 && seen.insert(i.w(0)).second) todo.push_back(i.w(0)); } } }
				std::map<uint32_t, std::vector<std::string>> named; for (auto& i : d.insts) if (i.op == 5) named[i.w(0)].push_back(i.str(1)); bool all = true; for (auto u : used) all &= named.count(u) != 0;
				const bool r = sg::LinkerHelper::addLinkageDecorateForUsedGlobalVariables(*inst(f.id)->getFunction(), imp ? sg::spv::LinkageType::Import : sg::spv::LinkageType::Export, s.coin() ? &a : nullptr);
				CHECK_SIG(r == all, "variables result", what + " returned " + num(r) + text(w)); MemWriter wr; CHECK_SIG(m.write(wr), "write", log.text); const Mod after = decoded(wr.w);
				// any order, any of the names of a variable
				const size_t at = behind(d, 10); std::set<uint32_t> got; for (auto& i : after.insts) { const size_t k = size_t(&i - after.insts.data()); if (k < at || got.size() >= used.size() || i.op != 71 || i.w(1) != 41) continue; const uint32_t id = i.w(0); bool ok = used.count(id) && named.count(id) && got.insert(id).second; if (ok) { bool any = false; for (auto& n : named[id]) any |= n == i.str(2); ok = any && i.words == decorate(id, imp, i.str(2)); } CHECK_SIG(ok, "variable decoration", what + " added " + spv_ref::dump(i) + text(w)); want.insert(want.begin() + k, i.words); }
				size_t expected = 0; for (auto u : used) expected += named.count(u); CHECK_SIG(got.size() == expected, "variables", what + ": " + num(got.size()) + " of " + num(expected) + " variables decorated" + text(wr.w)); if (expected) { ctx.nontrivial = true; ctx.label("variables of a function"); } if (!all) ctx.label("unnamed variable"); break;
			}
			case 2: // definition to declaration
			{
				std::vector<const Fun*> c; for (auto& f : fs) if (!f.entry) c.push_back(&f); if (c.empty()) continue; const Fun& f = *s.pick(c); what = "removeFunctionBody(%" + num(f.id) + ")";
				CHECK_SIG(sg::LinkerHelper::removeFunctionBody(*inst(f.id)->getFunction()), "body result", what + " failed");
				std::vector<Words> head, def; std::map<size_t, std::vector<Words>> decl; std::vector<Words>* to = &head; size_t k = 0; bool block = false, mine = false; uint32_t lost = 0;
				for (auto& i : d.insts)
				{
					if (i.op == 54) { mine = i.result == f.id; bool blocks = false; for (auto& x : fs) if (x.id == i.result) blocks = x.blocks; to = blocks && !mine ? &def : &decl[size_t(std::find(order.begin(), order.end(), i.result) - order.begin())]; block = false; } if (i.op == 248) block = true; if (i.op == 56) block = false;
					Words x = want[k++]; if (mine && block) continue;
					if (i.op == 5 || i.op == 6 || i.op == 71 || i.op == 72) { if (f.ids.count(i.w(0))) { ++lost; continue; } }
					if (i.op == 74) { Words t{ i.w(0) }; for (size_t q = 1; q < i.ops.size(); ++q) for (auto id : i.ops[q].w) if (!f.ids.count(id)) t.push_back(id); else ++lost; if (t.size() == 1 && x.size() > 2) continue; x = instr(74, t); }
					to->push_back(x);
				}
				// declarations come first, in the order the functions had
				want = head; for (auto& [at, v] : decl) want.insert(want.end(), v.begin(), v.end()); want.insert(want.end(), def.begin(), def.end()); if (f.blocks) { ctx.nontrivial = true; ctx.label("body removed"); } if (lost) ctx.label("names and decorations dropped"); break;
			}
			default: // what decorations say
			{
				auto it = m.getDecorations().begin(); size_t n = 0; const bool full = s.coin();
				for (auto& i : d.insts) if (isDeco(i.op)) { CHECK_SIG(it != m.getDecorations().end(), "decorations", "too few"); sg::Instruction* sym = nullptr; sg::String name(&a); const auto t = sg::LinkerHelper::getLinkageTypeFromDecoration(it.operator->(), full ? &sym : nullptr, full ? &name : nullptr); const bool is = i.op == 71 && i.w(1) == 41; CHECK_SIG(is ? uint32_t(t) == i.w(3) : t == sg::spv::LinkageType::Max, "linkage type", "linkage type " + num(uint32_t(t)) + " of " + spv_ref::dump(i)); if (is && full) CHECK_SIG(sym == inst(i.w(0)) && i.str(2) == (name.c_str() ? name.c_str() : ""), "linkage symbol", "symbol or name of " + spv_ref::dump(i) + " is " + (name.c_str() ? name.c_str() : "")); ++it; ++n; ctx.label(is ? "linkage told" : "no linkage told"); } else CHECK_SIG(sg::LinkerHelper::getLinkageTypeFromDecoration(nullptr) == sg::spv::LinkageType::Max, "linkage type", "of nothing"); what = "getLinkageTypeFromDecoration";
			}
			}
			ctx.mix(what.data(), what.size()); if (ctx.wantSample || ctx.verbose) ctx.note(what);
			MemWriter wr; CHECK_SIG(m.write(wr), "write", "after " + what + ": " + log.text); const Words expected = encoded(d, want);
			if (wr.w != expected) { CHECK_SIG(false, "module after " + what.substr(0, what.find('(')), what + " gave" + text(wr.w) + "\nexpected" + text(expected) + "\nbefore" + text(w)); }
			w = wr.w;
		}
	}
	pbt::Reg r31("P31", "a linkage decoration was added, the variables of a function were decorated or a function with blocks lost its body", prepare);
}
