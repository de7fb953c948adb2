// P23 (modules and their allocators), P24 (graphs of functions and calls), next to the parts in misc.cpp
#include "prog.h"
#include "track.h"
#include "misc.h"
#include "linker.h"
#include "common/ControlFlowGraph.h"
#include "common/FunctionCallGraph.h"
#include "common/ModulePrinter.h"
#include "common/ReflectionHelper.h"
using namespace prog;
using spv_ref::Mod; using spv_ref::Inst;

namespace
{
	std::string num(uint64_t v) { return std::to_string(v); }
	Mod decoded(const lu::Words& w) { Mod m; std::string err; CHECK_SIG(spv_ref::decode(w, m, err), "decode", err + "\n" + spv_ref::dump(m)); return m; }
	uint32_t idOf(const sg::BasicBlock* b) { return uint32_t(b->getLabel()->getResultId()); }
	uint32_t idOf(const sg::Function* f) { return uint32_t(f->getFunction()->getResultId()); }

	// ------------------------------------------------------------------------------------------ P24
	using CFG = sg::ControlFlowGraph<>;
	struct RefFn { std::vector<uint32_t> blocks; std::map<uint32_t, std::vector<uint32_t>> succ; std::vector<std::pair<uint32_t, uint32_t>> calls; /* callee, result */ };
	std::map<uint32_t, RefFn> reference(const Mod& m)
	{
		std::map<uint32_t, RefFn> r; RefFn* f = nullptr; uint32_t b = 0;
		for (auto& i : m.insts) switch (i.op)
		{
		case 54: f = &r[i.result]; break;
		case 56: f = nullptr; break;
		case 248: b = i.result; f->blocks.push_back(b); f->succ[b]; break;
		case 57: f->calls.push_back({ i.w(0), i.result }); break;
		case 249: f->succ[b] = { i.w(0) }; break;
		case 250: f->succ[b] = { i.w(1), i.w(2) }; break;
		case 251: for (size_t k = 1; k < i.ops.size(); ++k) if (i.ops[k].isId()) f->succ[b].push_back(i.w(k)); break;
		}
		return r;
	}
	void checkFlow(CFG& g, const RefFn& f, const Mod& m)
	{
		auto text = [&] { return "\n" + spv_ref::dump(m); };
		std::map<uint32_t, CFG::NodeType*> node; for (auto& n : g) { CHECK_SIG(n.data(), "node without block", text()); CHECK_SIG(node.emplace(idOf(n.data()), &n).second, "node twice", "block %" + num(idOf(n.data())) + " has two nodes" + text()); }
		CHECK_SIG(node.size() == f.blocks.size() && g.size() == f.blocks.size(), "nodes", num(node.size()) + " nodes for " + num(f.blocks.size()) + " blocks" + text());
		std::map<uint32_t, std::multiset<uint32_t>> in;
		for (auto b : f.blocks)
		{
			CHECK_SIG(node.count(b), "node missing", "block %" + num(b) + " has no node" + text());
			std::vector<uint32_t> got; for (auto& e : node[b]->outputs()) { CHECK_SIG(e.pTarget, "edge without node", text()); got.push_back(idOf(e.pTarget->data())); CHECK_SIG(node[got.back()] == e.pTarget, "edge to another node", text()); }
			auto show = [](const std::vector<uint32_t>& v) { std::string r; for (auto x : v) r += " %" + num(x); return r; };
			CHECK_SIG(got == f.succ.at(b), "edges", "edges of block %" + num(b) + " lead to" + show(got) + " instead of" + show(f.succ.at(b)) + text());
			sg::List<sg::BasicBlock*> targets(sg::HeapAllocator::instance()); CHECK_SIG(node[b]->data()->getBranchTargets(targets), "branch targets", "block %" + num(b) + " does not know its branch targets" + text());
			std::vector<uint32_t> t; for (auto* x : targets) t.push_back(x ? idOf(x) : 0u); CHECK_SIG(t == f.succ.at(b), "branch targets", "branch targets of block %" + num(b) + " are" + show(t) + " instead of" + show(f.succ.at(b)) + text());
			for (auto x : got) in[x].insert(b);
		}
		for (auto b : f.blocks) { std::multiset<uint32_t> got; for (auto& e : node[b]->inputs()) got.insert(idOf(e.pTarget->data())); CHECK_SIG(got == in[b], "inputs", "inputs of block %" + num(b) + text()); }
	}
	void checkCalls(sg::FunctionCallGraph& g, uint32_t root, const std::map<uint32_t, RefFn>& ref, const Mod& m, size_t& edges)
	{
		auto text = [&] { return " (graph of %" + num(root) + ")\n" + spv_ref::dump(m); };
		std::set<uint32_t> reach; std::vector<uint32_t> todo{ root }; while (!todo.empty()) { auto f = todo.back(); todo.pop_back(); if (!reach.insert(f).second) continue; for (auto& c : ref.at(f).calls) todo.push_back(c.first); }
		std::map<uint32_t, sg::FunctionCallGraph::NodeType*> node; for (auto& n : g) { CHECK_SIG(n.data(), "node without function", text()); CHECK_SIG(node.emplace(idOf(n.data()), &n).second, "node twice", "function %" + num(idOf(n.data())) + " has two nodes" + text()); }
		for (auto f : reach) CHECK_SIG(node.count(f), "node missing", "function %" + num(f) + " has no node" + text());
		CHECK_SIG(node.size() == reach.size() && g.size() == reach.size(), "nodes", num(node.size()) + " nodes for " + num(reach.size()) + " functions" + text());
		std::map<uint32_t, std::multiset<std::pair<uint32_t, uint32_t>>> in, gotIn;
		for (auto f : reach)
		{
			std::multiset<std::pair<uint32_t, uint32_t>> got, want(ref.at(f).calls.begin(), ref.at(f).calls.end());
			for (auto& e : node[f]->outputs()) { CHECK_SIG(e.pTarget && node[idOf(e.pTarget->data())] == e.pTarget, "edge to another node", text()); CHECK_SIG(e.data && uint32_t(e.data->getOperation()) == 57 && e.data->getFunction() && idOf(e.data->getFunction()) == f, "edge without call", "an edge of function %" + num(f) + " does not carry one of its calls" + text()); got.insert({ idOf(e.pTarget->data()), uint32_t(e.data->getResultId()) }); }
			CHECK_SIG(got == want, "call edges", "function %" + num(f) + " has " + num(got.size()) + " edges for " + num(want.size()) + " calls, or others" + text());
			for (auto& c : want) in[c.first].insert({ f, c.second }); edges += got.size();
			for (auto& e : node[f]->inputs()) gotIn[f].insert({ idOf(e.pTarget->data()), e.data ? uint32_t(e.data->getResultId()) : 0u });
		}
		for (auto f : reach) CHECK_SIG(in[f] == gotIn[f], "call inputs", "inputs of function %" + num(f) + text());
	}
	// functions calling each other, themselves included
	void web(Src& s, sg::Module& m, uint32_t n)
	{
		m.addCapability(sg::spv::Capability::Shader); m.setMemoryModel(sg::spv::AddressingModel::Logical, sg::spv::MemoryModel::GLSL450);
		std::vector<sg::Function*> f; const uint32_t entries = s.below(3);
		for (uint32_t i = 0; i < n; ++i)
		{
			sg::Function& x = i < entries ? static_cast<sg::Function&>(m.addEntryPoint()) : m.addFunction(); f.push_back(&x);
			x.setReturnType(m.type<void>()); if (i < entries) static_cast<sg::EntryPoint&>(x).finalize(sg::spv::ExecutionModel::GLCompute, sg::spv::FunctionControlMask::MaskNone, ("e" + num(i)).c_str()); else x.finalize(sg::spv::FunctionControlMask::MaskNone, nullptr);
		}
		for (uint32_t i = 0; i < n; ++i)
		{
			if (i >= entries && s.chance(1, 8)) continue; // only declared
			const uint32_t blocks = 1 + s.below(3); std::vector<sg::BasicBlock*> b; for (uint32_t k = 0; k < blocks; ++k) b.push_back(&f[i]->addBasicBlock());
			for (uint32_t k = 0; k < blocks; ++k)
			{
				for (uint32_t c = s.below(4); c > 0; --c) { if (n > entries && s.chance(7, 8)) (*b[k])->call(f[entries + s.below(n - entries)]); else (*b[k])->opUndef(m.type<int>()); }
				if (k + 1 < blocks) { if (s.coin()) (*b[k])->opBranch(b[1 + s.below(blocks - 1)]); else (*b[k])->opBranchConditional(m.constant(true), b[1 + s.below(blocks - 1)], b[1 + s.below(blocks - 1)]); } else (*b[k])->opReturn();
			}
		}
	}
	// any control flow whatsoever, as words
	lu::Words anyFlow(Src& s)
	{
		lu::Words w{ 0x07230203, 0x00010300, 0, 0, 0 }; auto ins = [&](uint32_t op, std::initializer_list<uint32_t> o) { w.push_back(uint32_t(o.size() + 1) << 16 | op); w.insert(w.end(), o); };
		const bool wide = s.chance(1, 3); // 64 bit selectors are the known finding switch-64bit of P05: not used by a switch
	 enum { Void = 1, Fn, Bool, U, Cond, Sel, First };
		ins(17, { 1 }); if (wide) ins(17, { 11 }); ins(14, { 0, 1 }); uint32_t next = First; const uint32_t funcs = 1 + s.below(3); std::vector<uint32_t> fid; for (uint32_t i = 0; i < funcs; ++i) fid.push_back(next++);
		ins(19, { Void }); ins(33, { Fn, Void }); ins(20, { Bool }); ins(21, { U, wide ? 64u : 32u, 0 }); ins(41, { Bool, Cond }); if (wide) ins(43, { U, Sel, 7, 9 }); else ins(43, { U, Sel, 7 });
		for (auto f : fid)
		{
			ins(54, { Void, f, 0, Fn }); const uint32_t n = 1 + s.below(7), at = next; next += n;
			for (uint32_t k = 0; k < n; ++k)
			{
				ins(248, { at + k }); for (uint32_t c = s.below(3); c > 0; --c) if (s.chance(1, 2)) ins(57, { Void, next++, s.pick(fid) }); else ins(1, { U, next++ });
				auto t = [&] { return at + s.below(n); };
				switch (s.weighted({ 3, 3, 3, 2, 1, 1 }))
				{
				case 0: ins(249, { t() }); break;
				case 1: { uint32_t a = t(), b = s.chance(1, 4) ? a : t(); if (s.coin()) ins(250, { Cond, a, b }); else ins(250, { Cond, a, b, 3, 5 }); break; }
				case 2: if (wide) { ins(253, {}); break; } else { const uint32_t q = s.below(4); std::vector<uint32_t> o{ Sel, t() }; for (uint32_t i = 0; i < q; ++i) { o.push_back(s.coin() ? s.below(5) : at + s.below(n)); if (wide) o.push_back(s.below(3)); o.push_back(t()); } w.push_back(uint32_t(o.size() + 1) << 16 | 251); w.insert(w.end(), o.begin(), o.end()); break; }
				case 3: ins(253, {}); break; case 4: ins(255, {}); break; default: ins(252, {});
				}
			}
			ins(56, {});
		}
		w[3] = next; return w;
	}
	void flowCase(Src& s, Ctx& ctx)
	{
		sg::HeapAllocator heap; Log log; lu::Words w; std::unique_ptr<Prog> p; sg::Module own(&heap, &log), re(&heap, &log); sg::Module* m = nullptr; bool written = false;
		switch (s.below(4))
		{
		case 0: case 1: { Opts o = opts(s); o.maxFuncs = 5; p = std::make_unique<Prog>(s, o); p->g.run(); m = &p->m; ctx.label("programs"); break; }
		case 2: web(s, own, 1 + s.below(8)); m = &own; ctx.label("call webs"); break;
		default: { w = anyFlow(s); MemReader rd(w); CHECK_SIG(re.readAndInit(rd, lu::grammar()), "read", log.text + spv_ref::dump(decoded(w))); m = &re; written = true; ctx.label("any flow"); }
		}
		TrackAlloc track; const bool tracked = s.coin(); sg::IAllocator* a = tracked ? &track : nullptr;
		{
			std::vector<std::pair<sg::Function*, std::unique_ptr<CFG>>> flows; std::vector<std::pair<sg::Function*, std::unique_ptr<sg::FunctionCallGraph>>> calls;
			auto graphs = [&](sg::Module& mod) { auto each = [&](auto& list) { for (auto& f : list) { flows.push_back({ &f, std::make_unique<CFG>(f, a) }); calls.push_back({ &f, std::make_unique<sg::FunctionCallGraph>(f, a) }); } }; each(mod.getFunctions()); each(mod.getEntryPoints()); };
			const bool before = s.coin(); if (before) graphs(*m);
			if (!written) { MemWriter wr; CHECK_SIG(m->finalizeAndWrite(wr), "write", (p ? p->log : log).text); w = wr.w; if (s.chance(1, 3)) { flows.clear(); calls.clear(); MemReader rd(w); CHECK_SIG(re.readAndInit(rd, lu::grammar()), "read", log.text); m = &re; graphs(re); ctx.label("read back"); } }
			if (flows.empty()) graphs(*m);
			Mod d = decoded(w); auto ref = reference(d); ctx.mix(w.data(), w.size() * 4); if (ctx.wantSample || ctx.verbose) ctx.note(spv_ref::dump(d));
			CHECK_SIG(flows.size() == ref.size(), "functions", num(flows.size()) + " functions"); size_t edges = 0, blocks = 0;
			for (auto& f : flows) { CHECK_SIG(ref.count(idOf(f.first)), "functions", "unknown function"); if (s.chance(1, 4)) { CFG moved(std::move(*f.second)); checkFlow(moved, ref[idOf(f.first)], d); } else checkFlow(*f.second, ref[idOf(f.first)], d); blocks += ref[idOf(f.first)].blocks.size(); }
			for (auto& f : calls) checkCalls(*f.second, idOf(f.first), ref, d, edges);
			ctx.label("blocks", blocks); ctx.label("call edges", edges); ctx.nontrivial = blocks > 2 || edges > 0;
		}
		if (tracked) track.checkAllReturned("graphs");
	}

	// ------------------------------------------------------------------------------------------ P23
	struct Sink final : sg::ModulePrinter::IModulePrinter { size_t n = 0; using sg::ModulePrinter::IModulePrinter::append; void append(const char* t, const char* = nullptr, const char* = nullptr) final { n += t ? strlen(t) : 0; } };
	struct Owned { std::unique_ptr<TrackAlloc> a; std::unique_ptr<Prog> p; std::unique_ptr<sg::Module> own; sg::Module* m = nullptr; lu::Words w; bool ready = true; /* types and constants are known */ };
	void moduleCase(Src& s, Ctx& ctx)
	{
		Log log; std::vector<Owned> mods; std::string trace; uint64_t shared = 0, destroyed = 0;
		auto text = [&] { return " after" + trace + "\n" + log.text; };
		auto words = [&](Owned& o) { MemWriter w; CHECK_SIG(o.m->write(w), "write", "a module was not written" + text()); return w.w; };
		auto check = [&](const char* what) { for (auto& o : mods) o.a->check((std::string(what) + text()).c_str()); };
		auto destroy = [&](size_t k) { Owned& o = mods[k]; if (s.coin()) { auto w = words(o); CHECK_SIG(w == o.w, "changed", "a module changed on its own" + text()); } o.own.reset(); o.p.reset(); o.a->checkAllReturned(("a module was destroyed" + text()).c_str()); mods.erase(mods.begin() + k); ++destroyed; };
		auto fresh = [&] { Owned o; o.a = std::make_unique<TrackAlloc>(); o.own = std::make_unique<sg::Module>(o.a.get(), &log); o.m = o.own.get(); return o; };
		{
			Opts op = opts(s); Owned o; o.a = std::make_unique<TrackAlloc>(); o.p = std::make_unique<Prog>(s, op, o.a.get()); o.p->g.run(); Built b; write(*o.p, b, s.coin()); o.m = &o.p->m; o.w = b.w; mods.push_back(std::move(o)); ctx.mix(b.w.data(), b.w.size() * 4);
			if (ctx.wantSample || ctx.verbose) ctx.note(spv_ref::dump(b.m));
		}
		check("building");
		for (uint32_t n = 1 + s.below(8); n > 0 && !mods.empty(); --n)
		{
			const size_t k = s.below(uint32_t(mods.size())), j = s.below(uint32_t(mods.size()));
			switch (s.weighted({ 5, 4, 2, 2, 2, 2, 2, 3, 2 }))
			{
			case 0: // the module of another is read
			{
				Owned o = fresh(); const bool init = s.chance(2, 3); MemReader rd(mods[k].w); CHECK_SIG(init ? o.m->readAndInit(rd, lu::grammar()) : o.m->read(rd, lu::grammar()), "read", log.text + spv_ref::dump(decoded(mods[k].w))); trace += " read " + num(k);
				o.ready = init; o.w = words(o); mods.push_back(std::move(o)); break;
			}
			case 1: // types and constants of another
			{
				if (k == j || !mods[k].ready || !mods[j].ready) break; trace += " types " + num(j) + "->" + num(k); sg::Module &to = *mods[k].m, &from = *mods[j].m; std::vector<sg::Instruction*> list; for (auto& i : from.getTypesAndConstants()) if (s.chance(1, 3)) list.push_back(&i);
				for (auto* i : list) if (i->isType()) { if (auto* t = from.getTypeInfo(i)) { if (t->isArray() || t->getType() == sg::spv::Op::OpTypeForwardPointer || t->getType() == sg::spv::Op::OpTypeOpaque) continue; bool plain = true; auto look = [&](auto& self, const sg::Type& x) -> void { if (x.isArray() || x.getType() == sg::spv::Op::OpTypeOpaque || x.getType() == sg::spv::Op::OpTypeForwardPointer) plain = false; for (auto& y : x.getSubTypes()) self(self, y); }; look(look, *t); if (!plain) continue; auto* r = to.addType(*t); CHECK_SIG(r && !r->isErrorInstr() && *r->getType() == *t, "type", "type was not added" + text()); ++shared; } }
					else if (i->isSpecOrConstant() && i->getOperation() != sg::spv::Op::OpSpecConstantOp) { auto* c = from.getConstantInfo(i); if (c && !c->getType().isArray()) { bool plain = true; auto look = [&](auto& self, const sg::Type& x) -> void { if (x.isArray()) plain = false; for (auto& y : x.getSubTypes()) self(self, y); }; look(look, c->getType()); auto ops = [&](auto& self, const sg::Constant& x) -> void { if (x.getOperation() == sg::spv::Op::OpSpecConstantOp) plain = false; for (auto& y : x.getComponents()) self(self, y); }; ops(ops, *c); if (!plain) continue; auto* r = to.addConstant(*c); CHECK_SIG(r && !r->isErrorInstr() && r->getConstant(), "constant", "constant was not added" + text()); ++shared; } }
				to.assignIDs(); mods[k].w = words(mods[k]); break;
			}
			case 2: { Owned& o = mods[k]; if (o.p) break; trace += " move " + num(k); auto mv = std::make_unique<sg::Module>(std::move(*o.own)); o.own = std::move(mv); o.m = o.own.get(); break; }
			case 3: { Owned& o = mods[k]; if (o.p || k == j || mods[j].p) break; trace += " assign " + num(k) + "=" + num(j); *o.own = std::move(*mods[j].own); /* the module took over the allocator */ auto old = std::move(o.a); o.a = std::move(mods[j].a); o.w = mods[j].w; o.ready = mods[j].ready; old->checkAllReturned(("assigned over" + text()).c_str()); mods[j].own.reset(); mods.erase(mods.begin() + j); break; }
			case 4: { Owned& o = mods[k]; if (o.p) break; trace += " reset " + num(k); o.m->reset(); const auto& src = mods[j].w; if (k == j) { MemReader rd(o.w); CHECK_SIG(o.m->readAndInit(rd, lu::grammar()), "read", text()); } else { auto w = src; MemReader rd(w); CHECK_SIG(o.m->readAndInit(rd, lu::grammar()), "read", text()); } o.ready = true; o.w = words(o); break; }
			case 5: // graphs with memory of their own
			{
				trace += " graphs " + num(k); TrackAlloc t; auto each = [&](auto& list) { for (auto& f : list) { CFG g(f, &t); sg::FunctionCallGraph c(f, &t); CHECK_SIG(g.empty() || t.live.size() > 0, "graph memory", "a graph does not use its allocator"); } }; if (mods[k].ready) { each(mods[k].m->getFunctions()); each(mods[k].m->getEntryPoints()); } t.checkAllReturned(("graphs" + text()).c_str()); break;
			}
			case 6: // queries with memory of their own
			{
				trace += " query " + num(k); TrackAlloc t; sg::Module& m = *mods[k].m; if (!mods[k].ready) break; const size_t live = mods[k].a->live.size(); { std::vector<sg::Instruction*> all; m.iterateInstructions([&](sg::Instruction& i) { all.push_back(&i); }); for (auto* i : all) if (s.chance(1, 8)) { auto l = m.getNames(i, &t); sg::List<sg::Instruction*> uses(&t), decos(&t); m.gatherUses(i, uses); if (i->hasResult()) sg::ReflectionHelper::getDecorations(i, decos); } }
				CHECK_SIG(mods[k].a->live.size() == live, "query memory", "queries keep memory of the module" + text()); t.checkAllReturned(("queries" + text()).c_str()); break;
			}
			case 7: trace += " destroy " + num(k); destroy(k); break;
			default: { trace += " ids " + num(k); Owned& o = mods[k]; TrackAlloc t; if (!o.ready) { CHECK_SIG(o.m->resolveIDs(&t) && o.m->reconstructTypeAndConstantInfo() && o.m->reconstructNames(), "resolve", text()); t.checkAllReturned(("resolving ids" + text()).c_str()); o.ready = true; } else { Sink sink; sg::ModulePrinter::printModule(*o.m, lu::grammar(), sink); } o.w = words(o); break; }
			}
			check("a step");
		}
		while (!mods.empty()) destroy(s.below(uint32_t(mods.size())));
		ctx.label("types and constants of other modules", shared); ctx.label("modules", destroyed); if (ctx.wantSample || ctx.verbose) ctx.note(trace); ctx.nontrivial = destroyed > 1;
	}
	pbt::Reg r23("P23", "fixed buffers: an allocation succeeds and one fails or is returned; modules: at least two modules or a link of two", [](Src& s, Ctx& c) { switch (s.weighted({ 40, 6, 2 })) { case 0: fixedAllocatorCase(s, c); break; case 1: c.label("module histories"); moduleCase(s, c); break; default: c.label("links"); linkCase(s, c, s.coin(), true); } });
	pbt::Reg r24("P24", "graphs: edges exist and nodes are erased or at least four edges exist; programs: more than two blocks or a call", [](Src& s, Ctx& c) { if (s.chance(1, 6)) flowCase(s, c); else graphCase(s, c); });
}
