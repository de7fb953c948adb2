// P33: whatever the reader accepts can be analysed, edited and linked without crashing
#include "prog.h"
#include "bgen.h"
#include "mutate.h"
#include "track.h"
#include "common/ModulePrinter.h"
#include "common/ReflectionHelper.h"
#include "common/ReflectionHelperTemplate.inl"
#include "common/VulkanInterop.h"
#include "common/TypeHelper.h"
#include "common/GrammarHelper.h"
#include "common/LinkerHelper.h"
#include "common/ControlFlowGraph.h"
#include "common/FunctionCallGraph.h"
namespace
{
	using namespace pbt; using namespace spv_ref; namespace sg = spvgentwo; namespace rh = spvgentwo::ReflectionHelper; namespace lh = spvgentwo::LinkerHelper;
	struct Sink : sg::ModulePrinter::IModulePrinter { size_t n = 0; using sg::ModulePrinter::IModulePrinter::append; void append(const char* t, const char*, const char*) final { if (t) n += strlen(t); } };
	std::string hexWords(const Words& w) { std::string s; char b[12]; for (size_t i = 0; i < w.size() && i < 4000; ++i) { snprintf(b, sizeof b, "%08x ", w[i]); s += b; } return s; }
	Words base(Src& s, Ctx& c)
	{
		if (s.chance(5, 6)) { c.label("grammar-wide module"); bgen::Opts o; o.mayBeLarge = false; o.maxBody = 5; return bgen::generate(s, o).words; }
		c.label("built module"); prog::Opts o = prog::opts(s); o.maxFuncs = 3; if (o.size > 6) o.size = 6; prog::Prog p(s, o); p.g.run(); prog::Built b; prog::write(p, b, false); return b.w;
	}
	// two modules that share symbols: functions and global variables of one module, declared in the one and defined in the other
	void split(Src& s, const Words& w, Words& lib, Words& con, Ctx& c)
	{
		Mod m; std::string err; if (!decode(w, m, err)) { lib = con = w; return; }
		std::set<uint32_t> chosen, gone; std::map<uint32_t, std::string> sym; uint32_t n = 0; const bool both = s.chance(1, 8);
		auto pick = [&](uint32_t id) { if (s.coin()) { chosen.insert(id); sym[id] = s.chance(1, 8) ? "same" : "s" + std::to_string(n++); } };
		bool in = false, drop = false; uint32_t depth = 0; (void)depth;
		for (auto& i : m.insts) { if (i.op == 54) { in = true; pick(i.result); drop = chosen.count(i.result); continue; } if (i.op == 56) { in = drop = false; continue; } if (!in && i.op == 59) pick(i.result); if (in && drop && i.op != 55 && i.result) gone.insert(i.result); }
		std::set<uint32_t> entries; for (auto& i : m.insts) if (i.op == 15 && i.ops.size() > 1) entries.insert(i.ops[1].w[0]); for (auto e : entries) if (chosen.count(e)) { /* an entry point without body stays as it is */ }
		auto deco = [&](uint32_t id, uint32_t type) { Words x{ 71, id, 41 }; const std::string& t = sym[id]; for (size_t k = 0; k <= t.size() / 4; ++k) { uint32_t v = 0; for (size_t b = 0; b < 4; ++b) if (k * 4 + b < t.size()) v |= uint32_t((unsigned char)t[k * 4 + b]) << b * 8; x.push_back(v); } x.push_back(type); x[0] |= uint32_t(x.size()) << 16; return x; };
		auto build = [&](bool import, Words& o)
		{
			o.assign(w.begin(), w.begin() + 5); bool done = false, infn = false, dropping = false;
			for (auto& i : m.insts)
			{
				const bool late = i.op >= 19 && i.op <= 39 && i.op != 54; // types follow the decorations
				if (!done && (late || i.op == 54 || i.op == 59 || i.op == 43 || i.op == 1)) { done = true; for (auto id : chosen) { auto x = deco(id, import ? 1 : s.chance(1, 20) ? 1 : 0); o.insert(o.end(), x.begin(), x.end()); } }
				if (i.op == 54) { infn = true; dropping = import && chosen.count(i.result); } else if (i.op == 56) { infn = dropping = false; }
				else if (infn && dropping && i.op != 55) continue;
				if (import && !infn) { bool refs = false; for (auto& q : i.ops) if (q.isId() && gone.count(q.w[0])) refs = true; if (refs) continue; }
				if (import && !infn && i.op == 59 && chosen.count(i.result) && i.words.size() > 4) { Words x(i.words.begin(), i.words.begin() + 4); x[0] = 4u << 16 | 59; o.insert(o.end(), x.begin(), x.end()); continue; }
				o.insert(o.end(), i.words.begin(), i.words.end());
			}
		};
		build(both, lib); build(!both, con); c.label("symbols", chosen.size());
	}
	void analyse(Src& s, sg::Module& mod, sg::IAllocator& alloc, Ctx& c)
	{
		uint64_t sum = 0; Sink sink; const sg::Grammar& g = lu::grammar(); std::vector<const sg::Instruction*> all;
		mod.iterateInstructions([&](const sg::Instruction& i) { all.push_back(&i); });
		{ unsigned x = 0, y = 0, z = 0; if (rh::getLocalSize(mod, x, y, z)) sum += x + y + z; }
		{ const uint32_t d = s.below(50), v = s.below(8); sg::List<const sg::Instruction*> l(&alloc); rh::getVariablesWithDecoration(mod, sg::spv::Decoration(d), l, s.coin() ? &v : nullptr); for (uint32_t sc = 0; sc < 13; ++sc) rh::getGlobalVariablesByStorageClass(mod, sg::spv::StorageClass(sc), l); for (auto* i : l) sum += uint64_t(i->getOperation()); }
		for (auto* i : all)
		{
			sg::List<sg::Instruction*> ds(&alloc); rh::getDecorations(i, ds); for (auto* d : ds) { auto k = rh::getSpvDecorationKindFromDecoration(d); unsigned v = 0; sg::spv::Decoration k2; if (rh::getSpvDecorationAndLiteralFromDecoration(d, k2, v)) sum += v; sum += rh::getLiteralFromDecoration(k, d); sum += rh::getDecorationLiteralFromTarget(k, i); }
			rh::getNamesFunc(i, [&](const sg::Instruction* x) { sum += x->getWordCount(); });
			sum += uint64_t(rh::getSpvDecorationKindFromDecoration(i)); sum += rh::getLiteralFromDecoration(sg::spv::Decoration::Binding, i);
			{ sg::Instruction* sy = nullptr; sg::String nm(&alloc); sum += uint64_t(lh::getLinkageTypeFromDecoration(i, &sy, &nm)) + nm.size(); }
			sum += uint64_t(sg::vk::getDescriptorTypeFromVariable(*i));
			if (const sg::Type* t = i->getType()) { sg::String n(&alloc); sg::TypeHelper::getTypeName(*t, n, i->isType() ? i : s.coin() ? i->getResultTypeInstr() : nullptr); sum += n.size(); sum += t->getBaseType().getIntWidth() + t->isNumericalScalarOrVector() + t->isSqareMatrix(); }
			if (const sg::Constant* k = i->getConstant()) { sum += k->getData().size() + k->getComponents().size(); if (auto* d = k->getDataAs<unsigned>()) sum += *d; }
			auto op = sg::GrammarHelper::getOperandByName(i, g, "Type"); if (op != nullptr && op != i->end()) sum += op->isInstruction();
			sum += sg::GrammarHelper::getFirstOperandOfKind(i, g, sg::Grammar::OperandKind::IdRef) != nullptr;
			sum += uint64_t(i->getResultId()) + uint64_t(i->getStorageClass()) + (i->getName() != nullptr) + (i->getResultTypeInstr() != nullptr) + i->getWordCount() + i->isTerminator() + (i->getModule() == &mod) + (i->getFunction() != nullptr) + (i->getBasicBlock() != nullptr);
			sg::ModulePrinter::printInstruction(*i, g, sink, sg::ModulePrinter::PrintOptionsBits::All);
		}
		auto fn = [&](const sg::Function& f) {
			sg::ControlFlowGraph<> cfg(f, &alloc); for (auto& n : cfg) { sum += n.outputs().size() + n.inputs().size(); sg::Instruction* mg = nullptr; (void)mg; }
			sg::FunctionCallGraph fg(f, &alloc); for (auto& n : fg) sum += n.outputs().size();
			sg::List<sg::Operand> l(&alloc); sg::collectReferencedVariables(f, l, s.coin() ? sg::GlobalInterfaceVersion::SpirV14_x : sg::GlobalInterfaceVersion::SpirV1_3, &alloc); sum += l.size();
			sum += (f.getName() != nullptr) + f.getParameters().size() + f.getReturnType().getSubTypes().size() + (f.getReturnTypeInstr() != nullptr) + (f.getFunctionTypeInstr() != nullptr);
			for (auto& b : f) { sum += (b.getName() != nullptr) + (b.getTerminator() != nullptr) + (b.getLabel() != nullptr); sg::BasicBlock::Iterator it = b.begin(); (void)it; }
		};
		for (auto& f : mod.getFunctions()) fn(f); for (auto& e : mod.getEntryPoints()) { fn(e); sum += uint64_t(e.getExecutionModel()) + (e.getName() != nullptr); for (auto& v : e.getInterfaceVariables()) sum += v.isInstruction(); }
		c.mix(sum + sink.n);
	}
	void edit(Src& s, sg::Module& mod, sg::IAllocator& alloc, Ctx& c)
	{
		std::vector<sg::Function*> fs; std::vector<sg::Instruction*> gl; for (auto& f : mod.getFunctions()) fs.push_back(&f); mod.iterateInstructions([&](sg::Instruction& i) { if (i == sg::spv::Op::OpVariable) gl.push_back(&i); });
		uint32_t k = s.range(1, 3); while (k--) switch (s.below(6))
		{
		case 0: if (!fs.empty()) { lh::removeFunctionBody(*s.pick(fs)); c.label("removed body"); } break;
		case 1: if (!fs.empty()) lh::addLinkageDecorateForUsedGlobalVariables(*s.pick(fs), sg::spv::LinkageType::Export, s.coin() ? &alloc : nullptr); break;
		case 2: if (!fs.empty()) lh::addLinkageDecoration(s.pick(fs)->getFunction(), sg::spv::LinkageType::Import, "f"); break;
		case 3: mod.finalizeEntryPoints(); break;
		case 4: mod.addRequiredCapabilities(lu::grammar()); mod.addRequiredExtensions(lu::grammar()); break;
		default: mod.assignIDs(s.coin() ? &lu::grammar() : nullptr); break;
		}
		lu::MemWriter out; mod.finalizeAndWrite(out, s.coin() ? &lu::grammar() : nullptr);
	}
	void p33(Src& s, Ctx& c)
	{
		Words w = base(s, c); auto damage = [&](Words& x) { if (s.chance(1, 5)) return false; const Words o = x; const bool hard = s.chance(1, 3); uint32_t n = s.range(1, 4); while (n--) if (!hard || s.coin()) mut::tamper(s, x, c); else mut::mutate(s, x, c); return x != o; };
		if (s.chance(1, 2))
		{
			const bool d = damage(w); c.mix(w.data(), w.size() * 4); if (c.wantSample || c.verbose) c.note("analyse words " + hexWords(w) + "\n");
			TrackAlloc alloc; { lu::Log log; sg::Module mod(&alloc, &log); lu::MemReader r(w); const bool ok = mod.readAndInit(r, lu::grammar()); c.label(ok ? "analysed" : "refused"); c.nontrivial = ok && d; if (ok) { analyse(s, mod, alloc, c); if (s.coin()) { edit(s, mod, alloc, c); analyse(s, mod, alloc, c); } } }
			alloc.checkAllReturned("after analysing");
		}
		else
		{
			Words l, k; split(s, w, l, k, c); bool d = damage(l); if (s.coin()) d |= damage(k); c.mix(l.data(), l.size() * 4); c.mix(k.data(), k.size() * 4); if (c.wantSample || c.verbose) c.note("library words " + hexWords(l) + "\nconsumer words " + hexWords(k) + "\n");
			TrackAlloc alloc; { lu::Log log; sg::Module lib(&alloc, &log), con(&alloc, &log); lu::MemReader r(l), q(k); const bool ok = lib.readAndInit(r, lu::grammar()) && con.readAndInit(q, lu::grammar()); c.label(ok ? "linked" : "refused");
				if (ok) { Sink sink; lh::LinkerOptions o; const uint32_t f = s.coin() ? 0x7fff : s.below(0x8000); o.flags = lh::LinkerOptionBits(f); if (s.coin()) o.printer = &sink; if (s.coin() || o.printer) o.grammar = &lu::grammar(); if (s.coin()) o.allocator = &alloc;
					const bool done = lh::import(lib, con, o); c.label(done ? "link succeeded" : "link failed"); c.nontrivial = d; if (done) { analyse(s, con, alloc, c); lu::MemWriter out; con.finalizeAndWrite(out, s.coin() ? &lu::grammar() : nullptr); } } }
			alloc.checkAllReturned("after linking");
		}
	}
	Reg r33("P33", "a damaged module that the reader accepts", p33);
}
