// P30: what a read module answers about its instructions agrees with what the binary says
#include "bgen.h"
#include "libutil.h"
#include "track.h"
#include "common/GrammarHelper.h"
#include "spvgentwo/String.h"
#include <set>
#include <algorithm>
using namespace pbt;
using namespace spv_ref;
namespace sg = spvgentwo;
namespace
{
	using G = sg::Grammar;
	struct Slot { OKind kind; size_t pos; bool present; };
	// operand descriptions of an instruction and where their first word is; stops where the grammar does not tell the position alone
	struct Walk
	{
		const Inst& in; const std::vector<Opnd>& ops; size_t k = 0, pos = 0; std::vector<Slot> slots; bool complete = true;
		bool take() { if (k >= ops.size()) return false; pos += ops[k].w.size(); ++k; return true; }
		void describe(const std::vector<OOperand>& l, bool nested)
		{
			for (auto& o : l)
			{
				if (o.kind == K_IdResultType || o.kind == K_IdResult) { if (!nested) { slots.push_back({ o.kind, pos, true }); ++pos; } else { complete = false; return; } continue; }
				bool present = k < ops.size(); slots.push_back({ o.kind, pos, present }); if (!present) continue;
				const OKindInfo& ki = kind(o.kind);
				if (ki.cat == 'C') { for (size_t b = 0; b < ki.bases.size(); ++b) take(); }
				else if (ki.cat == 'V') { auto* e = enumerant(o.kind, ops[k].w[0]); bool par = e && !e->params.empty(); take(); if (par) { complete = false; return; } }
				else if (ki.cat == 'B') { uint32_t v = ops[k].w[0]; bool par = false; for (auto& e : ki.enums) if (e.value && (e.value & v) == e.value && !e.params.empty()) par = true; take(); if (par) { complete = false; return; } }
				else if (o.kind == K_LiteralSpecConstantOpInteger || o.kind == K_LiteralExtInstInteger) { take(); complete = false; return; }
				else take();
				if (o.quant == '*') { complete = &o == &l.back(); return; }
			}
		}
	};
	int libKind(OKind k)
	{
		#define X(n) case K_##n: return int(G::OperandKind::n);
		switch (k) { X(IdResultType)X(IdResult)X(IdRef)X(IdScope)X(IdMemorySemantics)X(LiteralInteger)X(LiteralString)X(LiteralContextDependentNumber)X(LiteralExtInstInteger)X(LiteralSpecConstantOpInteger)X(StorageClass)X(ExecutionModel)X(ExecutionMode)X(AddressingModel)X(MemoryModel)X(Decoration)X(BuiltIn)X(Capability)X(SourceLanguage)X(Dim)X(ImageFormat)X(AccessQualifier)X(FunctionControl)X(SelectionControl)X(LoopControl)X(MemoryAccess)X(ImageOperands)X(GroupOperation)X(PairLiteralIntegerIdRef)X(PairIdRefLiteralInteger)X(PairIdRefIdRef)X(SamplerAddressingMode)X(SamplerFilterMode)X(KernelEnqueueFlags)X(PackedVectorFormat) default: return -1; }
		#undef X
	}
	long indexOf(const sg::Instruction& i, sg::Instruction::Iterator it) { if (it == nullptr) return -1; long n = 0; for (auto x = i.begin(); x != nullptr; ++x, ++n) if (x == it) return n; return -2; }
	std::string where(long i) { return i < 0 ? i == -1 ? "nothing" : "an operand of another instruction" : "operand " + std::to_string(i); }
	// descriptions of the library in the order of the official grammar (P14 compares the two)
	void operandQueries(Src& s, const sg::Instruction& i, const Inst& d, const std::vector<OOperand>& off, const std::vector<Opnd>& ops, size_t start, bool nested, G::Extension ext, uint32_t opcode, Ctx& c)
	{
		auto* info = lu::grammar().getInfo(opcode, ext); if (!info || info->operands.size() != off.size()) { c.label("operands revised"); return; }
		std::vector<OOperand> list = off; Walk w{ d, ops }; w.pos = start;
		if (nested) { list.clear(); for (auto& o : off) if (o.kind != K_IdResult && o.kind != K_IdResultType) list.push_back(o); if (list.size() != off.size()) return; }
		w.describe(list, nested);
		std::string who = std::string(info->name) + " in " + dump(d);
		// by kind
		std::set<int> kinds; for (auto& o : list) if (libKind(o.kind) >= 0) kinds.insert(libKind(o.kind));
		std::vector<int> ask(kinds.begin(), kinds.end()); ask.push_back(int(s.below(unsigned(G::OperandKind::PairIdRefIdRef) + 1u)));
		int k = s.pick(ask); long want = -1; bool known = false;
		for (auto& sl : w.slots) if (libKind(sl.kind) == k) { want = sl.present ? long(sl.pos) : -1; known = true; break; }
		if (!known) { bool later = false; for (size_t x = w.slots.size(); x < list.size(); ++x) later |= libKind(list[x].kind) == k || libKind(list[x].kind) < 0; bool unmapped = false; for (auto& o : list) unmapped |= libKind(o.kind) < 0; if (later || unmapped) k = -1; }
		if (k >= 0)
		{
			long got = indexOf(i, sg::GrammarHelper::getFirstOperandOfKind(&i, lu::grammar(), G::OperandKind(k), ext));
			CHECK_SIG(got == want, "kind", "first operand of kind " + std::to_string(k) + " is " + where(got) + " instead of " + where(want) + ": " + who); c.label(want >= 0 ? "operand of a kind" : "no operand of the kind");
		}
		// by name
		if (list.empty()) return;
		size_t x = s.below(uint32_t(list.size())); const char* base = info->operands[x].name; std::string n = base ? base : "";
		switch (s.weighted({ 5, 1, 1, 1, 1 })) { case 0: break; case 1: if (!n.empty()) n = n.substr(0, s.below(uint32_t(n.size()))); break; case 2: n += s.pick(std::vector<std::string>{ "x", " ", "'" }); break; case 3: if (!n.empty()) n[s.below(uint32_t(n.size()))] ^= 0x20; break; default: n = s.coin() ? "Operand" : ""; }
		want = -1; known = true; size_t at = 0; for (; at < list.size(); ++at) if (info->operands[at].name && n == info->operands[at].name) break;
		if (at < list.size()) { if (at < w.slots.size()) want = w.slots[at].present ? long(w.slots[at].pos) : -1; else known = false; }
		if (known)
		{
			long got = indexOf(i, sg::GrammarHelper::getOperandByName(&i, lu::grammar(), n.c_str(), ext));
			CHECK_SIG(got == want, "name", "operand \"" + n + "\" is " + where(got) + " instead of " + where(want) + ": " + who); c.label(at < list.size() ? want >= 0 ? "operand of a name" : "absent operand" : "no such name");
		}
		if (s.chance(1, 8)) CHECK_SIG(sg::GrammarHelper::getOperandByName(&i, lu::grammar(), nullptr, ext) == nullptr, "name", "operand without a name: " + who);
		if (!nested && d.op != 12 && s.chance(1, 8)) CHECK_SIG(sg::GrammarHelper::getFirstOperandOfKind(&i, lu::grammar(), G::OperandKind::IdRef, G::Extension::Glsl) == nullptr, "extension", "an operand of an extended instruction in " + who);
	}

	void p30(Src& s, Ctx& c)
	{
		bgen::Opts o; o.mayBeLarge = false; o.maxBody = 6; o.extLiterals = true; Words w = bgen::generate(s, o).words; Mod m; std::string err; CHECK_SIG(decode(w, m, err), "generator", err);
		c.mix(w.data(), w.size() * 4); if (c.wantSample || c.verbose) c.note(dump(m));
		sg::HeapAllocator alloc; lu::Log log; sg::Module mod(&alloc, &log); lu::MemReader r(w);
		CHECK_SIG(mod.readAndInit(r, lu::grammar()), "read", "reading failed: " + log.text);
		// header
		CHECK_SIG(mod.getSpvVersion() == m.version && mod.getMajorVersion() == (m.version >> 16 & 255) && mod.getMinorVersion() == (m.version >> 8 & 255), "version", "version");
		CHECK_SIG(mod.getSpvBound() == m.bound && mod.getSpvSchema() == m.schema && mod.getSpvGenerator() == m.generator && mod.getGeneratorId() == m.generator >> 16 && mod.getGeneratorVersion() == (m.generator & 0xffff), "header", "header");
		// every instruction is visited exactly once
		std::map<Words, std::vector<const Inst*>> byWords; for (auto& i : m.insts) byWords[i.words].push_back(&i);
		auto dedup = [](uint32_t op) { return op == 17 || op == 10 || op == 11; };
		std::map<Words, size_t> visits; std::vector<std::pair<sg::Instruction*, const Inst*>> pairs;
		mod.iterateInstructions([&](sg::Instruction& i)
		{
			lu::MemWriter mw; CHECK_SIG(i.write(mw), "write", "an instruction cannot be written: " + log.text);
			auto f = byWords.find(mw.w); CHECK_SIG(f != byWords.end(), "visit", "visited an instruction that the binary does not have, opcode " + std::to_string(mw.w.empty() ? 0 : mw.w[0] & 0xffff));
			++visits[mw.w]; pairs.push_back({ &i, f->second[0] });
		});
		for (auto& b : byWords) { size_t n = visits[b.first], want = dedup(b.second[0]->op) ? 1 : b.second.size(); CHECK_SIG(n == want, "visit", "visited " + std::to_string(n) + " times instead of " + std::to_string(want) + ": " + dump(*b.second[0])); }
		{ size_t n = 0; const sg::Module& cm = mod; cm.iterateInstructions([&](const sg::Instruction&) { ++n; }); CHECK_SIG(n == pairs.size(), "visit", "constant iteration visits a different number of instructions"); }
		// position of instructions: function and block that they are in
		std::map<uint32_t, std::pair<uint32_t, uint32_t>> place; { uint32_t fn = 0, bl = 0; for (auto& i : m.insts) { if (i.op == 54) { fn = i.result; bl = 0; } if (i.op == 248) bl = i.result; if (i.result) place[i.result] = { fn, bl }; if (i.op == 56) fn = bl = 0; } }
		for (auto& pr : pairs)
		{
			sg::Instruction& i = *pr.first; const Inst& d = *pr.second; std::string what = dump(d);
			CHECK_SIG(uint32_t(i.getOperation()) == d.op && i.getWordCount() == d.words.size() && i.getOpCode() == d.words[0], "words", "operation or word count of " + what);
			CHECK_SIG(uint32_t(i.getResultId()) == (d.result ? d.result : uint32_t(sg::InvalidId)), "result", "result id " + std::to_string(uint32_t(i.getResultId())) + " of " + what);
			CHECK_SIG(i.hasResult() == (d.result != 0) && i.hasResultType() == (d.type != 0) && i.hasResultAndType() == (d.result && d.type), "result", "whether there is a result: " + what);
			CHECK_SIG(indexOf(i, i.getResultTypeOperand()) == (d.type ? 0 : -1) && indexOf(i, i.getResultIdOperand()) == (d.result ? d.type ? 1 : 0 : -1), "result", "position of the result: " + what);
			long first = (d.type ? 1 : 0) + (d.result ? 1 : 0); CHECK_SIG(indexOf(i, i.getFirstActualOperand()) == (size_t(first) + 1 < d.words.size() ? first : -1), "result", "position of the first operand: " + what);
			if (d.type) { auto* t = i.getResultTypeInstr(); CHECK_SIG(t && uint32_t(t->getResultId()) == d.type, "type", "type of " + what); }
			std::string n = d.info->name; bool spec = n.compare(0, 14, "OpSpecConstant") == 0, con = n.compare(0, 10, "OpConstant") == 0;
			CHECK_SIG(i.isType() == (n.compare(0, 6, "OpType") == 0) && i.isConstant() == con && i.isSpecConstant() == spec && i.isSpecOrConstant() == (con || spec) && i.isTerminator() == bgen::isTerminator(d.op), "class", "classification of " + what); CHECK_SIG(sg::isTerminatorOp(i.getOperation()) == bgen::isTerminator(d.op) && sg::isSpecOrConstantOp(i.getOperation()) == (con || spec) && sg::hasResultAndTypeId(i.getOperation()) == (d.result && d.type), "class", "classification of the operation of " + what);
			CHECK_SIG(!i.isErrorInstr() && i.getModule() == &mod, "parent", "module of " + what);
			CHECK_SIG(uint32_t(i.getStorageClass()) == (d.op == 32 ? d.w(0) : d.op == 59 ? d.w(0) : uint32_t(sg::spv::StorageClass::Max)), "storage class", "storage class of " + what);
			if (d.result) { auto& pl = place[d.result]; auto* f = i.getFunction(); CHECK_SIG((f ? uint32_t(f->getFunction()->getResultId()) : 0) == pl.first, "parent", "function of " + what); auto* b = i.getBasicBlock(); CHECK_SIG((b ? uint32_t(b->getLabel()->getResultId()) : 0) == pl.second, "parent", "block of " + what); }
			if (s.chance(1, 4)) operandQueries(s, i, d, d.info->operands, d.ops, 0, false, G::Extension::Core, d.op, c);
			if (d.op == 12 && s.coin())
			{
				auto* set = m.find(d.ops[0].w[0]); std::string sn = set ? set->str(0) : ""; auto* ei = extInstr(sn, d.w(1));
				if (ei) { std::vector<Opnd> rest(d.ops.begin() + 2, d.ops.end()); operandQueries(s, i, d, ei->operands, rest, 4, true, sn == "GLSL.std.450" ? G::Extension::Glsl : G::Extension::OpenCl, d.w(1), c); c.label("extended instruction"); }
			}
		}
		// functions
		size_t defined = 0; std::set<uint32_t> eps; for (auto& i : m.insts) if (i.op == 15) eps.insert(i.w(1));
		auto function = [&](sg::Function& f, bool ep)
		{
			uint32_t id = uint32_t(f.getFunction()->getResultId()); auto at = m.def.find(id); CHECK_SIG(at != m.def.end(), "function", "unknown function"); const Inst& d = m.insts[at->second]; std::string what = dump(d);
			CHECK_SIG(f.isEntryPoint() == ep && eps.count(id) == (ep ? 1u : 0u), "function", "whether it is an entry point: " + what);
			CHECK_SIG(uint32_t(sg::spv::FunctionControlMask(f.getFunctionControl())) == d.w(0), "function", "control of " + what); CHECK_SIG(f.isFinalized(), "function", "not complete: " + what);
			auto *ri = mod.getInstructionById(sg::spv::Id(d.type)), *ti = mod.getInstructionById(sg::spv::Id(d.w(1))); CHECK_SIG(ri && ti && ri->getType() && ti->getType(), "function type", "types of " + what);
			CHECK_SIG(f.getFunctionType() == *ti->getType() && f.getReturnType() == *ri->getType(), "function type", "type of the function or of what it returns: " + what);
			CHECK_SIG(f.getFunctionTypeInstr() == ti && f.getReturnTypeInstr() == ri, "function type", "instruction of the type of the function or of what it returns: " + what);
			CHECK_SIG(*f.getFunctionEnd() == sg::spv::Op::OpFunctionEnd && f.getModule() == &mod && (f.asEntryPoint() != nullptr) == ep, "function", "end of " + what);
			{ size_t n = 0; for (auto& x : f.getParameters()) { CHECK_SIG(&x == f.getParameter(unsigned(n)), "parameter", "list of parameters of " + what); ++n; } }
			std::vector<uint32_t> params, labels, terms; for (size_t k = at->second + 1; m.insts[k].op != 56; ++k) { if (m.insts[k].op == 55) params.push_back(m.insts[k].result); if (m.insts[k].op == 248) labels.push_back(m.insts[k].result); if (bgen::isTerminator(m.insts[k].op)) terms.push_back(uint32_t(k)); }
			for (size_t k = 0; k <= params.size() + 1; ++k) { auto* p = f.getParameter(unsigned(k)); CHECK_SIG((p ? uint32_t(p->getResultId()) : 0) == (k < params.size() ? params[k] : 0), "parameter", "parameter " + std::to_string(k) + " of " + what); }
			std::vector<uint32_t> got; size_t b = 0;
			for (sg::BasicBlock& bb : f)
			{
				got.push_back(uint32_t(bb.getLabel()->getResultId())); auto* t = bb.getTerminator(); CHECK_SIG(t && b < terms.size() && uint32_t(t->getOperation()) == m.insts[terms[b]].op, "block", "terminator of block " + std::to_string(b) + " of " + what);
				const Inst& td = m.insts[terms[b]]; std::vector<uint32_t> want, have; for (auto& o2 : td.ops) if (o2.isId()) { auto* x = m.find(o2.w[0]); if (x && x->op == 248) want.push_back(o2.w[0]); }
				sg::List<sg::BasicBlock*> targets(&alloc); CHECK_SIG(bb.getBranchTargets(targets), "targets", "branch targets are not known: " + dump(td)); for (auto* x : targets) have.push_back(uint32_t(x->getLabel()->getResultId()));
				CHECK_SIG(want == have, "targets", "branch targets of " + dump(td)); if (want.size() > 1) c.label("several branch targets"); CHECK_SIG(bb.getFunction() == &f && bb.getModule() == &mod, "parent", "function of a block"); ++b;
			}
			CHECK_SIG(got == labels, "block", "blocks of " + what); defined += !labels.empty(); if (!params.empty()) c.label("parameters");
		};
		size_t nf = 0; for (auto& f : mod.getFunctions()) { ++nf; function(f, false); }
		std::vector<const Inst*> epd; for (auto& i : m.insts) if (i.op == 15) epd.push_back(&i);
		for (auto& e : mod.getEntryPoints())
		{
			++nf; function(e, true); uint32_t id = uint32_t(e.getFunction()->getResultId()); const Inst* d = nullptr; for (auto* x : epd) if (x->w(1) == id) d = x; std::string what = dump(*d);
			CHECK_SIG(uint32_t(e.getExecutionModel()) == d->w(0) && d->str(2) == e.getName(), "entry point", "model or name \"" + std::string(e.getName()) + "\" of " + what);
			std::vector<uint32_t> want, have; for (size_t k = 3; k < d->ops.size(); ++k) want.push_back(d->ops[k].w[0]); auto range = e.getInterfaceVariables(); for (auto it = range.begin(); it != range.end(); ++it) have.push_back(uint32_t(it->getInstruction() ? it->getInstruction()->getResultId() : it->getId()));
			CHECK_SIG(want == have, "interface", "interface of " + what); if (!want.empty()) c.label("interface");
		}
		{ size_t want = 0; for (auto& i : m.insts) want += i.op == 54; CHECK_SIG(nf == want, "function", "number of functions"); }
		// lists of the module
		auto count = [&](auto pred) { size_t n = 0; bool in = false; for (auto& i : m.insts) { if (i.op == 54) in = true; if (!in && pred(i.op, std::string(i.info->name))) ++n; if (i.op == 56) in = false; } return n; };
		auto size = [](auto& l) { size_t n = 0; for (auto& x : l) { (void)x; ++n; } return n; };
		CHECK_SIG(size(mod.getNames()) == count([](uint32_t op, const std::string&) { return op == 5 || op == 6; }), "list", "names"); CHECK_SIG(size(mod.getExecutionModes()) == count([](uint32_t op, const std::string&) { return op == 16 || op == 331; }), "list", "execution modes");
		CHECK_SIG(size(mod.getGlobalVariables()) == count([](uint32_t op, const std::string&) { return op == 59; }), "list", "global variables"); CHECK_SIG(size(mod.getUndefs()) == count([](uint32_t op, const std::string&) { return op == 1; }), "list", "undefs");
		CHECK_SIG(size(mod.getModulesProcessed()) == count([](uint32_t op, const std::string&) { return op == 330; }), "list", "modules processed"); { std::string mm; for (auto& i : m.insts) if (i.op == 14) { lu::MemWriter mw; mod.getMemoryModel().write(mw); CHECK_SIG(mw.w == i.words, "memory model", dump(i)); } }
		CHECK_SIG(size(mod.getSourceStrings()) == count([](uint32_t op, const std::string& n) { return op >= 2 && op <= 4 ? true : op == 7; }), "list", "source strings");  CHECK_SIG(size(mod.getTypesAndConstants()) == count([](uint32_t op, const std::string& n) { return (n.compare(0, 6, "OpType") == 0 || n.find("Constant") != std::string::npos) && op != 39; }), "list", "types and constants");
		// capabilities, extensions and instruction sets
		std::set<uint32_t> caps; std::set<std::string> exts; std::map<std::string, uint32_t> imports; for (auto& i : m.insts) { if (i.op == 17) caps.insert(i.w(0)); if (i.op == 10) exts.insert(i.str(0)); if (i.op == 11) imports.emplace(i.str(0), i.result); }
		for (uint32_t x : caps) CHECK_SIG(mod.checkCapability(sg::spv::Capability(x)), "capability", "capability " + std::to_string(x) + " is not found"); { uint32_t x = s.pick(kind(K_Capability).enums).value; CHECK_SIG(mod.checkCapability(sg::spv::Capability(x)) == (caps.count(x) != 0), "capability", "capability " + std::to_string(x)); }
		CHECK_SIG(mod.getCapabilities().elements() == caps.size() && mod.getExtensions().elements() == exts.size() && mod.getExtInstrImports().elements() == imports.size(), "list", "number of capabilities, extensions or imports");
		for (auto& x : imports) { auto* i = mod.getExtensionInstructionImport(x.first.c_str()); CHECK_SIG(i && uint32_t(i->getResultId()) == x.second, "import", "import of " + x.first); }
		for (const char* x : { "GLSL.std.450", "OpenCL.std", "nothing" }) if (!imports.count(x)) CHECK_SIG(!mod.getExtensionInstructionImport(x), "import", std::string("import of ") + x);
		// ids and their uses
		std::vector<const Inst*> defs; for (auto& i : m.insts) if (i.result) defs.push_back(&i);
		for (int k = 0; k < 3 && !defs.empty(); ++k)
		{
			const Inst* d = s.pick(defs); auto* i = mod.getInstructionById(sg::spv::Id(d->result)); CHECK_SIG(i && uint32_t(i->getResultId()) == d->result, "id", "instruction with id of " + dump(*d));
			std::map<Words, size_t> want, have; bool several = false; size_t total = 0; for (auto& x : m.insts) { size_t n = 0; for (auto& o2 : x.ops) n += o2.isId() && o2.w[0] == d->result; if (n) { want[x.words] += n; total += n; several |= n > 1; } }
			sg::List<sg::Instruction*> uses(&alloc); mod.gatherUses(i, uses); for (auto* u : uses) { lu::MemWriter mw; u->write(mw); ++have[mw.w]; }
			CHECK_SIG(want == have, "uses", "uses of " + dump(*d)); if (total) c.label("used id"); if (several) c.label("used several times in one instruction");
		}
		{ uint32_t x = 1 + s.below(m.bound + 4); auto* i = mod.getInstructionById(sg::spv::Id(x)); CHECK_SIG((i != nullptr) == (m.find(x) != nullptr), "id", "instruction with id " + std::to_string(x)); }
		c.nontrivial = defined != 0 && m.insts.size() >= 12;
	}
	Reg r30("P30", "the module has a function with a body and at least 12 instructions", p30);
}
