// P15: printed text against a text derived from the independently decoded module
#include "bgen.h"
#include "libutil.h"
#include "common/ModulePrinter.h"
#include "common/HeapString.h"
#include <set>
using namespace pbt;
using namespace spv_ref;
namespace sg = spvgentwo;
using Bits = sg::ModulePrinter::PrintOptionsBits;
namespace
{
	std::string stem(std::string n)
	{
		for (bool again = true; again;) { again = false; for (const char* s : { "KHR", "EXT", "NV", "GOOGLE", "INTEL", "ARM", "AMD", "QCOM", "ALTERA" }) { size_t l = strlen(s); if (n.size() > l && n.compare(n.size() - l, l, s) == 0) { n.resize(n.size() - l); again = true; } } }
		return n;
	}
	// the library may know an enumerant or instruction by one of several official names (aliases)
	std::string choose(const char* lib, const std::vector<std::string>& official) { for (auto& o : official) if (lib && o == lib) return o; if (!official.empty() && official[0] == "LongCompositesINTEL" && lib && std::string(lib) == "LongConstantCompositeINTEL") return lib; /* earlier official name */ for (auto& o : official) if (lib && stem(o) == stem(lib)) return lib; return official.empty() ? "" : official[0]; }
	sg::Grammar::OperandKind libKind(OKind k)
	{
		using G = sg::Grammar::OperandKind;
		#define X(n) case K_##n: return G::n;
		switch (k) { X(ImageOperands)X(FPFastMathMode)X(SelectionControl)X(LoopControl)X(FunctionControl)X(MemorySemantics)X(MemoryAccess)X(KernelProfilingInfo)X(RayFlags)X(FragmentShadingRate)X(SourceLanguage)X(ExecutionModel)X(AddressingModel)X(MemoryModel)X(ExecutionMode)X(StorageClass)X(Dim)X(SamplerAddressingMode)X(SamplerFilterMode)X(ImageFormat)X(ImageChannelOrder)X(ImageChannelDataType)X(FPRoundingMode)X(FPDenormMode)X(QuantizationModes)X(FPOperationMode)X(OverflowModes)X(LinkageType)X(AccessQualifier)X(FunctionParameterAttribute)X(Decoration)X(BuiltIn)X(Scope)X(GroupOperation)X(KernelEnqueueFlags)X(Capability)X(RayQueryIntersection)X(RayQueryCommittedIntersectionType)X(RayQueryCandidateIntersectionType)X(PackedVectorFormat)X(CooperativeMatrixOperands)X(CooperativeMatrixLayout)X(CooperativeMatrixUse)X(InitializationModeQualifier)X(HostAccessQualifier)X(LoadCacheControl)X(StoreCacheControl)
		default: return static_cast<G>(~0u); }
		#undef X
	}
	struct Printer
	{
		const Mod& m; uint32_t opt; bool resolved; std::string indent;
		std::map<uint32_t, std::string> names; std::string out;
		bool on(Bits b) const { return (opt & uint32_t(b)) != 0; }
		Printer(const Mod& mod, uint32_t o, bool r, std::string ind) : m(mod), opt(o), resolved(r), indent(ind)
		{
			if (resolved) for (auto& i : m.insts) if (i.op == 5) names.emplace(i.w(0), i.str(1));
		}
		std::string name(uint32_t id) const { auto it = names.find(id); return it == names.end() ? "" : it->second; }
		static std::string num(uint32_t v) { return std::to_string(v); }
		// "" if not one of the types with a short name
		std::string typeName(const Inst& t) const
		{
			if (t.op == 19) return "void"; if (t.op == 20) return "bool";
			if (t.op == 21) return std::string(t.w(1) ? "int" : "uint") + num(t.w(0));
			if (t.op == 22) return t.w(0) == 16 ? "half" : t.w(0) == 32 ? "float" : t.w(0) == 64 ? "double" : "";
			if (t.op == 23 && t.w(1) >= 2 && t.w(1) <= 4) { std::string b = typeName(*m.find(t.w(0))); return b.empty() ? "" : b + "_" + num(t.w(1)); }
			if (t.op == 24) { const Inst& c = *m.find(t.w(0)); std::string b = typeName(*m.find(c.w(0))); if (c.w(1) > 4 || t.w(1) > 4 || b.empty()) return ""; return b + "_" + num(t.w(1)) + "x" + num(c.w(1)); }
			return "";
		}
		// "" if the value has no text of its own
		std::string constantText(const Inst& c) const
		{
			if (!resolved) return "";
			switch (c.op) { case 46: return "null"; case 41: case 48: return "true"; case 42: case 49: return "false"; case 43: case 50: break; default: return ""; }
			const Inst& t = *m.find(c.type); char b[400] = ""; uint32_t lo = c.ops[0].w[0]; uint64_t v = c.ops[0].w.size() > 1 ? uint64_t(c.ops[0].w[1]) << 32 | lo : lo;
			if (t.op == 21) { uint32_t n = t.w(0); if (t.w(1)) snprintf(b, sizeof b, "%lld", (long long)(n == 8 ? int8_t(v) : n == 16 ? int16_t(v) : n == 32 ? int32_t(v) : int64_t(v))); else snprintf(b, sizeof b, "%llu", (unsigned long long)(n == 8 ? uint8_t(v) : n == 16 ? uint16_t(v) : v)); return b; }
			if (t.w(0) == 32) { float f; memcpy(&f, &lo, 4); snprintf(b, sizeof b, "%f", f); return b; }
			if (t.w(0) == 64) { double f; memcpy(&f, &v, 8); snprintf(b, sizeof b, "%f", f); return b; }
			return "";
		}
		void idRef(uint32_t id)
		{
			out += ' ';
			if (!resolved) { out += "%" + num(id); return; }
			if (on(Bits::OperandName) && !name(id).empty()) { out += "%" + name(id); return; }
			const Inst& i = *m.find(id); std::string n = i.info->name;
			if (n.compare(0, 6, "OpType") == 0) { std::string t = typeName(i); if (on(Bits::TypeName) && !t.empty()) { out += t; return; } }
			else if (on(Bits::ConstantData)) { std::string c = constantText(i); if (!c.empty()) { out += c; return; } }
			out += "%" + num(id);
		}
		void operands(const Inst& i, size_t from)
		{
			for (size_t k = from; k < i.ops.size(); ++k)
			{
				auto& o = i.ops[k];
				if (o.isId()) { idRef(o.w[0]); continue; }
				if (o.kind == K_LiteralString) { out += " \"" + i.str(k) + "\""; continue; }
				if (o.kind == K_LiteralContextDependentNumber) { std::string c = on(Bits::ConstantData) ? constantText(i) : ""; if (!c.empty()) { out += " " + c; continue; } }
				if (o.kind == K_LiteralExtInstInteger && resolved)
				{
					std::string set = m.find(i.w(0))->str(0); bool gl = set == "GLSL.std.450", cl = set == "OpenCL.std";
					if (gl || cl) { auto* li = lu::grammar().getInfo(o.w[0], gl ? sg::Grammar::Extension::Glsl : sg::Grammar::Extension::OpenCl); out += " " + choose(li ? li->name : nullptr, { extInstr(set, o.w[0])->name }); continue; }
				}
				if ((o.cat == 'V' || o.cat == 'B') && on(Bits::OperandName) && (resolved || i.op != 12)) // the set of an unresolved instruction is not known
				{
					std::vector<std::string> off; for (auto& e : kind(o.kind).enums) if (e.value == o.w[0]) off.push_back(e.name);
					if (!off.empty()) { out += " " + choose(lu::grammar().getOperandName(libKind(o.kind), o.w[0]), off); continue; }
				}
				for (uint32_t x : o.w) out += " " + num(x);
				if (o.kind == K_LiteralSpecConstantOpInteger)
				{
					out += " ["; if (on(Bits::OperationName)) out += mnemonic(o.w[0]); idRef(i.type); operands(i, k + 1); out += "]"; return;
				}
			}
		}
		static std::string mnemonic(uint32_t op) { std::vector<std::string> v; for (auto& i : o_core()) if (i.op == op) v.push_back(i.name); auto* l = lu::grammar().getInfo(op); return choose(l ? l->name : nullptr, v); }
		void line(const Inst& i)
		{
			if (i.result) { std::string n = name(i.result); if (on(Bits::InstructionName) && !n.empty()) out += "%" + n; else if (on(Bits::ResultId)) out += "%" + num(i.result); }
			out += indent; if (on(Bits::OperationName)) out += mnemonic(i.op);
			if (i.type) idRef(i.type);
			operands(i, 0);
		}
		std::string module(uint32_t generator)
		{
			out.clear();
			if (on(Bits::Preamble)) { out += "# SPIR-V Version " + num(m.version >> 16 & 0xff) + "." + num(m.version >> 8 & 0xff) + "\n# Generator " + num(generator >> 16) + " | " + num(generator & 0xffff) + "\n# Bound " + num(m.bound) + "\n# Schema " + num(m.schema) + "\n\n"; }
			for (auto& i : m.insts) { line(i); out += "\n"; }
			return out;
		}
	};
	// runs of blanks are layout, not content
	std::string squeeze(const std::string& s) { std::string r; for (char c : s) { if (c == '\t') c = ' '; if (c == ' ' && !r.empty() && (r.back() == ' ' || r.back() == '\n')) continue; if (c == '\n') while (!r.empty() && r.back() == ' ') r.pop_back(); r += c; } return r; }
	std::string strip(const std::string& s) { std::string r; for (size_t i = 0; i < s.size(); ++i) { if (s[i] == 0x1b) { while (i < s.size() && s[i] != 'm') ++i; continue; } r += s[i]; } return r; }
	std::string firstDiff(const std::string& a, const std::string& b)
	{
		size_t i = 0; while (i < a.size() && i < b.size() && a[i] == b[i]) ++i; size_t l = a.rfind('\n', i ? i - 1 : 0); l = l == std::string::npos ? 0 : l + 1;
		auto lineOf = [&](const std::string& s) { size_t e = s.find('\n', std::min(i, s.size())); return s.substr(std::min(l, s.size()), e == std::string::npos ? std::string::npos : e - l); };
		return "expected '" + lineOf(a) + "' printed '" + lineOf(b) + "'";
	}
	void checkPrint(const Words& w, uint32_t opt, uint32_t mode, const char* indent, Ctx& c)
	{
		sg::HeapAllocator alloc; lu::Log log; sg::Module mod(&alloc, &log); lu::MemReader r(w);
		bool ok = mode ? mod.readAndInit(r, lu::grammar()) : mod.read(r, lu::grammar()); CHECK_SIG(ok, "read", log.text);
		if (mode == 2) mod.assignIDs();
		lu::MemWriter mw; CHECK_SIG(mod.write(mw), "write", log.text); Mod m; std::string err; CHECK_SIG(decode(mw.w, m, err), "decode", err);
		Printer p(m, opt, mode > 0, indent ? indent : ""); std::string want = p.module(w[2]), got;
		sg::ModulePrinter::ModuleSimpleFuncPrinter plain([&](const char* t) { got += t; });
		bool res = sg::ModulePrinter::printModule(mod, lu::grammar(), plain, static_cast<Bits>(opt), indent);
		if (c.verbose) c.note(dump(m) + "---- expected\n" + want + "---- printed\n" + got);
		else if (c.wantSample) c.note("options " + std::to_string(opt) + "\n" + want.substr(0, 1500));
		CHECK_SIG(squeeze(got) == squeeze(want), "text", "options " + std::to_string(opt) + " mode " + std::to_string(mode) + ": " + firstDiff(squeeze(want), squeeze(got)));
		CHECK_SIG(res, "result", "printing succeeded but reports failure");
		// other printers, colours
		sg::HeapString hs; sg::ModulePrinter::ModuleStringPrinter sp(hs); sg::ModulePrinter::printModule(mod, lu::grammar(), sp, static_cast<Bits>(opt), indent);
		CHECK_SIG(got == hs.c_str(), "string printer", "the string printer prints something else: " + firstDiff(got, hs.c_str()));
		std::string col; sg::ModulePrinter::ModuleSimpleFuncPrinter colour([&](const char* t) { col += t; }, true); sg::ModulePrinter::printModule(mod, lu::grammar(), colour, static_cast<Bits>(opt), indent);
		CHECK_SIG(strip(col) == got, "colours", "text with colours differs: " + firstDiff(got, strip(col)));
		// single instructions
		size_t k = 0; std::string lines; mod.iterateInstructions([&](sg::Instruction& i) { sg::HeapString l; sg::ModulePrinter::ModuleStringPrinter q(l); sg::ModulePrinter::printInstruction(i, lu::grammar(), q, static_cast<Bits>(opt), indent); if (l.c_str()) lines += l.c_str(); lines += "\n"; ++k; });
		size_t pre = got.size() >= lines.size() ? got.size() - lines.size() : 0; CHECK_SIG(got.substr(pre) == lines, "single", "instructions printed one by one differ: " + firstDiff(got.substr(pre), lines));
		CHECK_SIG(k == m.insts.size(), "count", "number of instructions");
	}
	Reg p15("P15", "the module has a function with a body and at least 12 instructions, and operations are printed", [](Src& s, Ctx& c)
	{
		bgen::Opts o; o.extLiterals = true; auto g = bgen::generate(s, o); for (auto& x : g.shape) c.label(x.first, x.second);
		uint32_t opt = 127; switch (s.below(4)) { case 0: break; case 1: opt ^= 1u << s.below(7); break; case 2: opt = s.below(128); break; default: opt = 16 | 1u << s.below(7); break; }
		uint32_t mode = 2 - s.weighted({ 4, 3, 2 }); if (mode == 2) mode = 1; else if (mode == 1) mode = 2; static const char* const indents[] = { "\t\t", "", "    ", nullptr }; const char* indent = s.pick(indents);
		c.mix(g.words.data(), g.words.size() * 4); c.mix(uint64_t(opt) << 8 | mode);
		Mod a; std::string err; CHECK_SIG(decode(g.words, a, err), "generator", err); bool body = false; for (auto& i : a.insts) body |= i.op == 248; c.nontrivial = body && a.insts.size() >= 12 && (opt & 16);
		c.label(mode == 0 ? "printed unresolved" : mode == 1 ? "printed as read" : "printed after assigning ids"); c.label(opt == 127 ? "all options" : "option subset");
		checkPrint(g.words, opt, mode, indent, c);
	});
}
