// P14: the library's grammar tables against the official machine-readable grammar
#include "spv.h"
#include "spvgentwo/Grammar.h"
#include "spvgentwo/SpvDefines.h"
#include "spvgentwo/Glsl.h"
#include "spvgentwo/OpenCl.h"
#include "spvnames.inc"
#include "common/HeapAllocator.h"
#include <algorithm>
using namespace pbt;
using namespace spv_ref;
namespace sg = spvgentwo;
namespace
{
	using G = sg::Grammar;
	const G& gram() { static G g(sg::HeapAllocator::instance()); return g; }
	// official operand kind -> library operand kind by name
	int libKind(OKind k)
	{
		#define X(n) case K_##n: return int(G::OperandKind::n);
		switch (k) { X(ImageOperands)X(FPFastMathMode)X(SelectionControl)X(LoopControl)X(FunctionControl)X(MemorySemantics)X(MemoryAccess)X(KernelProfilingInfo)X(RayFlags)X(FragmentShadingRate)X(SourceLanguage)X(ExecutionModel)X(AddressingModel)X(MemoryModel)X(ExecutionMode)X(StorageClass)X(Dim)X(SamplerAddressingMode)X(SamplerFilterMode)X(ImageFormat)X(ImageChannelOrder)X(ImageChannelDataType)X(FPRoundingMode)X(FPDenormMode)X(QuantizationModes)X(FPOperationMode)X(OverflowModes)X(LinkageType)X(AccessQualifier)X(HostAccessQualifier)X(FunctionParameterAttribute)X(Decoration)X(BuiltIn)X(Scope)X(GroupOperation)X(KernelEnqueueFlags)X(Capability)X(RayQueryIntersection)X(RayQueryCommittedIntersectionType)X(RayQueryCandidateIntersectionType)X(PackedVectorFormat)X(CooperativeMatrixOperands)X(CooperativeMatrixLayout)X(CooperativeMatrixUse)X(InitializationModeQualifier)X(LoadCacheControl)X(StoreCacheControl)X(IdResultType)X(IdResult)X(IdMemorySemantics)X(IdScope)X(IdRef)X(LiteralInteger)X(LiteralString)X(LiteralFloat)X(LiteralContextDependentNumber)X(LiteralExtInstInteger)X(LiteralSpecConstantOpInteger)X(PairLiteralIntegerIdRef)X(PairIdRefLiteralInteger)X(PairIdRefIdRef) default: return -1; }
		#undef X
	}
	char libCat(G::OperandCategory c) { switch (c) { case G::OperandCategory::BitEnum: return 'B'; case G::OperandCategory::ValueEnum: return 'V'; case G::OperandCategory::Id: return 'I'; case G::OperandCategory::Literal: return 'L'; default: return 'C'; } }
	char libQuant(G::Quantifier q) { return q == G::Quantifier::One ? '1' : q == G::Quantifier::ZeroOrOne ? '?' : '*'; }
	std::string squash(const char* s) { std::string r; for (; s && *s; ++s) if (*s != '\n') r += *s; return r; }
	// official names carry aliases that differ by the vendor suffix; the library may know the entry under one of them
	std::string stem(std::string n)
	{
		for (bool again = true; again;) { again = false; for (const char* s : { "KHR", "EXT", "NV", "GOOGLE", "INTEL", "ARM", "AMD", "QCOM" }) { size_t l = strlen(s); if (n.size() > l && n.compare(n.size() - l, l, s) == 0) { n.resize(n.size() - l); again = true; } } }
		return n;
	}
	bool sameName(const std::string& a, const std::string& b) { return a == b || stem(a) == stem(b); }
	template <class V> std::string nums(const V& v) { std::string s; for (auto& x : v) s += std::to_string(unsigned(x)) + " "; return s; }
	// differences between the revision of the official grammar that the library was generated from and the installed one
	struct Rev { const char* name; int field; }; // 1: capabilities, 2: extensions, 3: version
	const Rev revisions[] = {
#include "grammar_revisions.inc"
	};
	// enumerants with a number of their own in the revision that the library was generated from
	bool renumbered(const char* k, uint32_t v) { return !strcmp(k, "Decoration") ? v == 6147 || v == 6148 || v == 6168 : !strcmp(k, "Capability") ? v == 6146 || v == 6167 : false; }
	bool revised(const char* n, int f) { for (auto& r : revisions) if (!strcmp(r.name, n) && r.field == f) return true; return false; }

	void operandList(const std::vector<OOperand>& o, const sg::Vector<G::Operand>& l, const std::string& who, bool names)
	{
		std::string a, b;
		for (auto& x : o) a += std::string(kind(x.kind).name) + x.quant + " ";
		for (auto& x : l) { std::string n = "?"; for (int k = 0; k < K_COUNT; ++k) if (libKind(OKind(k)) == int(x.kind)) n = kind(OKind(k)).name; b += n + libQuant(x.quantifier) + " "; }
		CHECK_SIG(a == b, "operands", who + ": operands are " + b + "instead of " + a);
		for (size_t k = 0; k < o.size(); ++k)
		{
			CHECK_SIG(libCat(l[k].category) == kind(o[k].kind).cat, "operand category", who + " operand " + std::to_string(k));
			if (names && o[k].name[0] && std::string(o[k].name) != "''") { std::string n = squash(o[k].name), m = squash(l[k].name); auto strip = [](std::string s) { s.erase(std::remove(s.begin(), s.end(), '\''), s.end()); return s; }; CHECK_SIG(strip(n) == strip(m), "operand name", who + " operand " + std::to_string(k) + ": " + m + " instead of " + n); }
		}
	}
	void instruction(const OInstr& i, G::Extension e, Ctx& c)
	{
		auto* p = gram().getInfo(i.op, e); std::string who = i.name;
		c.note(std::string("instruction ") + i.name + " opcode " + std::to_string(i.op));
		if (!p) { CHECK_SIG(revised(i.name, 0), "missing", who + " is not in the grammar"); c.label("newer than the library"); return; }
		c.nontrivial = true; c.label(e == G::Extension::Core ? "core instruction" : e == G::Extension::Glsl ? "GLSL instruction" : "OpenCL instruction");
		CHECK_SIG(sameName(p->name, i.name), "name", who + " is called " + p->name);
		operandList(i.operands, p->operands, who, true);
		std::vector<unsigned> a(i.caps.begin(), i.caps.end()), b; for (auto& x : p->capabilities) b.push_back(unsigned(x));
		std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end());
		if (!revised(i.name, 1)) CHECK_SIG(a == b, "capabilities", who + ": capabilities " + nums(b) + "instead of " + nums(a));
		std::vector<std::string> x(i.exts.begin(), i.exts.end()), y; for (auto& q : p->extensions) y.push_back(sg::spv::ExtensionNames[unsigned(q)]);
		std::sort(x.begin(), x.end()); std::sort(y.begin(), y.end());
		std::string xs, ys; for (auto& q : x) xs += q + " "; for (auto& q : y) ys += q + " ";
		if (!revised(i.name, 2)) CHECK_SIG(x == y, "extensions", who + ": extensions " + ys + "instead of " + xs);
		if (!revised(i.name, 3)) { unsigned v = e != G::Extension::Core ? 0 : i.version == 0xffffffffu ? 0 : i.version; CHECK_SIG(p->version == v, "version", who + ": version " + std::to_string(p->version) + " instead of " + std::to_string(v)); }
		if (e != G::Extension::Core) return;
		auto op = sg::spv::Op(i.op); bool hr = false, ht = false; sg::spv::HasResultAndType(op, &hr, &ht);
		bool er = false, et = false; for (auto& o : i.operands) { er |= o.kind == K_IdResult; et |= o.kind == K_IdResultType; }
		CHECK_SIG(hr == er && ht == et, "result", who + ": HasResultAndType says " + std::to_string(hr) + "," + std::to_string(ht));
		CHECK_SIG(sg::spv::HasResult(op) == er, "HasResult", who); CHECK_SIG(sg::spv::HasResultType(op) == et, "HasResultType", who);
		std::string cls = i.cls; bool cont = who.find("Continued") != std::string::npos;
		bool ty = who.compare(0, 6, "OpType") == 0, co = who.compare(0, 10, "OpConstant") == 0, sc = who.compare(0, 14, "OpSpecConstant") == 0;
		CHECK_SIG(sg::spv::IsTypeOp(op) == ty, "IsTypeOp", who); 
		if (!cont) { CHECK_SIG(sg::spv::IsConstantOp(op) == co, "IsConstantOp", who); CHECK_SIG(sg::spv::IsSpecConstantOp(op) == sc, "IsSpecConstantOp", who); }
		(void)cls;
	}
	void enumerantCase(const OKindInfo& k, const OEnum& e, Ctx& c)
	{
		int lk = libKind(k.kind); std::string who = std::string(k.name) + "." + e.name; c.note("enumerant " + who + "=" + std::to_string(e.value));
		if (lk < 0) { c.label("kind newer than the library"); return; }
		const char* n = gram().getOperandName(G::OperandKind(lk), e.value);
		if (!n) { CHECK_SIG(revised(who.c_str(), 0), "missing", who + " is not in the grammar"); c.label("newer than the library"); return; }
		c.nontrivial = true; c.label("enumerant");
		bool ok = false; for (auto& x : k.enums) if (x.value == e.value && sameName(n, x.name)) ok = true;
		if (!revised(who.c_str(), 5)) CHECK_SIG(ok, "name", who + " is called " + n);
		auto* ps = gram().getOperandParameters(G::OperandKind(lk), e.value);
		sg::Vector<G::Operand> none(nullptr);
		if (!revised(who.c_str(), 4)) operandList(e.params, ps ? *ps : none, who, false);
		if (!e.params.empty()) { c.label("enumerant with parameters"); CHECK_SIG(G::hasOperandParameters(G::OperandKind(lk)), "hasOperandParameters", who); }
	}
	void grammarCase(Src& s, Ctx& c)
	{
		static const std::vector<LibEnum>& names = libEnums();
		switch (s.weighted({ 40, 6, 10, 60, 60, 10, 10, 3 }))
		{
		case 0: { auto& i = s.pick(o_core()); c.mix(uint64_t(i.op)); // aliases share an opcode: the first entry counts
			instruction(*instr(i.op), G::Extension::Core, c); break; }
		case 1: { auto& i = s.pick(o_glsl()); c.mix(uint64_t(i.op) | 1u << 20); instruction(i, G::Extension::Glsl, c); break; }
		case 2: { auto& i = s.pick(o_opencl()); c.mix(uint64_t(i.op) | 2u << 20); instruction(i, G::Extension::OpenCl, c); break; }
		case 3: { std::vector<const OKindInfo*> ks; for (auto& k : o_kinds()) if (!k.enums.empty()) ks.push_back(&k); auto& k = *s.pick(ks); auto& e = s.pick(k.enums); c.mix(uint64_t(k.kind) << 32 | e.value); enumerantCase(k, e, c); break; }
		case 4: { // uniform over all enumerants
			static std::vector<std::pair<const OKindInfo*, const OEnum*>> all = [] { std::vector<std::pair<const OKindInfo*, const OEnum*>> v; for (auto& k : o_kinds()) for (auto& e : k.enums) v.push_back({ &k, &e }); return v; }();
			auto& p = s.pick(all); c.mix(uint64_t(p.first->kind) << 32 | p.second->value); enumerantCase(*p.first, *p.second, c); break; }
		case 5: { // numeric values of the names the headers declare
			auto& e = s.pick(names); std::string k = e.kind, n = e.name; c.note("declared name " + k + "::" + n); c.mix(k); c.mix(n); bool found = false, match = false;
			if (n == "Max" || n == "MaskNone" || k == "Extension" || (k.size() > 5 && k.compare(k.size() - 5, 5, "Shift") == 0)) break; // the Shift enumerations number the masks of the library, they are no part of the grammar
			if (k == "Op") { for (auto& i : o_core()) if (i.name == n) { found = true; match |= i.op == e.value; } }
			else if (k == "glsl:Op") { for (auto& i : o_glsl()) if (i.name == n) { found = true; match |= i.op == e.value; } }
			else if (k == "opencl:Op") { for (auto& i : o_opencl()) if (i.name == n) { found = true; match |= i.op == e.value; } }
			else for (auto& o : o_kinds())
			{
				bool mask = k == std::string(o.name) + "Mask";
				if (!mask && k != o.name) continue;
				for (auto& en : o.enums) if (en.name == n || std::string(o.name) + en.name == n) { found = true; match |= en.value == e.value || renumbered(o.name, e.value); }
			}
			if (found) { c.nontrivial = true; c.label("declared name"); CHECK_SIG(match, "declared value", k + "::" + n + " has the value " + std::to_string(e.value)); } else c.label("declared name without official counterpart");
			break; }
		case 6: { // opcodes, values outside of the official grammar are unknown
			if (s.coin()) { uint32_t op = s.coin() ? s.below(8192) : s.word(); c.mix(uint64_t(op) | 1ull << 40); c.note("opcode " + std::to_string(op)); if (!instr(op)) { c.nontrivial = true; c.label("unknown opcode"); auto* p = gram().getInfo(op); CHECK_SIG(!p, "unknown opcode", "opcode " + std::to_string(op) + " is " + (p ? p->name : "")); } }
			else { auto& k = s.pick(o_kinds()); uint32_t v = s.coin() ? s.below(8192) : s.word(); int lk = libKind(k.kind); if (lk < 0) break; c.mix(uint64_t(k.kind) << 33 | v); c.note(std::string(k.name) + " value " + std::to_string(v)); if (!enumerant(k.kind, v) && !renumbered(k.name, v)) { c.nontrivial = true; c.label("unknown enumerant"); CHECK_SIG(!gram().getOperandName(G::OperandKind(lk), v), "unknown enumerant", std::string(k.name) + " " + std::to_string(v)); CHECK_SIG(!gram().getOperandParameters(G::OperandKind(lk), v), "unknown enumerant parameters", std::string(k.name) + " " + std::to_string(v)); } }
			break; }
		default: { auto& k = s.pick(o_kinds()); int lk = libKind(k.kind); c.mix(uint64_t(k.kind) << 1 | 1); if (lk < 0) break; auto* b = gram().getOperandBases(G::OperandKind(lk)); c.note(std::string("bases of ") + k.name);
			std::string a, l; for (auto x : k.bases) a += std::to_string(libKind(x)) + " "; if (b) for (auto& x : *b) l += std::to_string(int(x.kind)) + " "; CHECK_SIG(a == l, "bases", std::string(k.name) + ": " + l + "instead of " + a); if (b) { c.nontrivial = true; c.label("composite kind"); } }
		}
	}
	Reg r14("P14", "the drawn entry (instruction, extended instruction, enumerant, declared name or unknown value) exists on the side it is compared with", grammarCase);
}
