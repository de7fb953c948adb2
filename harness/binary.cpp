// P05 (read and write back), P06 (arbitrary input)
#include "bgen.h"
#include "libutil.h"
#include "mutate.h"
#include "track.h"
#include "common/ModulePrinter.h"
#include <set>
#include <algorithm>
using namespace pbt;
using namespace spv_ref;
namespace sg = spvgentwo;
namespace
{
	std::string hexWords(const Words& w) { std::string s; char b[12]; for (size_t i = 0; i < w.size() && i < 4000; ++i) { snprintf(b, sizeof b, "%08x ", w[i]); s += b; } return s; }
	// one line of text per instruction, exact words (ids as they are)
	struct Groups { std::map<std::string, std::vector<const Inst*>> g; std::map<uint32_t, std::vector<const Inst*>> fn; std::vector<uint32_t> decls, defs, eps; };
	Groups groups(const Mod& m)
	{
		Groups r; std::set<uint32_t> ep; for (auto& i : m.insts) if (i.op == 15) ep.insert(i.w(1));
		for (size_t k = 0; k < m.insts.size(); ++k)
		{
			const Inst& i = m.insts[k];
			if (i.op == 54) { bool body = false; uint32_t id = i.result; for (; k < m.insts.size(); ++k) { r.fn[id].push_back(&m.insts[k]); body |= m.insts[k].op == 248; if (m.insts[k].op == 56) break; } (ep.count(id) ? r.eps : body ? r.defs : r.decls).push_back(id); continue; }
			std::string n = i.info ? i.info->name : "?", key = "global";
			if (i.op == 17 || i.op == 10 || i.op == 11 || i.op == 14 || i.op == 15) key = n; else if (i.op == 16 || i.op == 331) key = "mode"; else if (i.op == 7 || i.op == 2 || i.op == 3 || i.op == 4) key = "source";
			else if (i.op == 5 || i.op == 6) key = "name"; else if (i.op == 330) key = "processed"; else if (i.op == 71 || i.op == 72 || i.op == 73 || i.op == 74 || i.op == 75 || i.op == 332 || i.op == 5632 || i.op == 5633) key = "decoration";
			else if (i.op == 59) key = "variable"; else if (i.op == 1) key = "undef"; else if (i.op == 8 || i.op == 317) key = "line";
			r.g[key].push_back(&i);
		}
		return r;
	}
	std::string compareLists(const std::string& what, std::vector<const Inst*> a, std::vector<const Inst*> b, bool asSet)
	{
		if (asSet) { auto lt = [](const Inst* x, const Inst* y) { return x->words < y->words; }; for (auto* v : { &a, &b }) { std::sort(v->begin(), v->end(), lt); v->erase(std::unique(v->begin(), v->end(), [](auto x, auto y) { return x->words == y->words; }), v->end()); } }
		for (size_t k = 0; k < std::max(a.size(), b.size()); ++k)
		{
			if (k >= a.size()) return what + ": additional " + dump(*b[k]);
			if (k >= b.size()) return what + ": lost " + dump(*a[k]);
			if (a[k]->words != b[k]->words) return what + ": " + dump(*a[k]) + " became " + dump(*b[k]);
		}
		return "";
	}
	std::string compareModules(const Mod& a, const Mod& b)
	{
		if (a.version != b.version) return "version " + std::to_string(a.version) + " became " + std::to_string(b.version);
		if (a.bound != b.bound) return "bound " + std::to_string(a.bound) + " became " + std::to_string(b.bound);
		if (a.schema != b.schema) return "schema changed";
		Groups x = groups(a), y = groups(b); std::set<std::string> keys; for (auto& k : x.g) keys.insert(k.first); for (auto& k : y.g) keys.insert(k.first);
		for (auto& k : keys) { auto d = compareLists(k, x.g[k], y.g[k], k == "OpCapability" || k == "OpExtension" || k == "OpExtInstImport"); if (!d.empty()) return d; }
		if (x.decls != y.decls) return "function declarations differ"; if (x.defs != y.defs) return "function definitions differ in number or order"; 
		for (auto& f : x.fn) { if (!y.fn.count(f.first)) return "function " + std::to_string(f.first) + " lost"; auto d = compareLists("function", f.second, y.fn[f.first], false); if (!d.empty()) return d; }
		for (auto& f : y.fn) if (!x.fn.count(f.first)) return "additional function";
		return "";
	}
	// operands of types, constants and variables are declared before them (debug, decorations and functions may refer forward)
	std::string globalOrder(const Mod& m)
	{
		std::set<uint32_t> seen; // forward declared pointers count as declared
		for (auto& i : m.insts)
		{
			if (i.op == 54) break;
			bool decl = i.op == 59 || i.op == 1 || std::string(i.info->name).compare(0, 6, "OpType") == 0 || std::string(i.info->name).find("Constant") != std::string::npos;
			if (decl && i.op != 39) { if (i.type && !seen.count(i.type)) return "type used before its declaration: " + dump(i); for (auto& o : i.ops) if (o.isId() && !seen.count(o.w[0])) return "id used before its declaration: " + dump(i); }
			if (i.result) seen.insert(i.result); if (i.op == 39) seen.insert(i.w(0));
		}
		return "";
	}
	// line information at module scope belongs to the instruction that follows it
	std::string lineTargets(const Mod& m)
	{
		std::string r; bool in = false;
		for (size_t k = 0; k < m.insts.size(); ++k) { auto& i = m.insts[k]; if (i.op == 54) in = true; if (!in && i.op == 8) r += dump(i) + " -> " + (k + 1 < m.insts.size() ? dump(m.insts[k + 1]) : "end") + "\n"; if (i.op == 56) in = false; }
		return r;
	}
	struct Read
	{
		sg::HeapAllocator alloc; lu::Log log; sg::Module mod; bool ok = false;
		explicit Read(const Words& w, bool init = true) : mod(&alloc, &log) { lu::MemReader r(w); ok = init ? mod.readAndInit(r, lu::grammar()) : mod.read(r, lu::grammar()); }
		bool write(Words& out) { lu::MemWriter w; bool r = mod.write(w); out = std::move(w.w); return r; }
	};
	std::string roundTrip(const Words& w, std::string& sig)
	{
		Mod a, b; std::string err;
		if (!decode(w, a, err)) { sig = "generator"; return "generated module does not decode: " + err; }
		std::string lay = checkLayout(a); if (!lay.empty()) { sig = "generator"; return "generated module: " + lay; }
		std::string ord = globalOrder(a); if (!ord.empty()) { sig = "generator"; return "generated module: " + ord; }
		Read r(w); sig = "read"; if (!r.ok) return "reading failed: " + r.log.text;
		Words w2; sig = "write"; if (!r.write(w2)) return "writing failed: " + r.log.text;
		sig = "decode"; if (!decode(w2, b, err)) return "written module does not decode: " + err;
		sig = "layout"; lay = checkLayout(b); if (!lay.empty()) return "written module: " + lay;
		sig = "order"; ord = globalOrder(b); if (!ord.empty()) return "written module: " + ord;
		sig = "content"; auto d = compareModules(a, b); if (!d.empty()) return d;
		sig = "line"; if (lineTargets(a) != lineTargets(b)) return "line information moved: " + lineTargets(a) + " became " + lineTargets(b);
		// read without resolving: nothing may be lost either
		{ Read q(w, false); Words w3; sig = "unresolved"; if (!q.ok || !q.write(w3)) return "read and write without resolving ids failed: " + q.log.text; Mod c; if (!decode(w3, c, err)) return "unresolved: " + err; d = compareModules(a, c); if (!d.empty()) return "without resolving ids: " + d; }
		// stable: reading the written module and writing again
		{ Read q(w2); Words w3; sig = "again"; if (!q.ok || !q.write(w3)) return "second reading or writing failed: " + q.log.text; Mod c; if (!decode(w3, c, err)) return "second: " + err; d = compareModules(a, c); if (!d.empty()) return "second round: " + d; }
		// ids reassigned
		r.mod.assignIDs(); Words w4; sig = "reassign"; if (!r.write(w4)) return "writing after assigning ids failed: " + r.log.text;
		Mod c; if (!decode(w4, c, err)) return "after assigning ids: " + err;
		if (a.version != c.version) return "assigning ids changed the version";
		d = isoDiff(b, c); if (!d.empty()) return "after assigning ids: " + d;
		uint32_t n = 0; for (auto& i : c.insts) if (i.result) { ++n; if (i.result > c.insts.size()) return "reassigned id too large"; } if (c.bound != n + 1) return "bound " + std::to_string(c.bound) + " after assigning " + std::to_string(n) + " ids";
		return "";
	}
	Reg p05("P05", "the module has a function with a body, at least 3 types beyond the basic ones and at least 12 instructions", [](Src& s, Ctx& c)
	{
		bgen::Opts o; o.extLiterals = true; auto m = bgen::generate(s, o); for (auto& x : m.shape) c.label(x.first, x.second);
		c.mix(m.words.data(), m.words.size() * 4);
		Mod a; std::string err; CHECK_SIG(decode(m.words, a, err), "generator", err);
		size_t types = 0; bool body = false; for (auto& i : a.insts) { types += std::string(i.info->name).compare(0, 6, "OpType") == 0; body |= i.op == 248; }
		c.nontrivial = body && types >= 6 && a.insts.size() >= 12;
		if (c.wantSample || c.verbose) c.note(dump(a));
		std::string sig; std::string d = roundTrip(m.words, sig); CHECK_SIG(d.empty(), sig, d);
	});

	// ------------------------------------------------------------------------------------------------ P05: recorded findings
	bool failsRoundTrip(const char* text, const char* want, std::string& d)
	{
		Words w; std::string err, sig; if (!assemble(text, 0x10600, w, err)) { d = "recorded input does not assemble: " + err; return false; }
		std::string r = roundTrip(w, sig); d = sig + ": " + r; return !r.empty() && sig == want;
	}
	#define HEAD "OpCapability Shader\nOpCapability Linkage\nOpMemoryModel Logical GLSL450\n"
	#define KHEAD "OpCapability Kernel\nOpCapability Addresses\nOpCapability Linkage\nOpMemoryModel Physical64 OpenCL\n"
	RegKnown k1("P05", "switch-64bit", [](std::string& d) { return failsRoundTrip("OpCapability Shader\nOpCapability Linkage\nOpCapability Int64\nOpMemoryModel Logical GLSL450\n%1 = OpTypeVoid\n%2 = OpTypeFunction %1\n%3 = OpTypeInt 64 0\n%4 = OpConstant %3 5\n%5 = OpFunction %1 None %2\n%6 = OpLabel\nOpSwitch %4 %7 4294967297 %7\n%7 = OpLabel\nOpReturn\nOpFunctionEnd\n", "read", d); });
	RegKnown k2("P05", "module-scope-line", [](std::string& d) { return failsRoundTrip(HEAD "%1 = OpString \"f\"\nOpLine %1 1 2\n%2 = OpTypeVoid\n%3 = OpTypeFunction %2\n", "line", d); });
	RegKnown k3("P05", "line-in-function-header", [](std::string& d) { return failsRoundTrip(HEAD "%1 = OpString \"f\"\n%2 = OpTypeVoid\n%3 = OpTypeFunction %2\n%4 = OpFunction %2 None %3\nOpLine %1 1 2\n%5 = OpLabel\nOpReturn\nOpFunctionEnd\n", "read", d); });
	RegKnown k4("P05", "forward-pointer", [](std::string& d) { return failsRoundTrip(KHEAD "OpTypeForwardPointer %1 CrossWorkgroup\n%2 = OpTypeStruct %1\n%1 = OpTypePointer CrossWorkgroup %2\n", "read", d); });
	RegKnown k5("P05", "opaque-type", [](std::string& d) { return failsRoundTrip(KHEAD "%1 = OpTypeOpaque \"t\"\n", "read", d); });
	RegKnown k7("P05", "cooperative-matrix-type", [](std::string& d) { return failsRoundTrip("OpCapability Shader\nOpCapability Linkage\nOpCapability CooperativeMatrixKHR\nOpExtension \"SPV_KHR_cooperative_matrix\"\nOpMemoryModel Logical GLSL450\n%1 = OpTypeFloat 32\n%2 = OpTypeInt 32 0\n%3 = OpConstant %2 3\n%4 = OpTypeCooperativeMatrixKHR %1 %3 %3 %3 %3\n", "read", d); });
	RegKnown k8("P05", "module-scope-extinst", [](std::string& d) { return failsRoundTrip("OpCapability Shader\nOpCapability Linkage\n%1 = OpExtInstImport \"NonSemantic.Test\"\nOpMemoryModel Logical GLSL450\n%2 = OpTypeVoid\n%3 = OpExtInst %2 %1 1\n", "read", d); });
	RegKnown k9("P05", "undef-order", [](std::string& d) { return failsRoundTrip(HEAD "%1 = OpTypeInt 32 0\n%2 = OpTypeVector %1 2\n%3 = OpUndef %1\n%4 = OpConstantComposite %2 %3 %3\n", "order", d); });
	RegKnown k10("P05", "variable-order", [](std::string& d) { return failsRoundTrip(KHEAD "%1 = OpTypeInt 32 0\n%2 = OpTypePointer CrossWorkgroup %1\n%3 = OpVariable %2 CrossWorkgroup\n%4 = OpSpecConstantOp %2 Bitcast %3\n", "order", d); });
	RegKnown k11("P05", "shared-entry-point", [](std::string& d) { return failsRoundTrip("OpCapability Shader\nOpMemoryModel Logical GLSL450\nOpEntryPoint Vertex %1 \"a\"\nOpEntryPoint Vertex %1 \"b\"\n%2 = OpTypeVoid\n%3 = OpTypeFunction %2\n%1 = OpFunction %2 None %3\n%4 = OpLabel\nOpReturn\nOpFunctionEnd\n", "read", d); });
	RegKnown k12("P05", "empty-entry-point-name", [](std::string& d) { return failsRoundTrip("OpCapability Shader\nOpMemoryModel Logical GLSL450\nOpEntryPoint Vertex %1 \"\"\n%2 = OpTypeVoid\n%3 = OpTypeFunction %2\n%1 = OpFunction %2 None %3\n%4 = OpLabel\nOpReturn\nOpFunctionEnd\n", "read", d); });
	RegKnown k13("P05", "duplicate-import", [](std::string& d) { return failsRoundTrip("OpCapability Shader\nOpCapability Linkage\n%1 = OpExtInstImport \"GLSL.std.450\"\n%2 = OpExtInstImport \"GLSL.std.450\"\nOpMemoryModel Logical GLSL450\n%3 = OpTypeVoid\n%4 = OpTypeFunction %3\n%5 = OpTypeFloat 32\n%6 = OpConstant %5 1\n%7 = OpFunction %3 None %4\n%8 = OpLabel\n%9 = OpExtInst %5 %2 Sqrt %6\nOpReturn\nOpFunctionEnd\n", "read", d); });

	// ------------------------------------------------------------------------------------------------ P06
	struct Sink : sg::ModulePrinter::IModulePrinter { size_t n = 0; using sg::ModulePrinter::IModulePrinter::append; void append(const char* t, const char*, const char*) final { if (t) n += strlen(t); } };
	void exercise(const Words& w, uint32_t how, uint32_t opts, Ctx& c, size_t& consumed)
	{
		TrackAlloc alloc;
		{
			lu::Log log; sg::Module mod(&alloc, &log); lu::MemReader r(w);
			bool read = mod.read(r, lu::grammar()), ok = read; consumed = r.pos;
			if (read && how >= 1) ok = mod.resolveIDs() && ok;
			if (ok && how >= 2) ok = mod.reconstructNames();
			if (ok && how >= 3) ok = mod.reconstructTypeAndConstantInfo();
			c.label(!read ? "not read" : !ok ? "read, not initialised" : "accepted");
			if (read)
			{
				if (!ok) c.note("initialising failed\n");
				auto go = [&]() {
					Sink s; sg::ModulePrinter::printModule(mod, lu::grammar(), s, static_cast<sg::ModulePrinter::PrintOptionsBits>(opts & 127));
					lu::MemWriter out; mod.write(out);
				};
				go();
				if (ok) // the module may be used
				{
					mod.iterateInstructions([&](sg::Instruction& i) { const char* n = i.getName(); if (n) c.mix(uint64_t(strlen(n))); i.getResultId(); i.getStorageClass(); if (how >= 3) { i.getType(); if (i.isSpecOrConstant()) i.getConstant(); } });
					if (how >= 1) { if (opts & 128) mod.finalizeEntryPoints(); mod.assignIDs(opts & 256 ? &lu::grammar() : nullptr); go(); }
				}
			}
			alloc.check("while the module lives");
		}
		alloc.checkAllReturned("after the module is destroyed");
	}
	Reg p06("P06", "the mutated module is not the generated one and the reader got past the header and three instructions", [](Src& s, Ctx& c)
	{
		bgen::Opts o; o.mayBeLarge = false; o.maxBody = 4; o.wideSwitch = o.globalLines = o.functionLines = o.forwardPointers = o.globalExtInst = o.undefConstituents = o.sharedEntryPoint = o.opaqueTypes = o.dupImports = o.extLiterals = true;
		Words w, base; uint32_t kind_ = s.weighted({ 12, 1 });
		if (kind_ == 0) { base = w = bgen::generate(s, o).words; uint32_t n = s.weighted({ 1, 6, 4, 3, 2, 1 }); while (n--) mut::mutate(s, w, c); }
		else { w = { 0x07230203u, 0x10000, 0, 100, 0 }; uint32_t n = s.below(12); while (n--) { if (s.chance(1, 6)) { w.push_back(s.word()); continue; } const OInstr& i = s.pick(o_core()); uint32_t k = s.below(6); w.push_back((k + 1) << 16 | i.op); while (k--) w.push_back(s.coin() ? s.below(12) : s.word()); } c.label("random instructions"); }
		uint32_t how = 3 - s.weighted({ 6, 2, 1, 1 }), opts = s.coin() ? 127 | s.below(4) << 7 : s.below(512);
		c.mix(w.data(), w.size() * 4); c.mix(uint64_t(how) << 32 | opts);
		if (c.wantSample || c.verbose) c.note("read level " + std::to_string(how) + " print options " + std::to_string(opts) + " words " + hexWords(w) + "\n");
		size_t consumed = 0; exercise(w, how, opts, c, consumed); c.nontrivial = w != base && consumed >= 12;
	});
}
