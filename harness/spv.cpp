#include "spv.h"
#include "spirv-tools/libspirv.h"
#include <algorithm>
namespace spv_ref
{
	static const std::vector<const OInstr*>& coreTab()
	{
		static std::vector<const OInstr*> t = [] { std::vector<const OInstr*> v(8192, nullptr); for (auto& i : o_core()) if (i.op < v.size() && !v[i.op]) v[i.op] = &i; return v; }();
		return t;
	}
	const OInstr* instr(uint32_t op) { return op < 8192 ? coreTab()[op] : nullptr; }
	const OInstr* extInstr(const std::string& set, uint32_t op)
	{
		const std::vector<OInstr>* v = set == "GLSL.std.450" ? &o_glsl() : set == "OpenCL.std" ? &o_opencl() : nullptr;
		if (v) for (auto& i : *v) if (i.op == op) return &i;
		return nullptr;
	}
	const OKindInfo& kind(OKind k) { return o_kinds()[size_t(k)]; }
	const OEnum* enumerant(OKind k, uint32_t v) { for (auto& e : kind(k).enums) if (e.value == v) return &e; return nullptr; }
	Words packString(const std::string& s)
	{
		Words w; for (size_t i = 0; i <= s.size(); i += 4) { uint32_t x = 0; for (size_t k = 0; k < 4 && i + k < s.size(); ++k) x |= uint32_t(uint8_t(s[i + k])) << (8 * k); w.push_back(x); }
		return w;
	}
	std::string Inst::str(size_t i) const
	{
		std::string s; if (i >= ops.size()) return s;
		for (uint32_t x : ops[i].w) for (int k = 0; k < 4; ++k) { char c = char(x >> (8 * k)); if (!c) return s; s += c; }
		return s;
	}
	namespace
	{
		struct Dec
		{
			const Words& w; size_t p, e; Inst& in; std::string& err; Mod& m; uint32_t switchWidth = 1;
			std::unordered_map<uint32_t, uint32_t>& typeOf; // value id -> type id
			std::unordered_map<uint32_t, uint32_t>& width;  // numeric type id -> bit width
			bool fail(const std::string& s) { err = std::string(in.info ? in.info->name : "?") + ": " + s; return false; }
			bool one(OKind k)
			{
				if (p >= e) return fail("operand missing (" + std::string(kind(k).name) + ")");
				const OKindInfo& ki = kind(k);
				switch (ki.cat)
				{
				case 'I': in.ops.push_back({ k, { w[p++] }, 'I' }); if (in.ops.back().w[0] == 0) return fail("id 0"); return true;
				case 'C': for (OKind b : ki.bases) { if (in.op == 251 && b == K_LiteralInteger) { Opnd o{ K_LiteralInteger, {}, 'L' }; for (uint32_t i = 0; i < switchWidth; ++i) { if (p >= e) return fail("switch literal cut off"); o.w.push_back(w[p++]); } in.ops.push_back(o); } else if (!one(b)) return false; } return true;
				case 'V': case 'B': {
					uint32_t v = w[p++]; in.ops.push_back({ k, { v }, ki.cat });
					if (ki.cat == 'V') { const OEnum* en = enumerant(k, v); if (!en) return fail("unknown " + std::string(ki.name) + " " + std::to_string(v)); return params(*en); }
					uint32_t rest = v; std::vector<const OEnum*> set;
					for (auto& en : ki.enums) if (en.value != 0 && (en.value & (en.value - 1)) == 0 && (rest & en.value)) { rest &= ~en.value; set.push_back(&en); }
					if (rest) return fail("unknown bits in " + std::string(ki.name) + " " + std::to_string(v));
					std::sort(set.begin(), set.end(), [](auto a, auto b) { return a->value < b->value; });
					for (auto en : set) if (!params(*en)) return false;
					return true; }
				default: break;
				}
				switch (k)
				{
				case K_LiteralString: {
					Opnd o{ k, {}, 'L' };
					for (;;) { if (p >= e) return fail("string not terminated"); uint32_t x = w[p++]; o.w.push_back(x); bool z = false; for (int i = 0; i < 4; ++i) { uint32_t c = x >> (8 * i) & 0xff; if (z && c) return fail("string padding is not zero"); if (!c) z = true; } if (z) break; }
					in.ops.push_back(o); return true; }
				case K_LiteralContextDependentNumber: {
					auto it = width.find(in.type); if (it == width.end()) return fail("literal of a type that is not numeric");
					uint32_t n = it->second > 32 ? (it->second + 31) / 32 : 1; Opnd o{ k, {}, 'L' };
					for (uint32_t i = 0; i < n; ++i) { if (p >= e) return fail("literal cut off"); o.w.push_back(w[p++]); }
					in.ops.push_back(o); return true; }
				case K_LiteralSpecConstantOpInteger: {
					uint32_t op = w[p++]; in.ops.push_back({ k, { op }, 'L' }); const OInstr* si = instr(op); if (!si) return fail("unknown opcode");
					return operands(si->operands, true); }
				case K_LiteralExtInstInteger: {
					uint32_t v = w[p++]; in.ops.push_back({ k, { v }, 'L' });
					const Inst* set = m.find(in.ops[0].w[0]); if (!set || set->op != 11) return fail("set is not an import");
					std::string name = set->str(0); const OInstr* ei = extInstr(name, v); if (!ei && (name == "GLSL.std.450" || name == "OpenCL.std")) return fail("unknown extended instruction " + std::to_string(v));
					return ei ? operands(ei->operands, true) : true; }
				default: in.ops.push_back({ k, { w[p++] }, 'L' }); return true; // single word literals
				}
			}
			bool params(const OEnum& en) { for (auto& o : en.params) { if (o.quant == '1') { if (!one(o.kind)) return false; } else if (o.quant == '?') { if (p < e && !one(o.kind)) return false; } else while (p < e) if (!one(o.kind)) return false; } return true; }
			bool operands(const std::vector<OOperand>& l, bool nested)
			{
				for (auto& o : l)
				{
					if (o.kind == K_IdResultType || o.kind == K_IdResult)
					{
						if (nested) continue;
						if (p >= e) return fail("result missing"); uint32_t id = w[p++]; if (!id) return fail("id 0");
						(o.kind == K_IdResult ? in.result : in.type) = id; continue;
					}
					if (o.quant == '1') { if (!one(o.kind)) return false; }
					else if (o.quant == '?') { if (p < e && !one(o.kind)) return false; }
					else while (p < e) if (!one(o.kind)) return false;
					if (in.op == 251 && in.ops.size() == 1) { auto t = typeOf.find(in.ops[0].w[0]); if (t != typeOf.end()) { auto wd = width.find(t->second); if (wd != width.end() && wd->second > 32) switchWidth = (wd->second + 31) / 32; } }
				}
				return true;
			}
		};
	}
	bool decode(const Words& w, Mod& m, std::string& err)
	{
		m = Mod{}; if (w.size() < 5) { err = "header cut off"; return false; }
		m.magic = w[0]; m.version = w[1]; m.generator = w[2]; m.bound = w[3]; m.schema = w[4];
		std::unordered_map<uint32_t, uint32_t> typeOf, width;
		for (size_t p = 5; p < w.size();)
		{
			uint32_t n = w[p] >> 16, op = w[p] & 0xffff;
			std::string at = "word " + std::to_string(p) + ": ";
			if (n == 0 || p + n > w.size()) { err = at + "word count " + std::to_string(n) + " of opcode " + std::to_string(op) + " does not fit"; return false; }
			Inst in; in.op = op; in.info = instr(op); in.words.assign(w.begin() + p, w.begin() + p + n);
			if (!in.info) { err = at + "unknown opcode " + std::to_string(op); return false; }
			Dec d{ w, p + 1, p + n, in, err, m, 1, typeOf, width };
			if (!d.operands(in.info->operands, false)) { err = at + err; return false; }
			if (d.p != p + n) { err = at + in.info->name + ": " + std::to_string(p + n - d.p) + " words more than its operands need"; return false; }
			if (in.result) { if (in.type) typeOf[in.result] = in.type; m.def.emplace(in.result, m.insts.size()); if (op == 21 || op == 22) width[in.result] = in.ops[0].w[0]; }
			m.insts.push_back(std::move(in)); p += n;
		}
		return true;
	}
	std::string dump(const Inst& i)
	{
		std::string s; if (i.result) s = "%" + std::to_string(i.result) + " = "; s += i.info ? i.info->name : std::to_string(i.op); if (i.type) s += " <%" + std::to_string(i.type) + ">";
		for (size_t k = 0; k < i.ops.size(); ++k) { auto& o = i.ops[k]; s += " "; if (o.isId()) s += "%" + std::to_string(o.w[0]); else if (o.kind == K_LiteralString) s += "\"" + i.str(k) + "\""; else if (o.cat == 'V' || o.cat == 'B') { auto e = enumerant(o.kind, o.w[0]); s += e ? e->name : std::string(kind(o.kind).name) + ":" + std::to_string(o.w[0]); } else for (size_t q = 0; q < o.w.size(); ++q) s += (q ? ":" : "") + std::to_string(o.w[q]); }
		return s;
	}
	std::string dump(const Mod& m) { std::string s; for (auto& i : m.insts) s += dump(i) + "\n"; return s; }

	// logical layout section of an instruction outside (or inside) functions; -1: anywhere
	int section(uint32_t op, const Mod& m, const Inst& i, bool inFunction)
	{
		if (inFunction || op == 54) return 11;
		switch (op)
		{
		case 17: return 1; case 10: return 2; case 11: return 3; case 14: return 4; case 15: return 5; case 16: case 331: return 6;
		case 2: case 3: case 4: case 7: return 7; // debug: source and strings
		case 5: case 6: return 8; // names
		case 330: return 9; // module processed
		case 71: case 72: case 73: case 74: case 75: case 332: case 5632: case 5633: return 10;
		case 8: case 317: case 1: case 0: return -1; // line information, undef
		default: return 11 - 0; // types, constants, globals: shares 11 with functions, ordered by checkLayout
		}
	}
	std::string checkLayout(const Mod& m, bool sections)
	{
		if (m.magic != 0x07230203) return "magic number";
		if ((m.version >> 16) != 1 || ((m.version >> 8) & 0xff) > 6 || (m.version & 0xff0000ff & ~0u) & 0xff) return "version word " + std::to_string(m.version);
		if (m.schema != 0) return "schema word is " + std::to_string(m.schema);
		std::unordered_map<uint32_t, size_t> defs; uint32_t maxId = 0;
		for (size_t k = 0; k < m.insts.size(); ++k) { auto& i = m.insts[k]; if (i.result) { if (!defs.emplace(i.result, k).second) return "id " + std::to_string(i.result) + " defined twice (" + dump(i) + ")"; maxId = std::max(maxId, i.result); } }
		if (maxId >= m.bound) return "bound " + std::to_string(m.bound) + " is not above the largest id " + std::to_string(maxId);
		for (auto& i : m.insts)
		{
			if (i.type && !defs.count(i.type)) return "undefined result type in " + dump(i);
			for (auto& o : i.ops) if (o.isId() && !defs.count(o.w[0])) return "undefined id in " + dump(i);
		}
		if (!sections) return "";
		int cur = 0; bool inF = false, seenF = false, inB = false, seenDefinition = false; bool bodied = false;
		for (auto& i : m.insts)
		{
			if (i.op == 8 || i.op == 317 || i.op == 0) continue;
			if (!inF)
			{
				if (i.op == 54) { inF = true; seenF = true; inB = false; bodied = false; continue; }
				if (i.op == 1 && cur >= 10) continue;
				int s = section(i.op, m, i, false);
				if (seenF) return dump(i) + " after the first function";
				if (s < cur) return dump(i) + " out of section order";
				cur = s;
				if (s == 11 && i.op != 59 && i.op != 1 && i.op != 12) { std::string n = i.info->name; if (n.compare(0, 6, "OpType") && n.compare(0, 10, "OpConstant") && n.compare(0, 14, "OpSpecConstant")) return dump(i) + " outside of a function"; }
				continue;
			}
			if (i.op == 56) { if (inB) return "function ends inside a block"; inF = false; if (bodied) seenDefinition = true; else if (seenDefinition) return "function declaration after a definition"; continue; }
			if (i.op == 54) return "nested function";
			if (i.op == 55) { if (bodied) return "parameter after the first block"; continue; }
			if (i.op == 248) { if (inB) return "label inside a block (previous block has no terminator)"; inB = true; bodied = true; continue; }
			if (!inB) return dump(i) + " outside of a block";
			switch (i.op) { case 249: case 250: case 251: case 252: case 253: case 254: case 255: case 4416: case 4448: case 4449: case 5294: inB = false; default: break; }
		}
		if (inF) return "last function has no end";
		// a definition comes before its uses, except for the forward references the specification allows
		return "";
	}
	std::string isoDiff(const Mod& a, const Mod& b, bool ident)
	{
		std::unordered_map<uint32_t, uint32_t> f, g; 
		auto match = [&](uint32_t x, uint32_t y) { if (ident) return x == y; auto i = f.find(x); auto j = g.find(y); if (i == f.end() && j == g.end()) { f[x] = y; g[y] = x; return true; } return i != f.end() && j != g.end() && i->second == y && j->second == x; };
		for (size_t k = 0; k < std::max(a.insts.size(), b.insts.size()); ++k)
		{
			if (k >= a.insts.size()) return "additional instruction " + dump(b.insts[k]);
			if (k >= b.insts.size()) return "missing instruction " + dump(a.insts[k]);
			auto& x = a.insts[k]; auto& y = b.insts[k]; std::string d = "instruction " + std::to_string(k) + ": " + dump(x) + "   became   " + dump(y);
			if (x.op != y.op || x.ops.size() != y.ops.size() || !x.type != !y.type || !x.result != !y.result) return d;
			if (x.type && !match(x.type, y.type)) return d;
			if (x.result && !match(x.result, y.result)) return d;
			for (size_t q = 0; q < x.ops.size(); ++q)
			{
				auto& o = x.ops[q]; auto& p = y.ops[q];
				if (o.kind != p.kind || o.w.size() != p.w.size()) return d;
				if (o.isId() ? !match(o.w[0], p.w[0]) : o.w != p.w) return d;
			}
		}
		return "";
	}
	static spv_target_env envOf(uint32_t version)
	{
		switch ((version >> 8) & 0xff) { case 0: return SPV_ENV_UNIVERSAL_1_0; case 1: return SPV_ENV_UNIVERSAL_1_1; case 2: return SPV_ENV_UNIVERSAL_1_2; case 3: return SPV_ENV_UNIVERSAL_1_3; case 4: return SPV_ENV_UNIVERSAL_1_4; case 5: return SPV_ENV_UNIVERSAL_1_5; default: return SPV_ENV_UNIVERSAL_1_6; }
	}
	static spv_context ctx(spv_target_env e) { static std::map<int, spv_context> c; auto& x = c[int(e)]; if (!x) x = spvContextCreate(e); return x; }
	std::string validate(const Words& w, const char*)
	{
		if (w.size() < 5) return "header cut off";
		spv_diagnostic d = nullptr; spv_const_binary_t b{ w.data(), w.size() };
		auto r = spvValidate(ctx(envOf(w[1])), &b, &d); std::string s;
		if (r != SPV_SUCCESS) s = d ? d->error : "error " + std::to_string(r);
		if (d) spvDiagnosticDestroy(d);
		return s;
	}
	bool assemble(const std::string& t, uint32_t version, Words& out, std::string& err)
	{
		spv_binary b = nullptr; spv_diagnostic d = nullptr;
		auto r = spvTextToBinary(ctx(envOf(version)), t.data(), t.size(), &b, &d);
		if (r != SPV_SUCCESS) { err = d ? std::to_string(d->position.line + 1) + ": " + d->error : "error"; }
		else out.assign(b->code, b->code + b->wordCount);
		if (b) spvBinaryDestroy(b); if (d) spvDiagnosticDestroy(d);
		return r == SPV_SUCCESS;
	}
	std::string disassemble(const Words& w)
	{
		spv_text t = nullptr; std::string s; 
		if (spvBinaryToText(ctx(SPV_ENV_UNIVERSAL_1_6), w.data(), w.size(), SPV_BINARY_TO_TEXT_OPTION_NO_HEADER, &t, nullptr) == SPV_SUCCESS && t) s.assign(t->str, t->length);
		if (t) spvTextDestroy(t);
		return s;
	}
}
