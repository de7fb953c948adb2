// Independent SPIR-V reader built on the official grammar tables.
#pragma once
#include "pbt.h"
#include <cstdint>
#include <string>
#include <vector>
#include <map>
#include <unordered_map>
#include "ogrammar.inc"

namespace spv_ref
{
	using Words = std::vector<uint32_t>;
	struct Opnd { OKind kind; Words w; char cat = 0; bool isId() const { return kind == K_IdRef || kind == K_IdScope || kind == K_IdMemorySemantics || kind == K_IdResultType || kind == K_IdResult; } };
	struct Inst
	{
		uint32_t op = 0, type = 0, result = 0;
		std::vector<Opnd> ops; // without result type and result
		Words words;
		const OInstr* info = nullptr;
		uint32_t w(size_t i) const { return i < ops.size() && !ops[i].w.empty() ? ops[i].w[0] : 0; }
		std::string str(size_t i) const;
	};
	struct Mod
	{
		uint32_t magic = 0, version = 0, generator = 0, bound = 0, schema = 0;
		std::vector<Inst> insts;
		std::unordered_map<uint32_t, size_t> def; // result id -> index
		const Inst* find(uint32_t id) const { auto it = def.find(id); return it == def.end() ? nullptr : &insts[it->second]; }
	};
	const OInstr* instr(uint32_t op);
	const OInstr* extInstr(const std::string& set, uint32_t op);
	const OKindInfo& kind(OKind k);
	const OEnum* enumerant(OKind k, uint32_t v);
	Words packString(const std::string& s);
	// strict: every word has to be accounted for by the grammar; error gets a description
	bool decode(const Words& w, Mod& out, std::string& error);
	std::string dump(const Inst& i);
	std::string dump(const Mod& m);
	// layout rules of the specification: header, sections, ids defined once, below the bound, used ids defined. "" if fine
	std::string checkLayout(const Mod& m, bool checkSections = true);
	// equal up to a renaming of ids (in order); "" if equal
	std::string isoDiff(const Mod& a, const Mod& b, bool identicalIds = false);
	int section(uint32_t op, const Mod& m, const Inst& i, bool inFunction);
	// reference validator (SPIRV-Tools); "" if valid
	std::string validate(const Words& w, const char* env = nullptr);
	// reference assembler; false on error
	bool assemble(const std::string& text, uint32_t version, Words& out, std::string& error);
	std::string disassemble(const Words& w);
}
