// Programs assembled through the building interface, together with the program they ought to become.
#pragma once
#include "ty.h"
#include "spvgentwo/GLSL450Instruction.h"
#include "spvgentwo/Templates.h"
#include <deque>
#include <algorithm>

namespace ag
{
	using sg::Instruction; using sg::BasicBlock; using sg::Function; using sg::Module; using sg::EntryPoint;

	// ------------------------------------------------------------ expected program
	struct EOp
	{
		enum Kind { Ins, Words, Ty, Idx, Cst, Rel, Blk, Import } k = Words;
		Instruction* i = nullptr; std::vector<uint32_t> w; TP t; CP c; int rel = 0; BasicBlock* b = nullptr; std::string s;
		static EOp ins(Instruction* i) { EOp o; o.k = Ins; o.i = i; return o; }
		static EOp lit(uint32_t v) { EOp o; o.w = { v }; return o; }
		static EOp ty(TP t) { EOp o; o.k = Ty; o.t = std::move(t); return o; }
		static EOp idx(uint32_t v) { EOp o; o.k = Idx; o.w = { v }; return o; }  // integer constant with that value
		static EOp cst(CP c) { EOp o; o.k = Cst; o.c = std::move(c); return o; }
		static EOp prev(int r) { EOp o; o.k = Rel; o.rel = r; return o; }        // result of an instruction before
		static EOp blk(BasicBlock* b) { EOp o; o.k = Blk; o.b = b; return o; }
		static EOp import(std::string s) { EOp o; o.k = Import; o.s = std::move(s); return o; }
	};
	enum class Fit : uint8_t { Exact, AnySign, Any };
	struct EInst { uint32_t op = 0; TP res; Fit fit = Fit::Exact; std::vector<EOp> ops; Instruction* i = nullptr; std::string what; bool anyOps = false; };
	struct EBlock { BasicBlock* bb = nullptr; std::vector<EInst> insts; };
	struct EVar { Instruction* i = nullptr; TP t; uint32_t sc = 0; Instruction* init = nullptr; };
	struct EFunc
	{
		Function* f = nullptr; bool entry = false; uint32_t model = 0; std::string name; TP ret; std::vector<TP> params; std::vector<Instruction*> args; uint32_t control = 0;
		std::deque<EBlock> blocks; std::vector<EVar> vars; std::vector<std::pair<uint32_t, std::vector<uint32_t>>> modes; std::vector<std::pair<uint32_t, std::vector<Instruction*>>> modeIds; std::set<EFunc*> calls; std::set<Instruction*> globals;
	};
	struct EName { Instruction* target; int member; std::string name; };
	struct EDeco { Instruction* target; int member; uint32_t deco; std::vector<uint32_t> lits; std::vector<Instruction*> ids; };
	struct Expected
	{
		std::deque<EVar> globals; std::vector<EInst> specOps; std::vector<std::pair<Instruction*, TP>> undefs; std::map<Instruction*, CP> consts; std::map<Instruction*, TP> types; std::vector<std::pair<Instruction*, TP>> typeOrder; /* in the order of the requests: addresses differ between runs */ void type(Instruction* i, const TP& t) { if (types.emplace(i, t).second) typeOrder.push_back({ i, t }); }
		std::vector<EName> names; std::vector<EDeco> decos; std::vector<EInst> lines; /* at module scope */ std::set<uint32_t> caps; std::set<std::string> exts; std::deque<EFunc> funcs;
	};
	// describes the first difference, empty if the module is the expected one
	std::string compare(const Expected& e, const spv_ref::Mod& m);
	std::string compareInterfaces(const Expected& e, const spv_ref::Mod& m); // of the entry points

	// ------------------------------------------------------------ operations
	struct Val { TP t; Instruction* i; };
	struct Call { std::vector<TP> at; std::vector<uint32_t> lits; TP tp; };
	struct Verdict
	{
		bool legal = false, must = false; TP res; Fit fit = Fit::Exact;
		uint32_t op = 0; std::vector<int> order; // order of the operands if not the order of the arguments
	};
	struct Gen;
	struct OpDef
	{
		const char* name; uint32_t op; bool ext;
		std::function<bool(Gen&, Call&)> gen;
		std::function<Verdict(const Call&)> spec;
		std::function<Instruction*(BasicBlock&, const std::vector<Instruction*>&, const Call&)> call;
		bool fragment = false, kernel = false; const char* import = nullptr;
		bool typeFirst = false; // takes the instruction of tp as result type
		bool raw = false;       // literals are not operands of the instruction
	};
	const std::vector<OpDef>& opTable();

	struct Opts
	{
		int size = 6, maxFuncs = 3, depth = 2; bool selectAny = false, ptrCompare = true, kernel = false, names = true, decorate = true, images = true, onlyTable = false, rejected = false; bool straight = false, more = false; /* module scope lines, operands of modes and decorations which are ids */ bool anyCaps = false; /* the capabilities of the instructions need not fit together */ int version = 0; // 0: any
		int entries = -1, minFuncs = 0, model = -1; std::function<void(Gen&)> afterSetup; // -1: chosen at random
	};
	struct Gen
	{
		pbt::Src& s; Module& m; Opts o; lu::Log& log; Expected e;
		uint32_t specIds = 0; std::vector<Instruction*> files; uint32_t model = 4; uint32_t minor = 3; bool frag = false; std::vector<Val> scope; std::vector<Val> gptrs;
		EFunc* fn = nullptr; EBlock* blk = nullptr; int fixedOrder = 0; uint64_t ops = 0, rejects = 0, ifs = 0, loops = 0, calls = 0, phis = 0, chains = 0, imgs = 0; std::map<std::string, uint32_t> used; std::string trace; bool wantTrace = false;
		Gen(pbt::Src& src, Module& mod, lu::Log& l, const Opts& opt) : s(src), m(mod), o(opt), log(l) {}
		void run();
		// pieces
		void setup();
		TP find(const std::function<bool(const T&)>& p);                          // type of a value in scope
		TP sv(K k, std::initializer_list<uint32_t> widths, int sign = -1);         // scalar or vector
		TP scalar(K k, std::initializer_list<uint32_t> widths, int sign = -1);
		TP valueType(int depth = 2);
		Instruction* typeI(const TP& t); Instruction* constI(const CP& c);
		Instruction* value(const TP& t, bool konst = false);
		Instruction* pointer(const TP& t, bool writable);
		Instruction* global(const TP& t, uint32_t sc, bool init);
		EFunc& function(bool entry);
		bool body(EBlock*& cur, int depth, int n);                                 // false if the block was terminated
		void statement(EBlock*& cur, int depth);
		bool tableOp(const OpDef& d); void imageOp(); void memoryOp(); void callOp(); void undefOp(); void lineOp(); void miscOp(); Instruction* specOp(TP& rt);
		void ifOp(EBlock*& cur, int depth); void loopOp(EBlock*& cur, int depth); void terminate(); void finish();
		Instruction* add(EInst x, const std::function<Instruction*(BasicBlock&)>& call);
		EBlock* block(const char* name); EBlock* wrap(BasicBlock& b);
		void use(Instruction* i); // a global variable is referenced by the current function
		std::string text(); void name(Instruction* i);
		bool reject(const OpDef& d); void rejectMisc(); void ill(const std::string& name, const std::string& sig, bool value, const std::function<Instruction*(BasicBlock&)>& call); bool mutate(Call& c); struct Rejected { BasicBlock* b; Instruction* i; std::string what; }; std::vector<Rejected> rejected;
		void local(const TP& t);
	};
}
