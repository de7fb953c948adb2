// P26: the command line tools, run in processes of their own on generated files and options.
#include "prog.h"
#include "common/BinaryFileReader.h"
#include "common/BinaryFileWriter.h"
#include "common/LinkerHelper.h"
#include "common/ModulePrinter.h"
#include "common/ReflectionHelper.h"
#include <fcntl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <filesystem>
#include <fstream>
#include <cstring>
int dis_main(int, char**); int refl_main(int, char**); int link_main(int, char**);
using namespace prog;
using spv_ref::Mod; using spv_ref::Inst; using lu::Words;
namespace fs = std::filesystem;
namespace
{
	using sg::LinkerHelper::LinkerOptionBits;
	std::string num(uint64_t v) { return std::to_string(v); }
	using Bytes = std::string;
	Bytes bytes(const Words& w) { return Bytes(reinterpret_cast<const char*>(w.data()), w.size() * 4); }
	Bytes slurp(const std::string& p) { std::ifstream f(p, std::ios::binary); return Bytes(std::istreambuf_iterator<char>(f), {}); }
	void spit(const std::string& p, const Bytes& b) { std::ofstream f(p, std::ios::binary); f.write(b.data(), long(b.size())); }
	Words wordsOf(const Bytes& b) { Words w(b.size() / 4); if (!w.empty()) memcpy(w.data(), b.data(), w.size() * 4); return w; }

	// a scratch directory that the case works in
	struct Dir
	{
		std::string path;
		Dir() { const char* t = getenv("PBT_TMP"); path = std::string(t ? t : "/tmp") + "/cli-" + num(uint64_t(getpid())); fs::remove_all(path); fs::create_directories(path); }
		~Dir() { std::error_code e; fs::remove_all(path, e); }
		std::string at(const std::string& n) const { return path + "/" + n; }
		std::map<std::string, Bytes> snapshot() const { std::map<std::string, Bytes> r; for (auto& e : fs::directory_iterator(path)) r[e.path().filename()] = e.is_directory() ? Bytes("<dir>") : slurp(e.path()); return r; }
	};
	struct Run { int rc = 0; std::string out, err; };
	Run tool(int (*fn)(int, char**), const char* name, const std::vector<std::string>& args, const Dir& d)
	{
		const std::string out = d.path + ".out", err = d.path + ".err"; fflush(nullptr); const pid_t p = fork(); CHECK_SIG(p >= 0, "fork", "fork failed");
		if (p == 0)
		{
			alarm(60); if (chdir(d.path.c_str())) _exit(99); int o = open(out.c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0600), e = open(err.c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0600); dup2(o, 1); dup2(e, 2);
			std::vector<std::string> a{ name }; a.insert(a.end(), args.begin(), args.end()); std::vector<char*> v; for (auto& x : a) v.push_back(x.data()); v.push_back(nullptr);
			exit(fn(int(a.size()), v.data()));
		}
		int st = 0; while (waitpid(p, &st, 0) < 0) {}
		Run r; r.out = slurp(out); r.err = slurp(err); unlink(out.c_str()); unlink(err.c_str());
		std::string line = name; for (auto& x : args) line += " '" + x + "'";
		CHECK_SIG(WIFEXITED(st) && (WEXITSTATUS(st) == 0 || WEXITSTATUS(st) == 255), std::string("crash of ") + name, line + " ended with status " + num(uint64_t(st)) + "\n" + r.err.substr(0, 1500));
		r.rc = WEXITSTATUS(st); return r;
	}
	std::string cmd(const std::vector<std::string>& a) { std::string r; for (auto& x : a) r += " '" + x + "'"; return r; }

	// ------------------------------------------------------------ input files
	struct File
	{
		std::string name; Words w; Mod m; Bytes b; bool exists = true, intact = true, dir = false, accepted = false;
	};
	// damages the file, or leaves it as it is
	void damage(Src& s, File& f)
	{
		if (!s.chance(1, 3)) return;
		f.intact = false;
		switch (s.below(8))
		{
		case 0: f.exists = false; break;
		case 1: f.exists = false; f.dir = true; break;
		case 2: f.b.clear(); break;
		case 3: f.b.resize(s.below(uint32_t(f.b.size()))); break;
		case 4: f.b.resize(f.b.size() / 4 * 4 - 4 * (1 + s.below(8))); break;
		case 5: { uint32_t k = s.below(uint32_t(f.b.size())); f.b[k] = char(s.below(256)); break; }
		case 6: { const uint32_t n = s.range(1, 9); for (uint32_t i = 0; i < n; ++i) f.b += char(s.below(256)); break; }
		default: { uint32_t k = s.below(5); const uint32_t v = s.word(); memcpy(&f.b[k * 4], &v, 4); break; }
		}
	}
	void place(const Dir& d, File& f)
	{
		if (f.dir) fs::create_directory(d.at(f.name)); else if (f.exists) spit(d.at(f.name), f.b);
		f.accepted = false; if (f.exists && !f.b.empty() && f.b.size() % 4 == 0) { sg::HeapAllocator a; Log log; sg::Module m(&a, &log); const Words w = wordsOf(f.b); MemReader rd(w); f.accepted = m.readAndInit(rd, lu::grammar()); }
		if (f.intact) CHECK_SIG(f.accepted, "read", "a module written by the library was not read back");
		if (!f.accepted) return;
		f.w = wordsOf(f.b);
	}
	File source(Src& s, const std::string& name, Opts o) { Prog p(s, o); p.g.run(); Built b; write(p, b, s.coin()); File f; f.name = name; f.w = b.w; f.m = b.m; f.b = bytes(b.w); return f; }
	struct Loaded { sg::HeapAllocator a; Log log; sg::Module m; Loaded(const Words& w) : m(&a, &log) { MemReader rd(w); CHECK_SIG(m.readAndInit(rd, lu::grammar()), "read", "a module that was read before was not read again"); } };

	void unchanged(const std::map<std::string, Bytes>& before, const Dir& d, const std::set<std::string>& outputs, const std::vector<std::string>& args)
	{
		const auto after = d.snapshot(); for (auto& [n, b] : before) if (!outputs.count(n)) { auto it = after.find(n); CHECK_SIG(it != after.end() && it->second == b, "input changed", "the file " + n + " was changed by" + cmd(args)); }
		for (auto& [n, b] : after) CHECK_SIG(before.count(n) || outputs.count(n), "new file", "the file " + n + " was created by" + cmd(args));
	}
	Opts small(Src& s) { Opts o; o.size = s.range(2, 7); o.depth = s.below(3); o.maxFuncs = 3; o.kernel = s.chance(1, 10); return o; }
	template<class T> void shuffle(Src& s, std::vector<T>& v) { for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[s.below(uint32_t(i))]); }

	// ------------------------------------------------------------ disassembler
	void dis(Src& s, Ctx& ctx)
	{
		Dir d; File f = source(s, "in.spv", small(s)); damage(s, f); place(d, f);
		using PO = sg::ModulePrinter::PrintOptionsBits; sg::ModulePrinter::PrintOptions opt{ PO::All }; std::string tabs = "\t\t"; bool ids = false, colors = false, ser = false; std::vector<std::vector<std::string>> groups;
		if (s.chance(1, 3)) { ids = true; groups.push_back({ s.coin() ? "-assignIDs" : "-assignids" }); }
		if (s.chance(1, 3)) { opt ^= PO::InstructionName; groups.push_back({ "-noinstrnames" }); }
		if (s.chance(1, 3)) { opt ^= PO::OperandName; groups.push_back({ "-noopnames" }); }
		if (s.chance(1, 3)) { opt ^= PO::Preamble; groups.push_back({ "-nopreamble" }); }
		if (s.chance(1, 3)) { colors = true; groups.push_back({ "-colors" }); }
		if (s.chance(1, 3)) { static const char* t[] = { "    ", " ", "", "\t" }; tabs = s.pick(t); groups.push_back({ "-tabs", tabs }); }
		if (s.coin()) { ser = true; groups.push_back({ "-serialize" }); }
		shuffle(s, groups); std::vector<std::string> args{ f.name }; for (auto& g : groups) args.insert(args.end(), g.begin(), g.end());
		if (s.chance(1, 30)) { args.clear(); f.accepted = false; }
		bool blocked = false; if (ser && s.chance(1, 8)) { fs::create_directory(d.at("serialized.spv")); blocked = true; }
		const auto before = d.snapshot(); const Run r = tool(dis_main, "dis", args, d);
		ctx.label(f.accepted ? "dis accepted" : "dis refused"); ctx.nontrivial = true; ctx.mix(f.b.data(), f.b.size()); for (auto& a : args) ctx.mix(a.data(), a.size());
		if (ctx.wantSample || ctx.verbose) ctx.note("dis" + cmd(args) + " on " + num(f.b.size()) + " bytes, exit " + num(uint64_t(r.rc)));
		if (!f.accepted) { CHECK_SIG(r.rc != 0, "dis succeeded", "the disassembler reports success for a file it cannot read:" + cmd(args) + "\n" + r.out.substr(0, 300)); unchanged(before, d, {}, args); return; }
		Loaded l(f.w); if (ids) l.m.assignIDs();
		std::string text; auto printer = sg::ModulePrinter::ModuleSimpleFuncPrinter([&](const char* t) { text += t; }, colors); const bool printed = sg::ModulePrinter::printModule(l.m, lu::grammar(), printer, opt, tabs.c_str());
		if (f.intact) CHECK_SIG(printed, "print", "an intact module was not printed");
		bool written = true; MemWriter wr; if (printed && ser) written = l.m.finalizeAndWrite(wr) && !blocked;
		CHECK_SIG((r.rc == 0) == (printed && written), "dis exit code", "the disassembler ended with " + num(uint64_t(r.rc)) + (printed ? "" : ", printing fails") + (written ? "" : ", writing fails") + ":" + cmd(args) + "\n" + l.log.text);
		if (printed) CHECK_SIG(r.out.find(text) != r.out.npos, "dis output", "the disassembler printed something else than the library:" + cmd(args));
		if (f.intact) { size_t n = 0; for (size_t q = r.out.find("Op"); q != r.out.npos; q = r.out.find("Op", q + 2)) ++n; CHECK_SIG(n >= f.m.insts.size(), "dis output", "fewer instructions printed than there are"); }
		if (printed && ser && written) { CHECK_SIG(slurp(d.at("serialized.spv")) == bytes(wr.w), "serialized", "the file written by the disassembler is not the module:" + cmd(args)); ctx.label("serialized"); if (f.intact) { Mod m; std::string e; CHECK_SIG(spv_ref::decode(wr.w, m, e), "serialized", e); CHECK_SIG(m.insts.size() == f.m.insts.size(), "serialized", "the module serialized has another number of instructions"); } }
		unchanged(before, d, printed && ser ? std::set<std::string>{ "serialized.spv" } : std::set<std::string>{}, args);
	}

	// ------------------------------------------------------------ reflector
	std::string section(const std::string& out, const std::string& title) { auto p = out.find("\n" + title + "\n"); if (p == out.npos) return "?"; p += title.size() + 2; auto e = out.find("\n\n", p - 1); return out.substr(p, e == out.npos ? e : e - p + 1); }
	size_t occurrences(const std::string& t, const std::string& x) { size_t n = 0; for (size_t q = t.find(x); q != t.npos; q = t.find(x, q + x.size())) ++n; return n; }
	// decorations that the tool knows by name: all enumerants of the core up to MaxByteOffsetId
	const std::vector<const OEnum*>& coreDecorations() { static std::vector<const OEnum*> v = [] { std::vector<const OEnum*> r; for (auto& e : spv_ref::kind(K_Decoration).enums) if (e.value <= 47) { bool dup = false; for (auto* x : r) dup |= x->value == e.value; if (!dup) r.push_back(&e); } return r; }(); return v; }
	// further decorations of variables and types
	void moreDecorations(Src& s, File& f)
	{
		std::vector<uint32_t> ids; size_t at = 5; bool fixed = false; { size_t p = 5; for (auto& i : f.m.insts) { if (!fixed && spv_ref::section(i.op, f.m, i, false) >= 11) { at = p; fixed = true; } if (i.op == 59 || i.op == 30) ids.push_back(i.result); if (i.op == 54) break; p += i.words.size(); } }
		if (!fixed || ids.empty()) return; Words more; const uint32_t n = s.range(1, 6);
		for (uint32_t k = 0; k < n; ++k) { auto* e = s.pick(coreDecorations()); Words w{ 71, s.pick(ids), e->value }; bool ok = true; for (auto& q : e->params) { if (q.kind == K_LiteralInteger) w.push_back(s.below(100)); else ok = false; } if (!ok) continue; w[0] |= uint32_t(w.size()) << 16; more.insert(more.end(), w.begin(), w.end()); }
		f.w.insert(f.w.begin() + at, more.begin(), more.end()); std::string err; Mod m; CHECK_SIG(decode(f.w, m, err), "generator", err); f.m = m; f.b = bytes(f.w);
	}
	// other execution models for the entry points
	void otherModels(Src& s, File& f)
	{
		static const uint32_t models[] = { 0, 1, 2, 3, 4, 5, 6, 5267, 5268, 5313, 5314, 5315, 5316, 5317, 5318, 5364, 5365 }; size_t p = 5;
		for (auto& i : f.m.insts) { if (i.op == 15) f.w[p + 1] = s.pick(models); p += i.words.size(); } std::string err; Mod m; CHECK_SIG(decode(f.w, m, err), "generator", err); f.m = m; f.b = bytes(f.w);
	}
	void refl(Src& s, Ctx& ctx)
	{
		Opts o = small(s); o.decorate = true; Dir d; File f = source(s, "in.spv", o); if (s.coin()) moreDecorations(s, f); if (s.coin()) otherModels(s, f); damage(s, f); place(d, f);
		std::vector<std::vector<std::string>> groups; bool vars = false, types = false, funcs = false, deco = false, local = false, ok = true; std::set<uint32_t> kinds; std::string name; uint32_t id = 0; bool hasVar = false, hasId = false;
		static const std::pair<const char*, uint32_t> decos[] = { { "Location", 30 }, { "Binding", 33 }, { "DescriptorSet", 34 }, { "Block", 2 }, { "Offset", 35 }, { "ArrayStride", 6 }, { "BuiltIn", 11 }, { "Flat", 14 }, { "NonWritable", 24 }, { "SpecId", 1 }, { "ColMajor", 5 }, { "RowMajor", 4 }, { "MatrixStride", 7 }, { "RelaxedPrecision", 0 } };
		const bool named = s.coin();
		if (s.chance(1, 3)) { funcs = true; groups.push_back({ "-funcs" }); } if (s.chance(1, 3)) { vars = true; groups.push_back({ "-vars" }); } if (s.chance(1, 3)) { types = true; groups.push_back({ "-types" }); } if (s.chance(1, 3)) { local = true; groups.push_back({ "-localsize" }); } const bool colors = s.chance(1, 6); if (colors) groups.push_back({ "-colors" });
		if (s.coin()) { deco = true; if (named) { const uint32_t n = s.range(1, 3); std::vector<const OEnum*> present; for (auto* e : coreDecorations()) for (auto& i : f.m.insts) if ((i.op == 71 && i.w(1) == e->value) || (i.op == 72 && i.w(2) == e->value)) { present.push_back(e); break; } for (uint32_t i = 0; i < n; ++i) { std::pair<const char*, uint32_t> x = s.pick(decos); if (!present.empty() && s.coin()) { auto* e = s.pick(present); x = { e->name, e->value }; } else if (s.coin()) { auto* e = s.pick(coreDecorations()); x = { e->name, e->value }; } if (!kinds.insert(x.second).second) continue; groups.push_back({ "-deco", x.first }); } } else groups.push_back({ "-deco" }); }
		std::vector<std::string> names; std::vector<uint32_t> ids; for (auto& i : f.m.insts) { if (i.op == 5) names.push_back(i.str(1)); if (i.result) ids.push_back(i.result); }
		if (s.chance(1, 4)) { hasVar = true; name = names.empty() || s.chance(1, 4) ? "no such name" : s.pick(names); groups.push_back({ "-var", name }); }
		if (s.chance(1, 4)) { hasId = true; id = ids.empty() || s.chance(1, 4) ? s.below(400) : s.pick(ids); groups.push_back({ "-id", num(id) }); }
		shuffle(s, groups); std::vector<std::string> args{ f.name }; for (auto& g : groups) args.insert(args.end(), g.begin(), g.end());
		if (s.chance(1, 30)) { args.clear(); f.accepted = false; }
		const auto before = d.snapshot(); const Run r = tool(refl_main, "refl", args, d); const std::string line = "refl" + cmd(args);
		ctx.label(f.accepted ? "refl accepted" : "refl refused"); ctx.nontrivial = true; ctx.mix(f.b.data(), f.b.size()); for (auto& a : args) ctx.mix(a.data(), a.size());
		if (ctx.wantSample || ctx.verbose) ctx.note(line + " on " + num(f.b.size()) + " bytes, exit " + num(uint64_t(r.rc)));
		unchanged(before, d, {}, args);
		if (!f.accepted) { CHECK_SIG(r.rc != 0, "refl succeeded", "the reflector reports success for a file it cannot read: " + line); return; }
		if (!f.intact) return;
		const Inst* target = nullptr;
		if (hasVar) { uint32_t t = 0; for (auto& i : f.m.insts) if (i.op == 5 && i.str(1) == name) { t = i.w(0); break; } ok = t != 0; if (!name.empty() && ok) for (auto& i : f.m.insts) if (i.result == t) target = &i; size_t same = 0; for (auto& n : names) same += n == name; if (same > 1) target = nullptr; }
		else if (hasId && id != 0) { for (auto& i : f.m.insts) if (i.result == id) target = &i; ok = target != nullptr; }
		CHECK_SIG((r.rc == 0) == ok, "refl exit code", "the reflector ended with " + num(uint64_t(r.rc)) + ": " + line + "\n" + r.out.substr(0, 300));
		if (local)
		{
			const Inst* mode = nullptr; for (auto& i : f.m.insts) if (i.op == 16 && (i.w(1) == 17 || i.w(1) == 18)) { mode = &i; break; }
			if (mode) { const std::string t = "LocalSize: x " + num(mode->w(2)) + " y " + num(mode->w(3)) + " z " + num(mode->w(4)) + "\n"; bool any = false; for (auto& i : f.m.insts) if (i.op == 16 && (i.w(1) == 17 || i.w(1) == 18)) any |= r.out.find("LocalSize: x " + num(i.w(2)) + " y " + num(i.w(3)) + " z " + num(i.w(4)) + "\n") != r.out.npos; CHECK_SIG(any, "local size", "the local size of no entry point was printed, for example " + t); }
			else CHECK_SIG(r.out.find("LocalSize: x") == r.out.npos, "local size", "a local size was printed that the module does not have");
		}
		size_t nv = 0, nt = 0, nd = 0; bool fn = false; for (auto& i : f.m.insts) { fn |= i.op == 54; if (fn) break; nv += i.op == 59; nt += isTypeOp(i.op) || isConstOp(i.op) || i.op == 52; if (i.op == 71 || i.op == 72) nd += !deco || kinds.empty() || kinds.count(i.op == 71 ? i.w(1) : i.w(2)) ? 1 : 0; else if (kinds.empty() && (i.op == 332 || i.op == 5632 || i.op == 5633)) ++nd; }
		if (vars) { const std::string t = section(r.out, "Global Variables:"); CHECK_SIG(occurrences(t, "OpVariable") == nv, "variables", num(occurrences(t, "OpVariable")) + " of " + num(nv) + " variables printed: " + line + "\n" + t); }
		if (types) { const std::string t = section(r.out, "Types and Constants:"); const size_t n = occurrences(t, "OpType") + occurrences(t, "OpConstant") + occurrences(t, "OpSpecConstant"); CHECK_SIG(n == nt, "types", num(n) + " of " + num(nt) + " types and constants printed: " + line + "\n" + t); }
		if (deco && (ok || true)) { const std::string t = section(r.out, "Decorations:"); if (ok) { const size_t n = occurrences(t, "OpDecorate") + occurrences(t, "OpMemberDecorate"); CHECK_SIG(n == nd, "decorations", num(n) + " of " + num(nd) + " decorations printed: " + line + "\n" + t); } }
		if (ok && !colors)
		{
			std::multimap<uint32_t, std::string> named; std::set<uint32_t> entries; for (auto& i : f.m.insts) { if (i.op == 5) named.insert({ i.w(0), i.str(1) }); if (i.op == 15) entries.insert(i.w(1)); }
			auto shown = [&](uint32_t id, const char* sep, const std::string& rest) { auto has = [&](const std::string& n) { return r.out.find(n + sep + rest) != r.out.npos; }; if (named.count(id) == 0) return has("[UNNAMED]"); bool any = false; for (auto [b, e] = named.equal_range(id); b != e; ++b) any |= b->second.empty() ? has("") || has("[EMPTY]") || has("[UNNAMED]") : has("\n" + b->second); return any; };
			if (funcs)
			{
				for (auto& i : f.m.insts) if (i.op == 15) { auto* e = spv_ref::enumerant(K_ExecutionModel, i.w(0)); if (!e || (i.w(0) >= 5313 && i.w(0) <= 5318)) continue; // spelled with NV or KHR
				 CHECK_SIG(r.out.find("\n" + i.str(2) + " [EP " + e->name + "]\n") != r.out.npos, "entry point", "entry point \"" + i.str(2) + "\" of model " + e->name + " was not listed: " + line + "\n" + r.out); ctx.label("entry point listed"); }
				for (auto& i : f.m.insts) if (i.op == 54 && !entries.count(i.result)) { CHECK_SIG(shown(i.result, "\n", "%" + num(i.result) + "\t"), "function", "function %" + num(i.result) + " was not listed with its name: " + line + "\n" + r.out); ctx.label("function listed"); }
			}
			if (vars) for (auto& i : f.m.insts) { if (i.op == 54) break; if (i.op == 59) { CHECK_SIG(shown(i.result, ":\t", "%" + num(i.result) + "\tOpVariable"), "variable", "variable %" + num(i.result) + " was not listed with its name: " + line + "\n" + r.out); ctx.label("variable listed"); } }
			if (target && !funcs && !vars && !types && !deco) { size_t want = 0, got = 0; for (auto& i : f.m.insts) if ((i.op == 71 || i.op == 72) && i.w(0) == target->result) ++want; for (auto* op : { "\t\tOpDecorate %", "\t\tOpMemberDecorate %" }) got += occurrences(r.out, op); CHECK_SIG(want == got, "decorations of one", num(got) + " of " + num(want) + " decorations of %" + num(target->result) + " printed: " + line + "\n" + r.out); if (want) ctx.label("decorations of one instruction"); }
		}
		if (ok && target && !colors) { static const std::map<uint32_t, const char*> ops{ { 59, "OpVariable" }, { 54, "OpFunction" }, { 248, "OpLabel" }, { 43, "OpConstant" }, { 61, "OpLoad" }, { 30, "OpTypeStruct" } }; auto it = ops.find(target->op); if (it != ops.end()) { std::string tail = r.out; CHECK_SIG(tail.find("%" + num(target->result) + " = " + it->second) != tail.npos || tail.find(it->second) != tail.npos, "instruction", "the instruction asked for was not printed: " + line + "\n" + tail); ctx.label("instruction printed"); } }
	}

	// ------------------------------------------------------------ linker
	std::string spelling(Src& s, std::string x) { if (s.chance(1, 4)) for (auto& c : x) if (s.coin()) c = char(toupper(c)); return x; }
	// the file written, and how it can fail to be
	struct Out { std::vector<std::string> args; std::string file; bool writable = true; bool byDefault = false; Bytes old; };
	Out output(Src& s, const Dir& d, const std::string& input)
	{
		Out o; switch (s.weighted({ 8, 2, 1, 1, 1, 2 })) { case 0: o.file = "out.spv"; break; case 1: o.file = input; o.byDefault = true; break; case 2: o.file = "nowhere/out.spv"; o.writable = false; break; case 3: o.file = "outdir"; fs::create_directory(d.at("outdir")); o.writable = false; break; case 4: o.file = "/dev/full"; o.writable = false; break; default: o.file = "out.spv"; spit(d.at("out.spv"), "previous content"); }
		if (!o.byDefault) o.args = { spelling(s, s.coin() ? "-o" : "-out"), o.file }; return o;
	}
	bool plain(const std::string& n) { return !n.empty() && n[0] != ' ' && n[0] != '-' && n[0] != '+' && !isdigit(static_cast<unsigned char>(n[0])); }
	void patch(Src& s, Ctx& ctx)
	{
		Opts so = small(s); so.names = true; so.entries = s.coin() ? 1 : 0; so.minFuncs = 1; Dir d; File f = source(s, "lib.spv", so); damage(s, f); place(d, f); const Out out = output(s, d, f.name);
		struct T { bool imp; std::string target, name; bool vars; }; std::vector<T> ts; std::vector<std::string> names; std::map<uint32_t, const Inst*> defs; std::map<std::string, uint32_t> byName; std::set<uint32_t> entries; std::vector<uint32_t> fns, gvs, rest; { bool fn = false; for (auto& i : f.m.insts) { if (i.result) defs[i.result] = &i; if (i.op == 5) byName.insert({ i.str(1), i.w(0) }); if (i.op == 15) entries.insert(i.w(1)); fn |= i.op == 54; if (i.op == 54) fns.push_back(i.result); else if (i.op == 59 && !fn) gvs.push_back(i.result); else if (i.result) rest.push_back(i.result); } }
		const uint32_t n = s.range(1, 3); std::set<uint32_t> used;
		for (uint32_t k = 0; k < n; ++k)
		{
			T t; t.imp = s.coin(); t.vars = !t.imp && s.chance(1, 3); t.name = "symbol " + num(k); uint32_t id = 0; switch (s.weighted({ 8, 4, 1, 1 })) { case 0: if (!fns.empty()) id = s.pick(fns); break; case 1: if (!gvs.empty()) id = s.pick(gvs); break; case 2: id = s.pick(rest); break; default: id = s.range(500, 100000); }
			if (!id || !used.insert(id).second) continue; t.target = num(id); for (auto& x : byName) if (x.second == id && plain(x.first) && s.coin()) t.target = x.first; if (s.chance(1, 12)) t.target = "nothing of that name"; ts.push_back(t);
		}
		if (ts.empty()) throw pbt::Discard{};
		std::vector<std::string> args{ spelling(s, s.coin() ? "-p" : "-patchspv"), f.name }; const bool late = s.coin(); if (!late) args.insert(args.begin(), out.args.begin(), out.args.end());
		for (auto& t : ts) { args.push_back(spelling(s, t.imp ? (s.coin() ? "-i" : "-import") : s.coin() ? "-e" : "-export")); args.push_back(t.target); args.push_back(t.name); if (t.vars) args.push_back("-vars"); }
		if (late) args.insert(args.end(), out.args.begin(), out.args.end());
		bool cut = false; if (s.chance(1, 20)) { args.push_back(s.coin() ? "-o" : "-i"); cut = true; }
		const auto before = d.snapshot(); const Run r = tool(link_main, "link", args, d); const std::string line = "link" + cmd(args);
		ctx.nontrivial = true; ctx.mix(f.b.data(), f.b.size()); for (auto& a : args) ctx.mix(a.data(), a.size()); if (ctx.wantSample || ctx.verbose) ctx.note(line + " on " + num(f.b.size()) + " bytes, exit " + num(uint64_t(r.rc)));
		if (!f.accepted || cut) { CHECK_SIG(r.rc != 0, cut ? "patch without argument" : "patch of unreadable", "the linker reports success: " + line + "\n" + r.out); unchanged(before, d, {}, args); ctx.label("patch refused"); return; }
		// the same through the library
		Loaded l(f.w); bool ok = true; std::vector<std::pair<sg::Instruction*, const T*>> is;
		for (auto& t : ts) { sg::Instruction* i = isdigit(static_cast<unsigned char>(t.target[0])) ? l.m.getInstructionById(sg::spv::Id{ uint32_t(std::stoul(t.target)) }) : l.m.getInstructionByName(t.target.c_str()); if (!i) { ok = false; break; } is.push_back({ i, &t }); }
		if (ok) for (auto& [i, t] : is) { const bool fnOk = *i == sg::spv::Op::OpFunction && !i->getFunction()->isEntryPoint(), varOk = *i == sg::spv::Op::OpVariable && i->getBasicBlock() == nullptr; ok &= fnOk || varOk; }
		if (ok)
		{
			l.m.addCapability(sg::spv::Capability::Linkage);
			for (auto& [i, t] : is)
			{
				if (*i == sg::spv::Op::OpFunction) { if (t->imp) { if (!i->getFunction()->empty()) sg::LinkerHelper::removeFunctionBody(*i->getFunction()); } else if (t->vars) ok &= sg::LinkerHelper::addLinkageDecorateForUsedGlobalVariables(*i->getFunction(), sg::spv::LinkageType::Export, &l.a); }
				if (!ok) break;
				l.m.addDecorationInstr()->opDecorate(i, sg::spv::Decoration::LinkageAttributes, t->name.c_str(), t->imp ? sg::spv::LinkageType::Import : sg::spv::LinkageType::Export);
			}
		}
		MemWriter wr; if (ok) ok = l.m.finalizeAndWrite(wr); const bool want = ok && out.writable;
		CHECK_SIG((r.rc == 0) == want, std::string("patch exit code ") + (want ? "failed" : !out.writable ? "unwritable " + out.file : "succeeded"), "the linker ended with " + num(uint64_t(r.rc)) + ": " + line + "\n" + r.out + l.log.text);
		ctx.label(want ? "patched" : "patch failed"); unchanged(before, d, want || (f.intact && ok) ? std::set<std::string>{ out.file } : std::set<std::string>{}, args);
		if (!want) return;
		const Bytes got = slurp(d.at(out.file)); CHECK_SIG(got == bytes(wr.w), "patched module", "the file written is not the patched module: " + line);
		if (!f.intact) return;
		Mod m; std::string e; CHECK_SIG(spv_ref::decode(wordsOf(got), m, e), "patched module", e); bool cap = false; std::map<std::string, uint32_t> found; for (auto& i : m.insts) { cap |= i.op == 17 && i.w(0) == 5; if (i.op == 71 && i.w(1) == 41) found[i.str(2)] = i.w(3); }
		CHECK_SIG(cap, "patched module", "no Linkage capability"); for (auto& t : ts) CHECK_SIG(found.count(t.name) && found[t.name] == (t.imp ? 1u : 0u), "patched module", "no linkage of " + t.name + ": " + line + "\n" + spv_ref::dump(m));
	}
	void link(Src& s, Ctx& ctx)
	{
		Opts o = small(s); static const int models[] = { 4, 5, 0 }; o.model = s.pick(models); Dir d; const uint32_t nl = s.range(1, 2); struct L { std::unique_ptr<Prog> p; File f; std::vector<std::pair<const EFunc*, const EVar*>> ex; std::vector<std::string> names; }; std::vector<L> libs(nl);
		for (uint32_t k = 0; k < nl; ++k)
		{
			L& l = libs[k]; Opts lo = o; lo.entries = 0; lo.minFuncs = 1; l.p = std::make_unique<Prog>(s, lo); Prog& p = *l.p; p.g.run(); p.m.addCapability(sg::spv::Capability::Linkage);
			for (auto& f : p.g.e.funcs) if (s.coin() || &f == &p.g.e.funcs.back()) l.ex.push_back({ &f, nullptr }); for (auto& v : p.g.e.globals) if (s.chance(1, 3)) l.ex.push_back({ nullptr, &v });
			for (auto& x : l.ex) { l.names.push_back("s" + num(k) + "_" + num(l.names.size())); sg::LinkerHelper::addLinkageDecoration(x.first ? x.first->f->getFunction() : x.second->i, sg::spv::LinkageType::Export, l.names.back().c_str()); }
			Built b; write(p, b, s.coin()); l.f.name = "lib" + num(k) + ".spv"; l.f.w = b.w; l.f.m = b.m; l.f.b = bytes(b.w); if (s.chance(1, 3)) damage(s, l.f); place(d, l.f);
		}
		Opts co = o; size_t imports = 0; co.afterSetup = [&](Gen& g) {
			g.m.addCapability(sg::spv::Capability::Linkage);
			for (auto& l : libs) for (size_t k = 0; k < l.ex.size(); ++k)
			{
				if (!s.coin()) continue;
				std::string name = l.names[k]; if (s.chance(1, 30)) name += "?"; sg::Instruction* sym; ++imports;
				if (auto* x = l.ex[k].first)
				{
					g.e.funcs.emplace_back(); EFunc& f = g.e.funcs.back(); f.ret = x->ret; f.params = x->params; if (s.chance(1, 30)) f.params.push_back(tFloat(32)); f.control = 0; sg::Function& q = g.m.addFunction(); f.f = &q; q.setReturnType(g.typeI(f.ret)); for (auto& t : f.params) q.addParameters(g.typeI(t)); q.finalize(sg::spv::FunctionControlMask::MaskNone);
					for (size_t i = 0; i < f.params.size(); ++i) f.args.push_back(q.getParameter(uint32_t(i)));
					sym = q.getFunction();
				}
				else { EVar v; v.t = l.ex[k].second->t; v.sc = l.ex[k].second->sc; v.i = g.m.variable(g.typeI(tPtr(v.sc, v.t)), sg::spv::StorageClass(v.sc)); g.e.globals.push_back(v); g.gptrs.push_back({ tPtr(v.sc, v.t), v.i }); sym = v.i; }
				sg::LinkerHelper::addLinkageDecoration(sym, sg::spv::LinkageType::Import, name.c_str());
			} };
		File c; { Prog p(s, co); p.g.run(); Built b; write(p, b, s.coin()); c.name = "consumer.spv"; c.w = b.w; c.m = b.m; c.b = bytes(b.w); if (s.chance(1, 3)) damage(s, c); place(d, c); }
		const Out out = output(s, d, c.name); std::vector<std::vector<std::string>> groups; if (!out.args.empty()) groups.push_back(out.args); bool consumer = !s.chance(1, 30); if (consumer) groups.push_back({ spelling(s, s.coin() ? "-c" : "-consumer"), c.name });
		sg::LinkerHelper::LinkerOptions opt; opt.flags = LinkerOptionBits::AssignResultIDs; bool verbose = s.chance(1, 4); if (verbose) groups.push_back({ s.coin() ? "-verbose" : "-PrintInstructions" });
		static const struct { const char *a, *b; LinkerOptionBits f; } fl[] = { { "-ImportMissingTypes", "-types", LinkerOptionBits::ImportMissingTypes }, { "-ImportMissingConstants", "-constants", LinkerOptionBits::ImportMissingConstants }, { "-ImportMissingExtensionSets", "-extsets", LinkerOptionBits::ImportMissingExtensionSets }, { "-ImportReferencedDecorations", "-refdecos", LinkerOptionBits::ImportReferencedDecorations }, { "-ImportReferencedNames", "-refnames", LinkerOptionBits::ImportReferencedNames }, { "-ImportReferencedFunctions", "-reffuncs", LinkerOptionBits::ImportReferencedFunctions }, { "-ImportReferencedVariables", "-refvars", LinkerOptionBits::ImportReferencedVariables }, { "-ImportReferencedStrings", "-refstrings", LinkerOptionBits::ImportReferencedStrings }, { "-RemoveLinkageCapability", "-rmcap", LinkerOptionBits::RemoveLinkageCapability }, { "-AutoAddRequiredCapabilitiesAndExtensions", "-addcaps", LinkerOptionBits::AutoAddRequiredCapabilitiesAndExtensions }, { "-UpdateEntryPointGlobalVarInterface", "-variface", LinkerOptionBits::UpdateEntryPointGlobalVarInterface }, { "-CopyOpSourceStringInstructions", "-srcstrings", LinkerOptionBits::CopyOpSourceStringInstructions }, { "-CopyOpLineInstructions", "-lines", LinkerOptionBits::CopyOpLineInstructions }, { "-CopyOpModuleProcessedInstructions", "-processed", LinkerOptionBits::CopyOpModuleProcessedInstructions } };
		if (s.coin()) { groups.push_back({ spelling(s, s.coin() ? "-auto" : "-AllOptions") }); opt.flags |= LinkerOptionBits::All; } else { const bool many = s.chance(2, 3); for (size_t i = 0; i < sizeof fl / sizeof *fl; ++i) if (many && i < 8 ? !s.chance(1, 10) : s.coin()) { groups.push_back({ spelling(s, s.coin() ? fl[i].a : fl[i].b) }); opt.flags |= fl[i].f; } }
		shuffle(s, groups); std::vector<std::string> args; const size_t cutAt = s.below(uint32_t(groups.size() + 1)); for (size_t i = 0; i <= groups.size(); ++i) { if (i == cutAt) for (auto& l : libs) { args.push_back(spelling(s, s.coin() ? "-l" : "-lib")); args.push_back(l.f.name); } if (i < groups.size()) args.insert(args.end(), groups[i].begin(), groups[i].end()); }
		bool cut = false; if (s.chance(1, 20)) { args.push_back("-l"); cut = true; }
		const auto before = d.snapshot(); const Run r = tool(link_main, "link", args, d); const std::string line = "link" + cmd(args);
		ctx.nontrivial = imports > 0; ctx.mix(c.b.data(), c.b.size()); for (auto& a : args) ctx.mix(a.data(), a.size()); if (ctx.wantSample || ctx.verbose) ctx.note(line + ", exit " + num(uint64_t(r.rc)));
		bool readable = (!consumer || c.accepted); for (auto& l : libs) readable &= l.f.accepted;
		if (!readable || cut) { CHECK_SIG(r.rc != 0, cut ? "link without argument" : "link of unreadable", "the linker reports success: " + line + "\n" + r.out); unchanged(before, d, {}, args); ctx.label("link refused"); return; }
		if (!consumer) { CHECK_SIG(r.rc != 0, "link without consumer", "the linker reports success without a consumer: " + line); return; }
		Loaded t(c.w); if (verbose) { opt.grammar = &lu::grammar(); } bool ok = true; for (auto& l : libs) { Loaded lib(l.f.w); ok &= sg::LinkerHelper::import(lib.m, t.m, opt); }
		MemWriter wr; if (ok) { t.m.finalizeEntryPoints(); ok = t.m.write(wr); } const bool want = ok && out.writable;
		CHECK_SIG((r.rc == 0) == want, std::string("link exit code ") + (want ? "failed" : !out.writable ? "unwritable " + out.file : "succeeded"), "the linker ended with " + num(uint64_t(r.rc)) + ": " + line + "\n" + r.out + t.log.text);
		ctx.label(want ? "linked" : "link failed"); unchanged(before, d, ok ? std::set<std::string>{ out.file } : std::set<std::string>{}, args);
		if (want) CHECK_SIG(slurp(d.at(out.file)) == bytes(wr.w), "linked module", "the file written is not the linked module: " + line);
	}

	// ------------------------------------------------------------ files of words
	void files(Src& s, Ctx& ctx)
	{
		Dir d; sg::HeapAllocator a; Words w; const uint32_t n = s.chance(1, 10) ? s.range(2000, 6000) : s.below(40); for (uint32_t i = 0; i < n; ++i) w.push_back(n > 1000 ? i * 2654435761u : s.word()); const std::string p = d.at("words"); const int mode = int(s.below(6));
		if (mode == 0) spit(p, "previous content that is longer than a few words");
		{
			sg::BinaryFileWriter wr(a, s.coin() ? p.c_str() : nullptr, s.coin() ? 16 : 2048); if (!wr.isOpen()) CHECK_SIG(wr.open(p.c_str()), "writer", "the file was not opened"); CHECK_SIG(wr.isOpen() && bool(wr), "writer", "the file is not open"); CHECK_SIG(!wr.open(d.at("other").c_str()), "writer", "opened twice");
			for (auto x : w) CHECK_SIG(wr.put(x), "writer", "a word was refused"); if (s.coin()) { wr.close(); CHECK_SIG(!wr.isOpen(), "writer", "still open after close"); if (s.coin()) { CHECK_SIG(wr.open(d.at("second").c_str()), "writer", "cannot be used again"); wr.put(7); wr.close(); CHECK_SIG(wordsOf(slurp(d.at("second"))) == Words{ 7 }, "writer", "the second file is wrong"); } }
		}
		CHECK_SIG(slurp(p) == bytes(w), "writer", "the file does not hold the words written"); ctx.nontrivial = n > 0; ctx.mix(w.data(), w.size() * 4);
		Bytes b = bytes(w); if (s.chance(1, 4)) { const uint32_t k = s.range(1, 3); b.append(k, 'x'); spit(p, b); }
		const size_t off = s.coin() ? 0 : s.coin() ? 4 * s.below(n + 2) : s.below(4 * n + 8), len = s.coin() ? 0 : s.coin() ? 4 * s.below(n + 2) : s.below(4 * n + 8);
		const size_t left = off <= b.size() ? b.size() - off : 0, take = len == 0 ? left : len; if (take == 0) throw pbt::Discard{}; const bool ok = off <= b.size() && len <= left && take % 4 == 0; const std::string what = num(take) + " bytes at " + num(off) + " of " + num(b.size());
		sg::BinaryFileReader rd(a); const bool got = rd.read(p.c_str(), off, len); CHECK_SIG(got == ok, "reader", std::string("reading ") + what + (got ? " succeeded" : " failed")); ctx.label(ok ? "section read" : "section refused");
		sg::BinaryFileReader rc(a, p.c_str(), off, len); CHECK_SIG(bool(rc) == (ok && take > 0), "reader", std::string("the reader of ") + what + " says it is " + (bool(rc) ? "usable" : "unusable"));
		if (ok) for (auto* r : { &rd, &rc }) { const Words want = wordsOf(b.substr(off, take)); Words have; unsigned int x; while (have.size() <= want.size() && r->get(x)) have.push_back(x); CHECK_SIG(have == want, "reader", "other words were read: " + what); }
		else { unsigned int x; CHECK_SIG(!rc.get(x), "reader", "a word was read although reading failed"); }
		sg::BinaryFileReader none(a, d.at("none").c_str()), null(a); CHECK_SIG(!bool(none) && !bool(null), "reader", "a file that does not exist was read");
	}
	void p26(Src& s, Ctx& ctx) { switch (s.weighted({ 4, 4, 4, 4, 1 })) { case 0: dis(s, ctx); break; case 1: refl(s, ctx); break; case 2: patch(s, ctx); break; case 3: link(s, ctx); break; default: files(s, ctx); } }
	pbt::Reg r26("P26", "a tool run on a file (the linker: with at least one import), or a file of words", p26);
}
