// A program under construction and what is checked about every written module.
#pragma once
#include "apigen.h"
namespace prog
{
	using namespace ag;
	using pbt::Src; using pbt::Ctx;
	namespace sg = spvgentwo;
	using lu::MemWriter; using lu::MemReader; using lu::Log;

	inline std::string kindOf(const std::string& e) { std::string r; for (char c : e.substr(0, 70)) { if (c == '\n') break; if (isdigit((unsigned char)c)) { if (r.empty() || r.back() != '#') r += '#'; } else r += c; } auto q = r.find("["); if (q != r.npos) r.resize(q); return r; }
	struct Built { lu::Words w; spv_ref::Mod m; };
	struct Prog
	{
		sg::HeapAllocator alloc; Log log; sg::Module m; Gen g;
		Prog(Src& s, const Opts& o, sg::IAllocator* a = nullptr) : m(a ? a : &alloc, &log), g(s, m, log, o) {}
	};
	inline std::string opNames(const spv_ref::Mod& m) { return spv_ref::dump(m); }
	inline void write(Prog& p, Built& b, bool grammar)
	{
		MemWriter wr; CHECK_SIG(p.m.finalizeAndWrite(wr, grammar ? &lu::grammar() : nullptr), "write", "writing a complete module failed: " + p.log.text);
		b.w = wr.w; std::string err; CHECK_SIG(spv_ref::decode(b.w, b.m, err), "decode", err + "\n" + spv_ref::dump(b.m));
	}
	inline Opts opts(Src& s) { Opts o; switch (s.below(6)) { case 0: o.size = 3; o.depth = 0; o.maxFuncs = 1; break; case 1: o.size = 12; break; case 2: o.straight = true; o.size = 10; break; case 3: o.size = 8; o.depth = 3; break; default: break; } o.kernel = s.chance(1, 20); o.more = s.coin(); return o; }
	inline void stats(Prog& p, Ctx& ctx, const Built& b)
	{
		for (auto& u : p.g.used) ctx.label("op " + u.first, u.second);
		ctx.label("ifs", p.g.ifs); ctx.label("loops", p.g.loops); ctx.label("calls", p.g.calls); ctx.label("phis", p.g.phis); ctx.label("functions", p.g.e.funcs.size());
		ctx.mix(b.w.data(), b.w.size() * 4);
		if (ctx.wantSample || ctx.verbose) ctx.note(spv_ref::dump(b.m));
		ctx.nontrivial = p.g.ops >= 5;
	}
}
