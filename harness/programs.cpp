// P01 valid modules, P02 requested operations, P04 layout, P10 interfaces: programs built through the interface.
#include "prog.h"
using namespace prog;

namespace
{
	void p01(Src& s, Ctx& ctx)
	{
		Opts o = opts(s); o.selectAny = true; const bool gr = s.coin(); Prog p(s, o); p.g.run(); Built b; write(p, b, gr); stats(p, ctx, b);
		CHECK_SIG(p.log.errors == 0, "complaint " + kindOf(p.log.text), "the library complained about a well-typed program: " + p.log.text + spv_ref::dump(b.m));
		for (auto& i : b.m.insts) CHECK_SIG(i.op != 0, "nop", "the module contains a placeholder\n" + spv_ref::dump(b.m));
		std::string err = spv_ref::validate(b.w); CHECK_SIG(err.empty(), "invalid " + kindOf(err), err + "\n" + spv_ref::dump(b.m));
	}
	void p02(Src& s, Ctx& ctx)
	{
		Opts o = opts(s); o.selectAny = true; o.anyCaps = true; Prog p(s, o); p.g.run(); Built b; write(p, b, false); stats(p, ctx, b);
		std::string err = compare(p.g.e, b.m); CHECK_SIG(err.empty(), "differs " + kindOf(err), err + "\n" + spv_ref::dump(b.m));
	}
	void p04(Src& s, Ctx& ctx)
	{
		Opts o = opts(s); o.selectAny = true; const bool gr = s.coin(); Prog p(s, o); p.g.run();
		for (uint32_t k = s.chance(1, 3) ? s.range(1, 2) : 0; k; --k) { sg::Instruction* i = p.m.addModuleProccessedInstr(); i->setOperation(sg::spv::Op::OpModuleProcessed); i->appendLiterals("tool"); }
		Built b; write(p, b, gr); stats(p, ctx, b);
		std::string err = spv_ref::checkLayout(b.m); CHECK_SIG(err.empty(), "layout", err + "\n" + spv_ref::dump(b.m));
	}
	void p10(Src& s, Ctx& ctx)
	{
		Opts o = opts(s); o.selectAny = true; o.kernel = false; o.maxFuncs = 5; o.images = s.coin(); Prog p(s, o); p.g.run(); Built b; write(p, b, false); stats(p, ctx, b);
		ctx.label("globals", p.g.e.globals.size());
		ctx.nontrivial = p.g.e.globals.size() >= 2 && p.g.calls >= 1;
		std::string err = compareInterfaces(p.g.e, b.m); CHECK_SIG(err.empty(), "interface", err + "\n" + spv_ref::dump(b.m));
	}
	void p25(Src& s, Ctx& ctx)
	{
		Opts o = opts(s); o.selectAny = true; o.rejected = true; o.size = std::min(o.size, 8); const bool gr = s.coin(); Prog p(s, o); p.g.run();
		for (auto& r : p.g.rejected) { CHECK_SIG(r.i->getOperation() == sg::spv::Op::OpNop && r.i->empty(), "later change", r.what + ": the placeholder was changed"); CHECK_SIG(r.b->remove(r.i), "remove rejected", "placeholder not removed"); }
		Built b; write(p, b, gr); stats(p, ctx, b); ctx.label("rejected calls", p.g.rejects); ctx.nontrivial = p.g.rejects >= 2;
		std::string err = compare(p.g.e, b.m); CHECK_SIG(err.empty(), "differs " + kindOf(err), err + "\n" + spv_ref::dump(b.m));
		err = spv_ref::validate(b.w); CHECK_SIG(err.empty(), "invalid " + kindOf(err), err + "\n" + spv_ref::dump(b.m));
	}
	pbt::Reg r25("P25", "at least two rejected calls", p25);
	pbt::Reg r1("P01", "a program with at least five instructions requested from the building interface", p01);
	pbt::Reg r2("P02", "a program with at least five instructions requested from the building interface", p02);
	pbt::Reg r4("P04", "a program with at least five instructions requested from the building interface", p04);
	pbt::Reg r10("P10", "at least two global variables and one function call", p10);
}
