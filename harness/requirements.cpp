// P13: capabilities, extensions and version that a module needs
#include "prog.h"
#include "bgen.h"
#include <set>
using namespace prog;

namespace
{
	using Set = std::set<uint32_t>; using lu::Words;
	struct Rev { const char* name; int field; }; // 1: capabilities, 2: extensions, 3: version, 0: not in the library's grammar
	const Rev revisions[] = {
#include "grammar_revisions.inc"
	};
	bool revised(const char* n, int f) { for (auto& r : revisions) if (!strcmp(r.name, n) && r.field == f) return true; return false; }
	constexpr uint32_t opCapability = 17, opExtension = 10, opExtInst = 12, opExtInstImport = 11;

	// the capability and everything that it implicitly declares
	void close(uint32_t c, Set& out) { if (!out.insert(c).second) return; if (auto* e = spv_ref::enumerant(K_Capability, c)) for (auto x : e->caps) close(x, out); }
	// the library was made from a revision in which these declared Shader
	bool revisedBase(uint32_t c) { return c == 5055 || c == 6033 || c == 6034; }
	Set closure(const Set& s) { Set r; for (auto c : s) close(c, r); return r; }
	std::string list(const Set& s) { std::string r; for (auto c : s) { auto* e = spv_ref::enumerant(K_Capability, c); r += (e ? e->name : std::to_string(c).c_str()); r += " "; } return r; }

	struct Decl { Set caps; std::set<std::string> exts; };
	Decl declared(const spv_ref::Mod& m)
	{
		Decl d;
		for (auto& i : m.insts)
		{
			if (i.op == opCapability) CHECK_SIG(d.caps.insert(i.w(0)).second, "duplicate capability", "capability " + std::to_string(i.w(0)) + " is declared twice\n" + spv_ref::dump(m));
			if (i.op == opExtension) CHECK_SIG(d.exts.insert(i.str(0)).second, "duplicate extension", "extension " + i.str(0) + " is declared twice\n" + spv_ref::dump(m));
		}
		return d;
	}
	Words without(const spv_ref::Mod& m, bool requirements, uint32_t version)
	{
		Words w = { m.magic, version, m.generator, m.bound, m.schema };
		for (auto& i : m.insts) if (!requirements || (i.op != opCapability && i.op != opExtension)) w.insert(w.end(), i.words.begin(), i.words.end());
		return w;
	}
	Words assemble(const spv_ref::Mod& m, const std::vector<bool>& keep, uint32_t version)
	{
		Words w = { m.magic, version, m.generator, m.bound, m.schema };
		for (size_t k = 0; k < m.insts.size(); ++k) if (keep[k]) w.insert(w.end(), m.insts[k].words.begin(), m.insts[k].words.end());
		return w;
	}
	// instructions (extended ones too) of the module that need something
	std::vector<const OInstr*> needs(const spv_ref::Mod& m)
	{
		std::set<const OInstr*> r;
		for (auto& i : m.insts)
		{
			if (auto* o = spv_ref::instr(i.op)) r.insert(o);
			if (i.op == opExtInst && i.ops.size() > 1) if (auto* imp = m.find(i.w(0))) if (auto* o = spv_ref::extInstr(imp->str(0), i.w(1))) r.insert(o);
		}
		return { r.begin(), r.end() };
	}
	uint32_t minVersion(const std::vector<const OInstr*>& n) { uint32_t v = 0x10000; for (auto* i : n) if (i->version != 0xffffffffu && !revised(i->name, 0) && !revised(i->name, 3)) v = std::max(v, i->version); return v; }
	bool uncertainVersion(const std::vector<const OInstr*>& n) { for (auto* i : n) if (revised(i->name, 3)) return true; return false; }

	struct Before { Decl d; uint32_t version; Words rest; const Expected* e = nullptr; };
	enum { Caps = 1, Exts = 2, Version = 4, ExactVersion = 8 };
	void judge(const Before& b, const spv_ref::Mod& m, int what, Ctx& ctx)
	{
		Decl d = declared(m); auto n = needs(m); Set all = closure(d.caps);
		auto text = [&] { return "\nbefore: " + list(b.d.caps) + "\nafter: " + list(d.caps) + "\n" + spv_ref::dump(m); };
		unsigned needy = 0, missing = 0;
		Set useful;
		for (auto* i : n)
		{
			if (revised(i->name, 0) || revised(i->name, 1)) { ctx.label("instruction revised"); for (auto c : i->caps) useful.insert(c); continue; }
			if (!i->caps.empty())
			{
				++needy; bool had = false, has = false;
				for (auto c : i->caps) { had |= b.d.caps.count(c) != 0; has |= all.count(c) != 0; useful.insert(c); }
				missing += !had;
				if (what & Caps) CHECK_SIG(has, "capability", std::string(i->name) + " is not enabled by any capability" + text());
			}
			if ((what & Exts) && !i->exts.empty() && !revised(i->name, 2))
			{
				bool has = (i->version != 0xffffffffu && m.version >= i->version); for (auto& e : i->exts) has |= d.exts.count(e) != 0;
				CHECK_SIG(has, "extension", std::string(i->name) + " needs one of its extensions" + text());
				ctx.label("needs an extension or a version");
			}
		}
		for (auto c : b.d.caps) CHECK_SIG(d.caps.count(c), "lost capability", "capability " + std::to_string(c) + " was lost" + text());
		for (auto& e : b.d.exts) CHECK_SIG(d.exts.count(e), "lost extension", "extension " + e + " was lost" + text());
		if (!(what & Caps)) CHECK_SIG(d.caps == b.d.caps, "unrequested capability", text());
		bool rev = false; for (auto* i : n) rev |= revised(i->name, 0) || revised(i->name, 1);
		if (!rev) { Set u = useful; for (auto c : d.caps) if (!b.d.caps.count(c)) CHECK_SIG(u.count(c), "needless capability", "capability " + std::to_string(c) + " was added but nothing needs it" + text()); }
		bool rev2 = false; std::set<std::string> ux; for (auto* i : n) { rev2 |= revised(i->name, 0) || revised(i->name, 2); for (auto& e : i->exts) ux.insert(e); }
		if (!rev2 || !(what & Exts)) for (auto& e : d.exts) if (!b.d.exts.count(e)) CHECK_SIG((what & Exts) && ux.count(e), "needless extension", "extension " + e + " was added but nothing needs it" + text());
		if (!uncertainVersion(n))
		{
			uint32_t v = minVersion(n);
			if (what & ExactVersion) CHECK_SIG(m.version == v, "version", "version " + std::to_string(m.version) + " instead of " + std::to_string(v) + text());
			else if (what & Version) CHECK_SIG(m.version == std::max(v, b.version), "version", "version " + std::to_string(m.version) + " instead of " + std::to_string(std::max(v, b.version)) + text());
			if (v > b.version) ctx.label("version has to be raised");
		}
		if (!(what & (Version | ExactVersion))) CHECK_SIG(m.version == b.version, "unrequested version", text());
		ctx.label("instructions with capabilities", needy); ctx.label("capabilities declared by the scan", missing); ctx.label("capabilities before", b.d.caps.size());
		ctx.nontrivial = needy >= 2 && missing >= 1;
		// nothing else changes
		// (the interface of an entry point lists more variables from 1.4 on)
		const bool other = (m.version >= 0x10400) != (b.version >= 0x10400);
		auto noEntry = [](const Words& w) { spv_ref::Mod q; std::string e; spv_ref::decode(w, q, e); std::vector<bool> k; for (auto& i : q.insts) k.push_back(i.op != 15); return assemble(q, k, q.version); };
		if (other) ctx.label("version crosses 1.4");
		spv_ref::Mod x, y; std::string err; Words w = without(m, true, b.version); if (other) w = noEntry(w);
		if (!b.rest.empty()) { CHECK(spv_ref::decode(w, x, err)); CHECK(spv_ref::decode(other ? noEntry(b.rest) : b.rest, y, err)); auto df = spv_ref::isoDiff(y, x); CHECK_SIG(df.empty(), "changed", df + text()); }
		if (ctx.wantSample || ctx.verbose) ctx.note("before: " + list(b.d.caps) + "\nafter: " + list(d.caps) + "\n" + spv_ref::dump(m).substr(0, ctx.verbose ? 100000 : 1500));
	}
	spv_ref::Mod out(sg::Module& m, Log& log, bool finalize, bool grammar)
	{
		MemWriter wr; bool ok = finalize ? m.finalizeAndWrite(wr, grammar ? &lu::grammar() : nullptr) : m.write(wr); CHECK_SIG(ok, "write", log.text);
		spv_ref::Mod d; std::string err; CHECK_SIG(spv_ref::decode(wr.w, d, err), "decode", err + "\n" + spv_ref::dump(d)); return d;
	}
	// requests the requirements of a complete module in one of the ways the interface offers, once or twice
	void request(Src& s, Ctx& ctx, sg::Module& m, Log& log, const Before& b)
	{
		auto& g = lu::grammar(); int what = 0; spv_ref::Mod d; bool finalized = true; std::string err;
		switch (s.below(4))
		{
		case 0: d = out(m, log, true, true); what = Caps | Exts | Version; ctx.label("finalize"); break;
		case 1: { finalized = false; unsigned id = unsigned(m.assignIDs(&g)); d = out(m, log, false, false); what = Caps | Exts | Version; CHECK_SIG(d.bound == id + 1, "bound", ""); ctx.label("assignIDs"); break; }
		default:
		{
			ctx.label("single requests");
			for (unsigned k = 1 + s.below(3); k--;) switch (s.below(5))
			{
			case 0: case 1: m.addRequiredCapabilities(g); what |= Caps; break;
			case 2: m.addRequiredExtensions(g); what |= Exts; break;
			case 3: { auto v = m.setRequiredVersion(g); CHECK_SIG(v == m.getSpvVersion(), "setRequiredVersion", ""); what |= ExactVersion; break; }
			case 4: { auto before = m.getSpvVersion(); auto v = m.getRequiredVersion(g); CHECK_SIG(before == m.getSpvVersion(), "getRequiredVersion", "changed the module"); Before c = b; (void)c; spv_ref::Mod t = out(m, log, true, false); if (!uncertainVersion(needs(t))) CHECK_SIG(v == minVersion(needs(t)), "required version", std::to_string(v) + " instead of " + std::to_string(minVersion(needs(t)))); break; }
			}
			d = out(m, log, true, false);
		} }
		judge(b, d, what, ctx);
		if (b.e && finalized) { err = compareInterfaces(*b.e, d); CHECK_SIG(err.empty(), "interface", err + "\n" + spv_ref::dump(d)); }
		if (s.coin()) // again: nothing is left to do
		{
			ctx.label("twice");
			if (what & Caps) { if (s.coin()) m.addRequiredCapabilities(g); else m.assignIDs(&g); what |= Caps; }
			if (what & Exts) m.addRequiredExtensions(g);
			spv_ref::Mod d2 = out(m, log, true, (what & Caps) && (what & Exts) && (what & Version)); Decl x = declared(d), y = declared(d2);
			CHECK_SIG(y.caps == x.caps, "requested twice", "capabilities " + list(x.caps) + " became " + list(y.caps));
		}
	}
	void fromBinary(Src& s, Ctx& ctx)
	{
		bgen::Opts o; o.mayBeLarge = false; o.maxBody = 6; auto in = bgen::generate(s, o); spv_ref::Mod m; std::string err; CHECK_SIG(spv_ref::decode(in.words, m, err), "generator", err);
		std::vector<bool> keep(m.insts.size(), true); Set seen; std::set<std::string> seenX; const unsigned drop = s.below(3);
		for (size_t k = 0; k < m.insts.size(); ++k) if (m.insts[k].op == opCapability || m.insts[k].op == opExtension)
			keep[k] = (drop == 0 ? false : drop == 1 ? s.coin() : true) && (m.insts[k].op == opCapability ? seen.insert(m.insts[k].w(0)).second : seenX.insert(m.insts[k].str(0)).second);
		Words w = assemble(m, keep, s.coin() ? 0x10000 : 0x10000 | s.below(7) << 8);
		// some capabilities that belong to used instructions or none of them
		std::vector<uint32_t> extra; auto n = needs(m);
		for (unsigned k = s.below(4); k--;) { const OInstr* i = n.empty() ? nullptr : s.pick(n); if (i && !i->caps.empty() && s.coin()) extra.push_back(s.pick(i->caps)); else extra.push_back(s.pick(spv_ref::kind(K_Capability).enums).value); }
		sg::HeapAllocator alloc; Log log; sg::Module mod(&alloc, &log); MemReader rd(w); CHECK_SIG(mod.readAndInit(rd, lu::grammar()), "read", log.text);
		for (auto c : extra) { mod.addCapability(sg::spv::Capability(c)); CHECK_SIG(mod.checkCapability(sg::spv::Capability(c)), "checkCapability", ""); }
		Before b; spv_ref::Mod bm; CHECK(spv_ref::decode(w, bm, err)); b.d = declared(bm); b.d.caps.insert(extra.begin(), extra.end()); b.version = bm.version; b.rest = without(out(mod, log, true, false), true, bm.version);
		ctx.label("read module"); ctx.mix(w.data(), w.size() * 4); for (auto c : extra) ctx.mix(uint64_t(c));
		request(s, ctx, mod, log, b);
	}
	void fromProgram(Src& s, Ctx& ctx)
	{
		Opts o = opts(s); Prog p(s, o); p.g.run(); Before b; b.e = &p.g.e; ctx.label("built module");
		const unsigned drop = s.below(3);
		for (auto c : p.g.e.caps) { if (drop == 0 || (drop == 1 && s.coin())) { CHECK_SIG(p.m.removeCapability(sg::spv::Capability(c)), "removeCapability", "capability " + std::to_string(c) + " was not there"); CHECK_SIG(!p.m.checkCapability(sg::spv::Capability(c)), "checkCapability", ""); CHECK_SIG(!p.m.removeCapability(sg::spv::Capability(c)), "removeCapability", "removed twice"); } else b.d.caps.insert(c); }
		if (s.coin()) p.m.setSpvVersion(1, 0); else if (s.coin()) p.m.setSpvVersion(1, s.below(7));
		b.version = p.m.getSpvVersion();
		auto now = out(p.m, p.log, true, false); Decl d = declared(now); CHECK_SIG(d.caps == b.d.caps, "capability set", list(d.caps) + " instead of " + list(b.d.caps)); b.d.exts = d.exts; b.rest = without(now, true, now.version);
		CHECK_SIG(now.version == b.version, "version", "");
		ctx.mix(b.rest.data(), b.rest.size() * 4); for (auto c : b.d.caps) ctx.mix(uint64_t(c));
		request(s, ctx, p.m, p.log, b);
	}
	// sequences of requests for single declarations against a set
	void declarations(Src& s, Ctx& ctx)
	{
		auto& enums = spv_ref::kind(K_Capability).enums; sg::HeapAllocator alloc; Log log; sg::Module m(&alloc, &log); m.setSpvVersion(1, 6); m.setMemoryModel(sg::spv::AddressingModel::Logical, sg::spv::MemoryModel::Simple);
		Set caps; std::set<std::string> exts; unsigned dep = 0, dup = 0; std::vector<uint32_t> recent; std::vector<std::string> recentX; std::string trace;
		auto pick = [&]() -> uint32_t { if (!recent.empty() && s.chance(1, 3)) return s.pick(recent); uint32_t c; do c = s.pick(enums).value; while (revisedBase(c) || bgen::newer((std::string("Capability.") + spv_ref::enumerant(K_Capability, c)->name).c_str())); recent.push_back(c); ctx.mix(uint64_t(c)); return c; };
		for (unsigned n = 1 + s.below(12); n--;)
		{
			const unsigned op = s.weighted({ 4, 4, 3, 2, 2, 1, 1 });
			switch (op)
			{
			case 0: { auto c = pick(); dup += caps.count(c); trace += " add " + std::to_string(c); m.addCapability(sg::spv::Capability(c)); caps.insert(c); break; }
			case 1: { auto c = pick(); dup += caps.count(c); trace += " add+base " + std::to_string(c); m.addCapability(sg::spv::Capability(c), true); Set cl; close(c, cl); dep += cl.size() > 1; caps.insert(cl.begin(), cl.end()); break; }
			case 2: { auto c = pick(); trace += " remove " + std::to_string(c); bool was = caps.erase(c) != 0; CHECK_SIG(m.removeCapability(sg::spv::Capability(c)) == was, "removeCapability", trace); break; }
			case 3: { auto c = pick(); CHECK_SIG(m.checkCapability(sg::spv::Capability(c)) == (caps.count(c) != 0), "checkCapability", trace); break; }
			case 4: { std::string x; if (!recentX.empty() && s.coin()) x = s.pick(recentX); else { x = sg::spv::ExtensionNames[s.below(uint32_t(std::size(sg::spv::ExtensionNames)))]; recentX.push_back(x); }
				trace += " ext " + x; ctx.mix(x); dup += exts.count(x); bool en = false; for (unsigned k = 0; k < unsigned(std::size(sg::spv::ExtensionNames)); ++k) if (x == sg::spv::ExtensionNames[k] && s.coin()) { m.addExtension(sg::spv::Extension(k)); en = true; break; } if (!en) m.addExtension(std::string(x).c_str()); exts.insert(x); break; }
			case 5: { unsigned mi = s.below(7), before = m.getSpvVersion(); trace += " ensure 1." + std::to_string(mi); m.ensureSpvVersion(1, mi); CHECK_SIG(m.getSpvVersion() == std::max(before, 0x10000u | mi << 8), "ensureSpvVersion", trace); break; }
			case 6: { unsigned mi = s.below(7); trace += " version 1." + std::to_string(mi); m.setSpvVersion(1, mi); CHECK_SIG(m.getSpvVersion() == (0x10000u | mi << 8), "setSpvVersion", trace); break; }
			}
		}
		ctx.label("declarations"); ctx.label("with base capabilities", dep); ctx.label("repeated declarations", dup); ctx.nontrivial = dep + dup >= 1; ctx.note(trace);
		auto ver = m.getSpvVersion(); const bool gr = s.coin(); auto d = out(m, log, true, gr); Decl x = declared(d);
		CHECK_SIG(x.caps == caps, "capabilities", trace + "\nmodule: " + list(x.caps) + "\nexpected: " + list(caps));
		CHECK_SIG(x.exts == exts, "extensions", trace); CHECK_SIG(d.version == ver, "version", trace);
	}
	void p13(Src& s, Ctx& ctx) { switch (s.weighted({ 5, 4, 3 })) { case 0: fromBinary(s, ctx); break; case 1: fromProgram(s, ctx); break; default: declarations(s, ctx); } }
	pbt::Reg r13("P13", "at least two used instructions need a capability and one of them has to be declared by the scan; for single declarations: base capabilities or repeated requests", p13);
}
