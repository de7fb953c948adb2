// P18 ids and determinism, P19 editing, P23 allocation by modules.
#include "prog.h"
#include "track.h"
#include "bgen.h"
using namespace prog;
using spv_ref::Mod; using spv_ref::Inst;

namespace
{
	// choices to be used more than once
	struct Tape
	{
		std::vector<uint32_t> v;
		static pbt::Shared* shared() { static pbt::Shared* s = static_cast<pbt::Shared*>(calloc(1, sizeof(pbt::Shared))); return s; }
		Tape(Src& s, uint32_t n) { for (uint32_t i = 0; i < n; ++i) v.push_back(s.below(0x7fffffffu)); }
		Src src() const { return Src(&v, shared()); }
	};
	// hands out blocks at scattered, irregular addresses
	struct Scatter final : sg::IAllocator
	{
		std::vector<void*> waste; uint32_t n = 1;
		void* allocate(sg::sgt_size_t b, unsigned int) override { n = n * 1664525u + 1013904223u; if ((n >> 16) % 3 == 0) waste.push_back(malloc((n >> 20) % 200 + 1)); return malloc(b ? b : 1); }
		void deallocate(void* p, sg::sgt_size_t) override { free(p); }
		~Scatter() override { for (auto* p : waste) free(p); }
	};
	std::vector<uint32_t> words(const Inst& i)
	{
		std::vector<uint32_t> r{ 0 }; if (i.type) r.push_back(i.type); if (i.result) r.push_back(i.result);
		for (auto& o : i.ops) r.insert(r.end(), o.w.begin(), o.w.end());
		r[0] = uint32_t(r.size()) << 16 | i.op; return r;
	}
	lu::Words words(const Mod& m) { lu::Words r{ m.magic, m.version, m.generator, m.bound, m.schema }; for (auto& i : m.insts) { auto w = words(i); r.insert(r.end(), w.begin(), w.end()); } return r; }
	lu::Words rewrite(sg::Module& m, Log& log) { MemWriter w; CHECK_SIG(m.write(w), "write", "writing failed: " + log.text); return w.w; }
	Mod decoded(const lu::Words& w) { Mod m; std::string err; CHECK_SIG(spv_ref::decode(w, m, err), "decode", err + "\n" + spv_ref::dump(m)); return m; }
	std::string where(const lu::Words& a, const lu::Words& b) { Mod x, y; std::string e; spv_ref::decode(a, x, e); spv_ref::decode(b, y, e); std::string d = spv_ref::isoDiff(x, y, true); return d.empty() ? "header" : d; }

	void compact(const Mod& m)
	{
		std::set<uint32_t> ids; for (auto& i : m.insts) if (i.result) CHECK_SIG(ids.insert(i.result).second, "id twice", "id " + std::to_string(i.result) + " defined twice\n" + spv_ref::dump(m));
		CHECK_SIG(ids.empty() || (*ids.begin() == 1 && *ids.rbegin() == ids.size()), "ids not consecutive", "ids are not the numbers from 1 on\n" + spv_ref::dump(m));
		CHECK_SIG(m.bound == ids.size() + 1, "bound", "bound is " + std::to_string(m.bound) + ", largest id " + std::to_string(ids.size()) + "\n" + spv_ref::dump(m));
	}
	// the same module with other ids: gaps, any order
	Mod renumbered(Src& s, Mod m)
	{
		std::vector<uint32_t> old; for (auto& i : m.insts) if (i.result) old.push_back(i.result);
		std::vector<uint32_t> fresh; uint32_t next = 1; const uint32_t gaps = s.below(3); for (size_t i = 0; i < old.size(); ++i) { if (gaps && s.chance(1, gaps == 1 ? 20 : 2)) next += s.range(1, 40); fresh.push_back(next++); }
		if (s.coin()) for (size_t i = fresh.size(); i > 1; --i) std::swap(fresh[i - 1], fresh[s.below(uint32_t(i))]); else if (s.coin()) for (uint32_t k = s.range(1, 4); k > 0 && !fresh.empty(); --k) std::swap(fresh[s.below(uint32_t(fresh.size()))], fresh[s.below(uint32_t(fresh.size()))]);
		std::map<uint32_t, uint32_t> to; for (size_t i = 0; i < old.size(); ++i) to[old[i]] = fresh[i];
		for (auto& i : m.insts) { if (i.type) i.type = to[i.type]; if (i.result) i.result = to[i.result]; for (auto& o : i.ops) if (o.isId()) o.w[0] = to[o.w[0]]; }
		m.bound = next + s.below(3); return m;
	}
	void p18(Src& s, Ctx& ctx)
	{
		Opts o = opts(s); const bool gr = s.coin(); Tape tape(s, s.coin() ? 200 : 900);
		const sg::Grammar* g = gr ? &lu::grammar() : nullptr;
		Src s1 = tape.src(); Prog p(s1, o); p.g.run(); Built b; write(p, b, gr); stats(p, ctx, b);
		compact(b.m);
		// the same calls again, with blocks at other addresses
		lu::Words first = b.w;
		{
			Scatter sc; Src s2 = tape.src(); Prog q(s2, o, &sc); q.g.run(); Built c; write(q, c, gr);
			CHECK_SIG(c.w == b.w, "not deterministic", "the same calls give another module: " + where(b.w, c.w));
		}
		// writing and finalizing again
		const uint32_t k = s.below(4);
		for (uint32_t i = 0; i < k; ++i) switch (s.below(3))
		{
		case 0: CHECK_SIG(rewrite(p.m, p.log) == first, "write again", "writing again gives another module: " + where(first, rewrite(p.m, p.log))); break;
		case 1: { auto id = p.m.finalize(g); CHECK_SIG(uint32_t(id) + 1 == b.m.bound, "finalize result", "finalize returned " + std::to_string(uint32_t(id)) + ", bound is " + std::to_string(b.m.bound)); auto w = rewrite(p.m, p.log); CHECK_SIG(w == first, "finalize again", "finalizing again changes the module: " + where(first, w)); break; }
		default: { MemWriter w; CHECK_SIG(p.m.finalizeAndWrite(w, g), "write", p.log.text); CHECK_SIG(w.w == first, "finalize again", "finalizing again changes the module: " + where(first, w.w)); }
		}
		CHECK_SIG(p.m.getSpvBound() == b.m.bound, "bound", "getSpvBound");
		for (auto& i : b.m.insts) if (i.result && s.chance(1, 8)) { auto* x = p.m.getInstructionById(sg::spv::Id(i.result)); CHECK_SIG(x && uint32_t(x->getResultId()) == i.result && uint32_t(x->getOperation()) == i.op, "getInstructionById", "id " + std::to_string(i.result)); }
		// ids turned into references and back
		sg::HeapAllocator alloc; Log log; sg::Module r(&alloc, &log); const bool init = s.coin();
		const Mod source = s.coin() ? renumbered(s, b.m) : b.m;
		{ const lu::Words sw = words(source); MemReader rd(sw); CHECK_SIG(init ? r.readAndInit(rd, lu::grammar()) : r.read(rd, lu::grammar()), "read", log.text + spv_ref::dump(source)); }
		if (!init) { if (s.coin()) { auto w = rewrite(r, log); Mod m = decoded(w); auto d = spv_ref::isoDiff(source, m, true); CHECK_SIG(d.empty(), "read and write", d); } CHECK_SIG(r.resolveIDs(), "resolveIDs", log.text); }
		const bool twice = s.coin();
		for (int i = 0; i < (twice ? 2 : 1); ++i)
		{
			MemWriter w; if (s.coin()) { auto id = r.assignIDs(); CHECK_SIG(uint32_t(id) + 1 == b.m.bound, "assignIDs result", "assignIDs returned " + std::to_string(uint32_t(id))); CHECK_SIG(r.write(w), "write", log.text); } else CHECK_SIG(r.finalizeAndWrite(w), "write", log.text);
			Mod m = decoded(w.w); compact(m);
			Mod want = b.m, got = m; for (auto* x : { &want, &got }) for (auto& y : x->insts) if (y.op == 15 && y.ops.size() > 3) std::sort(y.ops.begin() + 3, y.ops.end(), [](auto& l, auto& r) { return l.w < r.w; }); // order within an interface is of no consequence
			auto d = spv_ref::isoDiff(want, got); CHECK_SIG(d.empty(), "resolved and assigned", d);
			if (i == 0 && twice && s.coin()) CHECK_SIG(r.resolveIDs(), "resolveIDs", "second time: " + log.text);
		}
	}

	// ------------------------------------------------------------------------------------------ editing
	struct Editor
	{
		Src& s; Ctx& ctx; sg::Module& m; Log& log; Mod cur; std::vector<Instruction*> at; uint64_t edits = 0; std::string trace;
		Editor(Src& src, Ctx& c, sg::Module& mod, Log& l) : s(src), ctx(c), m(mod), log(l) { sync(decoded(rewrite(m, log))); }
		std::string text() const { return trace + "\n" + spv_ref::dump(cur); }
		// the module has to be exactly the expected one
		void sync(const Mod& want)
		{
			lu::Words w = rewrite(m, log); lu::Words x = words(want);
			CHECK_SIG(w == x, "edit " + last, "after " + last + ": " + where(x, w) + text());
			cur = decoded(w); at.clear(); m.iterateInstructions([&](Instruction& i) { at.push_back(&i); });
			CHECK_SIG(at.size() == cur.insts.size(), "iteration", "iteration visits " + std::to_string(at.size()) + " instructions instead of " + std::to_string(cur.insts.size()) + text());
			for (size_t i = 0; i < at.size(); ++i) CHECK_SIG(uint32_t(at[i]->getOperation()) == cur.insts[i].op && (!cur.insts[i].result || uint32_t(at[i]->getResultId()) == cur.insts[i].result), "iteration", "iteration does not follow the order of the module" + text());
		}
		std::string last = "nothing";
		bool refers(const Inst& i, uint32_t id) const { for (auto& o : i.ops) if (o.isId() && o.w[0] == id) return true; return false; }
		bool used(uint32_t id, size_t from = 0, size_t to = 0) const { for (size_t k = 0; k < cur.insts.size(); ++k) if ((k < from || k >= to) && (cur.insts[k].type == id || refers(cur.insts[k], id))) return true; return false; }
		int pickResult() { std::vector<int> c; for (size_t i = 0; i < cur.insts.size(); ++i) if (cur.insts[i].result) c.push_back(int(i)); return c.empty() ? -1 : s.pick(c); }
		static Mod replaced(Mod m, uint32_t a, uint32_t b) { for (auto& i : m.insts) for (auto& o : i.ops) if (o.isId() && o.w[0] == a) o.w[0] = b; return m; }
		static bool isType(const Inst& i) { return i.op >= 19 && i.op <= 39; }
		void checkUses(const sg::List<Instruction*>& l, const Mod& in, const std::vector<Instruction*>& ptr, uint32_t id, bool type)
		{
			std::set<const Instruction*> got, want, also;
			for (auto* x : l) got.insert(x);
			for (size_t i = 0; i < in.insts.size(); ++i) { if (refers(in.insts[i], id)) want.insert(ptr[i]); if (type && in.insts[i].type == id) also.insert(ptr[i]); }
			for (auto* x : want) CHECK_SIG(got.count(x), "uses missing", "use of %" + std::to_string(id) + " not listed: " + std::to_string(uint32_t(x->getOperation())) + text());
			for (auto* x : got) CHECK_SIG(want.count(x) || also.count(x), "uses wrong", "instruction listed that does not use %" + std::to_string(id) + text());
			ctx.label("uses", want.size());
		}
		void gather()
		{
			int k = pickResult(); if (k < 0) return; last = "gatherUses"; const uint32_t id = cur.insts[k].result; trace += " gather %" + std::to_string(id);
			sg::List<Instruction*> l(m.getAllocator()); m.gatherUses(at[k], l); checkUses(l, cur, at, id, isType(cur.insts[k])); sync(Mod(cur)); ctx.label("gather");
		}
		void replace()
		{
			int k = pickResult(), j = pickResult(); if (k < 0 || k == j || isType(cur.insts[k]) || cur.insts[k].op == 11) return; for (auto& i : cur.insts) if ((i.op == 15 && i.w(1) == cur.insts[k].result) || (i.op == 251 && i.w(0) == cur.insts[k].result)) return; const uint32_t a = cur.insts[k].result, b = cur.insts[j].result;
			trace += " replace %" + std::to_string(a) + " by %" + std::to_string(b);
			for (auto& i : cur.insts) if ((isType(i) || ag::isConstOp(i.op)) && refers(i, a)) stale = true;
			Mod want = replaced(cur, a, b);
			if (s.coin()) { last = "replaceUses"; m.replaceUses(at[k], at[j]); }
			else { last = "gatherUses with replacement"; sg::List<Instruction*> l(m.getAllocator()); m.gatherUses(at[k], l, at[j]); checkUses(l, cur, at, a, false); }
			ctx.label(used(a) ? "replace used" : "replace unused"); sync(want);
		}
		void erase()
		{
			const size_t k = s.below(uint32_t(cur.insts.size())); const Inst& i = cur.insts[k]; const uint32_t op = i.op;
			const bool fixed = op == 54 || op == 56 || op == 248 || op == 14 || op == 15, term = bgen::isTerminator(op);
			if (term || (i.result && !fixed && used(i.result))) return;
			trace += " remove " + spv_ref::dump(i); last = "remove of opcode " + std::to_string(op);
			Mod want = cur; bool ok;
			if (op == 17 && s.coin()) { last = "removeCapability"; ok = m.removeCapability(sg::spv::Capability(i.w(0))); }
			else
			{
				if (isType(i)) { auto t = ag::decodeType(cur, i.result); if (t && plainType(*t)) goneTypes.push_back(t); }
				else if (ag::isConstOp(op) && described(i.result)) { auto c = ag::decodeConst(cur, i.result); if (c && plainType(*c->t)) goneConsts.push_back(c); }
				if (i.result) m.removeFromLookupMaps(at[k]); ok = m.remove(at[k]);
			}
			CHECK_SIG(ok == !fixed, "remove result", last + " returned " + (ok ? "true" : "false") + text());
			if (ok) want.insts.erase(want.insts.begin() + k);
			ctx.label(fixed ? "remove refused" : "remove"); sync(want);
		}
		struct FnRange { size_t from, to; };
		std::vector<FnRange> functions() const { std::vector<FnRange> r; for (size_t i = 0; i < cur.insts.size(); ++i) { if (cur.insts[i].op == 54) r.push_back({ i, i }); if (cur.insts[i].op == 56) r.back().to = i + 1; } return r; }
		// names and decorations of what is about to vanish
		void strip(const std::set<uint32_t>& ids)
		{
			Mod want = cur; std::vector<size_t> gone;
			for (size_t i = 0; i < cur.insts.size(); ++i) if ((cur.insts[i].op == 5 || cur.insts[i].op == 6 || cur.insts[i].op == 71 || cur.insts[i].op == 332) && ids.count(cur.insts[i].w(0))) gone.push_back(i);
			last = "remove of names"; for (size_t q = gone.size(); q-- > 0;) { CHECK_SIG(m.remove(at[gone[q]]), "remove result", "name or decoration not removed" + text()); want.insts.erase(want.insts.begin() + gone[q]); }
			sync(want);
		}
		void eraseFunction()
		{
			auto fs = functions(); if (fs.empty()) return; const FnRange f = s.pick(fs); const uint32_t id = cur.insts[f.from].result; std::set<uint32_t> inner;
			for (size_t i = f.from + 1; i < f.to; ++i) if (cur.insts[i].result) inner.insert(cur.insts[i].result);
			uint32_t repl = 0; if (fs.size() > 1 && s.coin()) { auto g = s.pick(fs); if (g.from != f.from) repl = cur.insts[g.from].result; }
			{ std::set<uint32_t> st = inner; if (s.coin()) st.insert(id); strip(st); }
			fs = functions(); FnRange r{ 0, 0 }; for (auto& x : fs) if (cur.insts[x.from].result == id) r = x;
			bool entry = false; size_t ep = 0; for (size_t i = 0; i < cur.insts.size(); ++i) if (cur.insts[i].op == 15 && cur.insts[i].w(1) == id) { entry = true; ep = i; }
			auto isUse = [&](size_t i) { return (i < r.from || i >= r.to) && !(entry && i == ep) && refers(cur.insts[i], id); };
			bool uses = false; for (size_t i = 0; i < cur.insts.size(); ++i) uses |= isUse(i);
			for (auto x : inner) if (used(x, r.from, r.to)) return;
			const sg::Function *fp = nullptr; sg::Function* rp = nullptr;
			for (auto& x : m.getFunctions()) { if (x.getFunction() == at[r.from]) fp = &x; if (repl && uint32_t(x.getFunction()->getResultId()) == repl) rp = &x; }
			for (auto& x : m.getEntryPoints()) { if (x.getFunction() == at[r.from]) fp = &x; if (repl && uint32_t(x.getFunction()->getResultId()) == repl) rp = &x; }
			CHECK_SIG(fp && (!repl || rp), "functions", "function is in no list" + text());
			last = "remove of a function"; trace += " remove function %" + std::to_string(id) + (repl ? " replaced by %" + std::to_string(repl) : "");
			std::set<const Instruction*> wantUses; for (size_t i = 0; i < cur.insts.size(); ++i) if (isUse(i)) wantUses.insert(at[i]);
			Mod want = cur; want.insts.erase(want.insts.begin() + r.from, want.insts.begin() + r.to); if (entry) want.insts.erase(want.insts.begin() + ep); if (repl) want = replaced(want, id, repl);
			uint32_t heir = 0; sg::Instruction* heirInstr = nullptr; if (uses && !repl) { for (auto& x : fs) if (x.from != r.from) { heir = cur.insts[x.from].result; heirInstr = at[x.from]; } if (!heir) return; want = replaced(want, id, heir); ctx.label("remove used function"); }
			std::map<const Instruction*, uint32_t> refs; for (auto* u : wantUses) for (size_t i = 0; i < cur.insts.size(); ++i) if (at[i] == u) for (auto& o : cur.insts[i].ops) refs[u] += o.isId() && o.w[0] == id;
			const auto* dead = at[r.from]; auto l = m.remove(fp, rp); std::set<const Instruction*> got; for (auto* x : l) got.insert(x); CHECK_SIG(l.size() == got.size(), "function uses", "removing a function lists a use twice" + text());
			// without a replacement, the operands are left empty: somebody else has to be called
			if (heir) for (auto* u : l) { uint32_t n = 0; for (auto it = u->getFirstActualOperand(); it != u->end(); ++it) { CHECK_SIG(!(it->isInstruction() && it->getInstruction() == dead), "dangling", "operand refers to the removed function" + text()); if (it->isInstruction() && it->getInstruction() == nullptr) { *it = heirInstr; ++n; } } CHECK_SIG(n == refs[u], "function uses", "removing a function leaves " + std::to_string(n) + " empty operands instead of " + std::to_string(refs[u]) + text()); }
			CHECK_SIG(got == wantUses, "function uses", "removing a function lists " + std::to_string(got.size()) + " uses instead of " + std::to_string(wantUses.size()) + text());
			ctx.label("remove function"); sync(want);
		}
		void eraseBlock()
		{
			auto fs = functions(); if (fs.empty()) return; const FnRange f = s.pick(fs); std::vector<size_t> ls; for (size_t i = f.from; i < f.to; ++i) if (cur.insts[i].op == 248) ls.push_back(i);
			if (ls.size() < 2) return; size_t b = s.below(uint32_t(ls.size())); const uint32_t id = cur.insts[ls[b]].result; uint32_t repl = 0;
			if (ls.size() > 1 && s.chance(2, 3)) { size_t q = s.below(uint32_t(ls.size())); if (q != b) repl = cur.insts[ls[q]].result; }
			std::set<uint32_t> inner; const size_t e0 = b + 1 < ls.size() ? ls[b + 1] : f.to - 1; for (size_t i = ls[b] + 1; i < e0; ++i) if (cur.insts[i].result) inner.insert(cur.insts[i].result);
			{ std::set<uint32_t> st = inner; if (!repl || s.coin()) st.insert(id); strip(st); }
			size_t from = 0, to; for (size_t i = 0; i < cur.insts.size(); ++i) if (cur.insts[i].op == 248 && cur.insts[i].result == id) from = i;
			for (to = from + 1; cur.insts[to].op != 248 && cur.insts[to].op != 56; ++to);
			for (auto x : inner) if (used(x, from, to)) return;
			if (!repl && used(id, from, to)) return;
			sg::Function* fn = nullptr; const sg::BasicBlock* bp = nullptr; sg::BasicBlock* rp = nullptr;
			auto look = [&](auto& list) { for (auto& x : list) for (auto& y : x) { if (y.getLabel() == at[from]) { fn = &x; bp = &y; } if (repl && uint32_t(y.getLabel()->getResultId()) == repl) rp = &y; } };
			look(m.getFunctions()); look(m.getEntryPoints());
			CHECK_SIG(fn && (!repl || rp), "blocks", "block is in no list" + text());
			last = "remove of a block"; trace += " remove block %" + std::to_string(id) + (repl ? " replaced by %" + std::to_string(repl) : "");
			std::set<const Instruction*> wantUses; for (size_t i = 0; i < cur.insts.size(); ++i) if ((i < from || i >= to) && refers(cur.insts[i], id)) wantUses.insert(at[i]);
			Mod want = cur; want.insts.erase(want.insts.begin() + from, want.insts.begin() + to); if (repl) want = replaced(want, id, repl);
			auto l = fn->remove(bp, rp); std::set<const Instruction*> got; for (auto* x : l) got.insert(x);
			CHECK_SIG(got == wantUses, "block uses", "removing a block lists " + std::to_string(got.size()) + " uses instead of " + std::to_string(wantUses.size()) + text());
			ctx.label("remove block"); sync(want);
		}
		// operands of references, in order: what iteration over the operands gives and what the written module shows
		void assign()
		{
			std::vector<int> c; for (size_t i = 0; i < cur.insts.size(); ++i) { const uint32_t op = cur.insts[i].op; if (!isType(cur.insts[i]) && op != 15 && op != 54 && op != 11 && op != 12 && op != 43 && op != 44 && op != 50 && op != 51 && op != 52) for (auto& o : cur.insts[i].ops) if (o.isId()) { c.push_back(int(i)); break; } }
			if (c.empty()) return; const size_t k = s.pick(c); std::vector<size_t> refs; for (size_t i = 0; i < cur.insts[k].ops.size(); ++i) if (cur.insts[k].ops[i].isId()) refs.push_back(i);
			const size_t n = s.below(uint32_t(refs.size())); if (cur.insts[k].op == 251 && n == 0) return; /* the width of the selector decides the encoding */ std::vector<sg::Operand*> ops; for (auto it = at[k]->getFirstActualOperand(); it != at[k]->end(); ++it) if (it->isInstruction() || it->isBranchTarget()) ops.push_back(&*it);
			CHECK_SIG(ops.size() == refs.size(), "operands", "iteration over the operands gives " + std::to_string(ops.size()) + " references instead of " + std::to_string(refs.size()) + " for " + spv_ref::dump(cur.insts[k]) + text());
			auto target = [](const sg::Operand& o) { return o.isInstruction() ? o.getInstruction() : o.getBranchTarget()->getLabel(); };
			for (size_t i = 0; i < refs.size(); ++i) CHECK_SIG(uint32_t(target(*ops[i])->getResultId()) == cur.insts[k].ops[refs[i]].w[0], "operands", "operand refers to another instruction" + text());
			// a value from some other instruction, through copies
			std::vector<sg::Operand*> from; for (auto* x : at) for (auto it = x->getFirstActualOperand(); it != x->end(); ++it) if (it->isBranchTarget() == ops[n]->isBranchTarget() && (it->isInstruction() || it->isBranchTarget())) from.push_back(&*it);
			const sg::Operand* v = s.pick(from); Mod want = cur; want.insts[k].ops[refs[n]].w[0] = uint32_t(target(*v)->getResultId()); last = "assignment of an operand"; trace += " assign operand of " + spv_ref::dump(cur.insts[k]);
			switch (s.below(4)) { case 0: *ops[n] = *v; break; case 1: { sg::Operand x(*v); *ops[n] = x; break; } case 2: { sg::Operand x(*v), y(std::move(x)); *ops[n] = std::move(y); break; } default: { sg::Operand x(sg::spv::Id(1)); x = *v; sg::Operand y(sg::literal_t(0u)); y = std::move(x); *ops[n] = y; } }
			CHECK_SIG(ops[n]->operator==(*v), "operand equality", "an assigned operand differs from what was assigned");
			ctx.label(v->isBranchTarget() ? "assign block" : "assign instruction"); sync(want);
		}
		// what the module knows about its types and constants, and whether it can do without those that were removed
		std::vector<ag::TP> goneTypes; std::vector<ag::CP> goneConsts;
		bool opaque(uint32_t id) { if (auto* i = cur.find(id)) { if (i->op == 31 || i->op == 39 || i->op >= 4456) return true; for (auto& o : i->ops) if (o.isId() && opaque(o.w[0])) return true; } return false; }
		bool described(uint32_t id) { auto* i = cur.find(id); if (!i || !ag::isConstOp(i->op) || i->op == 52) return false; for (auto& o : i->ops) if (o.isId() && !described(o.w[0])) return false; return true; }
		static bool plainType(const ag::T& t) { if (t.k == ag::K::Unknown) return false; for (auto& x : t.sub) if (!x || !plainType(*x)) return false; return true; }
		void lookups()
		{
			const auto& list = m.getTypesAndConstants(); std::set<const Instruction*> in; for (auto& i : list) in.insert(&i);
			for (size_t i = 0; i < cur.insts.size(); ++i)
			{
				const Inst& x = cur.insts[i]; if (!x.result) continue;
				if (isType(x))
				{
					auto t = ag::decodeType(cur, x.result); if (!t || !plainType(*t)) continue;
					const sg::Type* k = m.getTypeInfo(at[i]); CHECK_SIG(k && ag::fromLib(*k)->key() == t->key(), "type info", "info of type %" + std::to_string(x.result) + (k ? " is " + ag::fromLib(*k)->key() : " is missing") + " instead of " + t->key() + text());
					auto* q = m.getTypeInstr(*k); CHECK_SIG(q && in.count(q), "type instruction", "instruction found for " + t->key() + (q ? " is not part of the module" : " is missing") + text());
					auto u = ag::decodeType(cur, uint32_t(q->getResultId())); CHECK_SIG(u && u->key() == t->key(), "type instruction", "instruction found for " + t->key() + " declares another type" + text()); ctx.label("type info");
				}
				else if (ag::isConstOp(x.op) && described(x.result))
				{
					auto c = ag::decodeConst(cur, x.result); if (!c || !plainType(*c->t)) continue;
					const sg::Constant* k = m.getConstantInfo(at[i]); CHECK_SIG(k && ag::fromLibConst(*k)->key() == c->key(), "constant info", "info of constant %" + std::to_string(x.result) + (k ? " is " + ag::fromLibConst(*k)->key() : " is missing") + " instead of " + c->key() + text()); ctx.label("constant info");
				}
			}
		}
		void again(Src& q)
		{
			if (goneTypes.empty() && goneConsts.empty()) return; auto& list = m.getTypesAndConstants();
			std::vector<std::pair<Instruction*, std::string>> r;
			for (auto& t : goneTypes) { auto* x = ag::requestType(m, *t, q); r.push_back({ x, t->key() }); ctx.label("type again"); }
			for (auto& c : goneConsts) { auto* x = ag::requestConst(m, *c, q); r.push_back({ x, c->key() }); ctx.label("constant again"); }
			last = "request of a removed type or constant"; for (auto& [x, key] : r) { bool in = false; for (auto& i : list) in |= &i == x; CHECK_SIG(in, "request after removal", "an instruction which is no longer part of the module is given out for " + key + text()); }
			Mod before = cur; MemWriter w; CHECK_SIG(m.finalizeAndWrite(w), "write", log.text + text()); Mod n = decoded(w.w);
			for (auto& [x, key] : r) { const uint32_t id = uint32_t(x->getResultId()); auto* d = n.find(id); CHECK_SIG(d, "request after removal", "declaration missing: " + key + text()); std::string got; if (isType(*d)) { auto t = ag::decodeType(n, id); got = t ? t->key() : ""; } else { auto c = ag::decodeConst(n, id); got = c ? c->key() : ""; } CHECK_SIG(got == key, "request after removal", got + " declared for " + key + text() + spv_ref::dump(n)); }
			for (auto& i : n.insts) for (auto& o : i.ops) CHECK_SIG(!o.isId() || n.find(o.w[0]), "dangling id", "id without definition after requests" + text() + spv_ref::dump(n));
		}
		void step() { ++edits; switch (s.weighted({ 4, 4, 6, 2, 2, 3, 2 })) { case 0: gather(); break; case 1: replace(); break; case 2: erase(); break; case 3: eraseFunction(); break; case 4: eraseBlock(); break; case 5: assign(); break; default: if (!stale) lookups(); } }
		bool stale = false; // operands of types or constants were exchanged
	};
	// aggregate types and constants may be declared more than once
	Mod duplicated(Src& s, Mod m, Ctx& ctx)
	{
		const uint32_t n = s.range(1, 4);
		for (uint32_t k = 0; k < n; ++k)
		{
			std::vector<size_t> c; for (size_t i = 0; i < m.insts.size(); ++i) { const uint32_t op = m.insts[i].op; if (op == 30 || op == 28 || op == 29 || op == 32 || op == 43 || op == 44 || op == 41 || op == 42 || op == 46 || op == 48 || op == 50) c.push_back(i); }
			if (c.empty()) return m; const size_t i = s.pick(c); Inst d = m.insts[i]; const uint32_t old = d.result; d.result = m.bound++;
			size_t at = i + 1; while (at < m.insts.size() && m.insts[at].op != 54 && s.coin()) ++at; if (at > i + 1 && m.insts[at - 1].op == 54) at = i + 1;
			if (!(d.op >= 19 && d.op <= 39)) for (size_t q = at; q < m.insts.size(); ++q) for (auto& o : m.insts[q].ops) if (m.insts[q].op > 59 && o.isId() && o.w[0] == old && s.coin()) o.w[0] = d.result;
			m.insts.insert(m.insts.begin() + at, d); ctx.label(d.op < 40 ? "duplicate type" : "duplicate constant");
		}
		m.def.clear(); for (size_t i = 0; i < m.insts.size(); ++i) if (m.insts[i].result) m.def[m.insts[i].result] = i;
		return m;
	}
	void build(Gen& g) { g.run(); }

	void p19(Src& s, Ctx& ctx)
	{
		Opts o = opts(s); const uint32_t mode = s.below(4);
		if (mode < 2) // edits of a built or of a parsed module
		{
			Prog p(s, o); p.g.run(); Built b; write(p, b, false); ctx.mix(b.w.data(), b.w.size() * 4);
			sg::HeapAllocator alloc; Log log; sg::Module r(&alloc, &log); sg::Module* m = &p.m;
			if (mode == 1 && s.chance(1, 3)) { bgen::Opts bo; bo.mayBeLarge = false; b.w = bgen::generate(s, bo).words; b.m = decoded(b.w); ctx.label("module over the whole grammar"); }
			else if (mode == 1 && s.coin()) b.w = words(duplicated(s, b.m, ctx));
			if (mode == 1) { MemReader rd(b.w); CHECK_SIG(r.readAndInit(rd, lu::grammar()), "read", log.text); m = &r; }
			Editor e(s, ctx, *m, mode == 1 ? log : p.log); const uint32_t k = s.range(1, 12); for (uint32_t i = 0; i < k; ++i) e.step(); if (!e.stale) { e.lookups(); e.again(s); }
			ctx.mix(e.trace); ctx.nontrivial = e.cur.insts.size() > 20 && e.trace.size() > 10; if (ctx.wantSample || ctx.verbose) ctx.note(e.trace + "\n" + spv_ref::dump(e.cur));
			return;
		}
		// a module which is moved (or emptied) and built on, next to one that is not
		Tape t1(s, s.coin() ? 60 : 300), t2(s, s.coin() ? 60 : 300); const uint32_t how = mode == 3 ? 4 + s.below(2) : s.below(4); const bool gr = s.coin(); const sg::Grammar* g = gr ? &lu::grammar() : nullptr;
		static const char* hows[] = { "move construction", "move assignment", "move assignment over content", "move assignment to a module with another allocator", "reset", "move and back" }; ctx.label(hows[how]);
		const bool fin = s.coin(); // finalized before
		auto more = [&](sg::Module& m, Log& log) { Src q = t2.src(); Gen x(q, m, log, o); x.run(); MemWriter w; CHECK_SIG(m.finalizeAndWrite(w, g), "write", log.text); return w.w; };
		lu::Words want, mid;
		{ // reference
			sg::HeapAllocator a; Log log; sg::Module m(&a, &log);
			if (how != 4) { Src q = t1.src(); Gen x(q, m, log, o); x.run(); if (fin) m.finalize(g); MemWriter w; if (fin) { m.write(w); mid = w.w; } }
			else { m.reset(); }
			want = more(m, log);
		}
		sg::HeapAllocator a; TrackAlloc b; Log log; lu::Words got;
		{
			auto m1 = std::make_unique<sg::Module>(&a, &log); { Src q = t1.src(); Gen x(q, *m1, log, o); x.run(); if (fin) m1->finalize(g); }
			const uint32_t generator = s.coin() ? s.word() : sg::Module::GeneratorId, schema = s.below(3), version = m1->getSpvVersion(); m1->setSpvGenerator(generator); m1->setSpvSchema(schema);
			std::unique_ptr<sg::Module> m2;
			switch (how)
			{
			case 0: m2 = std::make_unique<sg::Module>(std::move(*m1)); m1.reset(); break;
			case 1: m2 = std::make_unique<sg::Module>(&a, &log); *m2 = std::move(*m1); if (s.coin()) m1.reset(); break;
			case 2: m2 = std::make_unique<sg::Module>(&a, &log); { Src q = t2.src(); Gen x(q, *m2, log, o); x.run(); if (s.coin()) m2->finalize(); } *m2 = std::move(*m1); m1.reset(); break;
			case 3: m2 = std::make_unique<sg::Module>(&b, &log); if (s.coin()) { Src q = t2.src(); Gen x(q, *m2, log, o); x.run(); } *m2 = std::move(*m1); m1.reset(); break;
			case 4: m1->reset(); m2 = std::move(m1); { MemWriter w; CHECK_SIG(m2->finalizeAndWrite(w), "write", "empty module"); Mod e = decoded(w.w); CHECK_SIG(e.insts.size() == 1 && e.insts[0].op == 14 && e.bound == 1, "reset", "module is not empty after reset: " + spv_ref::dump(e)); } break;
			default: { sg::Module tmp(std::move(*m1)); *m1 = std::move(tmp); m2 = std::move(m1); }
			}
			if (how != 4) CHECK_SIG(m2->getSpvGenerator() == generator && m2->getSpvSchema() == schema && m2->getSpvVersion() == version && m2->getLogger() == &log, "moved header", std::string(hows[how]) + " changed what the header is made of");
			else CHECK_SIG(m2->getSpvGenerator() == sg::Module::GeneratorId && m2->getSpvSchema() == 0, "reset", "header after reset");
			m2->setSpvSchema(0);
			if (fin && how != 4) { auto w = rewrite(*m2, log); CHECK_SIG(w == mid, "moved", std::string(hows[how]) + " changed the module: " + where(mid, w)); }
			got = more(*m2, log);
		}
		CHECK_SIG(got == want, std::string("built on after ") + hows[how], std::string("after ") + hows[how] + " the module differs: " + where(want, got));
		b.checkAllReturned("after move assignment"); ctx.mix(got.data(), got.size() * 4); ctx.nontrivial = got.size() > 100;
		if (ctx.wantSample || ctx.verbose) ctx.note(std::string(hows[how]) + "\n" + spv_ref::dump(decoded(got)));
	}
	pbt::Reg r18("P18", "a program with at least five instructions requested from the building interface", p18);
	pbt::Reg r19("P19", "an edited module of more than 20 instructions, or a moved or emptied one built on to more than 100 words", p19);
}
