// P27 callables; fixed-capacity allocators (part of P23); graphs and expression graphs (part of P24)
#include "track.h"
#include "misc.h"
#include "common/Callable.h"
#include "common/HeapCallable.h"
#include "common/ExternalMemoryAllocator.h"
#include "common/HeapAllocator.h"
#include "common/HeapVector.h"
#include "common/HeapList.h"
#include "common/HeapString.h"
#include "common/Graph.h"
#include "common/ExprGraph.h"
#include "spvgentwo/Vector.h"
#include "spvgentwo/List.h"
#include <memory>
#include <algorithm>
using namespace spvgentwo;
using pbt::Src; using pbt::Ctx;
static std::string S(uint64_t v) { return std::to_string(v); }

// ------------------------------------------------------------------ P27
namespace {
using Sig = uint32_t(uint32_t, uint32_t&, const Elem&);
// every target is pure in (state, arguments) and writes through the reference, so that a model can predict the call
uint32_t fA(uint32_t a, uint32_t& r, const Elem& e) { r += a; return a * 3 + e.v; }
uint32_t fB(uint32_t a, uint32_t& r, const Elem& e) { r ^= e.v; return a + 7 * e.v; }
struct Obj
{
	uint32_t k = 0;
	uint32_t m1(uint32_t a, uint32_t& r, const Elem& e) { r += k; ++k; return a + k + e.v; }
	uint32_t m2(uint32_t a, uint32_t& r, const Elem& e) { r = k; k += a; return k ^ e.v; }
};
template <int PAD> struct Functor // holds a tracked element; stateful; of different sizes
{
	Elem st; uint32_t pad[PAD + 1]{};
	Functor(uint32_t s) : st(s) { for (auto& p : pad) p = s; }
	uint32_t operator()(uint32_t a, uint32_t& r, const Elem& e) { st.v += a + 1; *st.owned = st.v; r += pad[PAD]; return st.v + e.v + PAD; }
};
struct CModel { int kind = -1; uint32_t state = 0; uint32_t init = 0; int obj = 0; bool hasAlloc = true; };

void callableCase(Src& s, Ctx& c)
{
	Elem::reset();
	TrackAlloc a1, a2;
	unsigned calls = 0, copies = 0, moves = 0;
	{
		Obj objs[2]; uint32_t mk[2] = { 0,0 };
		using C = Callable<Sig>;
		std::vector<std::unique_ptr<C>> v; std::vector<CModel> m;
		auto elems = [&] { size_t n = 0; for (auto& x : m) if (x.kind >= 4) ++n; return n; };
		auto make = [&](TrackAlloc& al, CModel& mm) -> C* {
			mm = CModel{}; mm.kind = int(s.below(8)) - 1; mm.init = mm.state = s.below(100); mm.obj = s.below(2);
			switch (mm.kind)
			{
			case -1: return new C(&al);
			case 0: return new C(&al, &fA);
			case 1: return new C(make_callable(static_cast<IAllocator*>(&al), &fB));
			case 2: return new C(&al, &objs[mm.obj], &Obj::m1);
			case 3: return new C(make_callable(static_cast<IAllocator*>(&al), &objs[mm.obj], &Obj::m2));
			case 4: { Functor<0> f(mm.state); return new C(&al, static_cast<const Functor<0>&>(f)); }
			case 5: return new C(&al, Functor<3>(mm.state));
			default: { Functor<13> f(mm.state); return new C(&al, static_cast<const Functor<13>&>(f)); }
			}
		};
		auto call = [&](C& x, CModel& mm) {
			uint32_t a = s.below(1000), r0 = s.below(1000), ev = s.below(1000), r = r0, er = r0, want = 0;
			switch (mm.kind)
			{
			case 0: er = r0 + a; want = a * 3 + ev; break;
			case 1: er = r0 ^ ev; want = a + 7 * ev; break;
			case 2: er = r0 + mk[mm.obj]; ++mk[mm.obj]; want = a + mk[mm.obj] + ev; break;
			case 3: er = mk[mm.obj]; mk[mm.obj] += a; want = mk[mm.obj] ^ ev; break;
			default: mm.state += a + 1; er = r0 + mm.init; want = mm.state + ev + (mm.kind == 4 ? 0 : mm.kind == 5 ? 3 : 13);
			}
			uint32_t got; { Elem e(ev); got = x(a, r, e); }
			++calls;
			CHECK_SIG(got == want, "callable result", "kind " + S(mm.kind) + " returned " + S(got) + " expected " + S(want));
			CHECK_SIG(r == er, "callable reference argument", "kind " + S(mm.kind) + " left " + S(r) + " expected " + S(er));
		};
		unsigned n = 2 + s.below(30);
		for (unsigned i = 0; i < n; ++i)
		{
			unsigned op = v.empty() ? 0 : s.below(12); c.mix(op);
			auto pick = [&] { return s.below(uint32_t(v.size())); };
			const char* names[] = { "make","make","call","call","copy","move","assign","move-assign","assign-functor","reset","destroy","call" };
			c.note(std::string(names[op]) + " ");
			switch (op)
			{
			case 0: case 1: { if (v.size() > 6) break; CModel mm; auto p = make(s.coin() ? a1 : a2, mm); v.emplace_back(p); m.push_back(mm); c.mix(mm.kind); break; }
			case 4: { if (v.size() > 6) break; unsigned j = pick(); v.emplace_back(new C(*v[j])); m.push_back(m[j]); ++copies; break; }
			case 5: { if (v.size() > 6) break; unsigned j = pick(); v.emplace_back(new C(std::move(*v[j]))); m.push_back(m[j]); m[j] = CModel{}; m[j].hasAlloc = false; ++moves; break; }
			case 6: { unsigned j = pick(), k = pick(); const C& o = *v[k]; C& r = (*v[j] = o); CHECK(&r == v[j].get()); m[j] = CModel(m[k]); ++copies; break; }
			case 7: { unsigned j = pick(), k = pick(); (*v[j] = std::move(*v[k])); if (j != k) { m[j] = m[k]; m[k] = CModel{}; m[k].hasAlloc = false; } ++moves; break; }
			case 8: { unsigned j = pick(); if (!m[j].hasAlloc) break; CModel mm; mm.init = mm.state = s.below(100);
				if (s.coin()) { mm.kind = 4; Functor<0> f(mm.state); *v[j] = static_cast<const Functor<0>&>(f); }
				else { mm.kind = 5; *v[j] = Functor<3>(mm.state); }
				m[j] = mm; break; }
			case 9: { unsigned j = pick(); v[j]->reset(); m[j].kind = -1; break; }
			case 10: { unsigned j = pick(); v.erase(v.begin() + j); m.erase(m.begin() + j); break; }
			default: { unsigned j = pick(); if (m[j].kind >= 0) call(*v[j], m[j]); break; }
			}
			for (size_t j = 0; j < v.size(); ++j) CHECK_SIG(bool(*v[j]) == (m[j].kind >= 0), "callable emptiness", "callable " + S(j) + " of kind " + S(m[j].kind));
			a1.check("history"); a2.check("history"); Elem::checkLive(elems(), "history");
			size_t held = 0; for (auto& x : m) if (x.kind >= 0) ++held;
			CHECK_SIG(a1.live.size() + a2.live.size() == held, "callable storage", S(a1.live.size() + a2.live.size()) + " blocks for " + S(held) + " held targets");
		}
		for (size_t j = 0; j < v.size(); ++j) if (m[j].kind >= 0) call(*v[j], m[j]);
	}
	a1.checkAllReturned("end"); a2.checkAllReturned("end"); Elem::checkLive(0, "end");
	// variants for other signatures
	{
		uint32_t a = s.below(50); uint32_t acc = 0;
		const auto lam = [&acc](uint32_t x) { acc += x; };
		Callable<void(uint32_t)> cv(&a1, lam); auto cw = cv; Callable<void(uint32_t)> cx(std::move(cv)); cw(a); cx(a + 1);
		CHECK_SIG(acc == 2 * a + 1, "void callable", "accumulated " + S(acc)); CHECK_SIG(!cv && cw && cx, "void callable emptiness", "");
		HeapCallable<uint32_t(uint32_t)> hc([a](uint32_t x) { return x * a; }); HeapCallable<uint32_t(uint32_t)> hd(static_cast<const HeapCallable<uint32_t(uint32_t)>&>(hc)); HeapCallable<uint32_t(uint32_t)> he; 
		CHECK_SIG(!he, "empty heap callable", ""); he = static_cast<const HeapCallable<uint32_t(uint32_t)>&>(hd); CHECK_SIG(hc(5) == 5 * a && hd(6) == 6 * a && he(7) == 7 * a, "heap callable", "");
		hd = std::move(he); CHECK_SIG(!he && hd(3) == 3 * a, "heap callable move", "");
		Elem arg(a); Callable<uint32_t(Elem)> byval(&a1, [](Elem e) { return e.v + 1; }); CHECK_SIG(byval(arg) == a + 1 && arg.v == a, "by value argument", "");
		Callable<Elem& (Elem&)> ref(&a2, [](Elem& e) -> Elem& { e.v += 5; return e; }); CHECK_SIG(&ref(arg) == &arg && arg.v == a + 5, "reference result", "");
	}
	a1.checkAllReturned("end"); a2.checkAllReturned("end"); Elem::checkLive(0, "end");
	c.label("calls", calls); c.label("copies", copies); c.label("moves", moves);
	c.nontrivial = calls > 0 && copies + moves > 0;
}
pbt::Reg r27("P27", "a history that calls at least one target and copies or moves at least one callable", callableCase);
}

// ------------------------------------------------------------------ fixed-capacity allocators
void fixedAllocatorCase(Src& s, Ctx& c)
{
	// buffer with guard zones inside one big block
	const unsigned cap = s.coin() ? s.below(64) : s.below(600), shift = s.below(17), GUARD = 128;
	alignas(8192) static unsigned char arena[2048]; // fixed position, so that a case does not depend on the heap
	alignas(8192) static unsigned char place[8192];
	struct { unsigned char* data() { return arena; } size_t size() { return sizeof(arena); } } mem; memset(arena, 0xA5, sizeof(arena));
	unsigned char* buf = arena + GUARD / 2 + shift;
	const bool stack = s.chance(1, 3);
	struct Del { void operator()(StackAllocator<96>* p) { p->~StackAllocator<96>(); } }; std::unique_ptr<StackAllocator<96>, Del> st; std::unique_ptr<ExternalMemoryAllocator> ex;
	IAllocator* al; unsigned char *lo, *hi;
	if (stack) { st.reset(::new (place + 16 * shift) StackAllocator<96>()); al = st.get(); lo = nullptr; hi = nullptr; }
	else { ex.reset(new ExternalMemoryAllocator(buf, cap)); al = ex.get(); lo = buf; hi = buf + cap; }
	struct Blk { unsigned char* p; uint64_t n; unsigned char fill; };
	std::vector<Blk> live; // in allocation order
	unsigned n = 1 + s.below(24), failed = 0, ok = 0, dealloc = 0; unsigned char fill = 1;
	unsigned char* cur = lo; // model: everything from here to hi is free
	if (stack) { // the first one-byte block shows where the storage begins
		cur = static_cast<unsigned char*>(al->allocate(1, 1)); CHECK_SIG(cur != nullptr, "stack allocator", "cannot hold one byte of 96"); al->deallocate(cur, 1); lo = cur; hi = lo + 96;
		CHECK_SIG(reinterpret_cast<unsigned char*>(st.get()) <= lo && hi <= reinterpret_cast<unsigned char*>(st.get() + 1), "stack allocator", "block outside of the allocator"); }
	for (unsigned i = 0; i < n; ++i)
	{
		switch (live.empty() ? 0 : s.weighted({ 6,2,1 }))
		{
		case 0: {
			uint64_t sz = s.weighted({ 8,2,1 }) == 0 ? s.below(40) : s.coin() ? s.below(400) : (s.coin() ? ~0ull - s.below(64) : (1ull << 63) - s.below(3));
			unsigned al2 = 1u << s.below(s.chance(1, 6) ? 13 : 6);
			unsigned char* want = cur; { uintptr_t u = reinterpret_cast<uintptr_t>(cur); u = (u + al2 - 1) / al2 * al2; want = reinterpret_cast<unsigned char*>(u); }
			bool fits = want <= hi && sz <= uint64_t(hi - want);
			auto* p = static_cast<unsigned char*>(al->allocate(sz, al2)); c.mix(sz); c.mix(al2);
			c.note("alloc(" + S(sz) + "," + S(al2) + ")" + (p ? " " : "=null "));
			if (p == nullptr) { CHECK_SIG(!fits, "premature exhaustion", "request of " + S(sz) + " aligned " + S(al2) + " failed with " + S(hi - cur) + " bytes left"); ++failed; break; }
			++ok;
			CHECK_SIG(reinterpret_cast<uintptr_t>(p) % al2 == 0, "alignment", "block not aligned to " + S(al2));
			CHECK_SIG(p >= lo && p <= hi && sz <= uint64_t(hi - p), "block outside of the buffer", "size " + S(sz));
			for (auto& b : live) CHECK_SIG(sz == 0 || b.n == 0 || p + sz <= b.p || b.p + b.n <= p, "overlapping blocks", "size " + S(sz));
			memset(p, fill, sz); live.push_back({ p, sz, fill++ }); cur = p + sz; break; }
		case 1: { // last allocation: its memory becomes available again
			Blk b = live.back(); live.pop_back(); bool last = b.p + b.n == cur; al->deallocate(b.p, b.n); if (last) cur = b.p; ++dealloc; c.mix(77); c.note("free-last "); break; }
		default: { // any other block: must not disturb the others (unless it ends where the last one ended)
			unsigned j = s.below(uint32_t(live.size())); Blk b = live[j]; bool last = b.p + b.n == cur; live.erase(live.begin() + j);
			al->deallocate(b.p, b.n); if (last) cur = b.p; c.note("free " + S(j) + " "); ++dealloc; break; }
		}
		for (auto& b : live) for (uint64_t k = 0; k < b.n; ++k) CHECK_SIG(b.p[k] == b.fill, "block overwritten", "a live block changed");
	}
	if (!stack) { for (unsigned char* p = mem.data(); p < mem.data() + mem.size(); ++p) if (p < lo || p >= hi) CHECK_SIG(*p == 0xA5, "write outside of the buffer", ""); }
	// containers on top of a fixed buffer
	if (s.chance(1, 3))
	{
		Elem::reset();
		{
			unsigned k = s.below(12);
			StackContainer<Vector<uint32_t>, 2048> sv; std::vector<uint32_t> mv; for (unsigned i = 0; i < k; ++i) { uint32_t x = s.below(100); sv.emplace_back(x); mv.push_back(x); }
			CHECK_SIG(sv.size() == mv.size() && std::equal(mv.begin(), mv.end(), sv.begin()), "vector on the stack", S(k) + " elements");
			auto sl = make_stack_container<List<Elem>, 2048>(); for (unsigned i = 0; i < k; ++i) sl.emplace_back(mv[i]); unsigned i = 0; for (auto& e : sl) { CHECK_SIG(e.v == mv[i], "list on the stack", ""); ++i; } CHECK(i == k);
			HeapVector<uint32_t> hv; for (auto x : mv) hv.emplace_back(x); CHECK_SIG(hv.size() == mv.size() && std::equal(mv.begin(), mv.end(), hv.begin()), "heap vector", "");
			HeapList<uint32_t> hl; for (auto x : mv) hl.emplace_back(x); i = 0; for (auto x : hl) CHECK(x == mv[i++]); CHECK(i == k);
			HeapString hs("abc"); hs.append("de"); CHECK_SIG(hs == "abcde", "heap string", hs.c_str());
		}
		Elem::checkLive(0, "stack containers"); c.label("containers on fixed storage");
	}
	{ // scoped allocation returns exactly what it took
		TrackAlloc t; { auto sc = t.allocateScoped(s.below(50), 8); CHECK(bool(sc) && t.live.size() == 1); auto sd = std::move(sc); CHECK(bool(sd) && !sc); } t.checkAllReturned("scoped allocation");
		t.failAfter = 0; { auto sc = t.allocateScoped(8, 8); CHECK(!sc); } t.checkAllReturned("scoped allocation");
	}
	c.label("allocations", ok); c.label("exhaustions", failed);
	c.nontrivial = ok > 0 && (failed > 0 || dealloc > 0);
	c.label("fixed allocator histories");
}

// ------------------------------------------------------------------ graphs
namespace {
struct GEdge { uint32_t from, to, data; };
using G = Graph<uint32_t, uint32_t>;

void checkGraph(const G& g, const std::vector<uint32_t>& nodes, const std::map<uint32_t, std::vector<GEdge>>& outs, const std::map<uint32_t, std::vector<GEdge>>& ins)
{
	CHECK_SIG(g.size() == nodes.size() && g.empty() == nodes.empty(), "graph size", S(g.size()) + " nodes, expected " + S(nodes.size()));
	size_t i = 0;
	for (auto& n : g)
	{
		CHECK_SIG(i < nodes.size() && n.data() == nodes[i], "graph node order", "node " + S(i));
		auto cmp = [&](const List<G::NodeType::EdgeType>& l, const std::vector<GEdge>& m, bool out) {
			size_t k = 0;
			for (auto& e : l) { CHECK_SIG(k < m.size(), "graph edges", std::string("too many ") + (out ? "outputs" : "inputs"));
				CHECK_SIG(e.pTarget->data() == (out ? m[k].to : m[k].from) && e.data == m[k].data, "graph edges", std::string(out ? "output " : "input ") + S(k) + " of node " + S(n.data())); ++k; }
			CHECK_SIG(k == m.size() && l.size() == m.size(), "graph edges", std::string(out ? "outputs" : "inputs") + " of node " + S(n.data()) + ": " + S(k) + " expected " + S(m.size()));
		};
		cmp(n.outputs(), outs.at(n.data()), true); cmp(n.inputs(), ins.at(n.data()), false); ++i;
	}
	if (!nodes.empty()) { CHECK_SIG(g.front().data() == nodes.front() && g.back().data() == nodes.back(), "graph ends", ""); }
}

void exprCase(Src& s, Ctx& c)
{
	struct Rec { uint32_t id; std::vector<uint32_t>* log; uint32_t value = 0; uint32_t runs = 0; size_t nIn = 0, nOut = 0;
		void operator()(const List<Rec*>& in, const List<Rec*>& out) { ++runs; nIn = in.size(); nOut = out.size(); value = id + 1; for (auto* r : in) value = value * 31 + r->value; log->push_back(id); }
		void operator()(List<Edge<Node<Expression<Rec>, EmptyEdge>, EmptyEdge>>& in, List<Edge<Node<Expression<Rec>, EmptyEdge>, EmptyEdge>>& out) { ++runs; nIn = in.size(); nOut = out.size(); value = id + 1; for (auto& e : in) value = value * 31 + e.pTarget->data()->value; log->push_back(id); } };
	TrackAlloc al;
	{
		using EG = ExprGraph<Rec>; EG g(&al); std::vector<uint32_t> log;
		unsigned n = 1 + s.below(10); std::vector<EG::NodeType*> nd;
		for (unsigned i = 0; i < n; ++i) nd.push_back(g.emplace(Rec{ i, &log }));
		std::vector<std::vector<uint32_t>> in(n); std::vector<uint32_t> outc(n, 0);
		unsigned e = s.below(2 * n + 1);
		// acyclic: an edge goes from a node to one later in a random order
		std::vector<uint32_t> ord(n); for (unsigned i = 0; i < n; ++i) ord[i] = i; for (unsigned i = n; i > 1; --i) std::swap(ord[i - 1], ord[s.below(i)]);
		for (unsigned i = 0; i < e && n > 1; ++i) { uint32_t a = s.below(n - 1), b = a + 1 + s.below(n - 1 - a); nd[ord[a]]->connect(nd[ord[b]]); in[ord[b]].push_back(ord[a]); ++outc[ord[a]]; c.mix(ord[a] * 64 + ord[b]); }
		bool ptr = s.coin(); bool expl = s.chance(1, 3);
		for (int round = 0; round < 2; ++round)
		{
			log.clear(); std::vector<uint32_t> want, val(n, 0); std::vector<bool> done(n, false);
			if (!expl)
			{
				uint32_t exit = s.below(n);
				std::function<void(uint32_t)> ev = [&](uint32_t x) { for (auto y : in[x]) if (!done[y]) ev(y); if (!done[x]) { done[x] = true; want.push_back(x); val[x] = x + 1; for (auto y : in[x]) val[x] = val[x] * 31 + val[y]; } };
				ev(exit);
				if (ptr) EG::evaluateRecursive<ExprArgs::FunctionPtrLists>(nd[exit]); else EG::evaluateRecursive<ExprArgs::EdgeLists>(nd[exit]);
				// asking again runs nothing
				if (ptr) EG::evaluateRecursive<ExprArgs::FunctionPtrLists>(nd[exit]); else EG::evaluateRecursive<ExprArgs::EdgeLists>(nd[exit]);
				std::vector<uint32_t> a = log, b = want; std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end());
				CHECK_SIG(a == b, "expression evaluation set", "evaluated " + S(a.size()) + " nodes, expected " + S(b.size()));
				std::vector<int> pos(n, -1); for (size_t i = 0; i < log.size(); ++i) pos[log[i]] = int(i);
				for (auto x : log) for (auto y : in[x]) CHECK_SIG(pos[y] >= 0 && pos[y] < pos[x], "expression evaluation order", "node " + S(x) + " ran before its input " + S(y));
			}
			else
			{
				List<EG::NodeType*> order(&al); std::vector<uint32_t> seq; bool dup = false;
				unsigned k = s.below(n + 1); for (unsigned i = 0; i < k; ++i) { seq.push_back(ord[i]); order.emplace_back(nd[ord[i]]); }
				if (k > 0 && s.chance(1, 4)) { uint32_t d = seq[s.below(k)]; seq.push_back(d); order.emplace_back(nd[d]); dup = true; }
				bool ok = ptr ? EG::evaluateExplicit<ExprArgs::FunctionPtrLists>(order) : EG::evaluateExplicit<ExprArgs::EdgeLists>(order);
				CHECK_SIG(ok == !dup, "explicit evaluation result", dup ? "a repeated node was accepted" : "a unique order was refused");
				for (unsigned i = 0; i < k; ++i) { uint32_t x = seq[i]; done[x] = true; val[x] = x + 1; for (auto y : in[x]) val[x] = val[x] * 31 + (done[y] ? val[y] : nd[y]->data()->value); }
				std::vector<uint32_t> w(seq.begin(), seq.begin() + k); CHECK_SIG(log == w, "explicit evaluation order", "");
			}
			for (unsigned i = 0; i < n; ++i)
			{
				CHECK_SIG(nd[i]->data().evaluated() == bool(done[i]), "evaluated flag", "node " + S(i));
				if (done[i]) { CHECK_SIG(nd[i]->data()->nIn == in[i].size() && nd[i]->data()->nOut == outc[i], "expression arguments", "node " + S(i)); if (!expl) CHECK_SIG(nd[i]->data()->value == val[i], "expression value", "node " + S(i)); }
			}
			g.resetEvaluationState();
			for (unsigned i = 0; i < n; ++i) CHECK_SIG(!nd[i]->data().evaluated(), "evaluation reset", "node " + S(i));
		}
		c.nontrivial = e > 0; c.label("expression graphs");
	}
	al.checkAllReturned("expression graph");
}
}

void graphCase(Src& s, Ctx& c)
{
	if (s.chance(1, 4)) { exprCase(s, c); return; }
	TrackAlloc al;
	unsigned edges = 0, erases = 0;
	{
		std::unique_ptr<G> g(new G(&al)); std::vector<uint32_t> nodes; std::map<uint32_t, std::vector<GEdge>> outs, ins; uint32_t nextId = 1, nextData = 1;
		auto node = [&](uint32_t i) { auto it = g->begin(); for (uint32_t k = 0; k < i; ++k) ++it; return it; };
		unsigned n = 1 + s.below(40);
		auto rmEdge = [&](std::vector<GEdge>& v, uint32_t from, uint32_t to) { for (size_t i = 0; i < v.size(); ++i) if (v[i].from == from && v[i].to == to) { v.erase(v.begin() + i); return; } };
		for (unsigned i = 0; i < n; ++i)
		{
			unsigned op = nodes.empty() ? 0 : s.weighted({ 4,8,3,2,1,1 }); c.mix(op);
			switch (op)
			{
			case 0: { uint32_t id = nextId++; auto* p = g->emplace(id); CHECK(p->data() == id); nodes.push_back(id); outs[id]; ins[id]; c.note("node "); break; }
			case 1: { uint32_t a = s.below(uint32_t(nodes.size())), b = s.below(uint32_t(nodes.size())); uint32_t d = nextData++; node(a)->connect(node(b).operator->(), d); c.mix(a * 64 + b);
				GEdge e{ nodes[a], nodes[b], d }; outs[nodes[a]].push_back(e); ins[nodes[b]].push_back(e); ++edges; c.note("connect " + S(a) + "-" + S(b) + " "); break; }
			case 2: { uint32_t a = s.below(uint32_t(nodes.size())), b = s.below(uint32_t(nodes.size())); node(a)->disconnect(node(b).operator->()); rmEdge(outs[nodes[a]], nodes[a], nodes[b]); rmEdge(ins[nodes[b]], nodes[a], nodes[b]); c.note("disconnect " + S(a) + "-" + S(b) + " "); break; }
			case 3: { uint32_t a = s.below(uint32_t(nodes.size())); uint32_t id = nodes[a]; auto it = g->erase(node(a));
				nodes.erase(nodes.begin() + a); outs.erase(id); ins.erase(id);
				auto flt = [&](std::vector<GEdge>& v) { v.erase(std::remove_if(v.begin(), v.end(), [&](const GEdge& e) { return e.from == id || e.to == id; }), v.end()); };
				for (auto& p : outs) flt(p.second); for (auto& p : ins) flt(p.second);
				CHECK_SIG(a < nodes.size() ? it != g->end() && it->data() == nodes[a] : it == g->end(), "erase result", "node " + S(a)); ++erases; c.note("erase " + S(a) + " "); break; }
			case 4: { std::unique_ptr<G> h(new G(std::move(*g))); CHECK_SIG(g->empty(), "moved-from graph", ""); g = std::move(h); c.note("move "); break; }
			case 5: if (s.chance(1, 4)) { g->clear(); nodes.clear(); outs.clear(); ins.clear(); c.note("clear "); } else { G h(&al); h = std::move(*g); *g = std::move(h); c.note("move-assign "); } break;
			}
			checkGraph(*g, nodes, outs, ins);
			al.check("graph");
		}
	}
	al.checkAllReturned("graph");
	c.label("graph histories"); c.label("edges", edges); c.label("erases", erases);
	c.nontrivial = edges > 0 && (erases > 0 || edges > 3);
}
