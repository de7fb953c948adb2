// P20 list, P21 vector and string, P22 hash map: model-based histories against std containers
#include "track.h"
#include "spvgentwo/List.h"
#include "spvgentwo/Vector.h"
#include "spvgentwo/String.h"
#include "spvgentwo/HashMap.h"
#include <list>
#include <memory>
#include <algorithm>
using namespace spvgentwo;
using pbt::Src; using pbt::Ctx;

static std::string S(uint64_t v) { return std::to_string(v); }

// ------------------------------------------------------------------ P20
namespace {
struct ListSide
{
	List<Elem> l;
	std::vector<uint32_t> m;
	bool moved = false; // moved-from: only assignment or destruction is meaningful
	template <class... X> ListSide(X&&... x) : l(std::forward<X>(x)...) {}
};

void checkList(const List<Elem>& l, const std::vector<uint32_t>& m, const char* when)
{
	CHECK_SIG(l.size() == m.size(), "list size", std::string(when) + ": size " + S(l.size()) + " expected " + S(m.size()));
	CHECK_SIG(l.empty() == m.empty(), "list empty", when);
	std::vector<uint32_t> f, b; size_t guard = m.size() + 3;
	for (auto it = l.begin(); it != l.end() && f.size() < guard; ++it) f.push_back((*it).v);
	for (auto it = l.last(); it != nullptr && b.size() < guard; --it) b.push_back(it->v);
	std::reverse(b.begin(), b.end());
	CHECK_SIG(f == m, "list forward content", std::string(when) + ": forward iteration differs from the model");
	CHECK_SIG(b == m, "list backward content", std::string(when) + ": backward iteration differs from the model");
	if (!m.empty())
	{
		CHECK_SIG(l.front().v == m.front(), "list front", when);
		CHECK_SIG(l.back().v == m.back(), "list back", when);
		CHECK_SIG(l.lastEntry() == l.last().entry(), "list lastEntry", when);
		CHECK_SIG(l.begin().entry()->first() == l.begin().entry() && l.begin().entry()->last() == l.lastEntry(), "list entry ends", when);
		for (auto& e : l) { CHECK_SIG(*e.owned == e.v || e.v == 0xdead, "list element content", when); }
	}
	else
	{
		CHECK_SIG(l.last() == nullptr && l.begin() == nullptr, "list empty ends", when);
	}
}

void listCase(Src& s, Ctx& c)
{
	Elem::reset();
	TrackAlloc a1, a2;
	unsigned ops = 0, muts = 0, maxLen = 0;
	{
		std::vector<std::unique_ptr<ListSide>> L;
		L.emplace_back(new ListSide(&a1));
		unsigned n = 1 + s.below(40);
		auto total = [&] { size_t t = 0; for (auto& x : L) t += x->m.size(); return t; };
		for (unsigned i = 0; i < n; ++i)
		{
			unsigned k = s.below(static_cast<uint32_t>(L.size()));
			ListSide& A = *L[k];
			uint32_t v = s.below(12);
			uint32_t op = s.below(26);
			c.mix(op * 64 + v); c.mix(uint64_t(k)); ++ops;
			std::string tag = "op" + S(op);
			if (A.moved && op != 14 && op != 15 && op != 16) { continue; }
			auto posAt = [&](size_t p) { auto it = A.l.begin(); return it + static_cast<unsigned>(p); };
			switch (op)
			{
			case 0: case 1: case 2: { Elem& r = A.l.emplace_back(v); A.m.push_back(v); CHECK_SIG(r.v == v && &r == &A.l.back(), "list emplace_back result", tag); ++muts; break; }
			case 3: { Elem& r = A.l.emplace_front(v); A.m.insert(A.m.begin(), v); CHECK_SIG(r.v == v && &r == &A.l.front(), "list emplace_front result", tag); ++muts; break; }
			case 4: { auto* e = A.l.emplace_back_entry(v, 1u); A.m.push_back(v * 31 + 1); CHECK_SIG(e->inner().v == v * 31 + 1, "list emplace_back_entry result", tag); ++muts; break; }
			case 5: { auto* e = A.l.emplace_front_entry(v); A.m.insert(A.m.begin(), v); CHECK_SIG((*e)->v == v && A.l.begin().entry() == e, "list emplace_front_entry result", tag); ++muts; break; }
			case 6: case 7: if (!A.m.empty()) { uint32_t p = s.below(A.m.size()); auto* e = A.l.insert_before(posAt(p), v); A.m.insert(A.m.begin() + p, v); CHECK_SIG(e->inner().v == v && posAt(p).entry() == e, "list insert_before result", tag); ++muts; } break;
			case 8: case 9: if (!A.m.empty()) { uint32_t p = s.below(A.m.size()); auto* e = A.l.insert_after(posAt(p), v); A.m.insert(A.m.begin() + p + 1, v); CHECK_SIG(e->inner().v == v && posAt(p + 1).entry() == e, "list insert_after result", tag); ++muts; } break;
			case 10: case 11: if (!A.m.empty()) { uint32_t p = s.below(A.m.size()); auto it = posAt(p); auto nxt = it.next().entry(); auto* r = A.l.erase(it); A.m.erase(A.m.begin() + p); CHECK_SIG(r == nxt, "list erase result", tag); ++muts; } break;
			case 12: if (!A.m.empty()) { Elem e = A.l.pop_back(); CHECK_SIG(e.v == A.m.back(), "list pop_back result", tag); A.m.pop_back(); ++muts; } break;
			case 13: if (!A.m.empty()) { Elem e = A.l.pop_front(); CHECK_SIG(e.v == A.m.front(), "list pop_front result", tag); A.m.erase(A.m.begin()); ++muts; } break;
			case 14: { // copy assign
				ListSide& B = *L[s.below(L.size())]; if (B.moved) break; if (A.moved) c.label("copy-assign to moved-from");
				A.l = B.l; A.moved = false; A.m = std::vector<uint32_t>(B.m); ++muts; c.label("copy-assign"); break; }
			case 15: { // move assign
				ListSide& B = *L[s.below(L.size())]; if (B.moved) break;
				auto bm = B.m; bool self = &A == &B;
				A.l = stdrep::move(B.l); A.m = bm; A.moved = false;
				if (!self) { B.m.clear(); B.moved = true; CHECK_SIG(B.l.empty() && B.l.size() == 0, "list moved-from", tag); checkList(B.l, B.m, "moved-from"); }
				++muts; c.label("move-assign"); break; }
			case 16: { // new list
				if (L.size() >= 4) break;
				uint32_t kind = s.below(5);
				std::unique_ptr<ListSide> N;
				if (kind == 4 && !A.moved) { N.reset(new ListSide(static_cast<IAllocator*>(nullptr))); N->l = static_cast<const List<Elem>&>(A.l); N->m = A.m; c.label("copy-assign to a list without allocator"); }
				else if (kind == 0) N.reset(new ListSide(&a2));
				else if (kind == 1 && !A.moved) { N.reset(new ListSide(static_cast<const List<Elem>&>(A.l))); N->m = A.m; c.label("copy-construct"); }
				else if (kind == 2 && !A.moved) { N.reset(new ListSide(std::move(A.l))); N->m = A.m; A.m.clear(); A.moved = true; checkList(A.l, A.m, "moved-from"); c.label("move-construct"); }
				else { N.reset(new ListSide(&a1, Elem(v), Elem(v + 1), Elem(v))); N->m = { v, v + 1, v }; }
				L.push_back(std::move(N)); ++muts; break; }
			case 17: { A.l.clear(); A.m.clear(); ++muts; break; }
			case 18: { auto it = A.l.find(Elem(v)); auto mi = std::find(A.m.begin(), A.m.end(), v);
				CHECK_SIG((it != nullptr) == (mi != A.m.end()), "list find", tag);
				if (it != nullptr) { CHECK_SIG(it.entry() == posAt(static_cast<size_t>(mi - A.m.begin())).entry(), "list find position", tag); }
				CHECK_SIG(A.l.contains(Elem(v)) == (mi != A.m.end()), "list contains", tag); break; }
			case 19: { uint32_t mod = 1 + s.below(4); auto pred = [&](const Elem& e) { return e.v % mod == v % mod; };
				auto it = A.l.find_if(pred); auto mi = std::find_if(A.m.begin(), A.m.end(), [&](uint32_t x) { return x % mod == v % mod; });
				CHECK_SIG((it != nullptr) == (mi != A.m.end()), "list find_if", tag);
				if (it != nullptr) { CHECK_SIG(it.entry() == posAt(static_cast<size_t>(mi - A.m.begin())).entry(), "list find_if position", tag); } break; }
			case 24: if (!A.m.empty()) { uint32_t p = s.below(A.m.size()); auto it = posAt(p); auto* e = it.entry(); A.l.move_back(it); uint32_t x = A.m[p]; A.m.erase(A.m.begin() + p); A.m.push_back(x); CHECK_SIG(A.l.last().entry() == e && &A.l.back() == &e->inner(), "list move_back", tag); ++muts; c.label("move_back"); } break;
			case 25: { auto* al = A.l.getAllocator(); A.l.setAllocator(al == &a1 ? &a2 : &a1); CHECK_SIG(A.l.getAllocator() == al, "list allocator replaced", tag); break; }
			case 20: { ListSide& B = *L[s.below(L.size())]; CHECK_SIG((A.l == B.l) == (A.m == B.m), "list equality", tag); CHECK_SIG((A.l != B.l) == (A.m != B.m), "list inequality", tag); break; }
			case 21: if (!A.m.empty()) { // detach without destruction, give back later
				uint32_t p = s.below(A.m.size()); auto it = posAt(p); auto* e = it.entry(); uint32_t val = e->inner().v; A.l.erase(it, false); A.m.erase(A.m.begin() + p);
				checkList(A.l, A.m, "after detach"); CHECK_SIG(e->inner().v == val, "list detached entry", tag); A.l.getAllocator()->destruct(e); ++muts; } break;
			case 22: { // append / prepend a foreign entry of the same allocator
				auto* e = Entry<Elem>::create(A.l.getAllocator(), v); 
				if (s.coin()) { auto* r = A.l.prepend_entry(e); A.m.insert(A.m.begin(), v); CHECK_SIG(r == A.l.begin().entry(), "list prepend_entry result", tag); }
				else { auto* r = A.l.append_entry(e); A.m.push_back(v); CHECK_SIG(r == e, "list append_entry result", tag); } ++muts; break; }
			case 23: { uint32_t p = s.below(static_cast<uint32_t>(A.m.size() + 3)), q = s.below(4); auto it = posAt(p);
				CHECK_SIG((it == nullptr) == (p >= A.m.size()), "list iterator +", tag);
				if (it != nullptr) { auto jt = it - q; CHECK_SIG((jt == nullptr) == (q > p), "list iterator -", tag); if (jt != nullptr) { CHECK_SIG((*jt).v == A.m[p - q], "list iterator - value", tag); }
					auto post = it; auto old = post++; CHECK_SIG(old == it && post == it.next(), "list iterator post ++", tag); auto post2 = it; auto old2 = post2--; CHECK_SIG(old2 == it && post2 == it.prev(), "list iterator post --", tag); } break; }
			}
			for (auto& x : L) checkList(x->l, x->m, tag.c_str());
			Elem::checkLive(total(), tag.c_str());
			a1.check(tag.c_str()); a2.check(tag.c_str());
			maxLen = std::max<unsigned>(maxLen, A.m.size());
			if (c.wantSample || c.verbose) c.note(tag + "(" + S(k) + "," + S(v) + ") ");
		}
	}
	Elem::checkLive(0, "end");
	a1.checkAllReturned("end"); a2.checkAllReturned("end");
	c.nontrivial = muts >= 4 && maxLen >= 2;
}
pbt::Reg rList("P20", "at least 4 mutating operations and a list that held 2 or more elements; each history checked after every operation", listCase);

// ------------------------------------------------------------------ P21
void checkVec(const Vector<Elem>& v, const std::vector<uint32_t>& m, const char* when)
{
	CHECK_SIG(v.size() == m.size(), "vector size", std::string(when) + ": size " + S(v.size()) + " expected " + S(m.size()));
	CHECK_SIG(v.empty() == m.empty(), "vector empty", when);
	CHECK_SIG(v.capacity() >= v.size(), "vector capacity", when);
	size_t i = 0; for (const Elem& e : v) { CHECK_SIG(i < m.size() && e.v == m[i], "vector content", std::string(when) + ": element " + S(i) + " is " + S(e.v) + " expected " + S(m[i])); CHECK_SIG(*e.owned == e.v, "vector element storage", when); CHECK_SIG(&v[i] == &e, "vector index", when); ++i; }
	CHECK_SIG(i == m.size(), "vector iteration", when);
	if (!m.empty()) { CHECK_SIG(v.front().v == m.front() && v.back().v == m.back(), "vector ends", when); }
}

void vecCase(Src& s, Ctx& c)
{
	Elem::reset();
	TrackAlloc a1, a2; unsigned muts = 0; size_t maxLen = 0;
	{
		struct Side { Vector<Elem> v; std::vector<uint32_t> m; bool moved = false; Side(IAllocator* a) : v(a) {} Side(Vector<Elem>&& x) : v(stdrep::move(x)) {} };
		std::vector<std::unique_ptr<Side>> V; V.emplace_back(new Side(&a1));
		unsigned n = 1 + s.below(30);
		for (unsigned i = 0; i < n; ++i)
		{
			uint32_t k = s.below(V.size()); Side& A = *V[k];
			uint32_t x = s.below(50), op = s.below(17);
			c.mix(op); c.mix(uint64_t(k) << 32 | x);
			std::string tag = "op" + S(op);
			if (A.moved && op != 9 && op != 10) continue;
			switch (op)
			{
			case 0: case 1: case 2: { Elem* p = A.v.emplace_back(x); A.m.push_back(x); CHECK_SIG(p == &A.v.back(), "vector emplace_back result", tag); ++muts; break; }
			case 3: { A.v.emplace_back_args(Elem(x), Elem(x + 1), Elem(x + 2)); A.m.push_back(x); A.m.push_back(x + 1); A.m.push_back(x + 2); ++muts; break; }
			case 4: case 5: { std::vector<uint32_t> ins; uint32_t cnt = s.below(7); for (uint32_t q = 0; q < cnt; ++q) ins.push_back(x + q);
				bool over = s.chance(1, 10); uint32_t p = over ? static_cast<uint32_t>(A.m.size()) + 1 + s.below(3) : s.below(static_cast<uint32_t>(A.m.size()) + 1);
				{
					std::vector<Elem> tmp(ins.begin(), ins.end());
					auto it = A.v.insert(p, tmp.data(), cnt);
					if (over && !A.m.empty()) { CHECK_SIG(it == nullptr, "vector insert past the end", tag); }
					else { if (A.m.empty()) p = 0; A.m.insert(A.m.begin() + p, ins.begin(), ins.end()); CHECK_SIG(cnt == 0 || it == A.v.begin() + p, "vector insert result", tag); }
				}
				++muts; c.label(cnt > 0 ? "insert" : "insert-empty"); break; }
			case 6: { uint32_t sz = s.below(20); if (s.coin()) { bool r = A.v.resize(sz); CHECK_SIG(r, "vector resize result", tag); A.m.resize(sz, 0); } else { Elem init(x); bool r = A.v.resize(sz, &init); CHECK_SIG(r, "vector resize result", tag); A.m.resize(sz, x); } ++muts; break; }
			case 7: { uint32_t sz = s.below(40); auto cap = A.v.capacity(); bool r = A.v.reserve(sz); CHECK_SIG(r && A.v.capacity() >= sz && A.v.capacity() >= cap, "vector reserve", tag); break; }
			case 8: { A.v.clear(); A.m.clear(); ++muts; break; }
			case 9: { Side& B = *V[s.below(V.size())]; if (B.moved) break; if (A.moved) c.label("copy-assign to moved-from"); A.v = B.v; A.moved = false; A.m = std::vector<uint32_t>(B.m); ++muts; c.label("copy-assign"); break; }
			case 10: { Side& B = *V[s.below(V.size())]; if (B.moved) break; auto m = B.m; bool self = &A == &B; A.v = stdrep::move(B.v); A.m = m; A.moved = false; if (!self) { B.m.clear(); B.moved = true; checkVec(B.v, B.m, "moved-from"); } ++muts; c.label("move-assign"); break; }
			case 11: { if (V.size() >= 4) break; uint32_t kind = s.below(7);
				if (kind == 5) { V.emplace_back(new Side(static_cast<IAllocator*>(nullptr))); V.back()->v = static_cast<const Vector<Elem>&>(A.v); V.back()->m = A.m; c.label("copy-assign to a vector without allocator"); }
				else if (kind == 6) { const Elem arr[3] = { x, x + 1, x + 2 }; V.emplace_back(new Side(Vector<Elem>(&a2, arr))); V.back()->m = { x, x + 1, x + 2 }; c.label("constant array"); }
				else if (kind == 0) V.emplace_back(new Side(Vector<Elem>(A.v))), V.back()->m = A.m;
				else if (kind == 1) { V.emplace_back(new Side(Vector<Elem>(&a2, static_cast<sgt_size_t>(s.below(10))))); }
				else if (kind == 2) { Elem arr[3] = { x, x + 1, x + 2 }; V.emplace_back(new Side(Vector<Elem>(&a2, arr))); V.back()->m = { x, x + 1, x + 2 }; }
				else if (kind == 3) { V.emplace_back(new Side(Vector<Elem>(&a1, Elem(x), Elem(x + 5)))); V.back()->m = { x, x + 5 }; }
				else { Elem arr[3] = { x, x + 1, x + 2 }; uint32_t cnt = s.below(4); V.emplace_back(new Side(Vector<Elem>(&a1, arr, static_cast<sgt_size_t>(cnt)))); V.back()->m.assign({ x, x + 1, x + 2 }); V.back()->m.resize(cnt); }
				++muts; break; }
			case 12: { Elem e(x); bool all = s.coin(); uint32_t p = s.below(static_cast<uint32_t>(A.m.size()) + 2), cnt = s.below(6);
				if (all) { A.v.assign(e, p); for (size_t q = p; q < A.m.size(); ++q) A.m[q] = x; } else { A.v.assign(e, p, cnt); for (size_t q = p; q < A.m.size() && q < p + cnt; ++q) A.m[q] = x; } ++muts; break; }
			case 13: { Elem arr[4] = { x, 1, x, 3 }; A.v = arr; A.m = { x, 1, x, 3 }; ++muts; break; }
			case 14: if (!A.m.empty()) { uint32_t p = s.below(A.m.size()); A.v[p] = Elem(x); A.m[p] = x; ++muts; } break;
			case 16: if (!A.m.empty()) { uint32_t p = s.below(A.m.size()); if (s.coin()) A.v.emplace_back(A.v[p]); else A.v.emplace_back(static_cast<const Elem&>(A.v[p])); A.m.push_back(uint32_t(A.m[p])); ++muts; c.label("own element"); } break;
			case 15: { uint32_t p = s.below(static_cast<uint32_t>(A.m.size()) + 1); Elem e(x); A.v.insert(p, e); A.m.insert(A.m.begin() + p, x); ++muts; break; }
			}
			size_t total = 0; for (auto& y : V) { checkVec(y->v, y->m, tag.c_str()); total += y->m.size(); }
			Elem::checkLive(total, tag.c_str()); a1.check(tag.c_str()); a2.check(tag.c_str());
			maxLen = std::max(maxLen, A.m.size());
			if (c.wantSample || c.verbose) c.note(tag + "(" + S(k) + "," + S(x) + ") ");
		}
	}
	Elem::checkLive(0, "end"); a1.checkAllReturned("end"); a2.checkAllReturned("end");
	c.nontrivial = muts >= 3 && maxLen >= 2;
	c.label("vector histories");
}

void checkStr(const String& v, const std::string& m, const char* when)
{
	CHECK_SIG(v.size() == m.size(), "string size", std::string(when) + ": size " + S(v.size()) + " expected " + S(m.size()) + " ('" + m + "')");
	CHECK_SIG(v.capacity() >= v.size(), "string capacity", when);
	CHECK_SIG(std::string(v.begin(), v.end()) == m, "string content", std::string(when) + ": '" + std::string(v.begin(), v.end()) + "' expected '" + m + "'");
	if (v.data() != nullptr && (!m.empty() || v.Vector<char>::size() != 0))
	{
		CHECK_SIG(v.capacity() > m.size() && v.c_str()[m.size()] == '\0', "string termination", when);
		CHECK_SIG(m == v.c_str(), "string c_str", when);
	}
	if (!m.empty()) { CHECK_SIG(v.back() == m.back() && v.front() == m.front(), "string ends", when); }
}
std::string genStr(Src& s, unsigned maxLen)
{
	unsigned n = s.below(maxLen + 1); std::string r; for (unsigned i = 0; i < n; ++i) r += "abcdXY\xc3\xa9_0"[s.below(10)]; return r;
}
void strCase(Src& s, Ctx& c)
{
	TrackAlloc a1, a2; unsigned muts = 0; size_t maxLen = 0;
	{
		struct Side { String v; std::string m; bool moved = false; Side(IAllocator* a) : v(a) {} Side(String&& x, const std::string& mm) : v(stdrep::move(x)), m(mm) {} };
		std::vector<std::unique_ptr<Side>> V; V.emplace_back(new Side(&a1));
		unsigned n = 1 + s.below(25);
		for (unsigned i = 0; i < n; ++i)
		{
			uint32_t k = s.below(V.size()), op = s.below(19); Side& A = *V[k];
			c.mix(op); c.mix(uint64_t(k)); std::string tag = "str op" + S(op);
			if (A.moved && op != 8) continue;
			std::string t = genStr(s, 9); c.mix(t);
			switch (op)
			{
			case 0: { A.v = t.c_str(); A.m = t; ++muts; break; }
			case 1: { A.v += t.c_str(); A.m += t; ++muts; break; }
			case 2: { A.v.append(t.c_str()); A.m += t; ++muts; break; }
			case 3: { uint32_t l = 1 + s.below(8); if (l > t.size()) l = static_cast<uint32_t>(t.size()); if (l == 0) break; A.v.append(t.c_str(), l); A.m += t.substr(0, l); ++muts; c.label("append-prefix"); break; }
			case 4: { Side& B = *V[s.below(V.size())]; if (B.moved) break; A.v += B.v; A.m += std::string(B.m); if (&A == &B) c.label("self-append"); ++muts; break; }
			case 5: { uint32_t p = s.below(static_cast<uint32_t>(A.m.size()) + 1); auto it = A.v.insert(p, t.c_str()); A.m.insert(p, t); CHECK_SIG(t.empty() || it == A.v.begin() + p, "string insert result", tag); ++muts; break; }
			case 6: { uint32_t p = s.below(static_cast<uint32_t>(A.m.size()) + 1); uint32_t l = s.below(static_cast<uint32_t>(t.size()) + 1); if (l == 0) break; A.v.insert(p, t.c_str(), l); A.m.insert(p, t, 0, l); ++muts; break; }
			case 7: { Side& B = *V[s.below(V.size())]; if (B.moved || &A == &B) break; uint32_t p = s.below(static_cast<uint32_t>(A.m.size()) + 1); A.v.insert(p, B.v); A.m.insert(p, B.m); ++muts; break; }
			case 8: { Side& B = *V[s.below(V.size())]; if (B.moved) break; if (s.coin()) { A.v = B.v; A.moved = false; A.m = std::string(B.m); } else { auto m = B.m; bool self = &A == &B; A.v = stdrep::move(B.v); A.m = m; A.moved = false; if (!self) { B.m.clear(); B.moved = true; CHECK_SIG(B.v.size() == 0, "string moved-from", tag); } } ++muts; break; }
			case 9: { uint32_t off = s.below(static_cast<uint32_t>(A.m.size()) + 3), len = s.below(12); String r = A.v.substr(off, len); std::string e = off < A.m.size() ? A.m.substr(off, len) : ""; checkStr(r, e, "substr"); break; }
			case 10: { Side& B = *V[s.below(V.size())]; if (B.moved) break; String r = A.v + B.v; checkStr(r, A.m + B.m, "operator+"); String q = A.v + t.c_str(); checkStr(q, A.m + t, "operator+ cstr"); break; }
			case 11: { Side& B = *V[s.below(V.size())]; CHECK_SIG((A.v == B.v) == (A.m == B.m), "string equality", tag); CHECK_SIG((A.v == t.c_str()) == (A.m == t), "string cstr equality", tag); CHECK_SIG(A.v == A.m.c_str(), "string equality with own text", tag); break; }
			case 12: { char ch = "xyz"[s.below(3)]; char* p = A.v.emplace_back(ch); A.m += ch; CHECK_SIG(p == &A.v.back() && *p == ch, "string emplace_back result", tag); ++muts; break; }
			case 13: { A.v.emplace_back_args('p', 'q'); A.m += "pq"; ++muts; break; }
			case 14: { A.v.clear(); A.m.clear(); ++muts; break; }
			case 17: { char buf[24] = {}; memcpy(buf, t.data(), t.size()); switch (s.below(3)) { case 0: A.v = buf; A.m = t; break; case 1: A.v += buf; A.m += t; break; default: { uint32_t p = s.below(static_cast<uint32_t>(A.m.size()) + 1); A.v.insert(p, buf); A.m.insert(p, t); } } ++muts; c.label("text in a buffer"); break; }
			case 18: { if (A.v.c_str() == nullptr || A.v.Vector<char>::size() == 0) break; uint32_t p = s.below(static_cast<uint32_t>(A.m.size()) + 1); if (s.coin()) { A.v.append(A.v.c_str() + p); A.m += std::string(A.m.substr(p)); } else { A.v = A.v.c_str() + p; A.m = std::string(A.m.substr(p)); } ++muts; c.label("own text"); break; }
			case 15: { if (V.size() >= 4) break; uint32_t kind = s.below(4); if (kind == 3) { char buf[24] = {}; memcpy(buf, t.data(), t.size()); V.emplace_back(new Side(String(&a2, buf), t)); c.label("text in a buffer"); ++muts; break; } if (kind == 0) V.emplace_back(new Side(String(&a2, t.c_str()), t)); else if (kind == 1) { uint32_t l = s.below(static_cast<uint32_t>(t.size()) + 1); if (l == 0) l = static_cast<uint32_t>(t.size()); V.emplace_back(new Side(String(&a2, t.c_str(), l), t.substr(0, l))); } else V.emplace_back(new Side(String(A.v), A.m)); ++muts; break; }
			case 16: { uint32_t sz = s.below(30); CHECK_SIG(A.v.reserve(sz) && A.v.capacity() >= sz, "string reserve", tag);
				CHECK_SIG(stringLength(t.c_str()) == t.size() + 1, "stringLength", tag);
				uint32_t num = s.word(), base = 2 + s.below(15); char buf[40] = {}; uintToString(num, buf, 33, base);
				std::string e; { uint32_t x = num; do { e.insert(e.begin(), "0123456789ABCDEF"[x % base]); x /= base; } while (x); } CHECK_SIG(e == buf, "uintToString", tag + ": " + buf + " expected " + e); break; }
			}
			for (auto& y : V) checkStr(y->v, y->m, tag.c_str());
			a1.check(tag.c_str()); a2.check(tag.c_str()); maxLen = std::max(maxLen, A.m.size());
			if (c.wantSample || c.verbose) c.note(tag + "(" + S(k) + ",'" + t + "') ");
		}
	}
	a1.checkAllReturned("end"); a2.checkAllReturned("end");
	c.nontrivial = muts >= 3 && maxLen >= 2;
	c.label("string histories");
}
pbt::Reg rVec("P21", "at least 3 mutating operations and a sequence that held 2 or more elements; half of the histories are over a vector of lifetime-tracked elements, half over strings", [](Src& s, Ctx& c) { bool str = s.coin(); c.mix(uint64_t(str)); if (str) strCase(s, c); else vecCase(s, c); });

// ------------------------------------------------------------------ P22
struct Key { uint32_t v; bool operator==(const Key& o) const { return v == o.v; } };
Hash64 hashIdent(const Key& k) { return Hash64(static_cast<sgt_uint64_t>(k.v)); }                 // injective, collides in buckets
Hash64 hashShift(const Key& k) { return Hash64(static_cast<sgt_uint64_t>(k.v) << 40 | 5u); }     // injective, differs in high bits only
using Map = HashMap<Key, Elem>;
struct MSide { Map v; std::vector<std::pair<uint32_t, uint32_t>> m; bool moved = false; MSide(Map&& x) : v(stdrep::move(x)) {} };

void checkMap(const Map& v, const std::vector<std::pair<uint32_t, uint32_t>>& m, const char* when)
{
	CHECK_SIG(v.elements() == m.size(), "map count", std::string(when) + ": elements() " + S(v.elements()) + " expected " + S(m.size()));
	std::vector<std::pair<uint32_t, uint32_t>> got, want = m;
	for (auto it = v.begin(); it != v.end() && got.size() < m.size() + 3; ++it) got.push_back({ (*it).key.v, it->value.v });
	std::sort(got.begin(), got.end()); std::sort(want.begin(), want.end());
	CHECK_SIG(got == want, "map content", std::string(when) + ": iteration yields other entries than the model");
	size_t steps = 0;
	for (auto it = v.begin(); it != v.end() && steps < m.size(); ++steps) // the other ways to advance
	{
		auto was = it, following = it.next(); CHECK_SIG(was == it, "map iterator next", std::string(when) + ": next() advances the iterator itself");
		auto old = it++; CHECK_SIG(old == was && it == following && it != was && &*old == &*was, "map iterator post ++", when);
	}
	CHECK_SIG(steps == m.size(), "map iterator post ++", when);
	size_t n = 0; for (unsigned b = 0; b < v.getBucketCount(); ++b) n += v.getBucket(b).size();
	CHECK_SIG(n == m.size(), "map bucket sizes", when);
}
void checkKey(const Map& v, const std::vector<std::pair<uint32_t, uint32_t>>& m, uint32_t k, const char* when)
{
	std::vector<uint32_t> want; for (auto& e : m) if (e.first == k) want.push_back(e.second);
	Elem* p = v.get(Key{ k }); CHECK_SIG((p != nullptr) == !want.empty(), "map get", std::string(when) + ": get(" + S(k) + ")");
	if (p) { CHECK_SIG(std::count(want.begin(), want.end(), p->v) > 0, "map get value", when); }
	CHECK_SIG(v[Key{ k }] == p, "map operator[]", when);
	CHECK_SIG(v.count(Key{ k }) == want.size(), "map count of key", when);
	auto it = v.find(Key{ k }); CHECK_SIG((it != v.end()) == !want.empty(), "map find", when);
	if (it != v.end()) { CHECK_SIG(it->key.v == k && &it->value == p, "map find entry", when); }
	std::vector<uint32_t> got; size_t guard = 0;
	for (auto& node : v.getRange(Key{ k })) { CHECK_SIG(node.kv.key.v == k, "map range key", std::string(when) + ": range of " + S(k) + " contains key " + S(node.kv.key.v)); got.push_back(node.kv.value.v); if (++guard > m.size()) break; }
	std::sort(got.begin(), got.end()); std::sort(want.begin(), want.end());
	CHECK_SIG(got == want, "map range", std::string(when) + ": getRange differs from the model");
	CHECK_SIG(v.getRange(Key{ k }).empty() == want.empty(), "map range empty", when);
}
void mapCase(Src& s, Ctx& c)
{
	Elem::reset(); TrackAlloc a1, a2; unsigned muts = 0; size_t maxN = 0;
	{
		uint32_t keys = 2 + s.below(14); bool multi = s.coin(); c.mix(uint64_t(keys) << 1 | multi);
		auto mk = [&](IAllocator* a) { uint32_t b = 1 + s.below(9); c.mix(uint64_t(b)); return Map(a, b, s.coin() ? hashIdent : hashShift); };
		std::vector<std::unique_ptr<MSide>> V; V.emplace_back(new MSide(mk(&a1)));
		unsigned n = 1 + s.below(40);
		for (unsigned i = 0; i < n; ++i)
		{
			uint32_t kx = s.below(V.size()), k = s.below(keys), x = s.below(100), op = s.below(12); MSide& A = *V[kx];
			c.mix(uint64_t(op) << 40 | uint64_t(kx) << 32 | k << 8 | x); std::string tag = "map op" + S(op);
			if (A.moved && op != 8) continue;
			bool has = std::any_of(A.m.begin(), A.m.end(), [&](auto& e) { return e.first == k; });
			switch (op)
			{
			case 0: case 1: case 2: case 3: {
				if (multi && op < 2) { auto& nd = A.v.emplace(Key{ k }, x); CHECK_SIG(nd.kv.key.v == k && nd.kv.value.v == x, "map emplace result", tag); A.m.push_back({ k, x }); }
				else { auto& nd = A.v.emplaceUnique(Key{ k }, x); std::vector<uint32_t> e; for (auto& q : A.m) if (q.first == k) e.push_back(q.second); if (!has) { A.m.push_back({ k, x }); e.push_back(x); } CHECK_SIG(nd.kv.key.v == k && std::count(e.begin(), e.end(), nd.kv.value.v) > 0, "map emplaceUnique result", tag); }
				++muts; break; }
			case 4: { unsigned r = A.v.eraseRange(Key{ k }); unsigned e = 0; for (auto it = A.m.begin(); it != A.m.end();) if (it->first == k) { it = A.m.erase(it); ++e; } else ++it; CHECK_SIG(r == e, "map eraseRange result", tag + ": " + S(r) + " expected " + S(e)); ++muts; break; }
			case 5: case 6: { auto it = A.v.find(Key{ k }); uint32_t vv = it != A.v.end() ? it->value.v : 0; auto nx = it != A.v.end() ? it.next() : it; auto r = A.v.erase(it); CHECK_SIG(r == nx, "map erase result", tag);
				for (auto q = A.m.begin(); q != A.m.end(); ++q) if (q->first == k && q->second == vv) { A.m.erase(q); break; } ++muts; break; }
			case 7: { // erase by iteration
				uint32_t steps = s.below(static_cast<uint32_t>(A.m.size()) + 1); auto it = A.v.begin(); for (uint32_t q = 0; q < steps; ++q) ++it;
				if (it == A.v.end()) { CHECK_SIG(steps == A.m.size(), "map iteration length", tag); break; }
				uint32_t kk = it->key.v, vv = it->value.v; A.v.erase(it); for (auto q = A.m.begin(); q != A.m.end(); ++q) if (q->first == kk && q->second == vv) { A.m.erase(q); break; } ++muts; break; }
			case 8: { MSide& B = *V[s.below(V.size())]; if (B.moved) break; auto m = B.m; bool self = &A == &B; A.v = stdrep::move(B.v); A.m = m; A.moved = false; if (!self) { B.m.clear(); B.moved = true; CHECK_SIG(B.v.elements() == 0 && B.v.begin() == B.v.end(), "map moved-from", tag); } ++muts; c.label("move-assign"); break; }
			case 9: { if (V.size() >= 3) break; if (s.coin()) V.emplace_back(new MSide(mk(&a2))); else { V.emplace_back(new MSide(stdrep::move(A.v))); V.back()->m = A.m; A.m.clear(); A.moved = true; c.label("move-construct"); } ++muts; break; }
			case 10: { A.v.clear(); A.m.clear(); ++muts; break; }
			case 11: { if (Elem* p = A.v.get(Key{ k })) { for (auto& q : A.m) if (q.first == k && q.second == p->v) { q.second = x; break; } *p = Elem(x); }
				bool hasV = std::any_of(A.m.begin(), A.m.end(), [&](auto& e) { return e.second == x; }); 
				Key* fk = A.v.findKey(Elem(x)); CHECK_SIG((fk != nullptr) == hasV, "map findKey", tag); if (fk) { uint32_t f = fk->v; CHECK_SIG(std::any_of(A.m.begin(), A.m.end(), [&](auto& e) { return e.second == x && e.first == f; }), "map findKey key", tag); } break; }
			}
			size_t total = 0;
			for (auto& y : V) { if (!y->moved) { checkMap(y->v, y->m, tag.c_str()); for (uint32_t q = 0; q < keys; ++q) checkKey(y->v, y->m, q, tag.c_str()); } total += y->m.size(); }
			Elem::checkLive(total, tag.c_str()); a1.check(tag.c_str()); a2.check(tag.c_str()); maxN = std::max(maxN, A.m.size());
			if (c.wantSample || c.verbose) c.note(tag + "(" + S(kx) + ",k" + S(k) + "," + S(x) + ") ");
		}
	}
	Elem::checkLive(0, "end"); a1.checkAllReturned("end"); a2.checkAllReturned("end");
	c.nontrivial = muts >= 4 && maxN >= 2;
}

// generic hash: equal keys hash equally, and the keys of a small universe hash apart (needed for lookups by hash)
void hashCase(Src& s, Ctx& c)
{
	TrackAlloc a;
	{
		HashMap<String, uint32_t> v(&a, 1 + s.below(6)); std::map<std::string, uint32_t> m; unsigned n = 1 + s.below(20);
		for (unsigned i = 0; i < n; ++i)
		{
			std::string t = genStr(s, 5); c.mix(t); uint32_t op = s.below(4), x = s.below(1000); c.mix(uint64_t(op));
			if (op < 2) { auto& nd = v.emplaceUnique(String(&a, t.c_str()), x); auto r = m.emplace(t, x); CHECK_SIG(nd.kv.value == r.first->second && nd.kv.key == t.c_str(), "string map emplaceUnique", t); }
			else if (op == 2) { unsigned r = v.eraseRange(String(&a, t.c_str())); CHECK_SIG(r == m.erase(t), "string map eraseRange", t); }
			auto* p = v.get(String(&a, t.c_str())); auto it = m.find(t); CHECK_SIG((p != nullptr) == (it != m.end()), "string map get", t); if (p) { CHECK_SIG(*p == it->second, "string map value", t); }
			CHECK_SIG(v.elements() == m.size(), "string map count", t);
			// hashing is a function of the content
			String s1(&a, t.c_str()); String s2(&a); for (char ch : t) s2.emplace_back(ch); s2.reserve(40);
			CHECK_SIG(hash(s1) == hash(s2), "string hash", "equal strings hash differently");
		}
		c.nontrivial = m.size() >= 2;
	}
	a.checkAllReturned("end"); c.label("string-key histories");
}
pbt::Reg rMap("P22", "at least 4 mutating operations and a map that held 2 or more entries (for string keyed maps: 2 or more entries at the end); all keys of the universe are looked up after every operation", [](Src& s, Ctx& c) { bool h = s.chance(1, 5); c.mix(uint64_t(h)); if (h) hashCase(s, c); else mapCase(s, c); });
}
