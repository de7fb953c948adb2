// random damage to a binary, shared by the properties about arbitrary input
#pragma once
#include "bgen.h"
namespace mut
{
	using namespace pbt; using namespace spv_ref;
	inline std::vector<std::pair<size_t, size_t>> instructions(const Words& w)
	{
		std::vector<std::pair<size_t, size_t>> r; size_t p = 5;
		while (p < w.size()) { size_t n = w[p] >> 16; if (n == 0 || p + n > w.size()) break; r.push_back({ p, n }); p += n; }
		return r;
	}
	inline void mutate(Src& s, Words& w, Ctx& c)
	{
		auto in = instructions(w); uint32_t bound = w.size() > 3 ? w[3] : 1;
		if (w.size() <= 5 || in.empty()) { w.push_back(s.word()); return; }
		// declarations and header instructions are as likely as function bodies
		auto some = [&]() -> std::pair<size_t, size_t> { if (s.coin()) return s.pick(in); std::vector<std::pair<size_t, size_t>> g; for (auto& i : in) { uint32_t op = w[i.first] & 0xffff; if (op == 54) break; g.push_back(i); } return g.empty() ? s.pick(in) : s.pick(g); };
		auto value = [&]() -> uint32_t { switch (s.below(4)) { case 0: return s.below(bound + 2); case 1: return s.below(16); case 2: return s.word(); default: { auto i = s.pick(in); return w[i.first + s.below(uint32_t(i.second))]; } } };
		switch (s.weighted({ 6, 6, 2, 2, 2, 3, 3, 2, 3, 2, 2, 1, 1, 3 }))
		{
		case 0: { auto i = some(); if (i.second > 1) { size_t k = i.first + 1 + s.below(uint32_t(i.second - 1)); w[k] = s.below(bound + 2); c.label("operand replaced by an id"); } break; }
		case 1: { auto i = some(); if (i.second > 1) { size_t k = i.first + 1 + s.below(uint32_t(i.second - 1)); w[k] = value(); c.label("operand replaced"); } break; }
		case 2: { size_t k = s.below(uint32_t(w.size())); w[k] ^= 1u << s.below(32); c.label("bit flipped"); break; }
		case 3: { w.resize(s.below(uint32_t(w.size() + 1))); c.label("truncated"); break; }
		case 4: { size_t k = 5 + s.below(uint32_t(w.size() - 4)); if (s.coin()) w.insert(w.begin() + k, value()); else if (k < w.size()) w.erase(w.begin() + k); c.label("word inserted or deleted"); break; }
		case 5: { auto i = some(); w.erase(w.begin() + i.first, w.begin() + i.first + i.second); c.label("instruction deleted"); break; }
		case 6: { auto i = some(); auto j = s.pick(in); Words x(w.begin() + i.first, w.begin() + i.first + i.second); w.insert(w.begin() + j.first, x.begin(), x.end()); c.label("instruction copied"); break; }
		case 7: { auto i = some(), j = some(); if (i.first > j.first) std::swap(i, j); if (i.first == j.first) break; Words x(w.begin() + i.first, w.begin() + i.first + i.second), y(w.begin() + j.first, w.begin() + j.first + j.second); Words r(w.begin(), w.begin() + i.first); r.insert(r.end(), y.begin(), y.end()); r.insert(r.end(), w.begin() + i.first + i.second, w.begin() + j.first); r.insert(r.end(), x.begin(), x.end()); r.insert(r.end(), w.begin() + j.first + j.second, w.end()); w = r; c.label("instructions exchanged"); break; }
		case 8: { auto i = some(); uint32_t n = s.below(uint32_t(i.second + 3)); w[i.first] = (w[i.first] & 0xffff) | n << 16; c.label("word count changed"); break; }
		case 9: { auto i = some(); uint32_t op = s.coin() ? (w[s.pick(in).first] & 0xffff) : s.pick(o_core()).op; w[i.first] = (w[i.first] & 0xffff0000u) | op; c.label("opcode changed"); break; }
		case 10: { auto i = some(); size_t n = 1 + s.below(uint32_t(i.second)); Words x(w.begin() + i.first, w.begin() + i.first + n); x[0] = (x[0] & 0xffff) | uint32_t(n) << 16; w.erase(w.begin() + i.first, w.begin() + i.first + i.second); w.insert(w.begin() + i.first, x.begin(), x.end()); c.label("operands dropped"); break; }
		case 11: { w[s.below(5)] = s.word(); c.label("header changed"); break; }
		case 12: { uint32_t n = 1 + s.below(20); while (n--) w.push_back(value()); c.label("words appended"); break; }
		case 13: { // a new instruction with operands of any kind
			Words x{ 0 }; uint32_t op = s.pick(o_core()).op, n = s.below(6); while (n--) x.push_back(value()); x[0] = uint32_t(x.size()) << 16 | op; auto j = s.pick(in); w.insert(w.begin() + j.first, x.begin(), x.end()); c.label("instruction invented"); break; }
		}
	}
	// damage that the reader does not see: ids that exist but are of another kind, other literals, names and decorations of anything
	inline bool tamper(Src& s, Words& w, Ctx& c)
	{
		Mod m; std::string err; if (!decode(w, m, err) || m.insts.empty()) return false;
		std::vector<uint32_t> ids, types, consts; std::vector<size_t> at, deco; { size_t p = 5; for (auto& i : m.insts) { at.push_back(p); if (i.op == 5 || i.op == 6 || i.op == 71 || i.op == 72 || i.op == 16 || i.op == 74 || i.op == 75) deco.push_back(at.size() - 1); p += i.words.size(); if (i.result) { ids.push_back(i.result); if (i.op >= 19 && i.op <= 38) types.push_back(i.result); if (i.op >= 41 && i.op <= 52) consts.push_back(i.result); } } }
		if (ids.empty()) return false;
		auto put = [&](size_t before, const Words& x) { const size_t p = before < at.size() ? at[before] : w.size(); w.insert(w.begin() + p, x.begin(), x.end()); };
		auto id = [&] { return !types.empty() && s.chance(1, 3) ? s.pick(types) : !consts.empty() && s.chance(1, 3) ? s.pick(consts) : s.pick(ids); };
		auto lit = [&]() -> uint32_t { switch (s.below(4)) { case 0: return 0; case 1: return s.below(40); case 2: return ~0u - s.below(3); default: return s.word(); } };
		// module scope is as likely as function bodies
		auto some = [&](auto ok) -> int { std::vector<int> a, b; bool in = false; for (size_t k = 0; k < m.insts.size(); ++k) { if (m.insts[k].op == 54) in = true; if (ok(m.insts[k])) (in ? b : a).push_back(int(k)); } auto& v = a.empty() ? b : b.empty() ? a : s.coin() ? a : b; return v.empty() ? -1 : s.pick(v); };
		switch (s.weighted({ 6, 3, 3, 2, 2, 2, 2, 2 }))
		{
		case 0: { int k = some([](const Inst& i) { for (auto& o : i.ops) if (o.isId()) return true; return false; }); if (k < 0) return false; std::vector<size_t> v; size_t p = 1 + (m.insts[k].type ? 1 : 0) + (m.insts[k].result ? 1 : 0); for (auto& o : m.insts[k].ops) { if (o.isId()) v.push_back(p); p += o.w.size(); } const size_t q = at[k] + s.pick(v); if (q >= w.size()) return false; w[q] = id(); c.label("tamper: other id"); break; }
		case 1: { int k = some([](const Inst& i) { for (auto& o : i.ops) if (!o.isId()) return true; return false; }); if (k < 0) return false; std::vector<size_t> v; size_t p = 1 + (m.insts[k].type ? 1 : 0) + (m.insts[k].result ? 1 : 0); for (auto& o : m.insts[k].ops) { if (!o.isId() && o.w.size() == 1) v.push_back(p); p += o.w.size(); } if (v.empty()) return false; w[at[k] + s.pick(v)] = lit(); c.label("tamper: other literal"); break; }
		case 2: { int k = some([](const Inst& i) { return i.type != 0; }); if (k < 0) return false; w[at[k] + 1] = id(); c.label("tamper: other result type"); break; }
		case 3: { if (deco.empty()) return false; const size_t k = s.pick(deco); w.erase(w.begin() + at[k], w.begin() + at[k] + m.insts[k].words.size()); c.label("tamper: name or decoration dropped"); break; }
		case 4: { if (deco.empty()) return false; const size_t k = s.pick(deco); Words x = m.insts[k].words; if (x.size() > 1) x[1] = id(); put(k, x); c.label("tamper: name or decoration of something else"); break; }
		case 5: { static const uint32_t ds[] = { 1, 2, 6, 7, 11, 30, 31, 33, 34, 35, 41, 42 }; const uint32_t d = s.pick(ds); Words x{ 71, id(), d }; if (s.chance(1, 4)) { x[0] = 72; x.insert(x.begin() + 2, lit()); } if (d == 6 || d == 7 || d == 11 || (d >= 30 && d <= 35)) x.push_back(lit()); if (d == 41) { x.push_back(s.below(3) ? 's' | uint32_t('0' + s.below(4)) << 8 : 0); x.push_back(s.below(3)); } x[0] |= uint32_t(x.size()) << 16; size_t k = 0; while (k < m.insts.size() && (m.insts[k].op < 19 || m.insts[k].op > 59 || m.insts[k].op == 54)) { if (m.insts[k].op == 54) break; ++k; } put(k, x); c.label("tamper: invented decoration"); break; }
		case 6: { int k = some([](const Inst& i) { return (i.op >= 14 && i.op <= 17) || i.op == 59; }); if (k < 0) return false; w.erase(w.begin() + at[k], w.begin() + at[k] + m.insts[k].words.size()); c.label("tamper: declaration dropped"); break; }
		case 7: { int k = some([](const Inst& i) { return i.op >= 21 && i.op <= 36; }); if (k < 0 || m.insts[k].words.size() < 3) return false; const size_t n = m.insts[k].words.size(); w[at[k] + 2 + s.below(uint32_t(n - 2))] = s.coin() ? id() : lit(); c.label("tamper: other type"); break; }
		}
		return true;
	}
}
