// P28: binaries that are not modules are refused
#include "bgen.h"
#include "libutil.h"
#include "track.h"
#include <set>
using namespace pbt;
using namespace spv_ref;
namespace sg = spvgentwo;
namespace
{
	struct Editable
	{
		Words head; std::vector<Words> in; Mod m;
		Words join() const { Words w = head; for (auto& i : in) w.insert(w.end(), i.begin(), i.end()); return w; }
	};
	Words ins(uint32_t op, std::initializer_list<uint32_t> o) { Words w{ uint32_t(o.size() + 1) << 16 | op }; w.insert(w.end(), o); return w; }
	void len(Words& w) { w[0] = uint32_t(w.size()) << 16 | (w[0] & 0xffff); }
	bool variadic(const OInstr& i) { for (auto& o : i.operands) if (o.quant != 0x31 || o.kind == K_LiteralString || o.kind == K_LiteralContextDependentNumber || o.kind == K_LiteralSpecConstantOpInteger || o.kind == K_LiteralExtInstInteger || kind(o.kind).cat == 'B' || kind(o.kind).cat == 'V') return true; return false; }

	void p28(Src& s, Ctx& ctx)
	{
		bgen::Opts bo; bo.mayBeLarge = false; bo.maxBody = 5; Words w = bgen::generate(s, bo).words; Editable e; std::string err; CHECK_SIG(decode(w, e.m, err), "generator", err);
		e.head.assign(w.begin(), w.begin() + 5); for (auto& i : e.m.insts) e.in.push_back(i.words);
		auto& I = e.m.insts; std::vector<size_t> fns, ends, labels, terms, inBody, global; bool in = false;
		for (size_t k = 0; k < I.size(); ++k) { const uint32_t op = I[k].op; if (op == 54) { fns.push_back(k); in = true; } else if (op == 56) { ends.push_back(k); in = false; } else if (!in) global.push_back(k); else { if (op == 248) labels.push_back(k); if (bgen::isTerminator(op)) terms.push_back(k); inBody.push_back(k); } }
		std::string what; Words bad; bool changed = true;
		auto some = [&](auto ok) -> int { std::vector<int> c; for (size_t k = 0; k < I.size(); ++k) if (ok(I[k])) c.push_back(int(k)); return c.empty() ? -1 : s.pick(c); };
		switch (s.below(18))
		{
		case 0: what = "magic number"; bad = w; bad[0] = s.coin() ? 0x03022307 : s.word(); changed = bad[0] != 0x07230203; break;
		case 1: what = "cut in the header"; bad.assign(w.begin(), w.begin() + s.below(5)); break;
		case 2: { what = "cut inside an instruction"; int k = some([](const Inst& i) { return i.words.size() > 1; }); if (k < 0) { changed = false; break; } bad = e.head; for (int q = 0; q < k; ++q) bad.insert(bad.end(), e.in[q].begin(), e.in[q].end()); const size_t n = 1 + s.below(uint32_t(e.in[k].size() - 1)); bad.insert(bad.end(), e.in[k].begin(), e.in[k].begin() + n); break; }
		case 3: { what = "cut inside a function"; if (fns.empty()) { changed = false; break; } size_t f = s.below(uint32_t(fns.size())); size_t to = fns[f] + 1 + s.below(uint32_t(ends[f] - fns[f])); bad = e.head; for (size_t q = 0; q < to; ++q) bad.insert(bad.end(), e.in[q].begin(), e.in[q].end()); break; }
		case 4: { what = "length of zero"; size_t k = s.below(uint32_t(I.size())); e.in[k][0] &= 0xffff; bad = e.join(); break; }
		case 5: { what = "mandatory operand missing"; int k = some([](const Inst& i) { return i.words.size() > 1 && !variadic(*i.info); }); if (k < 0) { changed = false; break; } e.in[k].resize(1 + s.below(uint32_t(e.in[k].size() - 1))); len(e.in[k]); bad = e.join(); what += " of " + std::string(I[k].info->name); break; }
		case 6: { what = "superfluous operand"; int k = some([](const Inst& i) { return !variadic(*i.info); }); if (k < 0) { changed = false; break; } for (uint32_t n = s.range(1, 3); n > 0; --n) e.in[k].push_back(s.coin() ? s.below(e.m.bound) : s.word()); len(e.in[k]); bad = e.join(); what += " of " + std::string(I[k].info->name); break; }
		case 7: { what = "unknown opcode"; uint32_t op = s.coin() ? 0xf000u + s.below(0xfff) : s.below(8000); if (instr(op)) { changed = false; break; } size_t k = s.below(uint32_t(I.size() + 1)); Words x{ op }; for (uint32_t n = s.below(3); n > 0; --n) x.push_back(s.below(e.m.bound)); len(x); e.in.insert(e.in.begin() + k, x); bad = e.join(); break; }
		case 8: { what = "id without definition"; const uint32_t id = s.coin() ? 0 : s.coin() ? e.m.bound : s.range(e.m.bound, e.m.bound + 40); int k = some([](const Inst& i) { for (auto& o : i.ops) if (o.isId()) return true; return i.type != 0; }); if (k < 0) { changed = false; break; } size_t p = 1; std::vector<size_t> at; if (I[k].type) at.push_back(p++); if (I[k].result) ++p; for (auto& o : I[k].ops) { if (o.isId()) at.push_back(p); p += o.w.size(); } e.in[k][s.pick(at)] = id; bad = e.join(); what += " in " + std::string(I[k].info->name); break; }
		case 9: { what = "id defined twice"; int k = some([](const Inst& i) { return i.result != 0; }), j = some([](const Inst& i) { return i.result != 0; }); if (k < 0 || j == k) { changed = false; break; } e.in[k][I[k].type ? 2 : 1] = I[j].result; bad = e.join(); what += " by " + std::string(I[k].info->name) + " and " + I[j].info->name; break; }
		case 10: { what = "result id of zero"; int k = some([](const Inst& i) { return i.result != 0; }); if (k < 0) { changed = false; break; } e.in[k][I[k].type ? 2 : 1] = 0; bad = e.join(); what += " of " + std::string(I[k].info->name); break; }
		case 11: { what = "OpFunctionEnd missing"; if (ends.empty()) { changed = false; break; } size_t k = s.pick(ends); e.in.erase(e.in.begin() + k); bad = e.join(); break; }
		case 12: { what = "first label missing"; std::vector<size_t> c; for (auto f : fns) for (size_t k = f + 1; I[k].op != 56; ++k) if (I[k].op == 248) { c.push_back(k); break; } if (c.empty()) { changed = false; break; } size_t k = s.pick(c); const uint32_t id = I[k].result; e.in.erase(e.in.begin() + k); for (auto& i : I) for (auto& o : i.ops) if (o.isId() && o.w[0] == id) what += " (referred to)"; bad = e.join(); break; }
		case 13: { what = "instruction of a body outside of functions"; std::vector<size_t> c; for (auto k : inBody) { const uint32_t op = I[k].op; if (op != 8 && op != 317 && op != 1 && op != 12 && op != 0 && (op != 59 || I[k].ops[0].w[0] == 7)) c.push_back(k); } if (c.empty()) { changed = false; break; } { std::vector<size_t> v; for (auto q : c) if (I[q].op == 59) v.push_back(q); if (!v.empty() && s.coin()) c = v; } size_t k = s.pick(c); Words x = e.in[k]; if (I[k].result) e.in.erase(e.in.begin() + k); const size_t to = s.coin() || fns.empty() ? (I[k].result ? I.size() - 1 : I.size()) : fns[0]; e.in.insert(e.in.begin() + to, x); bad = e.join(); what += ": " + std::string(I[k].info->name); break; }
		case 14: { what = "declaration inside a function"; std::vector<size_t> c; for (auto k : global) { const uint32_t op = I[k].op; if (op != 8 && op != 317 && op != 1 && op != 59 && op != 0) c.push_back(k); } if (c.empty() || fns.empty()) { changed = false; break; } size_t k = s.pick(c), to = s.pick(fns) + 1; if (s.coin() && !inBody.empty()) { const size_t q = s.pick(inBody); if (I[q].op != 248) { to = q; what += " (in a block)"; } } Words x = e.in[k]; e.in.insert(e.in.begin() + to, x); e.in.erase(e.in.begin() + k); bad = e.join(); what += ": " + std::string(I[k].info->name); break; }
		case 17: { what = "terminator missing"; if (terms.empty()) { changed = false; break; } size_t k = s.pick(terms); e.in.erase(e.in.begin() + k); bad = e.join(); break; }
		case 16: { what = "incomplete pair"; int k = some([](const Inst& i) { auto& v = i.info->operands; if (v.empty() || kind(v.back().kind).cat != 'C') return false; size_t fixed = 1; for (size_t q = 0; q + 1 < v.size(); ++q) { if (v[q].quant != v[0].quant || v[q].kind == K_LiteralString) return false; ++fixed; } return i.words.size() > fixed + 1; }); if (k < 0) { changed = false; break; } e.in[k].pop_back(); len(e.in[k]); bad = e.join(); what += " of " + std::string(I[k].info->name); break; }
		case 15: { what = "string without end"; int k = some([](const Inst& i) { for (auto& o : i.ops) if (o.kind == K_LiteralString) return true; return false; }); if (k < 0) { changed = false; break; } size_t p = 1 + (I[k].type != 0) + (I[k].result != 0), from = 0, to = 0; for (auto& o : I[k].ops) { if (o.kind == K_LiteralString) { from = p; to = p + o.w.size(); break; } p += o.w.size(); } e.in[k].resize(to); for (size_t q = from; q < to; ++q) for (int b = 0; b < 4; ++b) if (!(e.in[k][q] >> b * 8 & 0xff)) e.in[k][q] |= 0x61u << b * 8; len(e.in[k]); bad = e.join(); what += " in " + std::string(I[k].info->name); break; }
		}
		if (!changed) { bad = w; what = "intact"; }
		ctx.mix(bad.data(), bad.size() * 4); ctx.label(what.substr(0, what.find_first_of(":(") == std::string::npos ? 26 : what.find_first_of(":("))); ctx.nontrivial = changed;
		if (ctx.wantSample || ctx.verbose) ctx.note(what + "\n" + dump(e.m));
		TrackAlloc alloc; bool ok, resolved = false;
		{ lu::Log log; sg::Module mod(&alloc, &log); lu::MemReader r(bad); const bool steps = s.coin(); ok = steps ? mod.read(r, lu::grammar()) && (resolved = true) && mod.resolveIDs() && mod.reconstructTypeAndConstantInfo() && mod.reconstructNames() : mod.readAndInit(r, lu::grammar()); if (!changed) CHECK_SIG(ok, "intact", "an intact module is refused: " + log.text + dump(e.m)); else { CHECK_SIG(!ok, what, "accepted: " + what + "\n" + dump(e.m)); } }
		alloc.checkAllReturned("after reading");
	}
	Reg r28("P28", "the module is damaged", p28);
}
