#include "bgen.h"
#include <set>
#include <functional>
#include <tuple>
using namespace spv_ref;
namespace bgen
{
	static const struct { const char* n; int f; } revs[] = {
#include "grammar_revisions.inc"
	};
	bool newer(const char* name) { static std::set<std::string> k = [] { std::set<std::string> r; for (auto& x : revs) if (x.f == 0 || x.f == 4) r.insert(x.n); return r; }(); return k.count(name) > 0; }
	bool isTerminator(uint32_t op) { switch (op) { case 249: case 250: case 251: case 252: case 253: case 254: case 255: case 4416: case 4448: case 4449: case 5294: return true; default: return false; } }
	namespace
	{
		struct TypeRec { uint32_t id; uint32_t op; uint32_t width = 0, sign = 0, count = 0; std::vector<uint32_t> sub; uint32_t lenConst = 0; };
		struct Gen
		{
			pbt::Src& s; const Opts& o; Out out;
			uint32_t next = 1;
			std::vector<Words> caps, exts, imports, model, eps, modes, debug, names, processed, decos, globals, functions;
			std::vector<TypeRec> types; std::vector<std::pair<uint32_t, uint32_t>> consts; // id, type
			std::vector<uint32_t> values; // constants, variables, undefs
			std::vector<uint32_t> allIds, strings, funcs, labels, locals; std::vector<std::pair<uint32_t, std::string>> sets;
			std::map<uint32_t, uint32_t> typeOf; std::map<uint32_t, std::vector<uint32_t>> intConsts;
			std::vector<const OInstr*> bodyOps, specOps;
			Gen(pbt::Src& src, const Opts& opt) : s(src), o(opt)
			{
				for (auto& i : o_core())
				{
					if (spv_ref::instr(i.op) != &i || newer(i.name)) continue;
					std::string n = i.name; bool spec = false; for (auto& x : i.operands) if (x.kind == K_LiteralSpecConstantOpInteger || x.kind == K_LiteralContextDependentNumber) spec = true;
					if (n.compare(0, 6, "OpType") == 0 || n.compare(0, 10, "OpConstant") == 0 || n.compare(0, 14, "OpSpecConstant") == 0 || spec || isTerminator(i.op)) continue;
					switch (i.op) { case 2: case 3: case 4: case 5: case 6: case 7: case 8: case 317: case 10: case 11: case 12: case 14: case 15: case 16: case 331: case 17: case 54: case 55: case 56: case 248: case 330: case 71: case 72: case 73: case 74: case 75: case 332: case 5632: case 5633: case 245: continue; default: break; }
					if (n == "OpConditionalExtensionINTEL" || n.find("StructContinued") != std::string::npos) continue;
					bodyOps.push_back(&i);
					bool ok = i.operands.size() > 1 && i.operands[0].kind == K_IdResultType && i.operands[1].kind == K_IdResult; // candidates for OpSpecConstantOp
					if (ok) { switch (i.op) { case 126: case 127: case 128: case 130: case 132: case 134: case 135: case 137: case 138: case 139: case 194: case 195: case 196: case 197: case 198: case 199: case 200: case 79: case 81: case 82: case 164: case 165: case 166: case 167: case 168: case 169: case 170: case 171: case 172: case 173: case 174: case 175: case 176: case 177: case 178: case 179: case 113: case 114: case 115: case 110: case 111: case 112: case 65: case 66: case 67: case 70: case 124: specOps.push_back(&i); default: break; } }
				}
			}
			uint32_t id() { uint32_t r = next; next += 1 + (s.chance(1, 10) ? s.below(5) : 0); return r; }
			static Words make(uint32_t op, Words body) { body.insert(body.begin(), uint32_t(body.size() + 1) << 16 | op); return body; }
			static void cat(Words& a, const Words& b) { a.insert(a.end(), b.begin(), b.end()); }
			std::string text(bool empty = true)
			{
				static const char* const common[] = { "main", "a", "pos", "gl_Position", "name\nline", "\xc3\xa4\xe2\x82\xac", "with space", "quote\"x", "1234", "12345678", "%x" };
				if (s.coin()) return s.pick(common);
				std::string r; uint32_t n = (empty ? 0 : 1) + s.below(14); for (uint32_t i = 0; i < n; ++i) { uint32_t k = s.below(40); r += k < 26 ? char('a' + k) : k < 36 ? char('0' + k - 26) : k == 36 ? '_' : k == 37 ? ' ' : k == 38 ? '\xc3' : '"'; if (r.back() == '\xc3') r += '\xa4'; } return r;
			}
			uint32_t anyId() { uint32_t k = s.below(uint32_t(values.size() + locals.size() + (types.empty() ? 0 : 1) + 1)); if (k < locals.size()) return locals[locals.size() - 1 - k]; k -= uint32_t(locals.size()); if (k < values.size()) return values[k]; return types[s.below(uint32_t(types.size()))].id; }
			uint32_t typeId() { return types[s.below(uint32_t(types.size()))].id; }
			uint32_t valueType() { for (int t = 0; t < 8; ++t) { auto& x = s.pick(types); if (x.op != 33 && x.op != 19 && x.op != 39) return x.id; } return types[1].id; }
			void enumOperand(Words& w, const OKindInfo& k)
			{
				std::vector<const OEnum*> es; for (auto& e : k.enums) if (!newer((std::string(k.name) + "." + e.name).c_str())) es.push_back(&e);
				std::vector<const OEnum*> chosen;
				if (k.cat == 'V') { chosen.push_back(s.pick(es)); w.push_back(chosen[0]->value); }
				else
				{
					uint32_t v = 0, n = s.weighted({ 3, 4, 2, 1 }); std::map<uint32_t, const OEnum*> bits;
					for (uint32_t i = 0; i < n; ++i) { auto* e = s.pick(es); if (e->value && (e->value & (e->value - 1)) == 0) { bits.emplace(e->value, e); v |= e->value; } }
					w.push_back(v); for (auto& b : bits) chosen.push_back(b.second);
					if (bits.size() > 1) { ++out.shape["mask with several bits"]; for (auto& b : bits) if (!b.second->params.empty()) { ++out.shape["mask with several bits and parameters"]; break; } }
				}
				for (auto* e : chosen) for (auto& p : e->params) { ++out.shape["enum parameter"]; operand(w, p); }
			}
			void one(Words& w, OKind kk)
			{
				const OKindInfo& k = kind(kk);
				switch (k.cat)
				{
				case 'V': case 'B': enumOperand(w, k); return;
				case 'C': for (OKind b : k.bases) one(w, b); return;
				case 'I': w.push_back(anyId()); return;
				default: break;
				}
				switch (kk) { case K_LiteralString: { cat(w, packString(text())); ++out.shape["string operand"]; return; } default: w.push_back(s.word()); }
			}
			void operand(Words& w, const OOperand& op) { if (op.quant == '1') one(w, op.kind); else if (op.quant == '?') { if (s.coin()) one(w, op.kind); } else { uint32_t n = s.weighted({ 2, 3, 2, 1, 1 }); for (uint32_t i = 0; i < n; ++i) one(w, op.kind); } }
			// operands from index k on; an absent optional operand ends the instruction
			void operandList(Words& w, const std::vector<OOperand>& l, size_t k)
			{
				for (; k < l.size(); ++k)
				{
					if (l[k].quant == '?') { if (!s.coin()) return; one(w, l[k].kind); ++out.shape["optional operand"]; }
					else if (l[k].quant == '*') { uint32_t n = s.weighted({ 2, 3, 2, 1, 1 }); for (uint32_t i = 0; i < n; ++i) { one(w, l[k].kind); ++out.shape["repeated operand"]; } }
					else one(w, l[k].kind);
				}
			}
			// ------------------------------------------------------------------------------------------------ types
			std::set<std::vector<uint32_t>> uniq;
			void addType(TypeRec t, const Words& body, bool aggregate)
			{
				std::vector<uint32_t> key = body; key.insert(key.begin(), t.op);
				if (!aggregate && !uniq.insert(key).second) return;
				t.id = id(); Words w{ t.id }; cat(w, body); globals.push_back(make(t.op, w)); types.push_back(t); allIds.push_back(t.id);
			}
			const TypeRec* findType(uint32_t i) const { for (auto& t : types) if (t.id == i) return &t; return nullptr; }
			const TypeRec* pickType(const std::function<bool(const TypeRec&)>& f) { std::vector<const TypeRec*> v; for (auto& t : types) if (f(t)) v.push_back(&t); return v.empty() ? nullptr : s.pick(v); }
			static bool sized(const TypeRec& t) { return t.op != 19 && t.op != 33 && t.op != 39 && t.op != 25 + 1000; }
			void randomType()
			{
				switch (s.weighted({ 3, 3, 2, 3, 3, 4, 3, 3, 2, 2, 2, 2, 2, 1, 1 }))
				{
				case 0: { TypeRec t{ 0, 21 }; static const uint32_t iw[] = { 32, 8, 16, 64 }; t.width = s.pick(iw); t.sign = s.below(2); addType(t, { t.width, t.sign }, false); break; }
				case 1: { TypeRec t{ 0, 22 }; static const uint32_t fw[] = { 32, 16, 64 }; t.width = s.pick(fw); addType(t, { t.width }, false); break; }
				case 2: addType({ 0, 20 }, {}, false); break;
				case 3: if (auto* b = pickType([](auto& t) { return t.op == 21 || t.op == 22 || t.op == 20; })) { TypeRec t{ 0, 23 }; static const uint32_t counts[] = { 2, 3, 4, 8, 16 }; t.count = counts[s.weighted({ 4, 4, 4, 1, 1 })]; t.sub = { b->id }; addType(t, { b->id, t.count }, false); } break;
				case 4: if (auto* b = pickType([&](auto& t) { return t.op == 23 && t.count <= 4 && findType(t.sub[0])->op == 22; })) { TypeRec t{ 0, 24 }; t.count = 2 + s.below(3); t.sub = { b->id }; addType(t, { b->id, t.count }, false); } break;
				case 5: { uint32_t n = s.below(5); TypeRec t{ 0, 30 }; Words w; for (uint32_t i = 0; i < n; ++i) { uint32_t x = valueType(); t.sub.push_back(x); w.push_back(x); } addType(t, w, true); break; }
				case 6: { TypeRec t{ 0, 32 }; auto& k = kind(K_StorageClass); uint32_t sc = s.pick(k.enums).value; uint32_t x = s.chance(1, 6) ? typeId() : valueType(); t.sub = { x }; t.count = sc; addType(t, { sc, x }, true); break; }
				case 7: { auto* b = pickType(sized); // array
					std::vector<std::pair<uint32_t, uint32_t>> ls; for (auto& c : intConsts) for (auto x : c.second) ls.push_back({ x, c.first });
					if (b && !ls.empty()) { TypeRec t{ 0, 28 }; auto l = s.pick(ls); t.sub = { b->id }; t.lenConst = l.first; addType(t, { b->id, l.first }, true); } break; }
				case 8: if (auto* b = pickType(sized)) { TypeRec t{ 0, 29 }; t.sub = { b->id }; addType(t, { b->id }, true); } break;
				case 9: { TypeRec t{ 0, 33 }; uint32_t r = typeId(); Words w{ r }; t.sub = { r }; uint32_t n = s.below(4); for (uint32_t i = 0; i < n; ++i) { uint32_t x = valueType(); w.push_back(x); t.sub.push_back(x); } addType(t, w, false); break; }
				case 10: if (auto* b = pickType([](auto& t) { return t.op == 21 || t.op == 22 || t.op == 19; })) { TypeRec t{ 0, 25 }; t.sub = { b->id }; std::vector<uint32_t> dims; for (auto& e : kind(K_Dim).enums) dims.push_back(e.value); Words w{ b->id, s.pick(dims), s.below(3), s.below(2), s.below(2), s.below(3), s.pick(kind(K_ImageFormat).enums).value }; if (s.chance(1, 4)) { w.push_back(s.below(3)); ++out.shape["image access qualifier"]; } addType(t, w, false); } break;
				case 11: if (auto* b = pickType([](auto& t) { return t.op == 25; })) { TypeRec t{ 0, 27 }; t.sub = { b->id }; addType(t, { b->id }, false); } break;
				case 12: { static const uint32_t simple[] = { 26, 34, 35, 36, 37, 322, 327, 4472, 5341 }; addType({ 0, s.pick(simple) }, {}, false); break; }
				case 13: { static const uint32_t avc[] = { 5704, 5705, 5706, 5707, 5708, 5709, 5710, 5711, 5712, 5713, 5714, 5715, 5716 }; uint32_t op = s.pick(avc); auto* n = spv_ref::instr(op); if (n && n->operands.size() == 1) addType({ 0, op }, {}, false); break; }
				default: if (o.opaqueTypes && s.coin()) addType({ 0, 31 }, packString(text()), true); else addType({ 0, 38 }, { s.below(3) }, false); break;
				}
			}
			// ------------------------------------------------------------------------------------------------ constants
			void addConst(uint32_t op, uint32_t type, const Words& body)
			{
				uint32_t i = id(); Words w{ type, i }; cat(w, body); globals.push_back(make(op, w)); consts.push_back({ i, type }); values.push_back(i); allIds.push_back(i); typeOf[i] = type;
				auto* t = findType(type); if (t && t->op == 21 && (op == 43 || op == 50) && body[0] != 0) intConsts[type].push_back(i);
			}
			Words literal(const TypeRec& t) { uint32_t w = s.word(); if (t.width == 64) return { w, s.word() }; if (t.op == 21 && t.width < 32) { uint32_t m = (1u << t.width) - 1; w &= m; if (t.sign && (w >> (t.width - 1))) w |= ~m; } if (t.op == 22 && t.width == 16) w &= 0xffff; return { w }; }
			void randomConst()
			{
				switch (s.weighted({ 6, 2, 4, 2, 2, 2, 3, 3 }))
				{
				case 0: case 7: if (auto* t = pickType([](auto& t) { return t.op == 21 || t.op == 22; })) addConst(s.chance(1, 4) ? 50 : 43, t->id, literal(*t)); break;
				case 1: if (auto* t = pickType([](auto& t) { return t.op == 20; })) { static const uint32_t b[] = { 41, 42, 48, 49 }; addConst(s.pick(b), t->id, {}); } break;
				case 2: if (auto* t = pickType([](auto& t) { return t.op == 23 || t.op == 24 || t.op == 30 || t.op == 28; })) composite(*t); break;
				case 3: if (auto* t = pickType([](auto& t) { return t.op == 21 || t.op == 22 || t.op == 20 || t.op == 23 || t.op == 24 || t.op == 30 || t.op == 28 || t.op == 32; })) addConst(46, t->id, {}); break;
				case 4: if (auto* t = pickType([](auto& t) { return t.op == 26; })) addConst(45, t->id, { s.below(5), s.below(2), s.below(2) }); break;
				case 5: if (auto* t = pickType([](auto& t) { return t.op != 19 && t.op != 33; })) { uint32_t i = id(); globals.push_back(make(1, { t->id, i })); allIds.push_back(i); undefs.push_back({ i, t->id }); values.push_back(i); ++out.shape["global OpUndef"]; } break;
				case 6: specOp(); break;
				}
			}
			std::vector<std::pair<uint32_t, uint32_t>> undefs;
			void composite(const TypeRec& t)
			{
				std::vector<uint32_t> subs; if (t.op == 30) subs = t.sub; else { uint32_t n = t.count; if (t.op == 28) n = 1 + s.below(4); for (uint32_t i = 0; i < n; ++i) subs.push_back(t.sub[0]); }
				Words w; bool spec = s.chance(1, 4); if (subs.empty()) return;
				for (uint32_t x : subs) { std::vector<uint32_t> c; for (auto& k : consts) if (k.second == x) c.push_back(k.first); if (o.undefConstituents) for (auto& k : undefs) if (k.second == x) c.push_back(k.first); if (c.empty()) return; w.push_back(s.pick(c)); }
				addConst(spec ? 51 : 44, t.id, w); ++out.shape["constant composite"];
			}
			void specOp()
			{
				if (consts.empty() || specOps.empty()) return; auto* i = s.pick(specOps);
				auto* t = pickType([](auto& t) { return t.op == 21 || t.op == 22 || t.op == 20 || t.op == 23; }); if (!t) return;
				Words w{ i->op }; std::vector<uint32_t> sv; std::swap(sv, locals); auto old = values; values.clear(); for (auto& c : consts) values.push_back(c.first);
				for (size_t k = 2; k < i->operands.size(); ++k) { auto& op = i->operands[k]; if (op.kind == K_IdRef) { if (op.quant == '*') { uint32_t n = 1 + s.below(3); while (n--) w.push_back(s.pick(values)); } else w.push_back(s.pick(values)); } else { uint32_t n = op.quant == '*' ? s.below(4) : 1; while (n--) w.push_back(op.kind == K_LiteralInteger ? s.below(5) : s.word()); if (n) {} ++out.shape["OpSpecConstantOp with literals"]; } }
				values = old; locals = sv; 
				uint32_t r = id(); Words b{ t->id, r }; cat(b, w); globals.push_back(make(52, b)); allIds.push_back(r); values.push_back(r); typeOf[r] = t->id; ++out.shape["OpSpecConstantOp"]; specIds.push_back(r);
			}
			std::vector<uint32_t> specIds;
			void variable()
			{
				auto* p = pickType([](auto& t) { return t.op == 32 && t.count != 7; }); if (!p) return;
				uint32_t i = id(); Words w{ p->id, i, p->count }; if (s.chance(1, 3)) { std::vector<uint32_t> c; for (auto& k : consts) c.push_back(k.first); if (!c.empty()) { w.push_back(s.pick(c)); ++out.shape["variable initializer"]; } }
				globals.push_back(make(59, w)); values.push_back(i); allIds.push_back(i); typeOf[i] = p->id; ++out.shape["global variable"];
			}
			// ------------------------------------------------------------------------------------------------ functions
			void emit(const Words& w) { functions.push_back(w); }
			uint32_t result(uint32_t type) { uint32_t i = id(); locals.push_back(i); allIds.push_back(i); typeOf[i] = type; return i; }
			void bodyInstr()
			{
				if (s.chance(1, 8) && !sets.empty())
				{
					auto& st = s.pick(sets); const std::vector<OInstr>* v = st.second == "GLSL.std.450" ? &o_glsl() : st.second == "OpenCL.std" ? &o_opencl() : nullptr;
					uint32_t t = typeId(); Words w{ t, 0, st.first };
					if (v) { for (int tries = 0; tries < 10; ++tries) { auto& e = s.pick(*v); bool lit = false; for (auto& op : e.operands) lit |= kind(op.kind).cat != 'I'; if (lit && !o.extLiterals) continue; w.push_back(e.op); operandList(w, e.operands, 0); break; } if (w.size() == 3) return; }
					else { w.push_back(s.below(200)); uint32_t n = s.below(4); while (n--) w.push_back(anyId()); }
					w[1] = result(t); emit(make(12, w)); ++out.shape["OpExtInst"]; return;
				}
				if (s.chance(1, 12) && !strings.empty()) { if (s.coin()) emit(make(8, { s.pick(strings), s.below(1000), s.below(100) })); else emit(make(317, {})); ++out.shape["line information in a block"]; return; }
				if (s.chance(1, 12) && !labels.empty()) { uint32_t t = typeId(), n = s.below(4); Words w{ t, 0 }; while (n--) { w.push_back(anyId()); w.push_back(s.pick(labels)); } w[1] = result(t); emit(make(245, w)); ++out.shape["OpPhi"]; return; }
				const OInstr* i = s.pick(bodyOps); Words w; size_t k = 0; 
				if (i->op == 57) { if (funcs.empty()) return; uint32_t t = typeId(); w = { t, 0, s.pick(funcs) }; uint32_t n = s.below(4); while (n--) w.push_back(anyId()); w[1] = result(t); emit(make(57, w)); ++out.shape["OpFunctionCall"]; return; }
				uint32_t resultAt = ~0u, t = 0;
				if (k < i->operands.size() && i->operands[k].kind == K_IdResultType) { t = typeId(); w.push_back(t); ++k; }
				if (k < i->operands.size() && i->operands[k].kind == K_IdResult) { resultAt = uint32_t(w.size()); w.push_back(0); ++k; }
				if (i->op == 246 || i->op == 247) { w.push_back(s.pick(labels)); if (i->op == 246) w.push_back(s.pick(labels)); k = i->op == 246 ? 2 : 1; }
				operandList(w, i->operands, k);
				if (resultAt != ~0u) w[resultAt] = result(t);
				emit(make(i->op, w)); ++out.shape["body instruction"];
			}
			void terminator()
			{
				switch (s.weighted({ 3, 3, 3, 3, 3, 2, 2, 1 }))
				{
				case 0: emit(make(253, {})); break;
				case 1: emit(make(249, { s.pick(labels) })); break;
				case 2: { Words w{ anyId(), s.pick(labels), s.pick(labels) }; if (s.chance(1, 3)) { w.push_back(s.word()); w.push_back(s.word()); ++out.shape["branch weights"]; } emit(make(250, w)); break; }
				case 3: { // switch over an integer value: literals have the width of the selector
					std::vector<uint32_t> sel; for (auto& v : values) { auto it = typeOf.find(v); if (it == typeOf.end()) continue; auto* t = findType(it->second); if (t && t->op == 21 && (t->width <= 32 || o.wideSwitch)) sel.push_back(v); } for (auto& v : locals) { auto* t = findType(typeOf[v]); if (t && t->op == 21 && (t->width <= 32 || o.wideSwitch)) sel.push_back(v); }
					if (sel.empty()) { emit(make(255, {})); break; }
					uint32_t v = s.pick(sel); auto* t = findType(typeOf[v]); Words w{ v, s.pick(labels) }; uint32_t n = s.below(4); while (n--) { cat(w, literal(*t)); w.push_back(s.pick(labels)); } emit(make(251, w)); ++out.shape[t->width == 64 ? "OpSwitch 64" : "OpSwitch"]; break; }
				case 4: emit(make(254, { anyId() })); break;
				case 5: emit(make(255, {})); break;
				case 6: emit(make(252, {})); break;
				default: { static const uint32_t more[] = { 4416, 4448, 4449, 5294 }; uint32_t op = s.pick(more); if (op == 5294) { Words w{ anyId(), anyId(), anyId() }; if (s.coin()) w.push_back(anyId()); emit(make(op, w)); } else emit(make(op, {})); ++out.shape["less common terminator"]; } }
			}
			void localVariable()
			{
				auto* p = pickType([](auto& t) { return t.op == 32 && t.count == 7; }); if (!p) return;
				Words w{ p->id, result(p->id), 7 }; if (s.chance(1, 3)) { std::vector<uint32_t> c; for (auto& k : consts) c.push_back(k.first); if (!c.empty()) w.push_back(s.pick(c)); }
				emit(make(59, w)); ++out.shape["local variable"];
			}
			void function(uint32_t fid, const TypeRec& ft, bool body, uint32_t blocks)
			{
				locals.clear(); labels.clear();
				if (o.functionLines && !strings.empty() && s.chance(1, 3)) emit(make(8, { s.pick(strings), 1, 2 }));
				Words w{ ft.sub[0], fid }; enumOperand(w, kind(K_FunctionControl)); w.push_back(ft.id); emit(make(54, w));
				for (size_t p = 1; p < ft.sub.size(); ++p) { uint32_t r = result(ft.sub[p]); emit(make(55, { ft.sub[p], r })); }
				if (body)
				{
					for (uint32_t b = 0; b < blocks; ++b) { uint32_t l = id(); labels.push_back(l); allIds.push_back(l); }
					auto ls = labels;
					for (uint32_t l : ls) { emit(make(248, { l })); if (l == ls[0] && s.chance(1, 4)) for (uint32_t k = s.range(1, 2); k > 0; --k) localVariable(); uint32_t n = s.below(uint32_t(o.maxBody + 1)); while (n--) bodyInstr(); terminator(); }
				}
				else ++out.shape["function declaration"];
				emit(make(56, {}));
			}
			// ------------------------------------------------------------------------------------------------ whole module
			void decoration()
			{
				auto& dk = kind(K_Decoration); std::vector<const OEnum*> plain, ids, strs;
				for (auto& e : dk.enums) { if (newer(("Decoration." + std::string(e.name)).c_str())) continue; bool i = false, st = false; for (auto& p : e.params) { i |= kind(p.kind).cat == 'I'; st |= p.kind == K_LiteralString; } if (i) ids.push_back(&e); else if (st && std::string(e.name) == "UserSemantic") strs.push_back(&e); else plain.push_back(&e); }
				auto deco = [&](Words& w, const std::vector<const OEnum*>& v) { auto* e = s.pick(v); w.push_back(e->value); for (auto& p : e->params) operand(w, p); if (!e->params.empty()) ++out.shape["decoration with parameters"]; };
				std::vector<const TypeRec*> structs; for (auto& t : types) if (t.op == 30 && !t.sub.empty()) structs.push_back(&t);
				switch (s.weighted({ 6, 4, 2, 2, 2, 1 }))
				{
				case 0: { Words w{ s.pick(allIds) }; deco(w, plain); decos.push_back(make(71, w)); break; }
				case 1: if (!structs.empty()) { auto* t = s.pick(structs); Words w{ t->id, s.below(uint32_t(t->sub.size())) }; deco(w, plain); decos.push_back(make(72, w)); } break;
				case 2: if (!ids.empty()) { auto sv = locals; locals.clear(); Words w{ s.pick(allIds) }; deco(w, ids); locals = sv; decos.push_back(make(332, w)); ++out.shape["OpDecorateId"]; } break;
				case 3: if (!strs.empty()) { Words w{ s.pick(allIds) }; deco(w, strs); decos.push_back(make(5632, w)); ++out.shape["OpDecorateString"]; } break;
				case 4: if (!strs.empty() && !structs.empty()) { auto* t = s.pick(structs); Words w{ t->id, s.below(uint32_t(t->sub.size())) }; deco(w, strs); decos.push_back(make(5633, w)); ++out.shape["OpMemberDecorateString"]; } break;
				default: { uint32_t g = id(); decos.push_back(make(73, { g })); Words w{ g }; uint32_t n = s.below(3); if (s.coin()) { while (n--) w.push_back(s.pick(allIds)); decos.push_back(make(74, w)); } else if (!structs.empty()) { while (n--) { auto* t = s.pick(structs); w.push_back(t->id); w.push_back(s.below(uint32_t(t->sub.size()))); } decos.push_back(make(75, w)); } ++out.shape["decoration group"]; }
				}
			}
			void run()
			{
				uint32_t version = 0x10000 | s.below(7) << 8;
				uint32_t n = s.below(5); std::set<uint32_t> cs; while (n--) { std::vector<uint32_t> v; for (auto& e : kind(K_Capability).enums) if (!newer((std::string("Capability.") + e.name).c_str())) v.push_back(e.value); uint32_t c = s.pick(v); if (cs.insert(c).second) caps.push_back(make(17, { c })); }
				n = s.below(4); std::set<std::string> es; while (n--) { std::string e = s.coin() ? "SPV_KHR_16bit_storage" : "SPV_" + text(); if (es.insert(e).second) exts.push_back(make(10, packString(e))); }
				n = s.below(4); std::set<std::string> is; while (n--) { static const char* const sets_[] = { "GLSL.std.450", "OpenCL.std", "NonSemantic.DebugPrintf", "NonSemantic.Shader.DebugInfo.100" }; std::string e = s.pick(sets_); if (is.insert(e).second || o.dupImports) { uint32_t i = id(); Words w{ i }; cat(w, packString(e)); imports.push_back(make(11, w)); sets.push_back({ i, e }); allIds.push_back(i); } }
				{ Words w; enumOperand(w, kind(K_AddressingModel)); enumOperand(w, kind(K_MemoryModel)); model.push_back(make(14, w)); }
				n = s.below(4); while (n--) { uint32_t i = id(); Words w{ i }; cat(w, packString(text())); debug.push_back(make(7, w)); strings.push_back(i); allIds.push_back(i); }
				n = s.below(3); while (n--) switch (s.below(3)) { case 0: debug.push_back(make(4, packString(text()))); break; default: { Words w; enumOperand(w, kind(K_SourceLanguage)); w.push_back(s.word()); if (!strings.empty() && s.coin()) { w.push_back(s.pick(strings)); if (s.coin()) { cat(w, packString(text())); debug.push_back(make(3, w)); if (s.coin()) debug.push_back(make(2, packString(text()))); break; } } debug.push_back(make(3, w)); } }
				// types, constants, variables
				addType({ 0, 19 }, {}, false); { TypeRec t{ 0, 21 }; t.width = 32; addType(t, { 32, 0 }, false); } { TypeRec t{ 0, 33 }; t.sub = { types[0].id }; addType(t, { types[0].id }, false); }
				n = 2 + s.below(o.mayBeLarge ? 24 : 8); while (n--) switch (s.weighted({ 5, 4, 2, 1 })) { case 0: randomType(); break; case 1: randomConst(); break; case 2: variable(); break; default: if (o.globalLines && !strings.empty()) globals.push_back(make(8, { s.pick(strings), s.below(99), s.below(9) })); break; }
				// functions: ids first, so that calls and entry points can refer to any of them
				uint32_t nf = s.weighted({ 2, 4, 3, 2, 1 }); struct F { uint32_t id; TypeRec t; bool body; bool ep; }; std::vector<F> fs;
				for (uint32_t i = 0; i < nf; ++i) { F f; f.id = id(); std::vector<const TypeRec*> ft; for (auto& t : types) if (t.op == 33) ft.push_back(&t); f.t = *s.pick(ft); f.body = !s.chance(1, 5); f.ep = f.body && s.chance(1, 2); fs.push_back(f); funcs.push_back(f.id); allIds.push_back(f.id); }
				for (auto& f : fs) if (!f.body) function(f.id, f.t, false, 0);
				for (auto& f : fs) if (f.body) function(f.id, f.t, true, 1 + s.below(4));
				locals.clear();
				for (auto& f : fs) if (f.ep)
				{
					std::vector<uint32_t> vars; for (auto& v : values) { auto it = typeOf.find(v); if (it != typeOf.end()) if (auto* t = findType(it->second)) if (t->op == 32) vars.push_back(v); }
					uint32_t m = 1 + (o.sharedEntryPoint ? s.below(2) : 0);
					while (m--) { Words w; enumOperand(w, kind(K_ExecutionModel)); w.push_back(f.id); cat(w, packString(text(false))); uint32_t k = s.below(4); while (k-- && !vars.empty()) w.push_back(s.pick(vars)); eps.push_back(make(15, w)); ++out.shape["entry point"]; }
					std::vector<const OEnum*> pm, im; for (auto& e : kind(K_ExecutionMode).enums) { if (newer((std::string("ExecutionMode.") + e.name).c_str())) continue; bool i = false; for (auto& p : e.params) i |= kind(p.kind).cat == 'I'; (i ? im : pm).push_back(&e); }
					uint32_t k = s.below(4); while (k--) { bool i = !im.empty() && s.chance(1, 4); auto* e = s.pick(i ? im : pm); Words w{ f.id, e->value }; for (auto& p : e->params) operand(w, p); modes.push_back(make(i ? 331 : 16, w)); ++out.shape["execution mode"]; }
				}
				n = s.below(5); std::set<std::pair<uint32_t, uint32_t>> named;
				while (n--) { bool member = s.chance(1, 3); std::vector<const TypeRec*> st; for (auto& t : types) if (t.op == 30 && !t.sub.empty()) st.push_back(&t); if (member && !st.empty()) { auto* t = s.pick(st); uint32_t m = s.below(uint32_t(t->sub.size())); if (named.insert({ t->id, m }).second) { Words w{ t->id, m }; cat(w, packString(text())); names.push_back(make(6, w)); ++out.shape["member name"]; } } else { uint32_t i = s.pick(allIds); if (named.insert({ i, ~0u }).second) { Words w{ i }; cat(w, packString(text())); names.push_back(make(5, w)); ++out.shape["name"]; } } }
				n = s.below(2); while (n--) processed.push_back(make(330, packString(text())));
				n = s.below(6); while (n--) decoration();
				uint32_t bound = next + s.below(3);
				out.words = { 0x07230203u, version, s.word(), bound, 0 };
				for (auto* v : { &caps, &exts, &imports, &model, &eps, &modes, &debug, &names, &processed, &decos, &globals, &functions }) for (auto& w : *v) cat(out.words, w);
			}
		};
	}
	Out generate(pbt::Src& s, const Opts& o) { Gen g(s, o); g.run(); return g.out; }
}
