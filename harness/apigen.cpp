#include "apigen.h"
namespace ag
{
	using namespace spvgentwo;
	namespace sg = spvgentwo;
	static std::string n(uint64_t v) { return std::to_string(v); }

	// ---------------------------------------------------------------- comparison
	static uint32_t idOf(const Instruction* i) { return uint32_t(i->getResultId()); }
	static std::vector<uint32_t> flat(const spv_ref::Inst& i) { std::vector<uint32_t> r; for (auto& o : i.ops) r.insert(r.end(), o.w.begin(), o.w.end()); return r; }
	static std::string cmpInst(const EInst& x, const std::vector<const spv_ref::Inst*>& blk, size_t pos, const spv_ref::Mod& m)
	{
		const spv_ref::Inst& d = *blk[pos];
		auto* nm = spv_ref::instr(d.op); std::string where = x.what + ": ";
		if (d.op != x.op) return where + "opcode " + n(x.op) + " expected, found " + n(d.op) + (nm ? std::string(" ") + nm->name : "");
		if (x.i && d.result && idOf(x.i) != d.result) return where + "result id is " + n(d.result) + ", the instruction handed out has " + n(idOf(x.i));
		if (x.res)
		{
			if (!d.type) return where + "no result type";
			TP t = decodeType(m, d.type);
			if (x.fit == Fit::Exact ? t->key() != x.res->key() : t->key(true) != x.res->key(true)) return where + "result type " + t->key() + " instead of " + x.res->key();
		}
		else if (x.fit != Fit::Any && d.type) return where + "unexpected result type";
		if (x.anyOps) return "";
		std::vector<uint32_t> w = flat(d); size_t at = 0;
		for (size_t k = 0; k < x.ops.size(); ++k)
		{
			const EOp& o = x.ops[k]; auto bad = [&](const std::string& s) { return where + "operand " + n(k) + ": " + s; };
			if (o.k == EOp::Words) { for (auto v : o.w) { if (at >= w.size()) return bad("missing"); if (w[at] != v) return bad(n(w[at]) + " instead of " + n(v)); ++at; } continue; }
			if (at >= w.size()) return bad("missing");
			const uint32_t id = w[at++];
			switch (o.k)
			{
			case EOp::Ins: if (id != idOf(o.i)) return bad("id " + n(id) + " instead of " + n(idOf(o.i))); break;
			case EOp::Blk: if (id != idOf(o.b->getLabel())) return bad("block " + n(id) + " instead of " + n(idOf(o.b->getLabel()))); break;
			case EOp::Ty: if (decodeType(m, id)->key() != o.t->key()) return bad("type " + decodeType(m, id)->key() + " instead of " + o.t->key()); break;
			case EOp::Cst: if (decodeConst(m, id)->key() != o.c->key()) return bad("constant " + decodeConst(m, id)->key() + " instead of " + o.c->key()); break;
			case EOp::Idx: { CP c = decodeConst(m, id); if (c->k != CK::Scalar || !c->t->isInt() || c->words.empty() || c->words[0] != o.w[0]) return bad("index " + c->key() + " instead of " + n(o.w[0])); break; }
			case EOp::Rel: { const spv_ref::Inst* p = pos >= size_t(o.rel) ? blk[pos - o.rel] : nullptr; if (!p || !p->result || id != p->result) return bad("not the result of the instruction before"); break; }
			case EOp::Import: { auto* p = m.find(id); if (!p || p->op != 11 || p->str(0) != o.s) return bad("not the import of " + o.s); break; }
			default: break;
			}
		}
		if (at != w.size()) return where + n(w.size() - at) + " operand words too many";
		return "";
	}
	std::string compare(const Expected& e, const spv_ref::Mod& m)
	{
		size_t nfun = 0, nvar = 0, nund = 0, nep = 0, nmode = 0, ndeco = 0, nline = 0;
		std::map<uint32_t, size_t> fpos;
		std::multiset<std::string> modes, names, decos;
		bool inFn = false;
		for (size_t i = 0; i < m.insts.size(); ++i)
		{
			auto& d = m.insts[i];
			if (d.op == 54) { ++nfun; fpos[d.result] = i; inFn = true; }
			if (d.op == 56) inFn = false;
			if (inFn) continue;
			if (d.op == 59) ++nvar;
			if (d.op == 1) ++nund;
			if (d.op == 15) ++nep;
			if (d.op == 16 || d.op == 331) { ++nmode; std::string s = d.op == 331 ? "id:" : ""; for (auto w : flat(d)) s += n(w) + ","; modes.insert(s); }
			if (d.op == 8 || d.op == 317) { if (nline >= e.lines.size() || d.op != e.lines[nline].op) return "module scope line " + n(nline); auto& x = e.lines[nline]; const auto w = flat(d); if (w.size() != x.ops.size()) return "operands of module scope line " + n(nline); for (size_t k = 0; k < w.size(); ++k) if (w[k] != (k ? x.ops[k].w[0] : idOf(x.ops[k].i))) return "operand " + n(k) + " of module scope line " + n(nline); ++nline; }
			if (d.op == 5) names.insert(n(d.w(0)) + "/-1/" + d.str(1));
			if (d.op == 6) names.insert(n(d.w(0)) + "/" + n(d.w(1)) + "/" + d.str(2));
			if (d.op == 71 || d.op == 72 || d.op == 332) { ++ndeco; std::string s = n(d.op); for (auto w : flat(d)) s += "," + n(w); decos.insert(s); }
		}
		if (nfun != e.funcs.size()) return n(nfun) + " functions instead of " + n(e.funcs.size());
		if (nvar != e.globals.size()) return n(nvar) + " global variables instead of " + n(e.globals.size());
		if (nund != e.undefs.size()) return n(nund) + " module scope undefs instead of " + n(e.undefs.size());
		for (auto& c : e.consts) { CP d = decodeConst(m, idOf(c.first)); if (d->key() != c.second->key()) return "constant " + c.second->key() + " is declared as " + d->key(); }
		for (auto& t : e.types) { TP d = decodeType(m, idOf(t.first)); if (d->key() != t.second->key()) return "type " + t.second->key() + " is declared as " + d->key(); }
		for (auto& x : e.specOps) { auto* d = m.find(idOf(x.i)); if (!d) return x.what + " not declared"; std::vector<const spv_ref::Inst*> one{ d }; auto r = cmpInst(x, one, 0, m); if (!r.empty()) return r; }
		for (auto& u : e.undefs) { auto* d = m.find(idOf(u.first)); if (!d || d->op != 1 || decodeType(m, d->type)->key() != u.second->key()) return "undef of " + u.second->key(); }
		auto variable = [&](const EVar& v) -> std::string {
			auto* d = m.find(idOf(v.i)); if (!d || d->op != 59) return "variable of " + v.t->key() + " not declared";
			if (decodeType(m, d->type)->key() != tPtr(v.sc, v.t)->key()) return "variable has type " + decodeType(m, d->type)->key() + " instead of " + tPtr(v.sc, v.t)->key();
			auto w = flat(*d); if (w[0] != v.sc) return "variable has storage class " + n(w[0]) + " instead of " + n(v.sc);
			if (v.init ? w.size() != 2 || w[1] != idOf(v.init) : w.size() != 1) return "variable of " + v.t->key() + " has the wrong initializer";
			return ""; };
		for (auto& v : e.globals) { auto r = variable(v); if (!r.empty()) return "global " + r; }
		size_t expEp = 0, expModes = 0;
		for (auto& f : e.funcs)
		{
			std::string where = "function " + f.name + ": ";
			auto it = fpos.find(idOf(f.f->getFunction())); if (it == fpos.end()) return where + "not found";
			size_t p = it->second; const auto& d = m.insts[p];
			if (decodeType(m, d.type)->key() != f.ret->key()) return where + "returns " + decodeType(m, d.type)->key() + " instead of " + f.ret->key();
			if (d.w(0) != f.control) return where + "function control";
			TP ft = tFunc(f.ret, f.params); if (decodeType(m, d.w(1))->key() != ft->key()) return where + "type " + decodeType(m, d.w(1))->key() + " instead of " + ft->key();
			++p;
			for (size_t k = 0; k < f.params.size(); ++k, ++p)
			{
				if (p >= m.insts.size() || m.insts[p].op != 55) return where + "parameter missing";
				if (m.insts[p].result != idOf(f.args[k]) || decodeType(m, m.insts[p].type)->key() != f.params[k]->key()) return where + "parameter " + n(k);
			}
			std::map<uint32_t, std::vector<const spv_ref::Inst*>> blocks; uint32_t cur = 0, first = 0; std::vector<const spv_ref::Inst*> vars;
			for (; p < m.insts.size() && m.insts[p].op != 56; ++p)
			{
				if (m.insts[p].op == 248) { cur = m.insts[p].result; if (!first) first = cur; if (blocks.count(cur)) return where + "block twice"; blocks[cur]; continue; }
				if (!cur) return where + "instruction outside of a block";
				if (m.insts[p].op == 59) { if (cur != first || !blocks[cur].empty()) return where + "variable not at the start of the function"; vars.push_back(&m.insts[p]); continue; }
				blocks[cur].push_back(&m.insts[p]);
			}
			if (vars.size() != f.vars.size()) return where + n(vars.size()) + " variables instead of " + n(f.vars.size());
			for (auto& v : f.vars) { auto r = variable(v); if (!r.empty()) return where + r; bool in = false; for (auto* x : vars) in |= x->result == idOf(v.i); if (!in) return where + "variable declared elsewhere"; }
			if (blocks.size() != f.blocks.size()) return where + n(blocks.size()) + " blocks instead of " + n(f.blocks.size());
			if (!f.blocks.empty() && first != idOf(f.blocks[0].bb->getLabel())) return where + "does not start with its entry block";
			for (auto& b : f.blocks)
			{
				auto bi = blocks.find(idOf(b.bb->getLabel())); if (bi == blocks.end()) return where + "block missing";
				for (size_t k = 0; k < b.insts.size() || k < bi->second.size(); ++k)
				{
					if (k >= bi->second.size()) return where + "instruction missing: " + b.insts[k].what;
					if (k >= b.insts.size()) { auto* nm = spv_ref::instr(bi->second[k]->op); return where + "instruction never requested: " + (nm ? nm->name : "?"); }
					auto r = cmpInst(b.insts[k], bi->second, k, m); if (!r.empty()) return where + r;
				}
			}
			if (f.entry)
			{
				++expEp; bool found = false;
				for (auto& x : m.insts) if (x.op == 15 && x.w(1) == idOf(f.f->getFunction())) { found = true; if (x.w(0) != f.model) return where + "execution model"; if (x.str(2) != f.name) return where + "entry point name " + x.str(2); }
				if (!found) return where + "no entry point";
				for (auto& md : f.modes) { ++expModes; std::string s = n(idOf(f.f->getFunction())) + "," + n(md.first) + ","; for (auto w : md.second) s += n(w) + ","; auto z = modes.find(s); if (z == modes.end()) return where + "execution mode " + s; modes.erase(z); }
				for (auto& md : f.modeIds) { ++expModes; std::string s = "id:" + n(idOf(f.f->getFunction())) + "," + n(md.first) + ","; for (auto i : md.second) s += n(idOf(i)) + ","; auto z = modes.find(s); if (z == modes.end()) return where + "execution mode " + s; modes.erase(z); }
			}
		}
		if (nep != expEp) return "number of entry points"; if (nmode != expModes) return "number of execution modes"; if (nline != e.lines.size()) return "number of module scope lines";
		for (auto& x : e.names) { auto s = n(idOf(x.target)) + "/" + std::to_string(x.member) + "/" + x.name; auto z = names.find(s); if (z == names.end()) return "name missing: " + s; names.erase(z); }
		for (auto& x : e.decos) { std::string s = n(!x.ids.empty() ? 332 : x.member < 0 ? 71 : 72) + "," + n(idOf(x.target)); if (x.member >= 0) s += "," + n(x.member); s += "," + n(x.deco); for (auto w : x.lits) s += "," + n(w); for (auto i : x.ids) s += "," + n(idOf(i)); auto z = decos.find(s); if (z == decos.end()) return "decoration missing: " + s; decos.erase(z); }
		if (!decos.empty()) return "decoration never requested: " + *decos.begin();
		for (auto c : e.caps) { bool f = false; for (auto& x : m.insts) f |= x.op == 17 && x.w(0) == c; if (!f) return "capability " + n(c) + " missing"; }
		for (auto& c : e.exts) { bool f = false; for (auto& x : m.insts) f |= x.op == 10 && x.str(0) == c; if (!f) return "extension " + c + " missing"; }
		return "";
	}
	std::string compareInterfaces(const Expected& e, const spv_ref::Mod& m)
	{
		for (auto& f : e.funcs) if (f.entry)
		{
			std::set<const EFunc*> seen; std::vector<const EFunc*> todo{ &f }; std::set<uint32_t> want, got;
			while (!todo.empty())
			{
				const EFunc* c = todo.back(); todo.pop_back(); if (!seen.insert(c).second) continue;
				for (auto* x : c->calls) todo.push_back(x);
				for (auto* v : c->globals) for (auto& g : e.globals) if (g.i == v && (m.version >= 0x10400 || g.sc == 1 || g.sc == 3)) want.insert(idOf(v));
			}
			for (auto& x : m.insts) if (x.op == 15 && x.w(1) == idOf(f.f->getFunction()))
				for (size_t k = 3; k < x.ops.size(); ++k) if (!got.insert(x.w(k)).second) return "interface of " + f.name + " lists %" + n(x.w(k)) + " twice";
			for (auto v : want) if (!got.count(v)) return "interface of " + f.name + " lacks %" + n(v);
			for (auto v : got) if (!want.count(v)) return "interface of " + f.name + " lists %" + n(v) + ", which cannot be reached";
		}
		return "";
	}

	// ---------------------------------------------------------------- generator: values
	TP Gen::find(const std::function<bool(const T&)>& p)
	{
		if (scope.empty() || s.chance(1, 3)) return nullptr;
		std::vector<const Val*> c; for (auto& v : scope) if (p(*v.t)) c.push_back(&v);
		if (c.empty()) return nullptr;
		return s.pick(c)->t;
	}
	TP Gen::scalar(K k, std::initializer_list<uint32_t> ws, int sign)
	{
		static const uint32_t fw[] = { 32, 32, 32, 64, 16 }, iw[] = { 32, 32, 32, 64, 16, 8 };
		std::vector<uint32_t> w(ws);
		switch (k)
		{
		case K::Float: return tFloat(w.empty() ? s.pick(fw) : s.pick(w));
		case K::Int: { bool sg = sign < 0 ? s.coin() : sign == 1; if (o.kernel) sg = false; return tInt(w.empty() ? s.pick(iw) : s.pick(w), sg); }
		default: return tBool();
		}
	}
	TP Gen::sv(K k, std::initializer_list<uint32_t> ws, int sign)
	{
		TP t = find([&](const T& t) { if (!t.sv(k)) return false; if (k != K::Bool && ws.size()) { bool in = false; for (auto w : ws) in |= w == t.width(); if (!in) return false; } return k != K::Int || sign < 0 || t.e().s == (sign == 1); });
		if (t) return t;
		TP e = scalar(k, ws, sign);
		return s.coin() ? e : tVec(e, s.range(2, 4));
	}
	TP Gen::valueType(int depth)
	{
		TP t = find([](const T& t) { return t.comps() || t.mat() || t.k == K::Arr || t.k == K::Struct; });
		if (t) return t;
		TypeOpts to; to.matrices = !o.kernel;
		for (int i = 0; i < 20; ++i)
		{
			t = genType(s, to, depth);
			if (o.kernel && t->key().find('s') != std::string::npos) continue;
			std::function<bool(const T&)> ok = [&](const T& x) { if (x.k == K::Arr && x.n > 8) return false; for (auto& y : x.sub) if (!ok(*y)) return false; return true; };
			if (ok(*t)) return t;
		}
		return tFloat(32);
	}
	Instruction* Gen::typeI(const TP& t) { Instruction* i = requestType(m, *t, s); e.type(i, t); return i; }
	Instruction* Gen::constI(const CP& c) { Instruction* i = requestConst(m, *c, s); if (!c->spec) e.consts[i] = c; e.type(m.getTypeInstr(*i->getType()), c->t); return i; }
	std::string Gen::text()
	{
		static const char* part[] = { "a", "x", "main", "value", "_1", "position", "\xc3\xa4", "\xe6\x97\xa5", " ", "%", "\"", "0", "longer_name_", "v" };
		std::string r; uint32_t k = s.range(1, 5); for (uint32_t i = 0; i < k; ++i) r += s.pick(part); return r;
	}
	void Gen::name(Instruction* i) { if (!o.names || !s.chance(1, 3)) return; std::string t = text(); m.addName(i, t.c_str()); e.names.push_back({ i, -1, t }); }
	Instruction* Gen::value(const TP& t, bool konst)
	{
		if (t->k == K::Ptr)
		{
			if (t->sc == 7) { local(t->sub[0]); return scope.back().i; }
			return global(t->sub[0], t->sc, false);
		}
		std::vector<Instruction*> c; if (!konst && !s.chance(1, 5)) for (auto& v : scope) if (same(v.t, t)) c.push_back(v.i);
		if (!c.empty()) return s.pick(c);
		if (t->k == K::Image || t->k == K::Sampler || t->k == K::SampImg)
		{
			Instruction* p = pointer(t, false);
			EInst x; x.op = 61; x.res = t; x.ops = { EOp::ins(p), EOp::lit(0) }; x.what = "opLoad";
			Instruction* v = add(x, [&](BasicBlock& b) { return b->opLoad(p); }); scope.push_back({ t, v }); return v;
		}
		uint32_t r = konst ? 0 : s.weighted({ 6, 1, 2, t->scalar() && !o.kernel ? 1u : 0u });
		if (r == 3)
		{
			CP c = t->isBool() ? cBool(s.coin(), true) : cScalar(t, s.word64(), true); Instruction* i = requestConst(m, *c, s); e.consts[i] = c;
			if (s.coin()) { const uint32_t id = specIds++; m.addDecorationInstr()->opDecorate(i, spv::Decoration::SpecId, id); e.decos.push_back({ i, -1, 1, { id } }); }
			name(i); return i;
		}
		if (r == 2 && !o.kernel)
		{
			Instruction* p = pointer(t, false); EInst x; x.op = 61; x.res = t; x.ops = { EOp::ins(p), EOp::lit(0) }; x.what = "opLoad";
			Instruction* v = add(x, [&](BasicBlock& b) { return b->opLoad(p); }); scope.push_back({ t, v }); return v;
		}
		if (r == 1) { Instruction* ti = typeI(t); Instruction* u = m.addUndefInstr()->opUndef(ti); e.undefs.push_back({ u, t }); if (s.coin()) scope.push_back({ t, u }); return u; }
		return constI(genConst(s, t));
	}
	// types that C++ types name
	template <class Fn> static bool withCpp(const T& t, Fn f)
	{
		const std::string k = t.key(); auto is = [&](const TP& x) { return k == x->key(); }; const TP F = tFloat(32);
		if (is(F)) f(float()); else if (is(tInt(32, true))) f(int()); else if (is(tInt(32, false))) f(unsigned()); else if (is(tFloat(64))) f(double()); else if (is(tInt(16, true))) f(short()); else if (is(tInt(64, false))) f((unsigned long long)0);
		else if (is(tVec(F, 2))) f(const_vector_t<float, 2>()); else if (is(tVec(F, 3))) f(const_vector_t<float, 3>()); else if (is(tVec(F, 4))) f(const_vector_t<float, 4>()); else if (is(tVec(tInt(32, true), 2))) f(const_vector_t<int, 2>()); else if (is(tVec(tInt(32, false), 4))) f(const_vector_t<unsigned, 4>());
		else if (is(tMat(tVec(F, 3), 3))) f(const_matrix_t<float, 3, 3>()); else if (is(tMat(tVec(F, 2), 4))) f(const_matrix_t<float, 4, 2>());
		else return false;
		return true;
	}
	template <class X> static void fillCpp(pbt::Src& s, X& x) { unsigned char b[sizeof(X)]; for (auto& c : b) c = (unsigned char)s.below(256); memcpy((void*)&x, b, sizeof(X)); }
	template <class X> static CP modelOf(const TP& t, const X& x)
	{
		if constexpr (std::is_arithmetic_v<X>) { uint64_t b = 0; memcpy(&b, &x, sizeof(X)); return cScalar(t, b); }
		else { std::vector<CP> c; for (auto& d : x.data) c.push_back(modelOf(t->sub[0], d)); return cComp(t, c); }
	}
	Instruction* Gen::global(const TP& t, uint32_t sc, bool init)
	{
		EVar v; v.t = t; v.sc = sc;
		if (init) v.init = constI(genConst(s, t));
		std::string nm = o.names && s.coin() ? text() : ""; const char* np = nm.empty() ? nullptr : nm.c_str();
		const spv::StorageClass c = spv::StorageClass(sc);
		auto byClass = [&](auto z) { using X = decltype(z);
			if (init && s.coin()) { fillCpp(s, z); CP k = modelOf(t, z); switch (sc) { case 3: if (s.coin()) { v.i = m.output<X>(np, z); break; } [[fallthrough]]; default: v.i = m.variable(c, z, np); } v.init = m.constant(z); e.consts[v.init] = k; ++used["variable of a value"]; return; }
			switch (sc) { case 0: v.i = m.uniformConstant<X>(np, v.init); break; case 2: v.i = m.uniform<X>(np, v.init); break; case 1: v.i = m.input<X>(np, v.init); break; case 3: v.i = m.output<X>(np, v.init); break; case 9: v.i = m.pushConstant<X>(np, v.init); break; case 12: v.i = m.storageBuffer<X>(np, v.init); break; default: v.i = m.variable<X>(c, np, v.init); } ++used["variable of a C++ type"]; };
		auto dyn = [&](const T& i) { dyn_image_t d; const T& x = *i.sub[0]; d.sampledType = { x.isFloat() ? spv::Op::OpTypeFloat : spv::Op::OpTypeInt, x.w, x.s }; d.dimension = spv::Dim(i.dim); d.depth = i.depth; d.array = i.arrayed; d.multiSampled = i.ms; d.samplerAccess = SamplerImageAccess(i.sampled); d.format = spv::ImageFormat(i.format); if (i.access >= 0) d.accessQualifier = spv::AccessQualifier(i.access); return d; };
		if (!init && sc == 0 && t->k == K::SampImg && s.chance(1, 3)) { v.i = m.uniformConstant(np, dyn_sampled_image_t{ dyn(*t->sub[0]) }); ++used["variable of a description"]; }
		else if (!init && sc == 0 && t->k == K::Image && s.chance(1, 3)) { v.i = m.uniformConstant(np, dyn(*t)); ++used["variable of a description"]; }
		else if (!init && sc == 0 && t->k == K::Sampler && s.chance(1, 3)) { v.i = m.uniformConstant<sampler_t>(np); ++used["variable of a C++ type"]; }
		else if (s.chance(1, 3) && withCpp(*t, byClass)) {}
		else switch (s.below(4))
		{
		case 0: { TP p = tPtr(sc, t); v.i = m.variable(typeI(p), c, np, v.init); break; }
		case 1: { TP p = tPtr(sc, t); v.i = m.variable(toLib(m.getAllocator(), *p, s), c, np, v.init); break; }
		default:
		{
			Type x = toLib(m.getAllocator(), *t, s);
			switch (sc) { case 0: v.i = m.uniformConstant(x, np, v.init); break; case 2: v.i = m.uniform(x, np, v.init); break; case 1: v.i = m.input(x, np, v.init); break; case 3: v.i = m.output(x, np, v.init); break; case 9: v.i = m.pushConstant(x, np, v.init); break; case 12: v.i = m.storageBuffer(x, np, v.init); break; default: v.i = m.variable(x, c, np, v.init); }
		}
		}
		if (np) e.names.push_back({ v.i, -1, nm });
		e.globals.push_back(v); gptrs.push_back({ tPtr(sc, t), v.i });
		if (o.decorate && s.chance(1, 3))
		{
			uint32_t d = sc == 1 || sc == 3 ? 30 : sc == 0 || sc == 2 || sc == 12 ? (s.coin() ? 33 : 34) : 19; // Location, Binding, DescriptorSet, Restrict
			if (d != 19) { uint32_t l = s.below(8); m.addDecorationInstr()->opDecorate(v.i, spv::Decoration(d), l); e.decos.push_back({ v.i, -1, d, { l } }); }
		}
		return v.i;
	}
	static bool io(const T& t) { if (t.isBool()) return false; if ((t.isInt() || t.isFloat()) && t.w < 32) return false; for (auto& x : t.sub) if (!io(*x)) return false; return true; }
	static bool wr(uint32_t sc) { return sc == 7 || sc == 6 || sc == 3 || sc == 4 || sc == 12; }
	Instruction* Gen::pointer(const TP& t, bool writable)
	{
		std::vector<Instruction*> c;
		if (!s.chance(1, 6))
		{
			for (auto& v : scope) if (v.t->k == K::Ptr && same(v.t->sub[0], t) && (!writable || wr(v.t->sc))) c.push_back(v.i);
			for (auto& v : gptrs) if (same(v.t->sub[0], t) && (!writable || wr(v.t->sc))) c.push_back(v.i);
			if (!c.empty()) return s.pick(c);
		}
		if (t->k == K::Image || t->k == K::Sampler || t->k == K::SampImg) return global(t, 0, false);
		if (o.kernel || s.coin()) { local(t); return scope.back().i; }
		if (!io(*t)) return global(t, 6, s.chance(1, 3));
		static const uint32_t rd[] = { 6, 1, 2, 9, 12 }, w[] = { 6, 3, 4, 12 };
		uint32_t sc = writable ? s.pick(w) : s.pick(rd);
		const bool block = sc == 2 || sc == 9 || sc == 12;
		if (sc == 12 && minor < 3) sc = 6;
		if (block && sc != 6)
		{
			TP st = tStruct({ t, tFloat(32) }); Instruction* p = global(st, sc, false);
			EInst x; x.op = 65; x.res = tPtr(sc, t); x.ops = { EOp::ins(p), EOp::idx(0) }; x.what = "opAccessChain";
			Instruction* a = add(x, [&](BasicBlock& b) { return b->opAccessChain(p, 0u); }); scope.push_back({ x.res, a }); return a;
		}
		return global(t, sc, sc == 6 && s.chance(1, 3));
	}
	void Gen::local(const TP& t)
	{
		EVar v; v.t = t; v.sc = 7; if (s.chance(1, 3)) v.init = constI(genConst(s, t));
		std::string nm = o.names && s.coin() ? text() : ""; const char* np = nm.empty() ? nullptr : nm.c_str();
		const bool byValue = s.coin(); auto cpp = [&](auto z) { using X = decltype(z); if (byValue && v.init) { fillCpp(s, z); v.init = m.constant(z); e.consts[v.init] = modelOf(t, z); v.i = fn->f->variable(z, np); ++used["local of a value"]; } else { v.i = fn->f->variable<X>(np, v.init); ++used["local of a C++ type"]; } };
		if (s.chance(1, 3) && withCpp(*t, cpp)) {}
		else switch (s.below(4))
		{
		case 0: { TP p = tPtr(7, t); v.i = fn->f->variable(typeI(p), np, v.init); break; }
		case 1: { TP p = tPtr(7, t); v.i = fn->f->variable(toLib(m.getAllocator(), *p, s), np, v.init); break; }
		case 2: if (t->isFloat() && t->w == 32) { v.i = fn->f->variable<float>(np, v.init); break; } if (t->isInt() && t->w == 32 && t->s) { v.i = fn->f->variable<int>(np, v.init); break; } // else fall through
		default: v.i = fn->f->variable(toLib(m.getAllocator(), *t, s), np, v.init);
		}
		if (np) e.names.push_back({ v.i, -1, nm });
		fn->vars.push_back(v);
		// declared at the start of the function, visible everywhere, but the enclosing construct may already drop it from the scope
		scope.push_back({ tPtr(7, t), v.i });
	}

	// ---------------------------------------------------------------- instructions
	void Gen::use(Instruction* i) { for (auto& g : gptrs) if (g.i == i) fn->globals.insert(i); }
	Instruction* Gen::add(EInst x, const std::function<Instruction*(BasicBlock&)>& call)
	{
		const size_t before = blk->bb->size(); BasicBlock& b = *blk->bb;
		if (wantTrace) trace += x.what + " ";
		Instruction* r = call(b);
		CHECK_SIG(r != nullptr && !r->isErrorInstr(), "rejected " + x.what, x.what + " is well-typed but was rejected: " + log.text);
		const size_t vars = 0; (void)vars;
		CHECK_SIG(b.size() == before + 1 && &b.back() == r, "placement " + x.what, x.what + " did not append one instruction");
		x.i = r; for (auto& op : x.ops) if (op.k == EOp::Ins) use(op.i);
		++ops; ++used[x.what];
		blk->insts.push_back(std::move(x)); return r;
	}
	bool Gen::tableOp(const OpDef& d)
	{
		Call c; if (!d.gen(*this, c)) return false;
		Verdict v = d.spec(c);
		if (!v.legal || !v.must) return false;
		std::vector<Instruction*> a; for (auto& t : c.at) a.push_back(value(t));
		EInst x; x.op = d.ext ? 12 : v.op ? v.op : d.op; x.res = v.res; x.fit = v.fit; x.what = d.name;
		if (d.ext) { x.ops.push_back(EOp::import("GLSL.std.450")); x.ops.push_back(EOp::lit(d.op)); }
		if (v.order.empty()) for (auto* i : a) x.ops.push_back(EOp::ins(i)); else for (int k : v.order) x.ops.push_back(EOp::ins(a[k]));
		if (!d.raw) for (auto l : c.lits) x.ops.push_back(EOp::lit(l));
		if (d.typeFirst) { a.insert(a.begin(), typeI(c.tp)); }
		Instruction* r = add(x, [&](BasicBlock& b) { return d.call(b, a, c); });
		name(r);
		if (o.decorate && x.res->sv(K::Float) && x.res->width() == 32 && s.chance(1, 12) && !o.kernel) { m.addDecorationInstr()->opDecorate(r, spv::Decoration::RelaxedPrecision); e.decos.push_back({ r, -1, 0, {} }); }
		if (o.decorate && o.more && minor >= 4 && !o.kernel && s.chance(1, 12)) { CP k = cScalar(tInt(32, false), 2 + s.below(2)); Instruction* sc = requestConst(m, *k, s); e.consts[sc] = k; m.addDecorationInstr()->opDecorateId(r, spv::Decoration::UniformId, sc); e.decos.push_back({ r, -1, 27, {}, { sc } }); }
		TP rt = v.res; if (v.fit != Fit::Exact) rt = fromLib(*r->getType());
		scope.push_back({ rt, r });
		return true;
	}
	// replaces one thing about a call by something related
	bool Gen::mutate(Call& c)
	{
		auto other = [&](const TP& t) -> TP
		{
			const T& x = *t;
			for (int k = 0; k < 20; ++k) switch (s.below(13))
			{
			case 0: if (x.sv(K::Int) && !o.kernel) return like(x, tInt(x.width(), !x.e().s)); break;
			case 1: if (x.sv(K::Int)) { static const uint32_t w[] = { 8, 16, 32, 64 }; return like(x, tInt(s.pick(w), x.e().s)); } break;
			case 2: if (x.sv(K::Float)) { static const uint32_t w[] = { 16, 32, 64 }; return like(x, tFloat(s.pick(w))); } break;
			case 3: if (x.comps()) return like(x, s.coin() ? tFloat(x.isBool() ? 32 : std::max(16u, x.width())) : tInt(x.width() ? x.width() : 32, !o.kernel && s.coin())); break;
			case 4: if (x.comps()) return like(x, tBool()); break;
			case 5: if (x.vec()) return x.sub[0]; if (x.scalar()) return tVec(t, s.range(2, 4)); break;
			case 6: if (x.vec()) return tVec(x.sub[0], s.range(2, 4)); break;
			case 7: if (x.mat()) return s.coin() ? x.sub[0] : tMat(tVec(x.sub[0]->sub[0], s.range(2, 4)), s.range(2, 4)); if (x.vec() && x.sv(K::Float)) return tMat(t, s.range(2, 4)); break;
			case 8: return tStruct({ t });
			case 9: return tArr(t, s.range(1, 4));
			case 10: return tPtr(s.coin() ? 7 : 6, t);
			case 11: return valueType(2);
			default: for (auto& v : scope) if (s.chance(1, 4)) return v.t;
			}
			return valueType(1);
		};
		const uint32_t n = uint32_t(c.at.size());
		if (!c.lits.empty() && s.chance(1, 6)) { auto& l = c.lits[s.below(uint32_t(c.lits.size()))]; l = s.coin() ? l + s.below(8) : s.chance(1, 3) ? ~0u - s.below(2) : s.below(70); return true; }
		if (!n) return false;
		const uint32_t k = s.below(n); c.at[k] = other(c.at[k]);
		if (n > 1 && s.chance(1, 4)) { const TP t = c.at[k]; if (s.coin()) for (auto& x : c.at) x = t; else { const uint32_t q = s.below(n); c.at[q] = other(c.at[q]); } }
		if (n > 1 && s.chance(1, 6)) std::swap(c.at[0], c.at[1]);
		for (auto& t : c.at) { std::function<bool(const T&)> ok = [&](const T& x) { if (x.k == K::Void || x.k == K::RtArr || x.k == K::Func) return false; if (o.kernel && (x.isInt() && x.s)) return false; if (o.kernel && (x.mat() || (x.k == K::Ptr && x.sc == 6))) return false; for (auto& y : x.sub) if (y->k == K::Ptr || (!(x.k == K::Ptr && x.sc == 0) && x.k != K::SampImg && (y->k == K::Image || y->k == K::Sampler || y->k == K::SampImg)) || !ok(*y)) return false; return true; }; if (!ok(*t)) return false; }
		return true;
	}
	// makes a call which has to fail; calls without a result have to leave the placeholder
	void Gen::ill(const std::string& name, const std::string& sig, bool value, const std::function<Instruction*(BasicBlock&)>& call)
	{
		const size_t before = blk->bb->size(); log.text.clear();
		Instruction* r = call(*blk->bb); const size_t now = blk->bb->size(); const Instruction* err = m.getErrorInstr();
		if (value) CHECK_SIG(r && r == err && r->isErrorInstr(), "accepted " + name, sig + " is ill-typed but was accepted");
		CHECK_SIG(err->getOperation() == spv::Op::OpNop && err->empty(), "error placeholder", sig + ": the error placeholder was changed");
		CHECK_SIG(now == before || now == before + 1, "placement rejected", sig + " added " + std::to_string(now - before) + " instructions");
		if (now != before) { CHECK_SIG(blk->bb->back().getOperation() == spv::Op::OpNop && blk->bb->back().empty(), (value ? "leftover " : "accepted ") + name, sig + " left something else than a placeholder"); rejected.push_back({ blk->bb, &blk->bb->back(), sig }); }
		++rejects; ++used["rejected " + name];
		if (now != before && s.chance(2, 3)) { CHECK_SIG(blk->bb->remove(&blk->bb->back()), "remove rejected", "placeholder not removed"); rejected.pop_back(); }
	}
	void Gen::rejectMisc()
	{
		auto show = [](const TP& t) { return " " + t->key(); };
		auto plain = [&] { return valueType(2); };
		static const uint32_t dims[] = { 1, 0, 2, 3 };
		auto image = [&](uint32_t sampled, uint32_t dim) { TP st = s.chance(1, 3) && dim != 3 ? tInt(32, s.coin()) : tFloat(32); return tImg(st, dim, 0, s.chance(1, 4) && dim != 2 && dim != 3, false, sampled, sampled == 2 ? st->isFloat() ? 3u : st->s ? 24u : 33u : 0u); };
		auto co = [&](K k, uint32_t n) { TP e = k == K::Float ? tFloat(32) : tInt(32, s.coin()); return n == 1 ? e : tVec(e, n); };
		auto size = [](const T& i) { return (i.dim == 0 ? 1u : i.dim == 1 ? 2u : 3u) + (i.arrayed ? 1u : 0u); };
		static const uint32_t forKernel[] = { 0, 1, 2, 3, 4, 12, 13, 14 };
		const uint32_t kind = o.kernel ? s.pick(forKernel) : s.below(27u);
		switch (kind)
		{
		case 0: { TP t = plain(); Instruction* v = value(t); ill("opLoad", "opLoad of" + show(t), true, [&](BasicBlock& b) { return b->opLoad(v); }); break; }
		case 1: { TP t = plain(); Call c; c.at = { t }; if (!mutate(c) || same(c.at[0], t) || o.kernel) break; Instruction* p = pointer(t, true); Instruction* v = value(c.at[0]); ill("opStore", "opStore of" + show(c.at[0]) + " to pointer to" + show(t), false, [&](BasicBlock& b) -> Instruction* { b->opStore(p, v); return nullptr; }); break; }
		case 2: { TP t = plain(); Instruction* v = value(t); Instruction* w = value(t); ill("opStore", "opStore to" + show(t), false, [&](BasicBlock& b) -> Instruction* { b->opStore(v, w); return nullptr; }); break; }
		case 3: case 4: // access chain: from something else than a pointer, into a scalar or beyond the last member
		{
			TP t = plain(); std::vector<uint32_t> l; uint32_t n = s.range(1, 3); Instruction* base; std::string sig; bool bad = false;
			if (s.coin()) { base = value(t); sig = "opAccessChain from" + show(t); bad = true; } else { base = pointer(t, false); sig = "opAccessChain from pointer to" + show(t); }
			TP x = t; for (uint32_t k = 0; k < n; ++k)
			{
				const uint32_t lim = x ? x->k == K::Struct ? uint32_t(x->sub.size()) : x->n : 0; uint32_t i = s.below(lim + (x && x->k == K::Struct ? 2 : 0) + (lim ? 0 : 2)); l.push_back(i); sig += " " + std::to_string(i);
				if (!x || x->scalar()) { bad = true; x = nullptr; } else if (x->k == K::Struct) { if (i >= lim) { bad = true; x = nullptr; } else x = x->sub[i]; } else x = x->sub[0];
			}
			if (!bad) break;
			const bool list = s.coin(); sg::List<unsigned int> li(blk->bb->getAllocator()); for (auto k : l) li.emplace_back(k);
			ill("opAccessChain", sig, true, [&](BasicBlock& b) -> Instruction* { if (list) return b->opAccessChain(base, li); return l.size() == 1 ? b->opAccessChain(base, l[0]) : l.size() == 2 ? b->opAccessChain(base, l[0], l[1]) : b->opAccessChain(base, l[0], l[1], l[2]); });
			break;
		}
		case 5: { TP t = plain(); Call c; c.at = { t }; if (!mutate(c) || same(c.at[0], t) || c.at[0]->k == K::Ptr || c.at[0]->k == K::Image || c.at[0]->k == K::Sampler || c.at[0]->k == K::SampImg) break; Instruction* p = pointer(t, true); const bool np = s.chance(1, 3); Instruction* q = np ? value(c.at[0]) : pointer(c.at[0], false); ill("opCopyMemory", "opCopyMemory from" + std::string(np ? "" : " pointer to") + show(c.at[0]) + " to pointer to" + show(t), false, [&](BasicBlock& b) -> Instruction* { b->opCopyMemory(p, q); return nullptr; }); break; }
		case 6: { TP i = image(1, s.pick(dims)), q = tSampler(); bool first = s.coin(); TP a = first ? s.coin() ? plain() : tSampImg(i) : i, c = first ? q : s.coin() ? plain() : i; Instruction *x = value(a), *y = value(c); ill("opSampledImage", "opSampledImage of" + show(a) + show(c), true, [&](BasicBlock& b) { return b->opSampledImage(x, y); }); break; }
		case 7: { TP a = s.coin() ? plain() : image(1, 1); Instruction* x = value(a); ill("opImage", "opImage of" + show(a), true, [&](BasicBlock& b) { return b->opImage(x); }); break; }
		case 8: { // sampling: no sampled image, or a coordinate of integers or with too few components
			TP i = image(1, s.pick(dims)), si = tSampImg(i), c; bool bad = s.coin(); const uint32_t n = size(*i); if (bad) si = s.coin() ? i : plain();
			if (bad) c = co(K::Float, n); else if (n > 1 && s.coin()) c = co(K::Float, s.range(1, n - 1)); else c = co(K::Int, n);
			Instruction *x = value(si), *y = value(c), *lod = value(tFloat(32)); const bool expl = (!frag || s.coin()) && !(c->sv(K::Int) && !bad); if (!expl && !frag) break; ill(expl ? "opImageSampleExplicitLodLevel" : "opImageSampleImplictLod", "sampling" + show(si) + " at" + show(c), true, [&](BasicBlock& b) { return expl ? b->opImageSampleExplicitLodLevel(x, y, lod) : b->opImageSampleImplictLod(x, y); }); break; }
		case 9: { // fetching
			TP i = image(1, s.below(3)), c; const uint32_t n = size(*i); const bool bad = s.coin(); if (bad) { i = s.coin() ? tSampImg(i) : plain(); c = co(K::Int, n); } else if (n > 1 && s.coin()) c = co(K::Int, s.range(1, n - 1)); else c = co(K::Float, n);
			Instruction *x = value(i), *y = value(c); ill("opImageFetch", "fetching" + show(i) + " at" + show(c), true, [&](BasicBlock& b) { return b->opImageFetch(x, y); }); break; }
		case 10: { // reading
			TP i = image(2, s.below(3)), c; const uint32_t n = size(*i); const bool bad = s.coin(); if (bad) { i = plain(); c = co(K::Int, n); } else if (n > 1 && s.coin()) c = co(K::Int, s.range(1, n - 1)); else c = co(K::Float, n);
			Instruction *x = value(i), *y = value(c); ill("opImageRead", "reading" + show(i) + " at" + show(c), true, [&](BasicBlock& b) { return b->opImageRead(x, y); }); break; }
		case 11: case 12: { // another value than the function returns
			TP t = fn->ret->k == K::Void || s.chance(1, 3) ? plain() : nullptr; if (!t) { Call c; c.at = { fn->ret }; if (!mutate(c)) break; t = c.at[0]; }
			if (same(t, fn->ret)) break;
			Instruction* v = value(t); const bool h = s.coin(); const std::string sig = (h ? "returnValue(" : "opReturnValue of") + show(t) + " for" + show(fn->ret);
			if (h && s.chance(1, 4) && fn->ret->k != K::Void) { v = nullptr; }
			const size_t before = blk->bb->size();
			if (h) { Instruction* r = blk->bb->returnValue(v); CHECK_SIG(!r && blk->bb->size() == before, "accepted returnValue", sig + " was accepted"); ++rejects; ++used["rejected returnValue"]; break; }
			ill("opReturnValue", sig, false, [&](BasicBlock& b) -> Instruction* { b->opReturnValue(v); return nullptr; }); break; }
		case 13: { // comparing pointers
			TP t = plain(); Call c; c.at = { t }; const bool np = s.coin() || !mutate(c) || same(c.at[0], t) || c.at[0]->k == K::Ptr || c.at[0]->k == K::Image || c.at[0]->k == K::Sampler || c.at[0]->k == K::SampImg || o.kernel; Instruction* p = pointer(t, false); Instruction* q = np ? value(t) : pointer(c.at[0], false); if (s.coin()) std::swap(p, q); const bool ne = s.coin();
			ill(ne ? "opPtrNotEqual" : "opPtrEqual", std::string("opPtrEqual of pointer to") + show(t) + " and" + (np ? "" : " pointer to") + show(np ? t : c.at[0]), true, [&](BasicBlock& b) { return ne ? b->opPtrNotEqual(p, q) : b->opPtrEqual(p, q); }); break; }
		case 14: { TP t = plain(); const bool np = s.coin(); Instruction* v = np ? value(t) : pointer(t, false); if (!np && t->k == K::Struct && t->sub.back()->k == K::RtArr) break; ill("opArrayLength", std::string("opArrayLength of ") + (np ? "" : "pointer to") + show(t), true, [&](BasicBlock& b) { return b->opArrayLength(v, 0); }); break; }
		case 15: case 16: { // coordinates which are neither numbers nor vectors of them
			const bool sampled = s.coin(); const uint32_t w = sampled ? s.below(3u) : 2 + s.below(3u); TP i = image(w == 2 || sampled ? 1 : 2, w < 2 ? s.pick(dims) : s.below(3)), c; const uint32_t n = size(*i);
			switch (s.below(5)) { case 0: c = n == 1 ? tBool() : tVec(tBool(), n); break; case 1: c = tStruct(std::vector<TP>(std::max(n, 1u), tInt(32, false))); break; case 2: c = tMat(tVec(tFloat(32), std::max(2u, n)), s.range(2, 4)); break; case 3: c = tArr(s.coin() ? tFloat(32) : tInt(32, false), n); break; default: c = tArr(tVec(tFloat(32), std::max(2u, n)), n); }
			if (w == 0 && !frag) break; TP texel = tVec(i->sub[0], 4); TP si = w < 2 ? tSampImg(i) : i; Instruction *x = value(si), *y = value(c), *z = w == 1 ? value(tFloat(32)) : w == 4 ? value(texel) : nullptr; static const char* nm[] = { "opImageSampleImplictLod", "opImageSampleExplicitLodLevel", "opImageFetch", "opImageRead", "opImageWrite" };
			ill(nm[w], std::string(nm[w]) + " of" + show(si) + " at" + show(c), w != 4, [&](BasicBlock& b) -> Instruction* { switch (w) { case 0: return b->opImageSampleImplictLod(x, y); case 1: return b->opImageSampleExplicitLodLevel(x, y, z); case 2: return b->opImageFetch(x, y); case 3: return b->opImageRead(x, y); default: b->opImageWrite(x, y, z); return nullptr; } }); break; }
		case 17: { // comparing with something else than a 32 bit float; sampling multisampled images, projecting cubes or arrays
			TP st = tFloat(32); const uint32_t w = s.below(3u); uint32_t dim = w == 2 ? s.coin() ? 3u : 1u : s.coin() ? 1u : 0u; bool arr = w == 2 ? dim != 3 : w ? s.coin() : false, ms = w == 1; if (ms) dim = 1;
			TP i = tImg(st, dim, w ? s.coin() : 1, arr, ms, 1, 0), si = tSampImg(i), c, d = tFloat(32); const bool dref = !w || s.coin(), proj = w == 2 || (!arr && s.coin()), expl = !frag || s.coin();
			const uint32_t n = (dim == 0 ? 1u : dim == 1 ? 2u : 3u) + (arr ? 1 : 0) + (proj ? 1 : 0); c = co(K::Float, std::min(n, 4u));
			if (!w) switch (s.below(5)) { case 0: d = tFloat(64); break; case 1: d = tInt(32, s.coin()); break; case 2: d = tVec(tFloat(32), s.range(2, 4)); break; case 3: d = tBool(); break; default: d = tArr(tFloat(32), 1); }
			Instruction *x = value(si), *y = value(c), *z = dref ? value(d) : nullptr, *l = expl ? value(tFloat(32)) : nullptr; const bool grad = expl && w != 1 && s.coin(); Instruction* g = nullptr; if (grad) { TP gt = co(K::Float, dim == 0 ? 1 : dim == 1 ? 2 : 3); l = value(gt); g = value(gt); }
			const std::string nm = std::string("opImageSample") + (proj ? "Proj" : "") + (dref ? "Dref" : "") + (expl ? grad ? "ExplicitLodGrad" : "ExplicitLodLevel" : "ImplictLod");
			const Flag<spv::ImageOperandsMask> no = spv::ImageOperandsMask::MaskNone;
			ill(nm, nm + " of" + show(si) + " at" + show(c) + (dref ? " compared with" + show(d) : ""), true, [&](BasicBlock& b) -> Instruction* {
				if (!expl) return dref ? proj ? b->opImageSampleProjDrefImplictLod(x, y, z) : b->opImageSampleDrefImplictLod(x, y, z) : proj ? b->opImageSampleProjImplictLod(x, y) : b->opImageSampleImplictLod(x, y);
				if (grad) return dref ? proj ? b->opImageSampleProjDrefExplicitLodGrad(x, y, z, l, no, g) : b->opImageSampleDrefExplicitLodGrad(x, y, z, l, no, g) : proj ? b->opImageSampleProjExplicitLodGrad(x, y, l, no, g) : b->opImageSampleExplicitLodGrad(x, y, l, no, g);
				return dref ? proj ? b->opImageSampleProjDrefExplicitLodLevel(x, y, z, l) : b->opImageSampleDrefExplicitLodLevel(x, y, z, l) : proj ? b->opImageSampleProjExplicitLodLevel(x, y, l) : b->opImageSampleExplicitLodLevel(x, y, l); }); break; }
		case 18: { // gathering
			static const uint32_t gd[] = { 1, 3 }, bd[] = { 0, 2 }; const bool dref = s.coin(), dim = s.coin(); TP st = tFloat(32), i = tImg(st, dim ? s.pick(bd) : s.pick(gd), dref, 0, 0, 1, 0), si = tSampImg(i), q = dref ? tFloat(32) : tInt(32, s.coin());
			if (!dim) switch (s.below(4)) { case 0: q = dref ? tFloat(64) : tInt(64, s.coin()); break; case 1: q = dref ? tInt(32, s.coin()) : tFloat(32); break; case 2: q = tVec(q, s.range(2, 4)); break; default: q = tBool(); }
			TP c = co(K::Float, size(*i)); Instruction *x = value(si), *y = value(c), *z = dref ? value(q) : q->isInt() ? constI(cScalar(q, s.below(4))) : value(q);
			ill(dref ? "opImageDrefGather" : "opImageGather", std::string(dref ? "opImageDrefGather" : "opImageGather") + " of" + show(si) + " at" + show(c) + " with" + show(q), true, [&](BasicBlock& b) { return dref ? b->opImageDrefGather(x, y, z) : b->opImageGather(x, y, z); }); break; }
		case 19: { // queries
			const uint32_t w = s.below(5u); TP i = image(1, s.below(3)), l = tInt(32, s.coin()); static const char* nm[] = { "opImageQuerySizeLod", "opImageQuerySize", "opImageQueryLevels", "opImageQuerySamples", "opImageQueryLod" };
			auto msImg = [&] { return tImg(tFloat(32), 1, 0, s.coin(), true, 1, 0); };
			switch (w)
			{
			case 0: switch (s.below(4)) { case 0: i = plain(); break; case 1: i = msImg(); break; case 2: i = tSampImg(i); break; default: { static const int k[] = { 0, 1, 2 }; switch (s.pick(k)) { case 0: l = tFloat(32); break; case 1: l = tVec(tInt(32, s.coin()), s.range(2, 4)); break; default: l = tBool(); } } } break;
			case 1: switch (s.below(3)) { case 0: i = plain(); break; case 1: i = tSampImg(i); break; default: break; } break;
			case 2: i = s.coin() ? plain() : tSampImg(i); break;
			case 3: if (s.coin()) i = plain(); else if (s.coin()) i = tSampImg(msImg()); break;
			default: { if (!frag) return; const uint32_t n = i->dim == 0 ? 1u : i->dim == 1 ? 2u : 3u; if (s.coin()) { if (s.coin()) i = plain(); l = co(K::Float, n); } else { i = tSampImg(i); l = n > 1 && s.coin() ? co(K::Float, n - 1) : n > 1 ? tVec(tBool(), n) : tBool(); } } }
			Instruction *x = value(i), *y = w == 0 || w == 4 ? value(l) : nullptr;
			ill(nm[w], std::string(nm[w]) + " of" + show(i) + (y ? " with" + show(l) : ""), true, [&](BasicBlock& b) { switch (w) { case 0: return b->opImageQuerySizeLod(x, y); case 1: return b->opImageQuerySize(x); case 2: return b->opImageQueryLevels(x); case 3: return b->opImageQuerySamples(x); default: return b->opImageQueryLod(x, y); } }); break; }
		case 20: { // images of which only others can be read, fetched or written; formats and orders of other things
			const uint32_t w = s.below(5u); TP i, c; static const char* nm[] = { "opImageRead", "opImageFetch", "opImageWrite", "opImageQueryFormat", "opImageQueryOrder" };
			switch (w) { case 0: i = image(1, s.below(3)); break; case 1: i = s.coin() ? image(1, 3) : image(2, s.below(4)); break; case 2: i = image(1, s.below(3)); break; default: i = s.coin() ? plain() : tSampImg(image(1, s.pick(dims))); }
			if (w < 3) c = co(K::Int, size(*i)); TP e = w == 2 ? tVec(i->sub[0], 4) : nullptr; Instruction *x = value(i), *y = c ? value(c) : nullptr, *z = e ? value(e) : nullptr; const bool more = s.coin() && w < 3; Instruction* l = more ? value(tInt(32, true)) : nullptr;
			ill(nm[w], std::string(nm[w]) + " of" + show(i), true, [&](BasicBlock& b) -> Instruction* { switch (w) { case 0: return more ? b->opImageRead(x, y, spv::ImageOperandsMask::Sample, l) : b->opImageRead(x, y); case 1: return more ? b->opImageFetch(x, y, spv::ImageOperandsMask::Lod, l) : b->opImageFetch(x, y);
				case 2: return more ? b->opImageWrite(x, y, z, spv::ImageOperandsMask::Sample, l) : b->opImageWrite(x, y, z); case 3: return b->opImageQueryFormat(x); default: return b->opImageQueryOrder(x); } }); break; }
		case 21: { // copies of a number of bytes
			TP t = plain(); const uint32_t w = s.below(5u); TP n = tInt(32, false); Instruction *p = pointer(t, true), *q = pointer(t, false), *z; std::string sig = "opCopyMemorySized ";
			switch (w) { case 0: n = s.coin() ? tFloat(32) : s.coin() ? tBool() : tVec(n, s.range(2, 4)); z = value(n); sig += "of" + show(n) + " bytes"; break; case 1: z = constI(cScalar(n, 0)); sig += "of no bytes"; break; case 2: n = tInt(32, true); z = constI(cScalar(n, s.range(1, 64))); sig += "of a signed number of bytes"; break;
			default: z = constI(cScalar(n, s.range(1, 64))); if (w == 3) { p = value(t); sig += "to" + show(t); } else { q = value(t); sig += "from" + show(t); } }
			ill("opCopyMemorySized", sig, false, [&](BasicBlock& b) -> Instruction* { b->opCopyMemorySized(p, q, z); return nullptr; }); break; }
		case 22: { TP t = s.coin() ? s.coin() ? tFloat(32) : tBool() : tInt(32, s.coin()); Instruction *v = value(t), *ti = typeI(t); const bool two = s.coin(), list = s.coin(); sg::List<Instruction*> li(blk->bb->getAllocator()); li.emplace_back(v); if (two) li.emplace_back(v); // construction of what is no composite
			ill("opCompositeConstruct", "opCompositeConstruct of" + show(t), true, [&](BasicBlock& b) { return list ? b->opCompositeConstructDynamic(ti, li) : two ? b->opCompositeConstruct(ti, v, v) : b->opCompositeConstruct(ti, v); }); break; }
		case 23: case 24: { // access chains with a given result type: not a pointer, of another storage class or to another type; from something else than a pointer, with other indices than integers, beyond or not constant in a structure
			TP t = plain(); if (t->scalar()) t = tArr(t, s.range(1, 4)); const bool st = t->k == K::Struct; uint32_t k = s.below(st ? uint32_t(t->sub.size()) : t->n); TP e = st ? t->sub[k] : t->sub[0]; if (e->k == K::Ptr) break; const bool in = s.coin(); const uint32_t w = s.below(6u);
			Instruction* base = w == 1 ? value(t) : pointer(t, false); const uint32_t sc = w == 1 ? 7 : uint32_t(base->getType()->getStorageClass()); TP it = tInt(32, false), r = tPtr(w == 2 ? sc == 7 ? 6 : 7 : sc, e); Instruction* ix = nullptr; std::string what;
			switch (w) { case 0: r = e; break; case 1: case 2: break; case 3: { Call c; c.at = { e }; if (!mutate(c) || same(c.at[0], e) || c.at[0]->k == K::Ptr || c.at[0]->k == K::Image || c.at[0]->k == K::Sampler || c.at[0]->k == K::SampImg) return; r = tPtr(sc, c.at[0]); break; }
			case 4: if (!st) return; if (in || s.coin()) ix = constI(cScalar(it, k = uint32_t(t->sub.size()) + s.below(2u))); else { ix = value(it); if (ix->isSpecOrConstant()) return; what = " (not constant)"; } break; default: it = s.coin() ? tFloat(32) : tBool(); ix = it->k == K::Float ? constI(cScalar(it, 0)) : value(it); if (in && !ix->isSpecOrConstant()) return; }
			if (!ix) ix = constI(cScalar(it, k)); const bool val = w == 0 && s.coin(); /* a pointer instead of its type */ if (val) what = " (a value)"; Instruction* ti = val ? pointer(e, false) : typeI(r); const char* nm = in ? "opInBoundsAccessChain" : "opAccessChain";
			ill(nm, std::string(nm) + " from " + (w == 1 ? "" : "pointer " + std::to_string(sc) + " to") + show(t) + " at" + show(it) + " " + std::to_string(k) + what + " giving " + show(r), true, [&](BasicBlock& b) { return in ? b->opInBoundsAccessChain(ti, base, ix) : b->opAccessChain(ti, base, ix); }); break; }
		case 25: { // calls of what is no function, results which are no types
			TP t = plain(), r = plain(); Instruction *v = value(t), *f = value(r), *ti = s.coin() ? typeI(r) : f; sg::List<Instruction*> li(blk->bb->getAllocator()); if (s.coin()) li.emplace_back(v);
			ill("opFunctionCall", "opFunctionCall of" + show(r), true, [&](BasicBlock& b) { return li.empty() ? b->opFunctionCall(ti, f) : s.coin() ? b->opFunctionCallDynamic(ti, f, li) : b->opFunctionCall(ti, f, v); }); break; }
		default: { // writing
			TP i = image(2, s.below(3)), c = co(K::Int, size(*i)), e = tVec(i->sub[0], 4); const uint32_t n = size(*i); switch (s.below(3)) { case 0: i = plain(); break; case 1: if (n > 1 && s.coin()) c = co(K::Int, s.range(1, n - 1)); else c = co(K::Float, n); break; default: e = tVec(tBool(), 4); }
			Instruction *x = value(i), *y = value(c), *z = value(e); ill("opImageWrite", "writing" + show(e) + " to" + show(i) + " at" + show(c), true, [&](BasicBlock& b) -> Instruction* { return b->opImageWrite(x, y, z); }); break; }
		}
	}
	// a call with operands which the specification does not allow
	bool Gen::reject(const OpDef& d)
	{
		Call c; if (!d.gen(*this, c) || !mutate(c)) return false;
		if (d.spec(c).legal) return false;
		std::vector<Instruction*> a; std::string sig = d.name; sig += " of";
		for (auto& t : c.at) { a.push_back(value(t)); sig += " " + t->key(); }
		for (auto l : c.lits) sig += " " + std::to_string(l);
		if (d.typeFirst) { a.insert(a.begin(), typeI(c.tp)); sig += " to " + c.tp->key(); }
		ill(d.name, sig, true, [&](BasicBlock& b) { return d.call(b, a, c); });
		return true;
	}
	void Gen::undefOp()
	{
		TP t = valueType(1); Instruction* ti = typeI(t); EInst x; x.op = 1; x.res = t; x.what = "opUndef";
		Instruction* r = add(x, [&](BasicBlock& b) { return b->opUndef(ti); }); scope.push_back({ t, r });
	}
	void Gen::memoryOp()
	{
		switch (s.below(6))
		{
		case 0: { TP t = valueType(2); local(t); break; }
		case 1: // load
		{
			TP t = valueType(2); Instruction* p = pointer(t, false); uint32_t mask = s.chance(1, 4) ? (s.coin() ? 1 : 4) : 0; uint32_t al = s.chance(1, 6) ? 16 : 0;
			EInst x; x.op = 61; x.res = t; x.ops = { EOp::ins(p), EOp::lit(mask | (al ? 2 : 0)) }; if (al) x.ops.push_back(EOp::lit(al)); x.what = "opLoad";
			Instruction* r = add(x, [&](BasicBlock& b) { return al ? b->opLoad(p, spv::MemoryAccessMask(mask | 2), al) : mask ? b->opLoad(p, spv::MemoryAccessMask(mask)) : b->opLoad(p); }); name(r); scope.push_back({ t, r }); break;
		}
		case 2: // store
		{
			TP t = valueType(2); Instruction* v = value(t); Instruction* p = pointer(t, true); uint32_t mask = s.chance(1, 4) ? (s.coin() ? 1 : 4) : 0; uint32_t al = s.chance(1, 6) ? 4 : 0;
			EInst x; x.op = 62; x.ops = { EOp::ins(p), EOp::ins(v), EOp::lit(mask | (al ? 2 : 0)) }; if (al) x.ops.push_back(EOp::lit(al)); x.what = "opStore";
			add(x, [&](BasicBlock& b) { Instruction* i = b.addInstruction(); if (al) i->opStore(p, v, spv::MemoryAccessMask(mask | 2), al); else if (mask) i->opStore(p, v, spv::MemoryAccessMask(mask)); else i->opStore(p, v); return i; }); break;
		}
		case 3: // copy
		{
			TP t = valueType(2); Instruction* d = pointer(t, true); Instruction* q = pointer(t, false); if (d == q) break;
			EInst x; x.op = 63; x.ops = { EOp::ins(d), EOp::ins(q) }; x.what = "opCopyMemory";
			uint32_t mode = s.below(3); if (minor < 4 && mode == 2) mode = 1;
			if (mode) x.ops.push_back(EOp::lit(1)); else x.anyOps = false;
			if (mode == 2) x.ops.push_back(EOp::lit(4));
			if (mode == 1 && minor >= 4) x.ops.push_back(EOp::lit(0)), x.anyOps = true; // the second mask may be given or left out
			if (mode == 0) x.anyOps = true;
			add(x, [&](BasicBlock& b) { Instruction* i = b.addInstruction(); if (mode == 0) i->opCopyMemory(d, q); else if (mode == 1) i->opCopyMemory(d, q, spv::MemoryAccessMask::Volatile); else i->opCopyMemory(d, q, spv::MemoryAccessMask::Volatile, spv::MemoryAccessMask::Nontemporal); return i; }); break;
		}
		default: // access chain
		{
			std::vector<Val> c; auto comp = [](const T& t) { return t.k == K::Ptr && (t.sub[0]->vec() || t.sub[0]->mat() || t.sub[0]->k == K::Arr || t.sub[0]->k == K::Struct); };
			for (auto& v : scope) if (comp(*v.t)) c.push_back(v);
			for (auto& v : gptrs) if (comp(*v.t)) c.push_back(v);
			Val base;
			if (c.empty() || s.chance(1, 4)) { TP t = valueType(2); if (t->scalar()) t = tArr(t, s.range(1, 4)); local(t); base = scope.back(); } else base = s.pick(c);
			TP t = base.t->sub[0]; uint32_t depth = s.range(1, 3); bool dynamic = s.coin(); const bool inb = dynamic && s.chance(1, 4);
			std::vector<Instruction*> ix; std::vector<uint32_t> lit; EInst x; x.op = 65; x.ops = { EOp::ins(base.i) }; x.what = "opAccessChain";
			for (uint32_t i = 0; i < depth && !t->scalar() && t->k != K::Ptr; ++i)
			{
				const bool st = t->k == K::Struct; if (!(st || t->vec() || t->mat() || t->k == K::Arr)) break;
				uint32_t k = s.below(st ? uint32_t(t->sub.size()) : t->n); lit.push_back(k);
				if (dynamic)
				{
					Instruction* in = st || (inb && !i) || s.coin() ? constI(cScalar(tInt(32, st ? s.coin() && !o.kernel : s.coin() && !o.kernel), k)) : value(tInt(32, s.coin() && !o.kernel));
					ix.push_back(in); x.ops.push_back(EOp::ins(in));
				}
				else x.ops.push_back(EOp::idx(k));
				t = st ? t->sub[k] : t->sub[0];
			}
			if (lit.empty()) break;
			x.res = tPtr(base.t->sc, t);
			Instruction* ti = dynamic ? typeI(x.res) : nullptr; if (inb) { x.op = 66; x.what = "opInBoundsAccessChain"; }
			Instruction* r = add(x, [&](BasicBlock& b) -> Instruction* {
				if (dynamic)
				{
					if (inb) return ix.size() == 1 ? b->opInBoundsAccessChain(ti, base.i, ix[0]) : ix.size() == 2 ? b->opInBoundsAccessChain(ti, base.i, ix[0], ix[1]) : b->opInBoundsAccessChain(ti, base.i, ix[0], ix[1], ix[2]);
					return ix.size() == 1 ? b->opAccessChain(ti, base.i, ix[0]) : ix.size() == 2 ? b->opAccessChain(ti, base.i, ix[0], ix[1]) : b->opAccessChain(ti, base.i, ix[0], ix[1], ix[2]);
				}
				if (s.coin()) { sg::List<unsigned int> l(m.getAllocator()); for (auto k : lit) l.emplace_back(k); return b->opAccessChain(base.i, l); }
				return lit.size() == 1 ? b->opAccessChain(base.i, lit[0]) : lit.size() == 2 ? b->opAccessChain(base.i, lit[0], lit[1]) : b->opAccessChain(base.i, lit[0], lit[1], lit[2]); });
			++chains; name(r); scope.push_back({ x.res, r });
		}
		}
	}
	// an operation on constants which the consumer of the module evaluates
	Instruction* Gen::specOp(TP& rt)
	{
		using Op = spv::Op; struct D { Op op; int kind; Instruction* (*f)(Instruction*, Instruction*, Instruction*); }; // 0: n, n -> n  1: n, n -> bool  2: bool, bool -> bool  3: unary
#define SO(N, K) { Op::Op##N, K, [](Instruction* i, Instruction* a, Instruction* b) { return i->op##N(a, b); } }
		static const D ds[] = { SO(IAdd, 0), SO(ISub, 0), SO(IMul, 0), SO(BitwiseAnd, 0), SO(BitwiseOr, 0), SO(BitwiseXor, 0), SO(ShiftLeftLogical, 0), SO(ShiftRightLogical, 0), SO(ShiftRightArithmetic, 0), SO(UDiv, 4), SO(UMod, 4), SO(SDiv, 5), SO(SRem, 5), SO(SMod, 5),
			SO(IEqual, 1), SO(INotEqual, 1), SO(ULessThan, 1), SO(SGreaterThanEqual, 1), SO(LogicalAnd, 2), SO(LogicalOr, 2), SO(LogicalEqual, 2), SO(LogicalNotEqual, 2),
			{ Op::OpNot, 6, [](Instruction* i, Instruction* a, Instruction*) { return i->opNot(a); } }, { Op::OpSNegate, 7, [](Instruction* i, Instruction* a, Instruction*) { return i->opSNegate(a); } }, { Op::OpLogicalNot, 3, [](Instruction* i, Instruction* a, Instruction*) { return i->opLogicalNot(a); } } };
#undef SO
		const D& d = s.pick(ds); const uint32_t n = s.chance(1, 3) ? s.range(2, 4) : 1; const bool logical = d.kind == 2 || d.kind == 3;
		TP e0 = logical ? tBool() : tInt(32, d.kind == 5 || d.kind == 7 || (d.kind != 4 && s.coin())), at = n == 1 ? e0 : tVec(e0, n); rt = d.kind == 1 ? like(*at, tBool()) : at;
		auto operand = [&]() -> Instruction* {
			std::vector<Instruction*> c; for (auto& x : e.specOps) if (same(x.res, at)) c.push_back(x.i);
			if (!c.empty() && s.coin()) return s.pick(c);
			if (n == 1 && s.coin()) { CP k = logical ? cBool(s.coin(), true) : cScalar(at, s.word64(), true); Instruction* i = requestConst(m, *k, s); e.consts[i] = k; if (s.coin()) { const uint32_t id = specIds++; m.addDecorationInstr()->opDecorate(i, spv::Decoration::SpecId, id); e.decos.push_back({ i, -1, 1, { id } }); } return i; }
			return constI(genConst(s, at)); };
		const bool un = d.kind == 3 || d.kind >= 6; Instruction* a = operand(); Instruction* b = un ? nullptr : operand(); const bool direct = s.coin(); Instruction* ti = direct ? typeI(rt) : nullptr;
		EInst x; x.op = 52; x.res = rt; x.ops = { EOp::lit(uint32_t(d.op)), EOp::ins(a) }; if (b) x.ops.push_back(EOp::ins(b)); x.what = direct ? "opSpecConstantOp" : "toSpecOp"; if (!direct) x.fit = Fit::Exact;
		Instruction* i = m.addConstantInstr(); Instruction* r = direct ? b ? i->opSpecConstantOp(ti, d.op, a, b) : i->opSpecConstantOp(ti, d.op, a) : d.f(i, a, b)->toSpecOp();
		CHECK_SIG(r == i, "rejected " + x.what, x.what + " was rejected: " + log.text); x.i = r; e.specOps.push_back(x); ++used[x.what]; name(r); return r;
	}
	void Gen::miscOp()
	{
		EInst x; auto need = [&](spv::Capability c) { m.addCapability(c); e.caps.insert(uint32_t(c)); };
		switch (s.below(8))
		{
		case 0: { TP t; Instruction* i = o.kernel ? nullptr : specOp(t); if (i && s.coin()) scope.push_back({ t, i }); break; }
		case 1: { // comparing pointers
			if (minor < 4 || !o.ptrCompare) break;
			TP t = valueType(1); Instruction* a = pointer(t, false); TP pt; for (auto& v : scope) if (v.i == a) pt = v.t; for (auto& v : gptrs) if (v.i == a) pt = v.t; if (!pt || !(o.anyCaps || (!o.kernel && (pt->sc == 12 || pt->sc == 4)))) break;
			if (!o.anyCaps) need(spv::Capability::VariablePointers);
			std::vector<Instruction*> c; for (auto* l : { &scope, &gptrs }) for (auto& v : *l) if (same(v.t, pt)) c.push_back(v.i);
			Instruction* b = s.pick(c); const bool ne = s.coin(); x.op = ne ? 402 : 401; x.res = tBool(); x.ops = { EOp::ins(a), EOp::ins(b) }; x.what = ne ? "opPtrNotEqual" : "opPtrEqual";
			Instruction* r = add(x, [&](BasicBlock& k) { return ne ? k->opPtrNotEqual(a, b) : k->opPtrEqual(a, b); }); scope.push_back({ x.res, r }); break; }
		case 2: { // length of a runtime array
			if (o.kernel) break;
			std::vector<TP> ms; for (uint32_t k = s.below(3); k > 0; --k) ms.push_back(tVec(tFloat(32), s.range(2, 4))); ms.push_back(tRt(s.coin() ? tFloat(32) : tVec(tInt(32, s.coin()), 4))); TP t = tStruct(ms); Instruction* p = nullptr; for (auto& v : gptrs) if (same(v.t->sub[0], t)) p = v.i;
			if (!p) p = global(t, minor >= 3 ? 12 : 2, false);
			const uint32_t k = uint32_t(ms.size() - 1); x.op = 68; x.res = tInt(32, false); x.fit = Fit::AnySign; x.ops = { EOp::ins(p), EOp::lit(k) }; x.what = "opArrayLength";
			Instruction* r = add(x, [&](BasicBlock& b) { return b->opArrayLength(p, k); }); scope.push_back({ fromLib(*r->getType()), r }); break; }
		case 3: { // sizes
			if (!o.kernel || minor < 1) break;
			TP t = valueType(1); Instruction* p = pointer(t, false); x.op = 321; x.res = tInt(32, false); x.fit = Fit::AnySign; x.ops = { EOp::ins(p) }; x.what = "opSizeOf"; Instruction* r = add(x, [&](BasicBlock& b) { return b->opSizeOf(p); }); scope.push_back({ fromLib(*r->getType()), r }); break; }
		case 4: { // copying bytes
			if (!o.kernel) break;
			TP t = valueType(1), u = s.coin() ? t : valueType(1); Instruction* d = pointer(t, true); Instruction* q = pointer(u, false); if (d == q) break; TP st = tInt(s.coin() ? 32 : 64, false); Instruction* z = s.coin() ? constI(cScalar(st, 1 + s.below(64))) : value(st, false); if (z->isConstant() && !s.chance(0, 1)) { bool zero = true; for (auto w : z->getConstant()->getData()) zero &= w == 0; if (zero) break; }
			x.op = 64; x.ops = { EOp::ins(d), EOp::ins(q), EOp::ins(z) }; x.what = "opCopyMemorySized"; const uint32_t mode = s.below(2); if (mode) x.ops.push_back(EOp::lit(1)); x.anyOps = true;
			add(x, [&](BasicBlock& b) { Instruction* i = b.addInstruction(); if (mode) i->opCopyMemorySized(d, q, z, spv::MemoryAccessMask::Volatile); else i->opCopyMemorySized(d, q, z); return i; }); break; }
		case 5: { // inputs at other positions
			if (!frag) break;
			need(spv::Capability::InterpolationFunction);
			const uint32_t c = s.range(1, 4); TP t = c == 1 ? tFloat(32) : tVec(tFloat(32), c); Instruction* p = nullptr; for (auto& v : gptrs) if (v.t->sc == 1 && same(v.t->sub[0], t)) p = v.i;
			if (!p) p = global(t, 1, false);
			const uint32_t k = s.below(3); Instruction* a = k == 1 ? value(tInt(32, true)) : k == 2 ? value(tVec(tFloat(32), 2)) : nullptr;
			static const char* nm[] = { "glsl opInterpolateAtCentroid", "glsl opInterpolateAtSample", "glsl opInterpolateAtOffset" }; x.op = 12; x.res = t; x.ops = { EOp::import("GLSL.std.450"), EOp::lit(76 + k), EOp::ins(p) }; if (a) x.ops.push_back(EOp::ins(a)); x.what = nm[k];
			Instruction* r = add(x, [&](BasicBlock& b) { return k == 0 ? b.glsl()->opInterpolateAtCentroid(p) : k == 1 ? b.glsl()->opInterpolateAtSample(p, a) : b.glsl()->opInterpolateAtOffset(p, a); }); scope.push_back({ t, r }); break; }
		case 6: { // physical addresses
			if (o.kernel || minor < 5 || !o.anyCaps) break;
			TP t = valueType(1), pt = tPtr(5349, t); Instruction* ti = typeI(pt); Instruction* u = value(tInt(64, false)); x.op = 120; x.res = pt; x.ops = { EOp::ins(u) }; x.what = "opConvertUToPtr"; Instruction* r = add(x, [&](BasicBlock& b) { return b->opConvertUToPtr(ti, u); });
			EInst y; y.op = 117; y.res = tInt(64, false); y.ops = { EOp::ins(r) }; y.what = "opConvertPtrToU"; Instruction* q = add(y, [&](BasicBlock& b) { return b->opConvertPtrToU(r, 64u); }); scope.push_back({ y.res, q }); break; }
		default: { // format and order of the channels of an image
			if (o.kernel || !o.images || !o.anyCaps) break;
			TP i = tImg(tFloat(32), s.below(3), 0, s.coin(), false, 1, 0); Instruction* p = value(i); const bool f = s.coin(); x.op = f ? 101 : 102; x.res = tInt(32, false); x.fit = Fit::AnySign; x.ops = { EOp::ins(p) }; x.what = f ? "opImageQueryFormat" : "opImageQueryOrder";
			Instruction* r = add(x, [&](BasicBlock& b) { return f ? b->opImageQueryFormat(p) : b->opImageQueryOrder(p); }); scope.push_back({ fromLib(*r->getType()), r }); break; }
		}
	}
	void Gen::lineOp()
	{
		EInst x; if (s.chance(1, 4)) { x.op = 317; x.what = "opNoLine"; add(x, [&](BasicBlock& b) { Instruction* i = b.addInstruction(); i->opNoLine(); return i; }); return; }
		if (files.empty() || s.chance(1, 4)) files.push_back(m.addSourceStringInstr()->opString(text().c_str()));
		Instruction* f = s.pick(files); const uint32_t l = s.below(1000), c = s.below(100); x.op = 8; x.what = "opLine"; x.ops = { EOp::ins(f), EOp::lit(l), EOp::lit(c) };
		if (o.more && s.chance(1, 3))
		{
			const std::string t = text(); Instruction* i = add(x, [&](BasicBlock& b) { Instruction* i = b.addInstruction(); i->opLine(t.c_str(), l, c); return i; });
			Instruction* n = i->front().getInstruction(); CHECK_SIG(n && n->getOperation() == spv::Op::OpString, "line string", "opLine does not refer to a string"); sg::String g(m.getAllocator()); sg::getLiteralString(g, n->getFirstActualOperand(), n->end());
			const std::string got = g.c_str() ? g.c_str() : ""; CHECK_SIG(got == t, "line string", "string of opLine is \"" + got + "\", not \"" + t + "\""); blk->insts.back().ops[0] = EOp::ins(n); return;
		}
		if (o.more && s.chance(1, 3)) { if (s.chance(1, 3)) { x.op = 317; x.ops.clear(); m.addLineInstr()->opNoLine(); } else m.addLineInstr()->opLine(f, l, c); e.lines.push_back(x); return; }
		add(x, [&](BasicBlock& b) { Instruction* i = b.addInstruction(); i->opLine(f, l, c); return i; });
	}
	void Gen::callOp()
	{
		std::vector<EFunc*> c; for (auto& f : e.funcs) if (!f.entry && &f != fn) c.push_back(&f);
		if (c.empty()) { undefOp(); return; }
		EFunc* f = s.pick(c); std::vector<Instruction*> a; EInst x; x.op = 57; x.res = f->ret; x.what = "call"; x.ops = { EOp::ins(f->f->getFunction()) };
		for (auto& p : f->params) { a.push_back(value(p)); x.ops.push_back(EOp::ins(a.back())); }
		uint32_t route = s.below(4); Instruction* ri = route == 1 || route == 3 ? typeI(f->ret) : nullptr;
		Instruction* r = add(x, [&](BasicBlock& b) -> Instruction* {
			sg::List<Instruction*> l(m.getAllocator()); for (auto* v : a) l.emplace_back(v);
			Instruction* fi = f->f->getFunction();
			if (route == 2 || a.size() > 3) return b->callDynamic(f->f, l);
			if (route == 3) return b->opFunctionCallDynamic(ri, fi, l);
			if (route == 1) switch (a.size()) { case 0: return b->opFunctionCall(ri, fi); case 1: return b->opFunctionCall(ri, fi, a[0]); case 2: return b->opFunctionCall(ri, fi, a[0], a[1]); default: return b->opFunctionCall(ri, fi, a[0], a[1], a[2]); }
			switch (a.size()) { case 0: return b->call(f->f); case 1: return b->call(f->f, a[0]); case 2: return b->call(f->f, a[0], a[1]); default: return b->call(f->f, a[0], a[1], a[2]); } });
		fn->calls.insert(f); ++calls; if (f->ret->k != K::Void) { name(r); scope.push_back({ f->ret, r }); }
	}

	// ---------------------------------------------------------------- images
	void Gen::imageOp()
	{
		++imgs;
		// which kind of access decides which images are admissible
		const uint32_t kind = s.below(8); // 0 sample, 1 dref, 2 fetch, 3 gather, 4 read, 5 write, 6 query, 7 sampled image of parts
		TP st; switch (s.weighted({ 4, 1, 1 })) { case 0: st = tFloat(32); break; case 1: st = tInt(32, true); break; default: st = tInt(32, false); }
		const bool storage = kind == 4 || kind == 5; if (kind == 1) st = tFloat(32);
		static const uint32_t dims[] = { 1, 0, 2, 3 }; uint32_t dim = s.pick(dims); // 2D 1D 3D Cube
		if (kind == 2 || storage) { static const uint32_t d[] = { 1, 0, 2 }; dim = s.pick(d); }
		if (kind == 3) dim = s.coin() ? 1 : 3;
		if (kind == 1 && dim == 2) dim = 1;
		bool arr = s.chance(1, 3) && dim != 2; if (dim == 3 && arr && storage) arr = false;
		bool ms = dim == 1 && (kind == 2 || (kind == 6 && s.coin())) && s.chance(1, 3);
		if (kind == 6 && dim == 1 && s.chance(1, 4)) ms = true;
		static const uint32_t ffmt[] = { 1, 3, 21, 2, 6, 15 }, ifmt[] = { 21, 24, 25, 22 }, ufmt[] = { 30, 33, 34, 31 }; (void)ffmt;
		uint32_t format = 0;
		if (storage) format = st->isFloat() ? (s.coin() ? 1u : 3u) /* Rgba32f, R32f */ : st->s ? (s.coin() ? 21u : 24u) : (s.coin() ? 30u : 33u);
		(void)ifmt; (void)ufmt;
		TP img = tImg(st, dim, kind == 1 ? 1 : 0, arr, ms, storage ? 2 : 1, format);
		const uint32_t cdim = dim == 0 ? 1 : dim == 1 ? 2 : 3, c = cdim + (arr ? 1 : 0);
		auto fco = [&](uint32_t k) { return k == 1 ? tFloat(32) : tVec(tFloat(32), k); };
		auto ico = [&](uint32_t k) { TP t = tInt(32, s.coin()); return k == 1 ? t : tVec(t, k); };
		TP texel = tVec(st, 4); EInst x; Instruction* r = nullptr;
		using IM = spv::ImageOperandsMask;
		auto sampled = [&] { TP si = tSampImg(img); // loaded, or put together from an image and a sampler
			if (s.chance(1, 3))
			{
				Instruction* i = value(img); Instruction* sm = value(tSampler()); EInst y; y.op = 86; y.res = si; y.ops = { EOp::ins(i), EOp::ins(sm) }; y.what = "opSampledImage";
				return add(y, [&](BasicBlock& b) { return b->opSampledImage(i, sm); }); // must stay in this block: not put into the scope
			}
			Instruction* p = pointer(si, false); EInst y; y.op = 61; y.res = si; y.ops = { EOp::ins(p), EOp::lit(0) }; y.what = "opLoad"; return add(y, [&](BasicBlock& b) { return b->opLoad(p); }); };
		switch (kind)
		{
		case 0: case 1:
		{
			const bool dref = kind == 1, proj = !arr && dim != 3 && s.chance(1, 3), expl = !frag || s.coin();
			Instruction* co = value(fco(c + (proj ? 1 : 0))); Instruction* dr = dref ? value(tFloat(32)) : nullptr;
			const uint32_t op = 87 + (expl ? 1 : 0) + (dref ? 2 : 0) + (proj ? 4 : 0);
			uint32_t mode = expl ? s.below(2) : s.below(2); // explicit: Lod or Grad; implicit: none or Bias
			Instruction *e1 = nullptr, *e2 = nullptr, *off = nullptr; uint32_t mask = 0;
			if (expl) { if (mode == 0) { e1 = value(tFloat(32)); mask = 2; } else { e1 = value(fco(cdim)); e2 = value(fco(cdim)); mask = 4; } } else if (mode == 1) { e1 = value(tFloat(32)); mask = 1; }
			if (dim != 3 && s.chance(1, 4)) { off = constI(genConst(s, cdim == 1 ? tInt(32, true) : tVec(tInt(32, true), cdim), false)); mask |= 8; }
			Instruction* si = sampled();
			x.op = op; x.res = dref ? st : texel; x.ops = { EOp::ins(si), EOp::ins(co) }; if (dref) x.ops.push_back(EOp::ins(dr)); if (mask) x.ops.push_back(EOp::lit(mask)); for (auto* i : { e1, e2, off }) if (i) x.ops.push_back(EOp::ins(i));
			x.what = std::string("opImageSample") + (proj ? "Proj" : "") + (dref ? "Dref" : "") + (expl ? mode ? "ExplicitLodGrad" : "ExplicitLodLevel" : "ImplictLod") + (off ? "+ConstOffset" : "");
			r = add(x, [&](BasicBlock& b) -> Instruction* {
				auto go = [&](auto im, auto... ex) -> Instruction* {
					Instruction* at = b.addInstruction();
					if (!expl) return dref ? (proj ? at->opImageSampleProjDrefImplictLod(si, co, dr, im, ex...) : at->opImageSampleDrefImplictLod(si, co, dr, im, ex...)) : (proj ? at->opImageSampleProjImplictLod(si, co, im, ex...) : at->opImageSampleImplictLod(si, co, im, ex...));
					if (mode == 0) return dref ? (proj ? at->opImageSampleProjDrefExplicitLodLevel(si, co, dr, e1, im, ex...) : at->opImageSampleDrefExplicitLodLevel(si, co, dr, e1, im, ex...)) : (proj ? at->opImageSampleProjExplicitLodLevel(si, co, e1, im, ex...) : at->opImageSampleExplicitLodLevel(si, co, e1, im, ex...));
					return dref ? (proj ? at->opImageSampleProjDrefExplicitLodGrad(si, co, dr, e1, im, ex...) : at->opImageSampleDrefExplicitLodGrad(si, co, dr, e1, im, ex...)) : (proj ? at->opImageSampleProjExplicitLodGrad(si, co, e1, im, ex...) : at->opImageSampleExplicitLodGrad(si, co, e1, im, ex...)); };
				const Flag<IM> none = IM::MaskNone, cof = IM::ConstOffset;
				if (!expl && mode == 1) { Flag<IM> bo(IM::Bias); if (off) { Flag<IM> bc(IM(9)); return go(bc, e1, off); } return go(bo, e1); }
				if (expl && mode == 1) return off ? go(cof, e2, off) : go(none, e2);
				return off ? go(cof, off) : go(none); });
			break;
		}
		case 2: // fetch
		{
			Instruction* co = value(ico(c)); Instruction* im = value(img); Instruction* sm = ms ? value(tInt(32, true)) : nullptr; Instruction* lod = !ms && s.coin() ? value(tInt(32, true)) : nullptr;
			x.op = 95; x.res = texel; x.ops = { EOp::ins(im), EOp::ins(co) }; if (sm) { x.ops.push_back(EOp::lit(64)); x.ops.push_back(EOp::ins(sm)); } else if (lod) { x.ops.push_back(EOp::lit(2)); x.ops.push_back(EOp::ins(lod)); }
			x.what = std::string("opImageFetch") + (sm ? "+Sample" : lod ? "+Lod" : "");
			r = add(x, [&](BasicBlock& b) { return sm ? b->opImageFetch(im, co, IM::Sample, sm) : lod ? b->opImageFetch(im, co, IM::Lod, lod) : b->opImageFetch(im, co); }); break;
		}
		case 3: // gather
		{
			const bool dref = st->isFloat() && s.coin(); if (dref) { auto t = std::make_shared<T>(*img); t->depth = 1; img = t; }
			Instruction* co = value(fco(c)); Instruction* q = dref ? value(tFloat(32)) : constI(cScalar(tInt(32, s.coin()), s.below(4))); Instruction* si = sampled();
			x.op = dref ? 97 : 96; x.res = texel; x.ops = { EOp::ins(si), EOp::ins(co), EOp::ins(q) }; x.what = dref ? "opImageDrefGather" : "opImageGather";
			r = add(x, [&](BasicBlock& b) { return dref ? b->opImageDrefGather(si, co, q) : b->opImageGather(si, co, q); }); break;
		}
		case 4:
		{
			Instruction* co = value(ico(c)); Instruction* im = value(img); x.op = 98; x.res = texel; x.fit = Fit::Exact; x.ops = { EOp::ins(im), EOp::ins(co) }; x.what = "opImageRead";
			const bool single = format == 3 || format == 24 || format == 33; if (single) { x.res = nullptr; x.fit = Fit::Any; } // as many components as the format has, or four
			r = add(x, [&](BasicBlock& b) { return b->opImageRead(im, co); }); break;
		}
		case 5:
		{
			Instruction* co = value(ico(c)); Instruction* im = value(img); Instruction* tx = value(texel); x.op = 99; x.ops = { EOp::ins(im), EOp::ins(co), EOp::ins(tx) }; x.what = "opImageWrite";
			add(x, [&](BasicBlock& b) { return b->opImageWrite(im, co, tx); }); return;
		}
		case 6:
		{
			TP i32 = tInt(32, true); auto iv = [&](uint32_t k) { return k == 1 ? i32 : tVec(i32, k); }; const uint32_t sz = (dim == 3 ? 2 : cdim) + (arr ? 1 : 0);
			x.fit = Fit::AnySign;
			if (ms) { Instruction* im = value(img); const bool smp = s.coin(); x.op = smp ? 107 : 104; x.res = smp ? i32 : iv(sz); x.ops = { EOp::ins(im) }; x.what = smp ? "opImageQuerySamples" : "opImageQuerySize"; r = add(x, [&](BasicBlock& b) { return smp ? b->opImageQuerySamples(im) : b->opImageQuerySize(im); }); break; }
			switch (s.below(frag ? 4 : 3))
			{
			case 0: { Instruction* l = value(tInt(32, s.coin())); Instruction* im = value(img); x.op = 103; x.res = iv(sz); x.ops = { EOp::ins(im), EOp::ins(l) }; x.what = "opImageQuerySizeLod"; r = add(x, [&](BasicBlock& b) { return b->opImageQuerySizeLod(im, l); }); break; }
			case 1: { Instruction* im = value(img); x.op = 106; x.res = i32; x.ops = { EOp::ins(im) }; x.what = "opImageQueryLevels"; r = add(x, [&](BasicBlock& b) { return b->opImageQueryLevels(im); }); break; }
			case 2: { auto t = std::make_shared<T>(*img); t->sampled = 2; t->format = st->isFloat() ? 1 : st->s ? 21 : 30; if (dim == 3) { t->dim = 1; } img = t; const uint32_t z = (img->dim == 0 ? 1 : img->dim == 1 ? 2 : 3) + (arr ? 1 : 0); Instruction* im = value(img); x.op = 104; x.res = iv(z); x.ops = { EOp::ins(im) }; x.what = "opImageQuerySize"; r = add(x, [&](BasicBlock& b) { return b->opImageQuerySize(im); }); break; }
			default: { Instruction* co = value(fco(cdim)); Instruction* si = sampled(); x.op = 105; x.res = tVec(tFloat(32), 2); x.ops = { EOp::ins(si), EOp::ins(co) }; x.what = "opImageQueryLod"; r = add(x, [&](BasicBlock& b) { return b->opImageQueryLod(si, co); }); break; }
			}
			break;
		}
		default:
		{
			Instruction* si = sampled(); x.op = 100; x.res = img; x.ops = { EOp::ins(si) }; x.what = "opImage"; r = add(x, [&](BasicBlock& b) { return b->opImage(si); }); break;
		}
		}
		if (x.res) scope.push_back({ x.fit == Fit::Exact ? x.res : fromLib(*r->getType()), r });
	}

	// ---------------------------------------------------------------- control flow
	EBlock* Gen::wrap(BasicBlock& b) { fn->blocks.push_back({ &b, {} }); return &fn->blocks.back(); }
	EBlock* Gen::block(const char* nm)
	{
		std::string t; if (!nm && o.names && s.chance(1, 4)) { t = text(); nm = t.c_str(); }
		BasicBlock& b = fn->f->addBasicBlock(nm); if (nm) e.names.push_back({ b.getLabel(), -1, nm });
		return wrap(b);
	}
	void Gen::terminate()
	{
		EInst x;
		uint32_t r = s.weighted({ 6, frag ? 1u : 0u, 1 });
		if (r == 1) { x.op = 252; x.what = "opKill"; add(x, [&](BasicBlock& b) { Instruction* i = b.addInstruction(); i->opKill(); return i; }); return; }
		if (r == 2) { x.op = 255; x.what = "opUnreachable"; add(x, [&](BasicBlock& b) { Instruction* i = b.addInstruction(); i->opUnreachable(); return i; }); return; }
		if (fn->ret->k == K::Void) { x.op = 253; x.what = "opReturn"; bool h = s.coin(); add(x, [&](BasicBlock& b) { if (h) return b.returnValue(); Instruction* i = b.addInstruction(); i->opReturn(); return i; }); return; }
		Instruction* v = value(fn->ret); x.op = 254; x.ops = { EOp::ins(v) }; x.what = "opReturnValue"; bool h = s.coin();
		add(x, [&](BasicBlock& b) { if (h) return b.returnValue(v); Instruction* i = b.addInstruction(); i->opReturnValue(v); return i; });
	}
	static EInst branch(BasicBlock* b) { EInst x; x.op = 249; x.ops = { EOp::blk(b) }; x.what = "opBranch"; return x; }
	void Gen::ifOp(EBlock*& cur, int depth)
	{
		++ifs;
		Instruction* c = value(tBool()); const size_t mark = scope.size(); const bool two = s.coin(); const uint32_t ctl = s.below(3);
		auto header = [&](BasicBlock* t, BasicBlock* f, BasicBlock* mb) { EInst a; a.op = 247; a.ops = { EOp::blk(mb), EOp::lit(ctl) }; a.what = "opSelectionMerge"; EInst b; b.op = 250; b.ops = { EOp::ins(c), EOp::blk(t), EOp::blk(f) }; b.what = "opBranchConditional"; use(c); cur->insts.push_back(a); cur->insts.push_back(b); };
		const spv::SelectionControlMask mask = spv::SelectionControlMask(ctl);
		EBlock* me = nullptr; EBlock* before = cur; bool mayEnd = true;
		auto lambdaBody = [&](BasicBlock& b) { EBlock* k = nullptr; for (auto& x : fn->blocks) if (x.bb == &b) k = &x; if (!k) k = wrap(b); EBlock* save = blk; blk = k; EBlock* cc = k; body(cc, 0, s.below(3)); if (mayEnd && s.chance(1, 8)) terminate(); scope.resize(mark); blk = save; };
		auto closed = [&](EBlock* b) { return !b->insts.empty() && (b->insts.back().op >= 249 && b->insts.back().op <= 255); };
		if (depth <= 0 || s.coin()) // bodies given as functions, which may be empty
		{
			BasicBlock *tb = nullptr, *fb = nullptr, *mb = nullptr; EBlock* given = s.chance(1, 3) ? block("merge") : nullptr; mayEnd = !two || (!given && !fixedOrder);
			if (two) mb = &cur->bb->If(c, [&](BasicBlock& b) { tb = &b; lambdaBody(b); }, [&](BasicBlock& b) { fb = &b; lambdaBody(b); }, given ? given->bb : nullptr, mask);
			else mb = &cur->bb->If(c, [&](BasicBlock& b) { tb = &b; lambdaBody(b); }, given ? given->bb : nullptr, mask);
			cur = before; me = given ? given : wrap(*mb);
			header(tb, two ? fb : mb, mb);
			for (BasicBlock* x : { tb, fb }) if (x) for (auto& k : fn->blocks) if (k.bb == x && !closed(&k)) k.insts.push_back(branch(mb));
		}
		else // blocks made beforehand, filled before or after the branch
		{
			EBlock* t = block(s.coin() ? nullptr : "then"); EBlock* f = nullptr; EBlock* g = nullptr; const bool first = s.coin(); bool open[2] = { true, true }; EBlock* ends[2] = { nullptr, nullptr };
			Instruction* last[2] = { nullptr, nullptr }; TP pt; BasicBlock* mp = nullptr;
			auto fill = [&](EBlock* x, int k)
			{
				blk = x; EBlock* cc = x; open[k] = body(cc, depth - 1, s.below(4)); ends[k] = blk = cc;
				if (open[k] && two && (pt || s.coin())) { if (!pt) pt = valueType(1); EInst y; y.op = 83; y.res = pt; Instruction* v = value(pt); y.ops = { EOp::ins(v) }; y.what = "opCopyObject"; last[k] = add(y, [&](BasicBlock& b) { return b->opCopyObject(v); }); }
				scope.resize(mark);
			};
			auto join = [&](int k) { if (!open[k] || !ends[k]) return; EInst y = branch(mp); blk = ends[k]; add(y, [&](BasicBlock& b) { Instruction* i = b.addInstruction(); i->opBranch(mp); return i; }); };
			// blocks come after those which dominate them: a merge block made before the blocks of the branches may not be dominated by one of them
			if (first) { fill(t, 0); if (two) { f = block(nullptr); fill(f, 1); } }
			else { if (two) { f = block(nullptr); ++fixedOrder; } }
			if (s.coin()) g = block(nullptr);
			std::vector<EBlock*> helped; // unfinished blocks which the helper branches to the merge block
			if (first) for (EBlock* x : { t, f }) if (x && !x->bb->empty() && !closed(x)) helped.push_back(x);
			BasicBlock& mb = two ? cur->bb->If(c, *t->bb, *f->bb, g ? g->bb : nullptr, mask) : cur->bb->If(c, *t->bb, g ? g->bb : nullptr, mask);
			mp = &mb; me = g ? g : wrap(mb); header(t->bb, two ? f->bb : &mb, &mb);
			if (first) { int k = 0; for (EBlock* x : { t, f }) { if (x) { if (std::find(helped.begin(), helped.end(), x) != helped.end()) x->insts.push_back(branch(&mb)); else join(k); } ++k; } }
			else { fill(t, 0); join(0); if (two) { fill(f, 1); join(1); --fixedOrder; } }
			blk = me;
			if (last[0] && last[1])
			{
				EInst y; y.op = 245; y.res = pt; y.ops = { EOp::ins(last[0]), EOp::blk(ends[0]->bb), EOp::ins(last[1]), EOp::blk(ends[1]->bb) }; y.what = "opPhi"; ++phis; const bool dyn = s.chance(1, 3); if (dyn) y.what = "opPhiDynamic";
				Instruction* r = add(y, [&](BasicBlock& b) { if (dyn) { sg::List<Instruction*> l(m.getAllocator()); l.emplace_back(last[0]); l.emplace_back(last[1]); return b->opPhiDynamic(l); } return b->opPhi(last[0], last[1]); }); scope.push_back({ pt, r });
			}
		}
		blk = cur = me;
	}
	void Gen::loopOp(EBlock*& cur, int depth)
	{
		++loops; const uint32_t ctl = s.below(3); const spv::LoopControlMask mask = spv::LoopControlMask(ctl); const size_t mark = scope.size();
		auto cond = [&](EBlock* k) { // a condition computed in that very block
			blk = k; EInst y; y.op = 176; TP t = tInt(32, false); Instruction* a = value(t); Instruction* b = value(t); y.res = tBool(); y.ops = { EOp::ins(a), EOp::ins(b) }; y.what = "opULessThan"; return add(y, [&](BasicBlock& x) { return x->opULessThan(a, b); }); };
		auto merge = [&](EBlock* h, BasicBlock* mb, BasicBlock* cb) { EInst a; a.op = 246; a.ops = { EOp::blk(mb), EOp::blk(cb), EOp::lit(ctl) }; a.what = "opLoopMerge"; h->insts.push_back(a); };
		auto conditional = [&](EBlock* k, Instruction* c, BasicBlock* t, BasicBlock* f) { EInst b; b.op = 250; b.ops = { EOp::ins(c), EOp::blk(t), EOp::blk(f) }; b.what = "opBranchConditional"; k->insts.push_back(b); };
		if (depth <= 0 || s.coin())
		{
			BasicBlock *cb = nullptr, *bb = nullptr, *nb = nullptr; Instruction* cv = nullptr; EBlock* before = cur;
			EBlock *kc = nullptr, *kb = nullptr, *kn = nullptr;
			BasicBlock& mb = cur->bb->Loop(
				[&](BasicBlock& b) { cb = &b; kc = wrap(b); body(kc, 0, s.below(2)); cv = cond(kc); return cv; },
				[&](BasicBlock& b) { nb = &b; kn = wrap(b); blk = kn; EBlock* x = kn; body(x, 0, s.below(2)); scope.resize(mark); },
				[&](BasicBlock& b) { bb = &b; kb = wrap(b); blk = kb; EBlock* x = kb; size_t mk = scope.size(); body(x, 0, s.below(3)); if (s.chance(1, 8)) terminate(); scope.resize(mk); }, nullptr, mask);
			// the entry block of the loop was made by the library, directly before the others
			BasicBlock* lb = nullptr; { BasicBlock* prev = nullptr; for (BasicBlock& x : *fn->f) { if (&x == cb) lb = prev; prev = &x; } }
			CHECK_SIG(lb != nullptr, "loop", "Loop made no entry block");
			EBlock* h = wrap(*lb); before->insts.push_back(branch(lb)); merge(h, &mb, nb); h->insts.push_back(branch(cb)); conditional(kc, cv, bb, &mb);
			if (kb->insts.empty() || kb->insts.back().op < 249 || kb->insts.back().op > 255) kb->insts.push_back(branch(nb));
			kn->insts.push_back(branch(lb)); scope.resize(mark); blk = cur = wrap(mb); return;
		}
		EBlock* h = block("loop"); EBlock* kc = block(nullptr); EBlock* kb = block(nullptr);
		TP pt; Instruction *first = nullptr, *next = nullptr; EBlock* before = cur; auto copy = [&](EBlock* k) { blk = k; EInst y; y.op = 83; y.res = pt; Instruction* v = value(pt); y.ops = { EOp::ins(v) }; y.what = "opCopyObject"; return add(y, [&](BasicBlock& b) { return b->opCopyObject(v); }); };
		if (s.coin()) { pt = valueType(1); first = copy(cur); } // a value that changes with every iteration
		{ EInst y = branch(h->bb); blk = cur; add(y, [&](BasicBlock& b) { Instruction* i = b.addInstruction(); i->opBranch(h->bb); return i; }); }
		blk = kc; body(kc, 0, s.below(2)); Instruction* cv = cond(kc);
		if (s.coin()) // helper, which ends the body and the continue block
		{
			size_t mk = scope.size(); blk = kb; EBlock* x = kb; body(x, 0, s.below(3)); scope.resize(mk); EBlock* kn = block(nullptr); EBlock* g = s.coin() ? block(nullptr) : nullptr; blk = kn; x = kn; body(x, 0, s.below(2)); scope.resize(mk);
			BasicBlock& mb = h->bb->Loop(cv, *kn->bb, *kb->bb, g ? g->bb : nullptr, mask);
			EBlock* me = g ? g : wrap(mb); merge(h, &mb, kn->bb); h->insts.push_back(branch(kc->bb)); conditional(kc, cv, kb->bb, &mb); kb->insts.push_back(branch(kn->bb)); kn->insts.push_back(branch(h->bb));
			scope.resize(mark); blk = cur = me; return;
		}
		size_t mk = scope.size(); blk = kb; EBlock* x = kb; bool open = body(x, depth - 1, s.below(4)); EBlock* endb = x; scope.resize(mk);
		EBlock* kn = block(nullptr); EBlock* me = block(nullptr); Instruction* phi = nullptr;
		if (pt)
		{
			next = copy(kn); blk = h; EInst y; y.op = 245; y.res = pt; y.ops = { EOp::ins(first), EOp::blk(before->bb), EOp::ins(next), EOp::blk(kn->bb) }; y.what = "opPhi"; ++phis;
			phi = add(y, [&](BasicBlock& b) { return b->opPhi(first, next); });
		}
		{
			EInst y; y.op = 246; y.ops = { EOp::blk(me->bb), EOp::blk(kn->bb), EOp::lit(ctl) }; y.what = "opLoopMerge"; blk = h; add(y, [&](BasicBlock& b) { Instruction* i = b.addInstruction(); i->opLoopMerge(me->bb, kn->bb, mask); return i; });
			y = branch(kc->bb); add(y, [&](BasicBlock& b) { Instruction* i = b.addInstruction(); i->opBranch(kc->bb); return i; });
		}
		{
			const bool w = s.chance(1, 3); uint32_t w1 = s.below(10) + 1, w2 = s.below(10) + 1; EInst y; y.op = 250; y.ops = { EOp::ins(cv), EOp::blk(kb->bb), EOp::blk(me->bb) }; if (w) { y.ops.push_back(EOp::lit(w1)); y.ops.push_back(EOp::lit(w2)); } y.what = "opBranchConditional"; blk = kc;
			add(y, [&](BasicBlock& b) { Instruction* i = b.addInstruction(); if (w) i->opBranchConditional(cv, kb->bb, me->bb, w1, w2); else i->opBranchConditional(cv, kb->bb, me->bb); return i; });
		}
		if (open) { blk = endb; EBlock* to = kn; if (s.chance(1, 6)) to = me; EInst y = branch(to->bb); add(y, [&](BasicBlock& b) { Instruction* i = b.addInstruction(); i->opBranch(to->bb); return i; }); }
		blk = kn; x = kn; body(x, 0, s.below(2)); scope.resize(mark); { blk = x; EInst y = branch(h->bb); add(y, [&](BasicBlock& b) { Instruction* i = b.addInstruction(); i->opBranch(h->bb); return i; }); }
		if (phi) scope.push_back({ pt, phi });
		blk = cur = me;
	}
	void Gen::statement(EBlock*& cur, int depth)
	{
		blk = cur;
		if (!o.onlyTable && s.chance(1, 12)) lineOp();
		const bool flow = depth > 0 && !o.straight && !o.onlyTable;
		if (o.rejected) for (uint32_t k = s.below(4); k > 0; --k)
		{
			if (s.chance(1, 4)) { rejectMisc(); continue; }
			const OpDef& d = opTable()[s.below(uint32_t(opTable().size()))];
			if ((d.fragment && !frag) || d.kernel != o.kernel || (o.kernel && d.ext)) continue;
			reject(d);
		}
		switch (s.weighted({ 10, o.onlyTable ? 0u : 4u, o.onlyTable ? 0u : 1u, o.onlyTable ? 0u : 1u, flow ? 2u : 0u, flow ? 1u : 0u, o.images && !o.kernel && !o.onlyTable ? 2u : 0u, model == 3 && !o.onlyTable ? 1u : 0u, o.onlyTable ? 0u : 1u }))
		{
		case 0:
			for (int k = 0; k < 8; ++k)
			{
				const OpDef& d = opTable()[s.below(uint32_t(opTable().size()))];
				if (d.fragment && !frag) continue;
				if (d.kernel && !o.kernel) continue;
				if (o.kernel && (d.ext || !(d.kernel || !strncmp(d.name, "opF", 3) || !strncmp(d.name, "opLogical", 9) || !strncmp(d.name, "opI", 3) || !strncmp(d.name, "opU", 3) || !strncmp(d.name, "opBitwise", 9) || !strncmp(d.name, "opComposite", 11) || !strncmp(d.name, "opVector", 8)) || strstr(d.name, "Matrix"))) continue;
				if (tableOp(d)) break;
			}
			break;
		case 1: memoryOp(); break;
		case 2: callOp(); break;
		case 3: undefOp(); break;
		case 4: ifOp(cur, depth); break;
		case 5: loopOp(cur, depth); break;
		case 6: imageOp(); break;
		case 8: miscOp(); break;
		default:
		{
			EInst x; const uint32_t k = s.below(2);
			if (s.chance(1, 3)) { m.addCapability(spv::Capability::GeometryStreams); e.caps.insert(uint32_t(spv::Capability::GeometryStreams)); Instruction* i = constI(cScalar(tInt(32, s.coin()), s.below(4))); x.op = k ? 221 : 220; x.what = k ? "opEndStreamPrimitive" : "opEmitStreamVertex"; x.ops = { EOp::ins(i) }; add(x, [&](BasicBlock& b) { return k ? b->opEndStreamPrimitive(i) : b->opEmitStreamVertex(i); }); return; }
			x.op = k ? 219 : 218; x.what = k ? "opEndPrimitive" : "opEmitVertex"; add(x, [&](BasicBlock& b) { return k ? b->opEndPrimitive() : b->opEmitVertex(); });
		}
		}
	}
	bool Gen::body(EBlock*& cur, int depth, int k)
	{
		blk = cur;
		for (int i = 0; i < k; ++i) statement(cur, depth);
		blk = cur;
		if (depth > 0 && !fixedOrder && s.chance(1, 8)) { terminate(); return false; }
		return true;
	}
	EFunc& Gen::function(bool entry)
	{
		e.funcs.emplace_back(); EFunc& f = e.funcs.back(); fn = &f; f.entry = entry; f.model = model; f.control = s.below(4); scope.clear();
		f.name = entry || s.coin() ? text() : ""; if (entry) for (size_t k = 0; k + 1 < e.funcs.size(); ++k) if (e.funcs[k].entry && e.funcs[k].name == f.name) { f.name += "_"; k = size_t(-1); } const char* np = f.name.empty() ? nullptr : f.name.c_str();
		const spv::ExecutionModel em = spv::ExecutionModel(model); const auto ctl = spv::FunctionControlMask(f.control);
		BasicBlock* bb = nullptr;
		if (entry)
		{
			f.ret = tVoid(); EntryPoint* ep;
			if (s.coin()) { ep = &m.addEntryPoint<void>(em, np, ctl); bb = &*ep->begin(); }
			else { ep = &m.addEntryPoint(); ep->setReturnType(m.type<void>()); ep->finalize(em, ctl, np); }
			f.f = ep; e.names.push_back({ ep->getFunction(), -1, f.name });
			auto mode = [&](spv::ExecutionMode md, std::vector<uint32_t> l) { if (l.empty()) ep->addExecutionMode(md); else if (l.size() == 1) ep->addExecutionMode(md, l[0]); else ep->addExecutionMode(md, l[0], l[1], l[2]); f.modes.push_back({ uint32_t(md), l }); };
			if (model == 4) mode(spv::ExecutionMode::OriginUpperLeft, {});
			if (model == 5 && o.more && minor >= 2 && s.coin()) { Instruction* z[3]; for (auto& i : z) { CP k = cScalar(tInt(32, false), s.below(8) + 1, s.coin()); i = requestConst(m, *k, s); e.consts[i] = k; } ep->addExecutionMode(spv::ExecutionMode::LocalSizeId, z[0], z[1], z[2]); f.modeIds.push_back({ uint32_t(spv::ExecutionMode::LocalSizeId), { z[0], z[1], z[2] } }); }
			else if (model == 5) mode(spv::ExecutionMode::LocalSize, { s.below(8) + 1, s.below(8) + 1, s.below(8) + 1 });
			if (model == 3) { mode(spv::ExecutionMode::Invocations, { s.below(4) + 1 }); mode(spv::ExecutionMode::Triangles, {}); mode(spv::ExecutionMode::OutputTriangleStrip, {}); mode(spv::ExecutionMode::OutputVertices, { s.below(6) + 1 }); }
		}
		else
		{
			const uint32_t r = s.below(6);
			auto par = [&] { for (size_t i = 0; i < f.params.size(); ++i) f.args.push_back(f.f->getParameter(uint32_t(i))); };
			if (r < 3 && !o.kernel)
			{
				if (r == 0) { f.ret = tFloat(32); f.params = { tFloat(32), tInt(32, true) }; f.f = &m.addFunction<float, float, int>(np, ctl); }
				else if (r == 1) { f.ret = tVoid(); f.f = &m.addFunction<void>(np, ctl); }
				else { f.ret = tVec(tFloat(32), 3); f.params = { tVec(tFloat(32), 3), tMat(tVec(tFloat(32), 3), 3), tInt(32, false) }; f.f = &m.addFunction<vector_t<float, 3>, vector_t<float, 3>, matrix_t<float, 3, 3>, unsigned int>(np, ctl); }
				bb = &*f.f->begin();
			}
			else
			{
				f.ret = s.chance(1, 4) ? tVoid() : valueType(2); const uint32_t k = s.below(4);
				for (uint32_t i = 0; i < k; ++i) { TP t = valueType(2); if (s.chance(1, 5) && !o.kernel) t = tPtr(s.coin() ? 7 : 6, t); f.params.push_back(t); }
				Function& x = m.addFunction(); f.f = &x; if (s.coin()) x.setReturnType(typeI(f.ret)); else x.setReturnType(toLib(m.getAllocator(), *f.ret, s));
				std::vector<Instruction*> pi; for (auto& p : f.params) pi.push_back(typeI(p));
				if (pi.size() == 3 && s.coin()) x.addParameters(pi[0], pi[1], pi[2]); else if (pi.size() == 2 && s.coin()) x.addParameters(pi[0], pi[1]); else for (auto* p : pi) x.addParameters(p);
				x.finalize(ctl, np);
			}
			if (np) e.names.push_back({ f.f->getFunction(), -1, f.name });
			CHECK_SIG(f.f->getParameters().size() == f.params.size(), "parameters", "function has " + n(f.f->getParameters().size()) + " parameters instead of " + n(f.params.size()));
			par(); for (size_t i = 0; i < f.params.size(); ++i) { name(f.args[i]); scope.push_back({ f.params[i], f.args[i] }); }
		}
		// the first variable of an empty function makes its entry block
		if (!bb && s.chance(1, 4)) { fn->f = f.f; local(valueType(1)); CHECK_SIG(f.f->size() == 1, "entry block", "the first variable leaves " + n(f.f->size()) + " blocks"); bb = &f.f->front(); e.names.push_back({ bb->getLabel(), -1, "FunctionEntry" }); ++used["implicit entry block"]; }
		EBlock* cur = bb ? wrap(*bb) : block(nullptr);
		const bool open = body(cur, o.depth, s.range(1, o.size)); blk = cur;
		if (open) terminate();
		return f;
	}
	void Gen::setup()
	{
		static const spv::Capability caps[] = { spv::Capability::Shader, spv::Capability::Matrix, spv::Capability::Float16, spv::Capability::Float64, spv::Capability::Int64, spv::Capability::Int16, spv::Capability::Int8, spv::Capability::DerivativeControl, spv::Capability::ImageQuery, spv::Capability::Geometry, spv::Capability::Image1D, spv::Capability::Sampled1D, spv::Capability::ImageCubeArray, spv::Capability::SampledCubeArray, spv::Capability::ImageMSArray, spv::Capability::StorageImageExtendedFormats, spv::Capability::MinLod, spv::Capability::ImageGatherExtended };
		static const spv::Capability kcaps[] = { spv::Capability::Kernel, spv::Capability::Addresses, spv::Capability::Linkage, spv::Capability::Float16, spv::Capability::Float64, spv::Capability::Int64, spv::Capability::Int16, spv::Capability::Int8, spv::Capability::Vector16 };
		auto cap = [&](spv::Capability c) { m.addCapability(c); e.caps.insert(uint32_t(c)); };
		if (o.kernel) for (auto c : kcaps) cap(c); else for (auto c : caps) cap(c);
		m.setMemoryModel(o.kernel ? spv::AddressingModel::Physical64 : spv::AddressingModel::Logical, o.kernel ? spv::MemoryModel::OpenCL : spv::MemoryModel::GLSL450);
		static const uint32_t minors[] = { 3, 4, 5, 6, 0 }; minor = o.version ? o.version : s.pick(minors); m.setSpvVersion(1, minor);
		static const uint32_t models[] = { 4, 5, 0, 3 }; model = models[s.weighted({ 4, 2, 1, 1 })]; if (o.kernel) model = 6; if (o.model >= 0 && !o.kernel) model = uint32_t(o.model); frag = model == 4;
	}
	void Gen::run()
	{
		setup(); if (o.afterSetup) o.afterSetup(*this);
		const uint32_t k = o.minFuncs + s.below(o.maxFuncs - o.minFuncs); for (uint32_t i = 0; i < k; ++i) function(false);
		const uint32_t en = o.kernel ? 0 : o.entries >= 0 ? o.entries : s.range(1, 2); for (uint32_t i = 0; i < en; ++i) function(true);
		if (o.kernel && !k) function(false);
		if (o.names) for (auto& t : e.typeOrder) if (t.second->k == K::Struct && s.chance(1, 4))
		{
			uint32_t mi = s.below(uint32_t(t.second->sub.size())); std::string x = text(); m.addMemberName(t.first, x.c_str(), mi); e.names.push_back({ t.first, int(mi), x });
			if (o.decorate && !o.kernel && s.coin()) { m.addDecorationInstr()->opMemberDecorate(t.first, mi, spv::Decoration::Offset, 16u * mi); e.decos.push_back({ t.first, int(mi), 35, { 16 * mi } }); }
		}
	}
}
