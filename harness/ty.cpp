#include "ty.h"
namespace ag
{
	using namespace spvgentwo;
	using pbt::Src;
	static std::string num(uint64_t v) { return std::to_string(v); }

	// ---------------------------------------------------------------- model
	std::string T::key(bool any) const
	{
		auto subs = [&] { std::string r; for (size_t i = 0; i < sub.size(); ++i) r += (i ? "," : "") + sub[i]->key(any); return r; };
		switch (k)
		{
		case K::Void: return "void";
		case K::Bool: return "bool";
		case K::Int: return (any ? "i" : s ? "s" : "u") + num(w);
		case K::Float: return "f" + num(w);
		case K::Vec: return "v" + num(n) + "(" + subs() + ")";
		case K::Mat: return "m" + num(n) + "(" + subs() + ")";
		case K::Arr: return "a" + num(n) + "(" + subs() + ")";
		case K::RtArr: return "rt(" + subs() + ")";
		case K::Struct: return "{" + subs() + "}";
		case K::Ptr: return "p" + num(sc) + "(" + subs() + ")";
		case K::Func: return "fn(" + subs() + ")";
		case K::Image: return "img(" + subs() + ";" + num(dim) + "," + num(depth) + "," + num(arrayed) + "," + num(ms) + "," + num(sampled) + "," + num(format) + (access >= 0 ? "," + num(access) : "") + ")";
		case K::SampImg: return "simg(" + subs() + ")";
		case K::Sampler: return "sampler";
		case K::Event: return "event"; case K::DeviceEvent: return "devevent"; case K::ReserveId: return "reserve"; case K::Queue: return "queue";
		case K::Pipe: return "pipe" + std::to_string(access); case K::PipeStorage: return "pipestorage"; case K::NamedBarrier: return "barrier"; case K::RayQuery: return "rayquery"; case K::AccelStruct: return "accel";
		case K::Unknown: return "?" + num(w);
		}
		return "?";
	}
	static std::shared_ptr<T> mk(K k) { auto t = std::make_shared<T>(); t->k = k; return t; }
	TP tOpaque(K k) { return mk(k); }
	TP tVoid() { static TP t = mk(K::Void); return t; }
	TP tBool() { static TP t = mk(K::Bool); return t; }
	TP tInt(uint32_t w, bool s) { auto t = mk(K::Int); t->w = w; t->s = s; return t; }
	TP tFloat(uint32_t w) { auto t = mk(K::Float); t->w = w; return t; }
	TP tVec(TP e, uint32_t n) { auto t = mk(K::Vec); t->n = n; t->sub = { std::move(e) }; return t; }
	TP tMat(TP c, uint32_t n) { auto t = mk(K::Mat); t->n = n; t->sub = { std::move(c) }; return t; }
	TP tArr(TP e, uint32_t n) { auto t = mk(K::Arr); t->n = n; t->sub = { std::move(e) }; return t; }
	TP tRt(TP e) { auto t = mk(K::RtArr); t->sub = { std::move(e) }; return t; }
	TP tStruct(std::vector<TP> m) { auto t = mk(K::Struct); t->sub = std::move(m); return t; }
	TP tPtr(uint32_t sc, TP in) { auto t = mk(K::Ptr); t->sc = sc; t->sub = { std::move(in) }; return t; }
	TP tFunc(TP r, std::vector<TP> p) { auto t = mk(K::Func); t->sub = { std::move(r) }; for (auto& x : p) t->sub.push_back(x); return t; }
	TP tSampler() { return mk(K::Sampler); }
	TP tSampImg(TP i) { auto t = mk(K::SampImg); t->sub = { std::move(i) }; return t; }
	TP tImg(TP st, uint32_t dim, uint32_t depth, bool arr, bool ms, uint32_t sampled, uint32_t format, int access)
	{
		auto t = mk(K::Image); t->sub = { std::move(st) }; t->dim = dim; t->depth = depth; t->arrayed = arr; t->ms = ms; t->sampled = sampled; t->format = format; t->access = access; return t;
	}
	TP like(const T& t, TP e) { return t.vec() ? tVec(std::move(e), t.n) : e; }

	std::string C::key() const
	{
		std::string r = spec ? "S" : "";
		switch (k)
		{
		case CK::True: return r + "true"; case CK::False: return r + "false";
		case CK::Null: r += "null:"; break;
		case CK::Scalar: r += "c:"; break; case CK::Comp: r += "cc:"; break; case CK::Sampler: r += "smp:"; break;
		}
		r += t->key();
		for (auto x : words) r += "," + num(x);
		if (k == CK::Comp) { r += "["; for (auto& c : comps) r += c->key() + ";"; r += "]"; }
		return r;
	}
	CP cScalar(TP t, uint64_t bits, bool spec)
	{
		auto c = std::make_shared<C>(); c->k = CK::Scalar; c->t = t; c->spec = spec;
		uint32_t w = t->w;
		if (w < 32)
		{
			uint32_t v = uint32_t(bits) & ((1u << w) - 1);
			if (t->isInt() && t->s && (v >> (w - 1))) v |= ~((1u << w) - 1);
			c->words = { v };
		}
		else if (w == 32) c->words = { uint32_t(bits) };
		else c->words = { uint32_t(bits), uint32_t(bits >> 32) };
		return c;
	}
	CP cBool(bool v, bool spec) { auto c = std::make_shared<C>(); c->k = v ? CK::True : CK::False; c->t = tBool(); c->spec = spec; return c; }
	CP cNull(TP t) { auto c = std::make_shared<C>(); c->k = CK::Null; c->t = std::move(t); return c; }
	CP cComp(TP t, std::vector<CP> m, bool spec) { auto c = std::make_shared<C>(); c->k = CK::Comp; c->t = std::move(t); c->comps = std::move(m); c->spec = spec; return c; }
	CP cSampler(uint32_t a, uint32_t n, uint32_t f) { auto c = std::make_shared<C>(); c->k = CK::Sampler; c->t = tSampler(); c->words = { a, n, f }; return c; }

	// ---------------------------------------------------------------- generators
	TP genScalar(Src& s, bool widths, bool bools)
	{
		switch (s.weighted({ 4, 3, 3, bools ? 2u : 0u }))
		{
		case 0: { static const uint32_t w[] = { 32, 32, 32, 64, 16 }; return tFloat(widths ? s.pick(w) : 32); }
		case 1: { static const uint32_t w[] = { 32, 32, 32, 64, 16, 8 }; return tInt(widths ? s.pick(w) : 32, true); }
		case 2: { static const uint32_t w[] = { 32, 32, 32, 64, 16, 8 }; return tInt(widths ? s.pick(w) : 32, false); }
		default: return tBool();
		}
	}
	TP genImage(Src& s, bool anyAccess)
	{
		TP st;
		switch (s.weighted({ 4, 2, 2, 1, 1 })) { case 0: st = tFloat(32); break; case 1: st = tInt(32, true); break; case 2: st = tInt(32, false); break; case 3: st = tFloat(64); break; default: st = tVoid(); }
		uint32_t sampled = s.below(3);
		return tImg(st, s.below(7), s.below(3), s.coin(), s.coin(), sampled, s.below(42), anyAccess && s.chance(1, 3) ? int(s.below(3)) : -1);
	}
	TP genType(Src& s, const TypeOpts& o, int depth)
	{
		uint32_t k = s.weighted({ 5, 4, o.matrices ? 2u : 0u, o.aggregates && depth > 0 ? 3u : 0u, o.aggregates && depth > 0 ? 3u : 0u, o.pointers && depth > 0 ? 2u : 0u, o.opaque ? 2u : 0u, o.functions && depth > 0 ? 1u : 0u, o.pointers && depth > 0 ? 1u : 0u });
		switch (k)
		{
		case 0: return genScalar(s, o.widths, o.bools);
		case 1: return tVec(genScalar(s, o.widths, o.bools), s.range(2, 4));
		case 2: { static const uint32_t w[] = { 32, 32, 64, 16 }; uint32_t r = s.range(2, 4); return tMat(tVec(tFloat(o.widths ? s.pick(w) : 32), r), s.range(2, 4)); }
		case 3: return tArr(genType(s, o, depth - 1), s.chance(1, 10) ? s.below(70000) + 1 : s.range(1, 5));
		case 4: { std::vector<TP> m; uint32_t n = s.range(1, 4); for (uint32_t i = 0; i < n; ++i) m.push_back(genType(s, o, depth - 1)); return tStruct(m); }
		case 5: { static const uint32_t sc[] = { 7, 6, 1, 3, 2, 4, 9, 12, 0 }; return tPtr(s.pick(sc), genType(s, o, depth - 1)); }
		case 6: switch (s.below(13))
		{
		case 0: return tSampler(); case 1: case 2: return genImage(s, true); case 3: { auto i = genImage(s, false); return tSampImg(i); }
		case 4: return tOpaque(K::Event); case 5: return tOpaque(K::DeviceEvent); case 6: return tOpaque(K::ReserveId); case 7: return tOpaque(K::Queue);
		case 8: return tOpaque(K::PipeStorage); case 9: return tOpaque(K::NamedBarrier); case 10: return tOpaque(K::RayQuery); case 11: { auto p = std::make_shared<T>(); p->k = K::Pipe; p->access = int(s.below(3)); return p; } default: return tOpaque(K::AccelStruct);
		}
		case 7: { std::vector<TP> p; uint32_t n = s.below(4); for (uint32_t i = 0; i < n; ++i) p.push_back(genType(s, o, depth - 1)); return tFunc(s.coin() ? tVoid() : genType(s, o, depth - 1), p); }
		default: return tRt(genType(s, o, depth - 1));
		}
	}
	bool constable(const T& t)
	{
		switch (t.k)
		{
		case K::Bool: case K::Int: case K::Float: return true;
		case K::Vec: case K::Mat: return true;
		case K::Arr: return t.n <= 8 && constable(*t.sub[0]);
		case K::Struct: for (auto& x : t.sub) if (!constable(*x)) return false; return !t.sub.empty();
		default: return false;
		}
	}
	CP genConst(Src& s, TP t, bool allowNull)
	{
		if (t->k == K::Sampler) return cSampler(s.below(5), s.below(2), s.below(2));
		if (!constable(*t) || (allowNull && s.chance(1, 8))) return cNull(t);
		if (t->isBool()) return cBool(s.coin());
		if (t->scalar()) return cScalar(t, t->w > 32 ? s.word64() : s.word());
		std::vector<CP> c; uint32_t n = t->k == K::Struct ? uint32_t(t->sub.size()) : t->n;
		for (uint32_t i = 0; i < n; ++i) c.push_back(genConst(s, t->k == K::Struct ? t->sub[i] : t->sub[0], allowNull && s.chance(1, 4)));
		return cComp(t, c);
	}

	// ---------------------------------------------------------------- into the library
	static dyn_scalar_t dynScalar(const T& t)
	{
		switch (t.k) { case K::Int: return { spv::Op::OpTypeInt, t.w, t.s }; case K::Float: return { spv::Op::OpTypeFloat, t.w, false }; case K::Bool: return { spv::Op::OpTypeBool, 0u, false }; default: return DynScalarVoid; }
	}
	static dyn_image_t dynImage(const T& t)
	{
		dyn_image_t d; d.sampledType = dynScalar(*t.sub[0]); d.dimension = spv::Dim(t.dim); d.depth = t.depth; d.array = t.arrayed; d.multiSampled = t.ms;
		d.samplerAccess = SamplerImageAccess(t.sampled); d.format = spv::ImageFormat(t.format); if (t.access >= 0) d.accessQualifier = spv::AccessQualifier(t.access);
		return d;
	}
	static void build(Type& o, const T& t, Src& s, IAllocator* a)
	{
		switch (t.k)
		{
		case K::Void: o.Void(); break;
		case K::Bool: o.Bool(); break;
		case K::Int:
			switch (s.below(4)) { case 0: o.Int(t.w, t.s); break; case 1: if (t.s) o.Int(t.w); else o.UInt(t.w); break; case 2: o.Scalar(spv::Op::OpTypeInt, t.w, t.s); break; default: o.Scalar(dynScalar(t)); } break;
		case K::Float:
			switch (s.below(3)) { case 0: if (t.w == 64 && s.coin()) o.Double(); else o.Float(t.w); break; case 1: o.Scalar(spv::Op::OpTypeFloat, t.w, false); break; default: o.Scalar(dynScalar(t)); } break;
		case K::Vec:
			switch (s.below(5))
			{
			case 0: build(o.VectorElement(t.n), *t.sub[0], s, a); break;
			case 1: { Type e(a); build(e, *t.sub[0], s, a); o.Vector(t.n, &e); break; }
			case 2: { dyn_vector_t v; v.elementType = dynScalar(*t.sub[0]); v.elements = t.n; o.Vector(v); break; }
			case 3: { Type e(a); build(e, *t.sub[0], s, a); o = e.wrapVector(t.n); break; }
			default: o.Vector(t.n); build(o.Member(), *t.sub[0], s, a);
			} break;
		case K::Mat:
			switch (s.below(5))
			{
			case 0: { Type c(a); build(c, *t.sub[0], s, a); o.Matrix(t.n, &c); break; }
			case 1: { Type e(a); build(e, *t.sub[0]->sub[0], s, a); o.Matrix(t.n, t.sub[0]->n, &e); break; }
			case 2: { dyn_matrix_t m; m.columns = t.n; m.columnType.elements = t.sub[0]->n; m.columnType.elementType = dynScalar(*t.sub[0]->sub[0]); o.Matrix(m); break; }
			case 3: { Type c(a); build(c, *t.sub[0], s, a); o = c.wrapMatrix(t.n); break; }
			default: build(o.MatrixColumn(t.n), *t.sub[0], s, a);
			} break;
		case K::Arr:
			switch (s.below(3)) { case 0: build(o.ArrayElement(t.n), *t.sub[0], s, a); break; case 1: { Type e(a); build(e, *t.sub[0], s, a); o.Array(t.n, &e); break; } default: { Type e(a); build(e, *t.sub[0], s, a); o = e.wrapArray(t.n); } } break;
		case K::RtArr: if (s.coin()) build(o.RuntimeArrayElement(), *t.sub[0], s, a); else { Type e(a); build(e, *t.sub[0], s, a); o.RuntimeArray(&e); } break;
		case K::Struct:
		case K::Func:
		{
			if (t.k == K::Struct && t.sub.size() == 1 && s.coin()) { Type e(a); build(e, *t.sub[0], s, a); o = s.coin() ? e.wrapStruct() : e.wrap(spv::Op::OpTypeStruct); break; }
			if (t.k == K::Struct && t.sub.size() == 2 && s.coin()) { Type e(a), f(a); build(e, *t.sub[0], s, a); build(f, *t.sub[1], s, a); o.Struct(e, f); break; }
			if (t.k == K::Struct) o.Struct(); else o.Function();
			for (auto& m : t.sub)
				switch (s.below(3))
				{
				case 0: build(o.Member(), *m, s, a); break;
				case 1: { Type e(a); build(e, *m, s, a); o.MemberM(&e); break; }
				default:
					if (m->isInt()) { if (m->s) o.IntM(m->w); else o.UIntM(m->w); }
					else if (m->isFloat()) o.FloatM(m->w);
					else if (m->isBool()) o.BoolM();
					else if (m->k == K::Void) o.VoidM();
					else if (m->vec()) { Type e(a); build(e, *m->sub[0], s, a); o.VectorM(m->n, &e); }
					else if (m->k == K::Arr) { Type e(a); build(e, *m->sub[0], s, a); o.ArrayM(m->n, &e); }
					else build(o.Member(), *m, s, a);
				}
			break;
		}
		case K::Ptr:
			switch (s.below(3)) { case 0: { Type e(a); build(e, *t.sub[0], s, a); o.Pointer(spv::StorageClass(t.sc), &e); break; } case 1: build(o.Pointer(spv::StorageClass(t.sc)).Member(), *t.sub[0], s, a); break; default: { Type e(a); build(e, *t.sub[0], s, a); o = e.wrapPointer(spv::StorageClass(t.sc)); } } break;
		case K::Image:
			if (s.coin()) o.Image(dynImage(t)); else o.Image(dynScalar(*t.sub[0]), spv::Dim(t.dim), t.depth, t.arrayed, t.ms, SamplerImageAccess(t.sampled), spv::ImageFormat(t.format), t.access >= 0 ? spv::AccessQualifier(t.access) : spv::AccessQualifier::Max);
			break;
		case K::SampImg:
			switch (s.below(3)) { case 0: { Type e(a); build(e, *t.sub[0], s, a); o.SampledImage(&e); break; } case 1: o.SampledImage(dynImage(*t.sub[0])); break; default: { dyn_sampled_image_t d; d.imageType = dynImage(*t.sub[0]); o.SampledImage(d); } } break;
		case K::Sampler: o.Sampler(); break;
		case K::Event: o.Event(); break; case K::DeviceEvent: o.DeviceEvent(); break; case K::ReserveId: o.ReserveId(); break; case K::Queue: o.Queue(); break;
		case K::Pipe: o.Pipe(); o.setAccessQualifier(spv::AccessQualifier(t.access)); break; case K::PipeStorage: o.PipeStorage(); break; case K::NamedBarrier: o.NamedBarrier(); break;
		case K::RayQuery: o.RayQueryKHR(); break; case K::AccelStruct: o.AccelerationStructureKHR(); break;
		case K::Unknown: break;
		}
	}
	Type toLib(IAllocator* a, const T& t, Src& s)
	{
		Type r(a);
		// a type object may have described something else before
		switch (s.below(6)) { case 1: r.Int(16, true); break; case 2: r.Image(dyn_image_t{ {}, spv::Dim::Cube, 2u, true, true, SamplerImageAccess::Storage, spv::ImageFormat::R8, spv::AccessQualifier::ReadOnly }); break; case 3: r.Pointer(spv::StorageClass::Input).Member().Struct().FloatM(); break; default: break; }
		build(r, t, s, a);
		switch (s.below(5)) { case 1: { Type c(r); return c; } case 2: { Type c(a); c.Int(8); c = r; return c; } case 3: { Type c(a); c.Vector(3); c = std::move(r); return c; } default: break; }
		return r;
	}
	template <class E> static Instruction* typeVec(Module& m, uint32_t n) { return n == 2 ? m.type<vector_t<E, 2>>() : n == 3 ? m.type<vector_t<E, 3>>() : m.type<vector_t<E, 4>>(); }
	template <class E, uint32_t C> static Instruction* typeMat(Module& m, uint32_t r) { return r == 2 ? m.type<matrix_t<E, C, 2>>() : r == 3 ? m.type<matrix_t<E, C, 3>>() : m.type<matrix_t<E, C, 4>>(); }
	template <class E> static Instruction* typeArr(Module& m, uint32_t n) { return n == 1 ? m.type<array_t<E, 1>>() : n == 2 ? m.type<array_t<E, 2>>() : n == 3 ? m.type<array_t<E, 3>>() : n == 4 ? m.type<array_t<E, 4>>() : n == 5 ? m.type<array_t<E, 5>>() : nullptr; }
	template <class E> static Instruction* typeOf(Module& m, const T& t)
	{
		switch (t.k)
		{
		case K::Vec: return typeVec<E>(m, t.n);
		case K::Arr: return typeArr<E>(m, t.n);
		case K::Ptr: return t.sub[0]->k == K::Vec ? (t.sub[0]->n == 3 ? m.type<vector_t<E, 3>*>(spv::StorageClass(t.sc)) : nullptr) : m.type<E*>(spv::StorageClass(t.sc));
		default: return m.type<E>();
		}
	}
	static const T& scalarOf(const T& t) { return t.k == K::Vec || t.k == K::Arr || t.k == K::Ptr ? scalarOf(*t.sub[0]) : t; }
	Instruction* requestType(Module& m, const T& t, Src& s)
	{
		uint32_t r = s.below(4);
		if (r == 1 && (t.k != K::Vec || t.n <= 4) && (t.k != K::Mat || (t.n <= 4 && t.sub[0]->n <= 4)))
		{
			const T& e = scalarOf(t); Instruction* i = nullptr;
			const bool ok = t.scalar() || (t.vec() && t.sub[0]->scalar()) || (t.k == K::Arr && t.sub[0]->scalar()) || (t.k == K::Ptr && (t.sub[0]->scalar() || (t.sub[0]->vec() && t.sub[0]->sub[0]->scalar())));
			if (ok && e.isBool()) i = typeOf<bool>(m, t);
			else if (ok && e.isFloat() && e.w == 32) i = typeOf<float>(m, t);
			else if (ok && e.isFloat() && e.w == 64) i = typeOf<double>(m, t);
			else if (ok && e.isInt())
			{
				if (e.w == 8) i = e.s ? typeOf<char>(m, t) : typeOf<unsigned char>(m, t);
				else if (e.w == 16) i = e.s ? typeOf<short>(m, t) : typeOf<unsigned short>(m, t);
				else if (e.w == 32) i = e.s ? typeOf<int>(m, t) : typeOf<unsigned int>(m, t);
				else i = e.s ? typeOf<long long>(m, t) : typeOf<unsigned long long>(m, t);
			}
			else if (t.mat() && t.base().w == 32) i = t.n == 2 ? typeMat<float, 2>(m, t.sub[0]->n) : t.n == 3 ? typeMat<float, 3>(m, t.sub[0]->n) : typeMat<float, 4>(m, t.sub[0]->n);
			else if (t.mat() && t.base().w == 64) i = t.n == 2 ? typeMat<double, 2>(m, t.sub[0]->n) : t.n == 3 ? typeMat<double, 3>(m, t.sub[0]->n) : typeMat<double, 4>(m, t.sub[0]->n);
			else if (t.k == K::Void) i = m.type<void>();
			else if (t.k == K::Sampler) i = m.type<sampler_t>();
			if (i) return i;
		}
		if (r == 2) // dynamic descriptions
		{
			IAllocator* a = m.getAllocator();
			switch (t.k)
			{
			case K::Int: case K::Float: return m.type<dyn_scalar_t>(dynScalar(t));
			case K::Vec: { dyn_vector_t v; v.elementType = dynScalar(*t.sub[0]); v.elements = t.n; return m.type<dyn_vector_t>(v); }
			case K::Mat: { dyn_matrix_t v; v.columns = t.n; v.columnType.elements = t.sub[0]->n; v.columnType.elementType = dynScalar(*t.sub[0]->sub[0]); return m.type<dyn_matrix_t>(v); }
			case K::Image: return m.type<dyn_image_t>(dynImage(t));
			case K::SampImg: { dyn_sampled_image_t d; d.imageType = dynImage(*t.sub[0]); return m.type<dyn_sampled_image_t>(d); }
			case K::Arr: { dyn_array_t d{ toLib(a, *t.sub[0], s), t.n }; return m.type<dyn_array_t>(d); }
			case K::RtArr: { dyn_runtime_array_t d{ toLib(a, *t.sub[0], s) }; return m.type<dyn_runtime_array_t>(d); }
			case K::Ptr:
				if (t.sub[0]->vec()) { dyn_vector_t v; v.elementType = dynScalar(*t.sub[0]->sub[0]); v.elements = t.sub[0]->n; return m.type<dyn_vector_t*>(v, spv::StorageClass(t.sc)); }
				if (t.sub[0]->k == K::Image) return m.type<dyn_image_t*>(spv::StorageClass(t.sc), dynImage(*t.sub[0]));
				break;
			default: break;
			}
		}
		if (r == 3 && (t.k == K::Struct || t.k == K::Func) && t.sub.size() <= 3)
		{
			std::vector<Instruction*> p; for (auto& x : t.sub) p.push_back(requestType(m, *x, s));
			const spv::Op op = t.k == K::Struct ? spv::Op::OpTypeStruct : spv::Op::OpTypeFunction;
			if (s.coin()) { List<Instruction*> l(m.getAllocator()); for (auto* x : p) l.emplace_back(x); return m.compositeType(op, l); }
			switch (p.size()) { case 0: return m.compositeType(op); case 1: return m.compositeType(op, p[0]); case 2: return m.compositeType(op, p[0], p[1]); default: return m.compositeType(op, p[0], p[1], p[2]); }
		}
		return m.addType(toLib(m.getAllocator(), t, s));
	}

	template <class E> static E bitsTo(const std::vector<uint32_t>& w) { E e; memcpy(&e, w.data(), sizeof e); return e; }
	template <class Fn> static bool withScalar(const T& t, Fn f)
	{
		if (t.isFloat() && t.w == 32) { f(float()); return true; }
		if (t.isFloat() && t.w == 64) { f(double()); return true; }
		if (t.isInt() && t.w == 8) { if (t.s) f(char()); else f((unsigned char)0); return true; }
		if (t.isInt() && t.w == 16) { if (t.s) f(short()); else f((unsigned short)0); return true; }
		if (t.isInt() && t.w == 32) { if (t.s) f(int()); else f(0u); return true; }
		if (t.isInt() && t.w == 64) { if (t.s) f((long long)0); else f(0ull); return true; }
		return false;
	}
	template <class E, unsigned N> static const_vector_t<E, N> cvec(const C& c) { const_vector_t<E, N> v; for (unsigned i = 0; i < N; ++i) v.data[i] = bitsTo<E>(c.comps[i]->words); return v; }
	template <class E, unsigned N> static const_array_t<E, N> carr(const C& c) { const_array_t<E, N> v; for (unsigned i = 0; i < N; ++i) v.data[i] = bitsTo<E>(c.comps[i]->words); return v; }
	static bool plain(const C& c) { if (c.k != CK::Comp) return false; for (auto& x : c.comps) if (x->k != CK::Scalar || x->spec) return false; return true; }
	template <class V> static void feed(Module* m, Instruction** out, Constant* c, const V& v, bool spec, uint32_t route)
	{
		if (out) *out = route ? m->constant(v, spec) : (spec ? m->specConstant(v) : m->constant(v));
		else c->make(v, spec);
	}
	template <class E, unsigned C_> static bool feedMat(const C& c, Module* m, Instruction** out, Constant* k, uint32_t r)
	{
		auto go = [&](auto rows) { constexpr unsigned R = decltype(rows)::value; const_matrix_t<E, C_, R> v; for (unsigned i = 0; i < C_; ++i) v.data[i] = cvec<E, R>(*c.comps[i]); feed(m, out, k, v, c.spec, r); };
		switch (c.t->sub[0]->n) { case 2: go(std::integral_constant<unsigned, 2>()); return true; case 3: go(std::integral_constant<unsigned, 3>()); return true; case 4: go(std::integral_constant<unsigned, 4>()); return true; default: return false; }
	}
	// templates of the interface; false if they do not cover c
	static bool feedTemplate(const C& c, Module* m, Instruction** out, Constant* k, uint32_t r)
	{
		if (c.k == CK::True || c.k == CK::False) { feed(m, out, k, c.k == CK::True, c.spec, r); return true; }
		if (c.k == CK::Scalar) return withScalar(*c.t, [&](auto z) { feed(m, out, k, bitsTo<decltype(z)>(c.words), c.spec, r); });
		if (c.k == CK::Sampler)
		{
			const_sampler_t v; v.addressMode = spv::SamplerAddressingMode(c.words[0]); v.coordMode = ConstantSamplerCoordMode(c.words[1]); v.filterMode = spv::SamplerFilterMode(c.words[2]);
			feed(m, out, k, v, c.spec, r); return true;
		}
		if (c.k == CK::Null && !c.spec)
		{
			if (c.t->scalar() && !c.t->isBool()) return withScalar(*c.t, [&](auto z) { feed(m, out, k, const_null_t<decltype(z)>{}, false, r); });
			if (c.t->vec() && c.t->n == 3) return withScalar(c.t->e(), [&](auto z) { feed(m, out, k, const_null_t<vector_t<decltype(z), 3>>{}, false, r); });
			if (c.t->k == K::Arr && c.t->n == 2) return withScalar(*c.t->sub[0], [&](auto z) { feed(m, out, k, const_null_t<array_t<decltype(z), 2>>{}, false, r); });
			return false;
		}
		if (c.k == CK::Comp && c.t->vec() && plain(c))
			return withScalar(c.t->e(), [&](auto z) { using E = decltype(z); if (c.t->n == 2) feed(m, out, k, cvec<E, 2>(c), c.spec, r); else if (c.t->n == 3) feed(m, out, k, cvec<E, 3>(c), c.spec, r); else feed(m, out, k, cvec<E, 4>(c), c.spec, r); });
		if (c.k == CK::Comp && c.t->k == K::Arr && c.t->n <= 4 && plain(c))
			return withScalar(*c.t->sub[0], [&](auto z) { using E = decltype(z); if (c.t->n == 1) feed(m, out, k, carr<E, 1>(c), c.spec, r); else if (c.t->n == 2) feed(m, out, k, carr<E, 2>(c), c.spec, r); else if (c.t->n == 3) feed(m, out, k, carr<E, 3>(c), c.spec, r); else feed(m, out, k, carr<E, 4>(c), c.spec, r); });
		if (c.k == CK::Comp && c.t->mat() && c.t->base().w >= 32)
		{
			for (auto& x : c.comps) if (!plain(*x) || x->spec) return false;
			if (c.t->base().w == 32) return c.t->n == 2 ? feedMat<float, 2>(c, m, out, k, r) : c.t->n == 3 ? feedMat<float, 3>(c, m, out, k, r) : feedMat<float, 4>(c, m, out, k, r);
			return c.t->n == 2 ? feedMat<double, 2>(c, m, out, k, r) : c.t->n == 3 ? feedMat<double, 3>(c, m, out, k, r) : feedMat<double, 4>(c, m, out, k, r);
		}
		return false;
	}
	static spv::Op constOp(const C& c)
	{
		switch (c.k)
		{
		case CK::True: return c.spec ? spv::Op::OpSpecConstantTrue : spv::Op::OpConstantTrue;
		case CK::False: return c.spec ? spv::Op::OpSpecConstantFalse : spv::Op::OpConstantFalse;
		case CK::Scalar: return c.spec ? spv::Op::OpSpecConstant : spv::Op::OpConstant;
		case CK::Comp: return c.spec ? spv::Op::OpSpecConstantComposite : spv::Op::OpConstantComposite;
		case CK::Sampler: return spv::Op::OpConstantSampler;
		default: return spv::Op::OpConstantNull;
		}
	}
	static void buildConst(Constant& o, const C& c, Src& s, IAllocator* a)
	{
		if (s.chance(1, 3) && feedTemplate(c, nullptr, nullptr, &o, 0)) return;
		o.setOperation(constOp(c));
		o.getType() = toLib(a, *c.t, s);
		if (c.k == CK::Scalar && s.coin() && withScalar(*c.t, [&](auto z) { o.addData(bitsTo<decltype(z)>(c.words)); })) return;
		for (auto w : c.words) o.addData(w);
		for (auto& x : c.comps) buildConst(o.Component(), *x, s, a);
	}
	Constant toLibConst(IAllocator* a, const C& c, Src& s)
	{
		Constant r(a);
		buildConst(r, c, s, a);
		switch (s.below(5)) { case 1: { Constant d(r); return d; } case 2: { Constant d(a); d.make(5u); d = r; return d; } case 3: { Constant d(a); d.make(make_vector(1.f, 2.f)); d = std::move(r); return d; } default: break; }
		return r;
	}
	Instruction* requestConst(Module& m, const C& c, Src& s)
	{
		Instruction* i = nullptr;
		if (s.coin() && feedTemplate(c, &m, &i, nullptr, s.below(2))) return i;
		return m.addConstant(toLibConst(m.getAllocator(), c, s));
	}

	// ---------------------------------------------------------------- out of the library
	TP fromLib(const Type& t)
	{
		auto r = std::make_shared<T>();
		auto subs = [&] { for (const Type& x : t.getSubTypes()) r->sub.push_back(fromLib(x)); };
		switch (t.getType())
		{
		case spv::Op::OpTypeVoid: r->k = K::Void; break;
		case spv::Op::OpTypeBool: r->k = K::Bool; break;
		case spv::Op::OpTypeInt: r->k = K::Int; r->w = t.getIntWidth(); r->s = t.getIntSign(); break;
		case spv::Op::OpTypeFloat: r->k = K::Float; r->w = t.getFloatWidth(); break;
		case spv::Op::OpTypeVector: r->k = K::Vec; r->n = t.getVectorComponentCount(); subs(); break;
		case spv::Op::OpTypeMatrix: r->k = K::Mat; r->n = t.getMatrixColumnCount(); subs(); break;
		case spv::Op::OpTypeArray: r->k = K::Arr; r->n = t.getArrayLength(); subs(); break;
		case spv::Op::OpTypeRuntimeArray: r->k = K::RtArr; subs(); break;
		case spv::Op::OpTypeStruct: r->k = K::Struct; subs(); break;
		case spv::Op::OpTypePointer: r->k = K::Ptr; r->sc = uint32_t(t.getStorageClass()); subs(); break;
		case spv::Op::OpTypeFunction: r->k = K::Func; subs(); break;
		case spv::Op::OpTypeImage: r->k = K::Image; subs(); r->dim = uint32_t(t.getImageDimension()); r->depth = t.getImageDepth(); r->arrayed = t.getImageArray(); r->ms = t.getImageMultiSampled(); r->sampled = uint32_t(t.getImageSamplerAccess()); r->format = uint32_t(t.getImageFormat()); r->access = t.getAccessQualifier() == spv::AccessQualifier::Max ? -1 : int(t.getAccessQualifier()); break;
		case spv::Op::OpTypeSampledImage: r->k = K::SampImg; subs(); break;
		case spv::Op::OpTypeSampler: r->k = K::Sampler; break;
		case spv::Op::OpTypeEvent: r->k = K::Event; break; case spv::Op::OpTypeDeviceEvent: r->k = K::DeviceEvent; break; case spv::Op::OpTypeReserveId: r->k = K::ReserveId; break; case spv::Op::OpTypeQueue: r->k = K::Queue; break;
		case spv::Op::OpTypePipe: r->k = K::Pipe; r->access = int(t.getAccessQualifier()); break; case spv::Op::OpTypePipeStorage: r->k = K::PipeStorage; break; case spv::Op::OpTypeNamedBarrier: r->k = K::NamedBarrier; break;
		case spv::Op::OpTypeRayQueryKHR: r->k = K::RayQuery; break; case spv::Op::OpTypeAccelerationStructureKHR: r->k = K::AccelStruct; break;
		default: r->k = K::Unknown; r->w = uint32_t(t.getType()); break;
		}
		return r;
	}
	CP fromLibConst(const Constant& c)
	{
		auto r = std::make_shared<C>(); r->t = fromLib(c.getType());
		auto data = [&] { for (const unsigned& w : c.getData()) r->words.push_back(w); };
		auto comps = [&] { for (const Constant& x : c.getComponents()) r->comps.push_back(fromLibConst(x)); };
		switch (c.getOperation())
		{
		case spv::Op::OpConstantTrue: r->k = CK::True; break; case spv::Op::OpSpecConstantTrue: r->k = CK::True; r->spec = true; break;
		case spv::Op::OpConstantFalse: r->k = CK::False; break; case spv::Op::OpSpecConstantFalse: r->k = CK::False; r->spec = true; break;
		case spv::Op::OpConstant: data(); break; case spv::Op::OpSpecConstant: r->spec = true; data(); break;
		case spv::Op::OpConstantComposite: r->k = CK::Comp; comps(); break; case spv::Op::OpSpecConstantComposite: r->k = CK::Comp; r->spec = true; comps(); break;
		case spv::Op::OpConstantSampler: r->k = CK::Sampler; data(); break;
		case spv::Op::OpConstantNull: r->k = CK::Null; break;
		default: r->k = CK::Null; r->t = tOpaque(K::Unknown); break;
		}
		return r;
	}

	// ---------------------------------------------------------------- out of a decoded module
	bool isTypeOp(uint32_t op) { return (op >= 19 && op <= 38) || op == 322 || op == 327 || op == 4472 || op == 5341; }
	bool isConstOp(uint32_t op) { return (op >= 41 && op <= 46) || (op >= 48 && op <= 51); }
	TP decodeType(const spv_ref::Mod& m, uint32_t id, int depth)
	{
		auto r = std::make_shared<T>(); r->k = K::Unknown;
		const spv_ref::Inst* i = m.find(id);
		if (!i || depth > 40) return r;
		auto subs = [&](size_t from, size_t to) { for (size_t x = from; x < to && x < i->ops.size(); ++x) r->sub.push_back(decodeType(m, i->w(x), depth + 1)); };
		switch (i->op)
		{
		case 19: r->k = K::Void; break; case 20: r->k = K::Bool; break;
		case 21: r->k = K::Int; r->w = i->w(0); r->s = i->w(1) != 0; break;
		case 22: r->k = K::Float; r->w = i->w(0); break;
		case 23: r->k = K::Vec; subs(0, 1); r->n = i->w(1); break;
		case 24: r->k = K::Mat; subs(0, 1); r->n = i->w(1); break;
		case 25: r->k = K::Image; subs(0, 1); r->dim = i->w(1); r->depth = i->w(2); r->arrayed = i->w(3); r->ms = i->w(4); r->sampled = i->w(5); r->format = i->w(6); r->access = i->ops.size() > 7 ? int(i->w(7)) : -1; break;
		case 26: r->k = K::Sampler; break;
		case 27: r->k = K::SampImg; subs(0, 1); break;
		case 28: { r->k = K::Arr; subs(0, 1); const spv_ref::Inst* l = m.find(i->w(1)); if (l && (l->op == 43 || l->op == 50)) r->n = l->w(0); else r->k = K::Unknown; break; }
		case 29: r->k = K::RtArr; subs(0, 1); break;
		case 30: r->k = K::Struct; subs(0, i->ops.size()); break;
		case 32: r->k = K::Ptr; r->sc = i->w(0); subs(1, 2); break;
		case 33: r->k = K::Func; subs(0, i->ops.size()); break;
		case 34: r->k = K::Event; break; case 35: r->k = K::DeviceEvent; break; case 36: r->k = K::ReserveId; break; case 37: r->k = K::Queue; break;
		case 38: r->k = K::Pipe; r->access = int(i->w(0)); break; case 322: r->k = K::PipeStorage; break; case 327: r->k = K::NamedBarrier; break;
		case 4472: r->k = K::RayQuery; break; case 5341: r->k = K::AccelStruct; break;
		default: r->w = i->op; break;
		}
		return r;
	}
	CP decodeConst(const spv_ref::Mod& m, uint32_t id, int depth)
	{
		auto r = std::make_shared<C>(); r->k = CK::Null; r->t = tOpaque(K::Unknown);
		const spv_ref::Inst* i = m.find(id);
		if (!i || depth > 40 || !isConstOp(i->op)) return r;
		r->t = decodeType(m, i->type);
		r->spec = i->op >= 48;
		switch (i->op)
		{
		case 41: case 48: r->k = CK::True; break; case 42: case 49: r->k = CK::False; break;
		case 43: case 50: r->k = CK::Scalar; if (!i->ops.empty()) r->words.assign(i->ops[0].w.begin(), i->ops[0].w.end()); break;
		case 44: case 51: r->k = CK::Comp; for (size_t x = 0; x < i->ops.size(); ++x) r->comps.push_back(decodeConst(m, i->w(x), depth + 1)); break;
		case 45: r->k = CK::Sampler; for (size_t x = 0; x < i->ops.size(); ++x) r->words.push_back(i->w(x)); break;
		default: break;
		}
		return r;
	}
}
