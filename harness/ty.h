// Model of SPIR-V types and constants, independent of the library's own Type and Constant classes.
#pragma once
#include "pbt.h"
#include "libutil.h"
#include "spv.h"
#include <memory>

namespace ag
{
	namespace sg = spvgentwo;
	enum class K : uint8_t { Void, Bool, Int, Float, Vec, Mat, Arr, RtArr, Struct, Ptr, Func, Image, SampImg, Sampler, Event, DeviceEvent, ReserveId, Queue, Pipe, PipeStorage, NamedBarrier, RayQuery, AccelStruct, Unknown };
	struct T;
	using TP = std::shared_ptr<const T>;
	struct T
	{
		K k = K::Void;
		uint32_t w = 0;    // width of a scalar
		bool s = false;    // signedness
		uint32_t n = 0;    // components, columns, array length
		uint32_t sc = 0;   // storage class of a pointer
		uint32_t dim = 0, depth = 0, arrayed = 0, ms = 0, sampled = 0, format = 0; // image
		int access = -1;   // access qualifier, -1 if absent
		std::vector<TP> sub; // element, column, members, pointee, return type and parameters, sampled type, image
		std::string key(bool anySign = false) const;
		bool isInt() const { return k == K::Int; }
		bool isFloat() const { return k == K::Float; }
		bool isBool() const { return k == K::Bool; }
		bool scalar() const { return isInt() || isFloat() || isBool(); }
		bool vec() const { return k == K::Vec; }
		bool mat() const { return k == K::Mat; }
		const T& e() const { return vec() ? *sub[0] : *this; } // component of a scalar or vector
		const T& base() const { return mat() ? sub[0]->e() : e(); }
		uint32_t comps() const { return scalar() ? 1 : vec() ? n : 0; }
		bool sv(K kk) const { return e().k == kk && comps() > 0; } // scalar or vector of
		uint32_t width() const { return e().w; }
	};
	TP tVoid(); TP tBool(); TP tInt(uint32_t w, bool s); TP tFloat(uint32_t w); TP tVec(TP e, uint32_t n); TP tMat(TP col, uint32_t n);
	TP tArr(TP e, uint32_t n); TP tRt(TP e); TP tStruct(std::vector<TP> m); TP tPtr(uint32_t sc, TP in); TP tFunc(TP ret, std::vector<TP> p);
	TP tSampler(); TP tSampImg(TP img); TP tOpaque(K k);
	TP tImg(TP st, uint32_t dim, uint32_t depth, bool arr, bool ms, uint32_t sampled, uint32_t format, int access = -1);
	TP like(const T& t, TP scalarElem); // same shape (scalar or vector) with another component type
	inline bool same(const TP& a, const TP& b) { return a->key() == b->key(); }
	inline bool sameLoose(const TP& a, const TP& b) { return a->key(true) == b->key(true); }

	enum class CK : uint8_t { Scalar, True, False, Comp, Null, Sampler };
	struct C; using CP = std::shared_ptr<const C>;
	struct C
	{
		CK k = CK::Scalar; bool spec = false; TP t;
		std::vector<uint32_t> words; // literal words of a scalar or of a sampler
		std::vector<CP> comps;
		std::string key() const;
	};
	CP cScalar(TP t, uint64_t bits, bool spec = false); // extends narrow values as the specification asks for
	CP cBool(bool v, bool spec = false); CP cNull(TP t); CP cComp(TP t, std::vector<CP> c, bool spec = false); CP cSampler(uint32_t a, uint32_t n, uint32_t f);

	// random types and constants
	struct TypeOpts { bool widths = true; bool matrices = true; bool aggregates = true; bool opaque = false; bool pointers = false; bool functions = false; bool bools = true; };
	TP genScalar(pbt::Src& s, bool widths, bool bools);
	TP genType(pbt::Src& s, const TypeOpts& o, int depth);
	TP genImage(pbt::Src& s, bool anyAccess);
	bool constable(const T& t); // has constants other than null
	CP genConst(pbt::Src& s, TP t, bool allowNull = true);

	// into the library, by one of the routes its interface offers
	sg::Type toLib(sg::IAllocator* a, const T& t, pbt::Src& s);
	sg::Instruction* requestType(sg::Module& m, const T& t, pbt::Src& s);
	sg::Constant toLibConst(sg::IAllocator* a, const C& c, pbt::Src& s);
	sg::Instruction* requestConst(sg::Module& m, const C& c, pbt::Src& s);
	// out of the library
	TP fromLib(const sg::Type& t);
	CP fromLibConst(const sg::Constant& c);
	// out of a decoded module
	TP decodeType(const spv_ref::Mod& m, uint32_t id, int depth = 0);
	CP decodeConst(const spv_ref::Mod& m, uint32_t id, int depth = 0);
	bool isTypeOp(uint32_t op); bool isConstOp(uint32_t op);
}
