// Generator of well-formed SPIR-V modules over the whole instruction grammar (types, constants and layout are
// consistent; operands of body instructions are of the kind that the grammar asks for, not type checked)
#pragma once
#include "spv.h"
namespace bgen
{
	using spv_ref::Words;
	struct Opts
	{
		int maxBody = 8;
		bool mayBeLarge = true;
		// shapes that recorded findings are about
		bool wideSwitch = false, globalLines = false, functionLines = false, forwardPointers = false, globalExtInst = false, undefConstituents = false, sharedEntryPoint = false, opaqueTypes = false, dupImports = false, extLiterals = false;
	};
	struct Out
	{
		Words words;
		std::map<std::string, int> shape; // label counts
	};
	// instructions and enumerants that the library's grammar does not know (newer revision)
	bool newer(const char* name);
	bool isTerminator(uint32_t op);
	Out generate(pbt::Src& s, const Opts& o);
}
