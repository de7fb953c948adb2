// glue between the library and the checks: memory reader and writer, log collector, module helpers
#pragma once
#include "spvgentwo/Module.h"
#include "spvgentwo/ModuleTemplate.inl"
#include "spvgentwo/InstructionTemplate.inl"
#include "spvgentwo/Reader.h"
#include "spvgentwo/Writer.h"
#include "spvgentwo/Logger.h"
#include "spvgentwo/Grammar.h"
#include "common/HeapAllocator.h"
#include <cstdarg>
#include <cstdio>
#include <vector>
#include <string>
namespace lu
{
	namespace sg = spvgentwo;
	using Words = std::vector<uint32_t>;
	struct MemReader final : sg::IReader
	{
		const Words& w; size_t pos = 0, limit = 0, reads = 0;
		explicit MemReader(const Words& words) : w(words), limit(words.size()) {}
		bool get(unsigned int& o) final { ++reads; if (pos >= limit) return false; o = w[pos++]; return true; }
	};
	struct MemWriter final : sg::IWriter
	{
		Words w; size_t failAt = ~size_t(0);
		bool put(unsigned int x) final { if (w.size() >= failAt) return false; w.push_back(x); return true; }
	};
	// collects warnings and errors
	struct Log final : sg::ILogger
	{
		std::string text; unsigned errors = 0, warnings = 0;
		Log() : sg::ILogger(&Log::cb) {}
		static void cb(sg::ILogger* self, sg::LogLevel l, const char* f, ...)
		{
			char b[512]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a);
			auto* me = static_cast<Log*>(self);
			if (l == sg::LogLevel::Warning) ++me->warnings; else if (l == sg::LogLevel::Error || l == sg::LogLevel::Fatal) ++me->errors; else return;
			if (me->text.size() < 2000) { me->text += b; me->text += '\n'; }
		}
	};
	inline const sg::Grammar& grammar() { static sg::Grammar g(sg::HeapAllocator::instance()); return g; }
}
