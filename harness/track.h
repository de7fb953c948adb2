// Allocator and element type that check how they are used.
#pragma once
#include "pbt.h"
#include "spvgentwo/Allocator.h"
#include <unordered_map>
#include <unordered_set>

// checks that every block is returned exactly once with its original size; fresh blocks are filled with garbage
struct TrackAlloc : spvgentwo::IAllocator
{
	std::unordered_map<void*, spvgentwo::sgt_size_t> live;
	uint64_t allocs = 0, frees = 0;
	std::string error; // first misuse (destructors must not throw)
	uint64_t failAfter = ~0ull; // fault injection: allocations past this count fail
	bool abortOnMisuse = false;

	void misuse(const std::string& m) { if (error.empty()) error = m; }
	void* allocate(spvgentwo::sgt_size_t _bytes, unsigned int _align) override
	{
		if (allocs >= failAfter) return nullptr;
		if (_align == 0 || (_align & (_align - 1)) != 0) misuse("allocate: alignment " + std::to_string(_align) + " is not a power of 2");
		void* p = malloc(_bytes ? _bytes : 1); ++allocs;
		memset(p, 0xCD, _bytes);
		live[p] = _bytes;
		return p;
	}
	void deallocate(void* _p, spvgentwo::sgt_size_t _bytes) override
	{
		auto it = live.find(_p);
		if (it == live.end()) { misuse("deallocate of a block that is not live"); return; }
		if (it->second != _bytes) misuse("deallocate with size " + std::to_string(_bytes) + " of a block of size " + std::to_string(it->second));
		live.erase(it); ++frees;
		free(_p);
	}
	void check(const char* when) const { CHECK_SIG(error.empty(), "allocator misuse", std::string(when) + ": " + error); }
	void checkAllReturned(const char* when) const
	{
		check(when);
		CHECK_SIG(live.empty(), "memory not returned", std::string(when) + ": " + std::to_string(live.size()) + " block(s) not returned");
	}
	~TrackAlloc() override { for (auto& b : live) free(b.first); }
};

// value whose construction and destruction is tracked by address
struct Elem
{
	static std::unordered_set<const Elem*>& alive() { static std::unordered_set<const Elem*> s; return s; }
	static std::string& error() { static std::string s; return s; }
	static void reset() { alive().clear(); error().clear(); }
	static void bad(const char* m) { if (error().empty()) error() = m; }
	static void checkLive(size_t n, const char* when)
	{
		CHECK_SIG(error().empty(), "element lifetime", std::string(when) + ": " + error());
		CHECK_SIG(alive().size() == n, "element count", std::string(when) + ": " + std::to_string(alive().size()) + " elements alive, expected " + std::to_string(n));
	}

	uint32_t v = 0;
	uint32_t* owned = nullptr; // makes shallow copies visible

	void born() { if (!alive().insert(this).second) bad("constructed over a living element"); owned = new uint32_t(v); }
	Elem() { born(); }
	Elem(uint32_t x) : v(x) { born(); }
	Elem(uint32_t a, uint32_t b) : v(a * 31 + b) { born(); }
	Elem(const Elem& o) : v(o.v) { if (!alive().count(&o)) bad("copied from a dead element"); born(); }
	Elem(Elem&& o) noexcept : v(o.v) { if (!alive().count(&o)) bad("moved from a dead element"); o.v = 0xdeadu; born(); }
	Elem& operator=(const Elem& o) { if (!alive().count(this)) bad("assignment to a dead element"); if (!alive().count(&o)) bad("assignment from a dead element"); v = o.v; if (alive().count(this)) *owned = v; return *this; }
	Elem& operator=(Elem&& o) noexcept { if (!alive().count(this)) bad("assignment to a dead element"); if (!alive().count(&o)) bad("assignment from a dead element"); if (this != &o) { v = o.v; o.v = 0xdeadu; } if (alive().count(this)) *owned = v; return *this; }
	~Elem() { if (alive().erase(this) == 0) { bad("destroyed twice or never constructed"); return; } delete owned; owned = nullptr; }
	bool operator==(const Elem& o) const { return v == o.v; }
	bool operator!=(const Elem& o) const { return v != o.v; }
};
