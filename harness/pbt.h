// Minimal property-based testing engine: a test case is a pure function of a stream of choices.
// Random mode draws the choices from a seeded generator and records them; replay mode feeds them back
// (missing choices read as 0, the simplest alternative). Shrinking edits the recorded stream.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <vector>
#include <stdexcept>

namespace pbt
{
	struct Fail : std::runtime_error
	{
		std::string sig; // class of failure: shrinking keeps it
		Fail(std::string s, const std::string& msg) : std::runtime_error(msg), sig(std::move(s)) {}
	};
	struct Discard {}; // case rejected by a precondition

	// recorder lives in shared memory so that the choices of a crashing case survive
	struct Shared
	{
		volatile uint64_t caseIndex;
		volatile uint32_t nChoices;
		volatile uint32_t failed;      // 1: Fail thrown
		volatile uint32_t done;        // all cases finished
		volatile uint32_t overflow;
		char sig[256];
		char msg[16384];
		uint32_t choices[1 << 20];
	};

	class Src
	{
	public:
		Src(uint64_t seed, Shared* sh) : m_state(seed), m_sh(sh) { sh->nChoices = 0; sh->overflow = 0; }
		Src(const std::vector<uint32_t>* replay, Shared* sh) : m_replay(replay), m_sh(sh) { sh->nChoices = 0; sh->overflow = 0; }

		// uniform in [0,n)
		uint32_t below(uint32_t n)
		{
			if (n == 0) return 0;
			uint32_t v = 0;
			if (m_replay) { v = m_pos < m_replay->size() ? (*m_replay)[m_pos] : 0; ++m_pos; v = v < n ? v : v % n; }
			else v = static_cast<uint32_t>((static_cast<unsigned __int128>(next()) * n) >> 64);
			rec(v);
			return v;
		}
		uint32_t word() // any 32 bit value, with special values over-represented
		{
			static const uint32_t specials[] = { 0,1,2,3,4,7,8,0x7f,0x80,0xff,0x100,0x7fff,0x8000,0xffff,0x10000,0x7fffffff,0x80000000u,0xffffffffu,0x3f800000,0xbf800000u,0x7f800000,0xff800000u,0x7fc00000,0x7fa00001,0x80000001u,0x00800000,0xfffffffeu };
			uint32_t k = below(8);
			if (k == 0) return below(16);
			if (k < 5) return specials[below(sizeof(specials) / 4)];
			uint32_t hi = below(0x10000), lo = below(0x10000);
			return hi << 16 | lo;
		}
		uint64_t word64() { uint64_t h = word(); return h << 32 | word(); }
		int range(int lo, int hi) { return lo + static_cast<int>(below(static_cast<uint32_t>(hi - lo + 1))); } // inclusive
		bool coin() { return below(2) == 1; }
		bool chance(uint32_t num, uint32_t den) { return below(den) >= den - num; } // 0 -> false
		template <class T> const T& pick(const std::vector<T>& v) { return v[below(static_cast<uint32_t>(v.size()))]; }
		template <class T, size_t N> const T& pick(const T(&v)[N]) { return v[below(N)]; }
		// weighted choice, index 0 is the simplest
		uint32_t weighted(std::initializer_list<uint32_t> w)
		{
			uint32_t sum = 0; for (auto x : w) sum += x;
			uint32_t r = below(sum), i = 0;
			for (auto x : w) { if (r < x) return i; r -= x; ++i; }
			return 0;
		}
		bool isReplay() const { return m_replay != nullptr; }
	private:
		uint64_t next() { uint64_t z = (m_state += 0x9e3779b97f4a7c15ull); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
		void rec(uint32_t v) { if (m_sh->nChoices < (1u << 20)) { m_sh->choices[m_sh->nChoices] = v; m_sh->nChoices = m_sh->nChoices + 1; } else { m_sh->overflow = 1; throw Discard{}; } }
		uint64_t m_state = 0;
		const std::vector<uint32_t>* m_replay = nullptr;
		size_t m_pos = 0;
		Shared* m_sh;
	};

	// what a case reports about itself
	struct Ctx
	{
		bool nontrivial = false;
		uint64_t hash = 1469598103934665603ull; // of the generated case
		std::string sample;                      // human readable description
		bool wantSample = false;
		bool verbose = false;                    // replay mode: print everything
		std::map<std::string, uint64_t> labels;
		void mix(uint64_t v) { for (int i = 0; i < 8; ++i) { hash ^= (v >> (8 * i)) & 0xff; hash *= 1099511628211ull; } }
		void mix(const void* p, size_t n) { auto c = static_cast<const unsigned char*>(p); for (size_t i = 0; i < n; ++i) { hash ^= c[i]; hash *= 1099511628211ull; } }
		void mix(const std::string& s) { mix(s.data(), s.size()); mix(uint64_t(s.size())); }
		void label(const std::string& l, uint64_t n = 1) { labels[l] += n; }
		void note(const std::string& s) { if (verbose) { fputs(s.c_str(), stdout); fflush(stdout); } else if (wantSample) sample += s; } // at once in a replay: the case may crash
	};

	using CaseFn = std::function<void(Src&, Ctx&)>;

	struct Prop
	{
		CaseFn run;
		std::string rule; // when a case counts as non-trivial
	};
	struct Known
	{
		std::string id;                       // identifies the finding in known_findings.json
		std::function<bool(std::string&)> reproduces; // true if the recorded input still fails, fills a description
	};

	std::map<std::string, Prop>& props();
	std::map<std::string, std::vector<Known>>& knowns();
	struct Reg { Reg(const char* id, const char* rule, CaseFn f) { props()[id] = Prop{ std::move(f), rule }; } };
	struct RegKnown { RegKnown(const char* prop, const char* id, std::function<bool(std::string&)> f) { knowns()[prop].push_back({ id, std::move(f) }); } };

	int main(int argc, char** argv);

#define PBT_STR2(x) #x
#define PBT_STR(x) PBT_STR2(x)
#define CHECK_SIG(cond, sig, msg) do { if (!(cond)) throw pbt::Fail((sig), std::string(__FILE__ ":" PBT_STR(__LINE__) ": ") + (msg)); } while (0)
#define CHECK(cond) do { if (!(cond)) throw pbt::Fail(#cond, std::string(__FILE__ ":" PBT_STR(__LINE__) ": " #cond)); } while (0)
#define CHECK_MSG(cond, msg) do { if (!(cond)) throw pbt::Fail(#cond, std::string(__FILE__ ":" PBT_STR(__LINE__) ": " #cond "  ") + (msg)); } while (0)
}
