// P32: helper types behave like their plain reference: flags, loggers, hashes, instruction words, scoped
// allocations, heap containers, container algorithms, word writers and file readers
#include "track.h"
#include "common/Algorithms.h"
#include "common/BinaryFileReader.h"
#include "common/BinaryFileWriter.h"
#include "common/BinaryVectorWriter.h"
#include "common/ConsoleLogger.h"
#include "common/HeapAllocator.h"
#include "common/HeapHashMap.h"
#include "common/HeapList.h"
#include "common/HeapString.h"
#include "common/HeapVector.h"
#include "spvgentwo/FNV1aHasher.h"
#include "spvgentwo/Flag.h"
#include "spvgentwo/List.h"
#include "spvgentwo/Logger.h"
#include "spvgentwo/Spv.h"
#include "spvgentwo/SpvDefines.h"
#include "spvgentwo/String.h"
#include "spvgentwo/Vector.h"
#include <algorithm>
#include <cstdarg>
#include <memory>
#include <sys/mman.h>
#include <sys/stat.h>
#include <unistd.h>
using namespace spvgentwo;
using pbt::Src; using pbt::Ctx;
static std::string S(uint64_t v) { return std::to_string(v); }

namespace {
#define NOTE(x) do { if (c.wantSample || c.verbose) c.note(x); } while (0)
// ------------------------------------------------------------------ Flag
enum class Bits : unsigned int { None = 0 };
template <class E> void flagCase(Src& s, Ctx& c)
{
	using F = Flag<E>;
	auto E_ = [](uint32_t v) { return static_cast<E>(v); };
	auto word = [&]() -> uint32_t { switch (s.below(4)) { case 0: return 0; case 1: return 1u << s.below(32); case 2: return (1u << s.below(32)) | (1u << s.below(32)) | (1u << s.below(32)); default: return s.word(); } };
	auto val = [](const F& f) { return static_cast<unsigned int>(f); };
	std::vector<F> f(3); std::vector<uint32_t> m(3, 0u);
	for (size_t i = 0; i < 3; ++i)
	{
		uint32_t a = word(), b = word(), d = word(); c.mix(a); c.mix(b);
		switch (s.below(4))
		{
		case 0: f[i] = F(a); m[i] = a; break;
		case 1: f[i] = F(E_(a)); m[i] = a; break;
		case 2: f[i] = F(E_(a), E_(b)); m[i] = a | b; break;
		default: f[i] = F(E_(a), E_(b), E_(d)); m[i] = a | b | d; break;
		}
		CHECK_SIG(val(f[i]) == m[i], "flag value", "a flag of " + S(a) + ", " + S(b) + ", " + S(d) + " is " + S(val(f[i])));
	}
	unsigned n = 2 + s.below(8); bool some = false;
	for (unsigned k = 0; k < n; ++k)
	{
		size_t i = s.below(3), j = s.below(3), o = s.below(3); uint32_t a = word(), b = word(), d = word(); unsigned op = s.below(20); c.mix(op); c.mix(a); NOTE("flag op" + S(op) + "(" + S(i) + "," + S(j) + "," + S(a) + "," + S(b) + "," + S(d) + ")->" + S(o) + " ");
		switch (op)
		{
		case 0: f[i].set(E_(a)); m[i] |= a; break;
		case 1: f[i].set(E_(a), E_(b), E_(d)); m[i] |= a | b | d; break;
		case 2: f[i] |= f[j]; m[i] |= m[j]; break;
		case 3: f[i] &= f[j]; m[i] &= m[j]; break;
		case 4: f[i] ^= f[j]; m[i] ^= m[j]; break;
		case 5: f[i] |= E_(a); m[i] |= a; break;
		case 6: f[i] &= E_(a); m[i] &= a; break;
		case 7: f[i] ^= E_(a); m[i] ^= a; break;
		case 8: f[o] = f[i] | f[j]; m[o] = m[i] | m[j]; break;
		case 9: f[o] = f[i] & f[j]; m[o] = m[i] & m[j]; break;
		case 10: f[o] = f[i] ^ f[j]; m[o] = m[i] ^ m[j]; break;
		case 11: f[o] = f[i] | E_(a); m[o] = m[i] | a; break;
		case 12: f[o] = f[i] & E_(a); m[o] = m[i] & a; break;
		case 13: f[o] = f[i] ^ E_(a); m[o] = m[i] ^ a; break;
		case 14: f[o] = spvgentwo::operator|(E_(a), f[i]); m[o] = m[i] | a; break;
		case 15: f[o] = spvgentwo::operator&(E_(a), f[i]); m[o] = m[i] & a; break;
		case 16: f[o] = spvgentwo::operator^(E_(a), f[i]); m[o] = m[i] ^ a; break;
		case 17: f[o] = F::OR(E_(a), E_(b), E_(d)); m[o] = a | b | d; break;
		case 18: f[o] = F::AND(E_(a), E_(b)); m[o] = a & b; break;
		default: f[o] = F::XOR(E_(a), E_(b), E_(d)); m[o] = a ^ b ^ d; break;
		}
		for (size_t x = 0; x < 3; ++x)
		{
			const F& g = f[x]; uint32_t v = m[x]; auto t = [&] { return "after operation " + S(op) + " flag " + S(x) + " is " + S(val(g)) + ", expected " + S(v) + "; tested bits " + S(a) + ", " + S(b); };
			CHECK_SIG(val(g) == v && static_cast<uint32_t>(static_cast<E>(g)) == v, "flag value", t());
			CHECK_SIG(static_cast<bool>(g) == (v != 0) && g.empty() == (v == 0), "flag emptiness", t());
			CHECK_SIG(g.any(E_(a)) == ((v & a) != 0) && g.any(E_(a), E_(b)) == ((v & (a | b)) != 0), "flag any", t());
			CHECK_SIG(g.none(E_(a)) == ((v & a) == 0) && g.none(E_(a), E_(b)) == ((v & (a | b)) == 0), "flag none", t());
			CHECK_SIG(g.all(E_(a)) == ((v & a) == a) && g.all(E_(a), E_(b)) == ((v & (a | b)) == (a | b)), "flag all", t());
			CHECK_SIG(g.all(E_(v)) && (v == 0 || g.any(E_(v))) && g.none(E_(~v)), "flag of itself", t());
			some |= v != 0;
		}
	}
	c.nontrivial = some; c.label("flags");
}

// ------------------------------------------------------------------ loggers
struct Recorded { ILogger* from; uint32_t level; std::string text; };
std::vector<Recorded>& record() { static std::vector<Recorded> r; return r; }
template <char Mark> void recordFn(ILogger* p, LogLevel l, const char* fmt, ...)
{
	char buf[512]; va_list a; va_start(a, fmt); vsnprintf(buf, sizeof(buf), fmt, a); va_end(a);
	record().push_back({ p, static_cast<uint32_t>(l), std::string(1, Mark) + buf });
}
const char* words[] = { "", "a", "type", "OpNop", "100%% done", "name_with_1234", "x\ty" };
// returns the text of the message
std::string logOne(ILogger& l, Src& s, Ctx& c, uint32_t level, bool direct)
{
	auto send = [&](auto ... args) {
		if (direct) { l.log(static_cast<LogLevel>(level), args...); return; }
		switch (level) { case 1: l.logDebug(args...); break; case 2: l.logInfo(args...); break; case 4: l.logWarning(args...); break; case 8: l.logError(args...); break; default: l.logFatal(args...); }
	};
	char buf[512]; uint32_t u = s.word(); int i = int(s.word()); const char* w = words[s.below(7)]; unsigned long long q = s.word64(); double d = s.below(100000) / 8.0; c.mix(u);
	switch (s.below(5))
	{
	case 0: { const char* t = words[s.below(4)]; send(t); return t; }
	case 1: snprintf(buf, sizeof(buf), "%u of [%s]", u, w); send("%u of [%s]", u, w); return buf;
	case 2: snprintf(buf, sizeof(buf), "%s:%d %%", w, i); send("%s:%d %%", w, i); return buf;
	case 3: snprintf(buf, sizeof(buf), "%llu|%s|%x|%c", q, w, u, 'k'); send("%llu|%s|%x|%c", q, w, u, 'k'); return buf;
	default: snprintf(buf, sizeof(buf), "%f %s %u %u %s %d %llu", d, w, u, u, w, i, q); send("%f %s %u %u %s %d %llu", d, w, u, u, w, i, q); return buf;
	}
}
void loggerCase(Src& s, Ctx& c)
{
	record().clear(); c.label("loggers");
	auto mask = [&]() -> uint32_t { return s.chance(1, 3) ? 31u : s.below(32); };
	uint32_t filter = 31; char cb = 0;
	std::unique_ptr<ILogger> l; ILogger::Callback fns[] = { nullptr, recordFn<'A'>, recordFn<'B'> };
	auto pick = [&] { unsigned i = s.weighted({ 1, 4, 4 }); cb = i == 0 ? 0 : char('A' + i - 1); return fns[i]; };
	switch (s.below(3)) { case 0: l.reset(new ILogger()); break; case 1: { auto f = pick(); l.reset(new ILogger(f)); break; } default: { auto f = pick(); filter = mask(); l.reset(new ILogger(f, Flag<LogLevel>(filter))); } }
	std::vector<Recorded> want; unsigned n = 1 + s.below(8), dropped = 0;
	for (unsigned k = 0; k < n; ++k)
	{
		switch (s.weighted({ 2, 2, 8 }))
		{
		case 0: l->setCallback(pick()); break;
		case 1: filter = mask(); l->setFilter(Flag<LogLevel>(filter)); break;
		default:
		{
			// one level, or (log only) several: the receiver sees those which pass the filter
			bool direct = s.coin(); uint32_t level = direct && s.chance(1, 4) ? s.below(32) : 1u << s.below(5); c.mix(level);
			std::string t = logOne(*l, s, c, level, direct); NOTE("log level " + S(level) + " filter " + S(filter) + " callback " + (cb ? std::string(1, cb) : "-") + " '" + t + "'; ");
			if (cb != 0 && (level & filter) != 0) want.push_back({ l.get(), level & filter, std::string(1, cb) + t }); else ++dropped;
			auto& r = record();
			CHECK_SIG(r.size() == want.size(), "messages", "message of level " + S(level) + " with filter " + S(filter) + (cb ? " and a" : " and no") + " callback: " + S(r.size()) + " delivered, expected " + S(want.size()));
			if (!r.empty()) CHECK_SIG(r.back().from == l.get() && r.back().level == want.back().level && r.back().text == want.back().text, "message", "delivered " + S(r.back().level) + " '" + r.back().text + "', expected " + S(want.back().level) + " '" + want.back().text + "'");
		}
		}
	}
	c.nontrivial = !want.empty() && (dropped || want.size() > 1);
}
void consoleCase(Src& s, Ctx& c)
{
	c.label("console loggers"); std::string want; unsigned n = 1 + s.below(6), shown = 0;
	bool all = s.coin(); uint32_t filter = all ? 31u : s.below(32);
	fflush(stdout); int fd = memfd_create("out", 0), old = dup(1); CHECK(fd >= 0 && old >= 0); dup2(fd, 1);
	{
		std::unique_ptr<ConsoleLogger> l(all ? new ConsoleLogger() : new ConsoleLogger(Flag<LogLevel>(filter)));
		static const char* prefix[] = { "Debug: ", "Info: ", "Warning: ", "Error: ", "Fatal: " };
		for (unsigned k = 0; k < n; ++k)
		{
			if (s.chance(1, 8)) { filter = s.below(32); l->setFilter(Flag<LogLevel>(filter)); }
			unsigned b = s.below(5); std::string t = logOne(*l, s, c, 1u << b, s.coin()); NOTE("console level " + S(b) + " filter " + S(filter) + " '" + t + "'; ");
			if (filter >> b & 1) { want += prefix[b] + t + "\n"; ++shown; }
		}
	}
	fflush(stdout); dup2(old, 1); close(old);
	struct stat st{}; fstat(fd, &st); std::string got(size_t(st.st_size), 0); bool ok = pread(fd, got.data(), got.size(), 0) == ssize_t(got.size()); close(fd);
	CHECK(ok); CHECK_SIG(got == want, "console", "printed '" + got + "', expected '" + want + "'");
	c.nontrivial = shown >= 1;
}

// ------------------------------------------------------------------ hashes and instruction words
uint64_t fnv(uint64_t h, const void* p, size_t n) { auto* b = static_cast<const unsigned char*>(p); for (size_t i = 0; i < n; ++i) { h ^= b[i]; h *= 1099511628211ull; } return h; }
void hashCase(Src& s, Ctx& c)
{
	c.label("hashes"); HeapAllocator heap;
	bool seeded = s.coin(); uint64_t h = seeded ? s.word64() : 14695981039346656037ull; FNV1aHasher x = seeded ? FNV1aHasher(Hash64(h)) : FNV1aHasher();
	unsigned n = 1 + s.below(6);
	for (unsigned k = 0; k < n; ++k)
	{
		unsigned op = s.below(9); uint64_t r = 0; std::string t; unsigned len = s.below(20); for (unsigned i = 0; i < len; ++i) t += char(op >= 2 && op <= 4 ? 1 + s.below(255) : s.below(256));
		uint32_t u = s.word(); uint64_t q = s.word64(); uint8_t b = uint8_t(s.below(256)); int16_t sh = int16_t(s.word()); c.mix(op); c.mix(u);
 NOTE("hash op" + S(op) + " of " + S(t.size()) + " bytes or " + S(u) + "; ");
		switch (op)
		{
		case 0: case 1: r = x.add(t.data(), t.size()); h = fnv(h, t.data(), t.size()); break;
		case 2: r = x(t.c_str()); h = fnv(h, t.data(), t.size()); break;
		case 3: x << t.c_str(); r = x.get(); h = fnv(h, t.data(), t.size()); break;
		case 4: { String str(&heap, t.c_str()); r = x(str); h = fnv(h, t.data(), t.size()); break; }
		case 5: r = x(u); h = fnv(h, &u, 4); break;
		case 6: x << q << b; r = static_cast<Hash64>(x); h = fnv(h, &q, 8); h = fnv(h, &b, 1); break;
		case 7: r = x(u, sh, q); h = fnv(h, &u, 4); h = fnv(h, &sh, 2); h = fnv(h, &q, 8); break;
		default:
		{
			r = x(b, sh); h = fnv(h, &b, 1); h = fnv(h, &sh, 2);
			uint64_t w = 14695981039346656037ull; w = fnv(w, &q, 8); w = fnv(w, &u, 4); CHECK_SIG(hash(q, u).value == w, "hash of values", "hash(" + S(q) + ", " + S(u) + ") is " + S(hash(q, u).value));
			Hash64 lh(u, uint32_t(q)); CHECK_SIG(lh.value == ((uint64_t(uint32_t(q)) << 32) | u), "hash of two words", S(lh.value));
		}
		}
		CHECK_SIG(r == h && x.get().value == h, "hash", "operation " + S(op) + " with '" + t + "', " + S(u) + ": hash is " + S(x.get().value) + ", expected " + S(h));
	}
	c.nontrivial = n >= 2;
}
void wordCase(Src& s, Ctx& c)
{
	c.label("instruction words"); uint32_t w = s.word(); uint16_t op = uint16_t(s.chance(1, 2) ? s.below(6000) : s.below(65536)), cnt = uint16_t(s.below(65536)); c.mix(w); c.mix(op); c.mix(cnt); NOTE("instruction " + S(op) + " of " + S(cnt) + " words, word " + S(w));
	uint32_t i = makeOpCode(static_cast<spv::Op>(op), cnt);
	CHECK_SIG(i == (uint32_t(cnt) << 16 | op), "first word", "makeOpCode(" + S(op) + ", " + S(cnt) + ") is " + S(i));
	CHECK_SIG(getOperation(i) == static_cast<spv::Op>(op) && getOperandCount(i) == cnt, "first word", "parts of " + S(i));
	CHECK_SIG(static_cast<uint32_t>(getOperation(w)) == (w & 0xffff) && getOperandCount(w) == w >> 16, "first word", "parts of " + S(w));
	uint8_t a = uint8_t(s.below(256)), b = uint8_t(s.below(256)); uint32_t v = makeVersion(a, b);
	CHECK_SIG(v == (uint32_t(a) << 16 | uint32_t(b) << 8) && getMajorVersion(v) == a && getMinorVersion(v) == b, "version", "makeVersion(" + S(a) + ", " + S(b) + ") is " + S(v));
	CHECK_SIG(getMajorVersion(w) == ((w >> 16) & 0xff) && getMinorVersion(w) == ((w >> 8) & 0xff), "version", "parts of " + S(w));
	uint16_t g = uint16_t(s.below(65536)), gv = uint16_t(s.below(65536)); c.mix(g);
	if (g < 0x8000) CHECK_SIG(makeGeneratorId(g, gv) == (uint32_t(g) << 16 | gv), "generator", "makeGeneratorId(" + S(g) + ", " + S(gv) + ") is " + S(makeGeneratorId(g, gv)));
	CHECK_SIG(getGeneratorId(w) == w >> 16 && getGeneratorVersion(w) == (w & 0xffff), "generator", "parts of " + S(w));
	size_t bytes = s.below(300); CHECK_SIG(wordCount(bytes) == std::max<size_t>(1, (bytes + 3) / 4), "words of bytes", S(bytes) + " bytes are " + S(wordCount(bytes)) + " words");
	CHECK_SIG(wordCount<uint8_t>() == 1 && wordCount<uint16_t>() == 1 && wordCount<uint32_t>() == 1 && wordCount<double>() == 2, "words of types", "");
	// the modes with operands which are ids
	static const uint32_t ids[] = { 37, 38, 39 }; uint32_t mode = s.chance(1, 3) ? s.below(60) : s.chance(1, 2) ? ids[s.below(3)] : s.below(6200); bool id = std::count(ids, ids + 3, mode) != 0;
	spv::Op want = id ? spv::Op::OpExecutionModeId : spv::Op::OpExecutionMode;
	CHECK_SIG(getExecutionModeOp(static_cast<spv::ExecutionMode>(mode)) == want, "execution mode", "operation of mode " + S(mode));
	c.nontrivial = op != 0 && cnt != 0;
}

// ------------------------------------------------------------------ allocations
void allocCase(Src& s, Ctx& c)
{
	c.label("scoped allocations"); TrackAlloc a; Elem::reset(); unsigned served = 0, moved = 0;
	if (s.chance(1, 3)) a.failAfter = s.below(4);
	{
		std::vector<std::unique_ptr<ScopedAllocation>> v; unsigned n = 1 + s.below(6); size_t want = 0;
		for (unsigned k = 0; k < n; ++k)
		{
			switch (s.weighted({ 5, 2, 2, 2 }))
			{
			case 0:
			{
				size_t bytes = 1 + s.below(70); bool ok = a.allocs < a.failAfter; c.mix(bytes); NOTE("allocate " + S(bytes) + (ok ? "; " : " (fails); "));
				v.emplace_back(new ScopedAllocation(a.allocateScoped(bytes, 1u << s.below(5)))); auto& x = *v.back();
				CHECK_SIG(bool(x) == ok && (x.ptr != nullptr) == ok && x.size == bytes, "scoped allocation", S(bytes) + " bytes"); if (ok) { memset(x.ptr, 1, bytes); ++want; ++served; }
				break;
			}
			case 1: if (!v.empty()) { size_t i = s.below(v.size()); want -= bool(*v[i]) ? 1 : 0; v.erase(v.begin() + i); } break;
			case 2:
				if (!v.empty())
				{
					size_t i = s.below(v.size()); bool had = bool(*v[i]); void* p = v[i]->ptr; std::unique_ptr<ScopedAllocation> y(new ScopedAllocation(std::move(*v[i])));
					CHECK_SIG(bool(*y) == had && y->ptr == p, "moved allocation", "it is not held by its new owner"); CHECK_SIG(!*v[i], "moved allocation", "it is still held by its former owner");
					v[i] = std::move(y); ++moved; a.check("after destruction of a scoped allocation which was moved from");
				}
				break;
			default:
			{
				bool ok = a.allocs < a.failAfter; uint32_t x = s.below(1000); Elem* e = s.coin() ? a.construct<Elem>(x) : a.construct<Elem>(x, 0u); 
				CHECK_SIG((e != nullptr) == ok, "construct", "memory was " + std::string(ok ? "" : "not ") + "available");
				Elem::checkLive(ok ? 1 : 0, "construct"); if (e) { CHECK_SIG(e->v == x || e->v == x * 31, "construct", "arguments are lost"); a.destruct(e); } Elem::checkLive(0, "destruct");
			}
			}
			a.check("scoped allocations"); CHECK_SIG(a.live.size() == want, "blocks held", S(a.live.size()) + " blocks live, expected " + S(want));
		}
	}
	a.checkAllReturned("scoped allocations");
	// alignment within a buffer
	alignas(64) static char buf[512]; size_t al = size_t(1) << s.below(7), off = s.below(128), size = s.below(200), space = s.below(300); void* p = buf + off; void* q = p; size_t sp = space; c.mix(al * 1000 + off);
	void* r = IAllocator::alignPowerOf2(al, size, p, space); void* e = std::align(al, size, q, sp);
	CHECK_SIG(r == e && p == q, "alignment", S(size) + " bytes aligned to " + S(al) + " at offset " + S(off) + " of " + S(space) + " bytes");
	c.nontrivial = served >= 2 || moved;
}

// ------------------------------------------------------------------ heap containers
template <class C> std::vector<uint32_t> vals(const C& v) { std::vector<uint32_t> r; for (const Elem& e : v) r.push_back(e.v); return r; }
std::string T(const std::vector<uint32_t>& v) { std::string r = "["; for (auto x : v) r += S(x) + " "; return r + "]"; }
void heapVectorCase(Src& s, Ctx& c)
{
	c.label("heap vectors"); Elem::reset(); using V = HeapVector<Elem>; size_t most = 0;
	{
		std::vector<std::unique_ptr<V>> v; std::vector<std::vector<uint32_t>> m; unsigned n = 2 + s.below(7);
		auto check = [&](const char* when) { size_t n = 0; for (size_t i = 0; i < v.size(); ++i) { auto g = vals(*v[i]); CHECK_SIG(g == m[i] && v[i]->size() == m[i].size() && v[i]->empty() == m[i].empty(), "heap vector", std::string(when) + ": " + T(g) + ", expected " + T(m[i])); n += g.size(); most = std::max(most, g.size()); } Elem::checkLive(n, when); };
		for (unsigned k = 0; k < n; ++k)
		{
			uint32_t a = s.below(100), b = s.below(100), d = s.below(100); unsigned op = s.below(10); size_t i = v.empty() ? 0 : s.below(v.size()), j = v.empty() ? 0 : s.below(v.size()); c.mix(op * 1000 + a); NOTE("op" + S(op) + "(" + S(i) + "," + S(j) + "," + S(a) + "," + S(b) + ") ");
			if (v.empty() && op >= 5) op -= 5;
			switch (op)
			{
			case 0: v.emplace_back(new V()); m.push_back({}); check("default"); break;
			case 1: { sgt_size_t cap = s.below(20); v.emplace_back(new V(cap)); m.push_back({}); CHECK_SIG(v.back()->capacity() >= cap, "capacity", S(cap)); check("capacity"); break; }
			case 2: { std::unique_ptr<Elem[]> arr(new Elem[3]{ a, b, d }); sgt_size_t len = 1 + s.below(3); const Elem* p = arr.get(); v.emplace_back(new V(p, len)); m.push_back({ a, b, d }); m.back().resize(len); arr.reset(); check("pointer and size"); break; }
			case 3: { { const Elem arr[3] = { a, b, d }; v.emplace_back(new V(arr)); } m.push_back({ a, b, d }); check("array"); break; }
			case 4: { { const Elem x(a); Elem y(b); if (s.coin()) { v.emplace_back(new V(x)); m.push_back({ a }); } else { v.emplace_back(new V(x, y, Elem(d))); m.push_back({ a, b, d }); } } check("elements"); break; }
			case 5: v.emplace_back(new V(static_cast<const V&>(*v[i]))); m.push_back(std::vector<uint32_t>(m[i])); check("copy"); break;
			case 6: v.emplace_back(new V(std::move(*v[i]))); m.push_back(std::vector<uint32_t>(m[i])); m[i].clear(); check("move"); break;
			case 7: *v[i] = static_cast<const V&>(*v[j]); if (i != j) m[i] = m[j]; check("assignment"); break;
			case 8: *v[i] = std::move(*v[j]); if (i != j) { m[i] = m[j]; m[j].clear(); } check("move assignment"); break;
			default: { size_t f = v[i]->getAllocator() == nullptr ? 0 : 1; if (f) { v[i]->emplace_back(a); m[i].push_back(a); } check("emplace_back"); }
			}
			if (op <= 4) CHECK_SIG(v.back()->getAllocator() == HeapAllocator::instance(), "allocator", "of a heap vector");
		}
	}
	Elem::checkLive(0, "all vectors gone"); c.nontrivial = most >= 2;
}
void heapListCase(Src& s, Ctx& c)
{
	c.label("heap lists"); Elem::reset(); using V = HeapList<Elem>; size_t most = 0;
	{
		std::vector<std::unique_ptr<V>> v; std::vector<std::vector<uint32_t>> m; unsigned n = 2 + s.below(7);
		auto check = [&](const char* when) { size_t n = 0; for (size_t i = 0; i < v.size(); ++i) { auto g = vals(*v[i]); CHECK_SIG(g == m[i] && v[i]->size() == m[i].size() && v[i]->empty() == m[i].empty(), "heap list", std::string(when) + ": " + T(g) + ", expected " + T(m[i])); n += g.size(); most = std::max(most, g.size()); } Elem::checkLive(n, when); };
		for (unsigned k = 0; k < n; ++k)
		{
			uint32_t a = s.below(100), b = s.below(100); unsigned op = s.below(8); size_t i = v.empty() ? 0 : s.below(v.size()), j = v.empty() ? 0 : s.below(v.size()); c.mix(op * 1000 + a); NOTE("op" + S(op) + "(" + S(i) + "," + S(j) + "," + S(a) + "," + S(b) + ") ");
			if (v.empty()) op %= 3;
			switch (op)
			{
			case 0: v.emplace_back(new V()); m.push_back({}); check("default"); break;
			case 1: v.emplace_back(new V(Elem(a))); m.push_back({ a }); check("element"); break;
			case 2: { { Elem y(b); v.emplace_back(new V(Elem(a), y, Elem(a + 1))); } m.push_back({ a, b, a + 1 }); check("elements"); break; }
			case 3: v.emplace_back(new V(static_cast<const V&>(*v[i]))); m.push_back(std::vector<uint32_t>(m[i])); check("copy"); break;
			case 4: v.emplace_back(new V(std::move(*v[i]))); m.push_back(std::vector<uint32_t>(m[i])); m[i].clear(); check("move"); break;
			case 5: *v[i] = static_cast<const V&>(*v[j]); if (i != j) m[i] = m[j]; check("assignment"); break;
			case 6: *v[i] = std::move(*v[j]); if (i != j) { m[i] = m[j]; m[j].clear(); } check("move assignment"); break;
			default: if (v[i]->getAllocator() != nullptr) { v[i]->emplace_back(a); m[i].push_back(a); } check("emplace_back");
			}
			if (op <= 2) CHECK_SIG(v.back()->getAllocator() == HeapAllocator::instance(), "allocator", "of a heap list");
		}
	}
	Elem::checkLive(0, "all lists gone"); c.nontrivial = most >= 2;
}
void heapStringCase(Src& s, Ctx& c)
{
	c.label("heap strings"); using V = HeapString; size_t most = 0;
	std::vector<std::unique_ptr<V>> v; std::vector<std::string> m; unsigned n = 2 + s.below(7);
	auto check = [&](const char* when) { for (size_t i = 0; i < v.size(); ++i) { std::string g(v[i]->size() ? v[i]->c_str() : "", v[i]->size()); CHECK_SIG(g == m[i] && (m[i].empty() || v[i]->c_str()[m[i].size()] == 0) && *v[i] == m[i].c_str(), "heap string", std::string(when) + ": '" + g + "', expected '" + m[i] + "'"); most = std::max(most, g.size()); } };
	auto text = [&] { std::string t; unsigned l = s.below(12); for (unsigned i = 0; i < l; ++i) t += char('a' + s.below(26)); return t; };
	for (unsigned k = 0; k < n; ++k)
	{
		std::string t = text(); unsigned op = s.below(9); size_t i = v.empty() ? 0 : s.below(v.size()), j = v.empty() ? 0 : s.below(v.size()); c.mix(op * 1000 + t.size()); NOTE("string op" + S(op) + "(" + S(i) + "," + S(j) + ",'" + t + "') ");
		if (v.empty()) op %= 4;
		switch (op)
		{
		case 0: v.emplace_back(new V()); m.push_back(""); check("default"); break;
		case 1: { const char* p = t.c_str(); v.emplace_back(new V(p)); m.push_back(t); check("text"); break; }
		case 2: { const char* p = t.c_str(); size_t l = t.empty() ? 0 : 1 + s.below(t.size()); v.emplace_back(new V(p, l)); m.push_back(l ? t.substr(0, l) : t); check("text and length"); break; }
		case 3: v.emplace_back(new V("literal")); m.push_back("literal"); check("literal"); break;
		case 4: v.emplace_back(new V(static_cast<const V&>(*v[i]))); m.push_back(std::string(m[i])); check("copy"); break;
		case 5: v.emplace_back(new V(std::move(*v[i]))); m.push_back(std::string(m[i])); m[i].clear(); check("move"); break;
		case 6: *v[i] = static_cast<const V&>(*v[j]); if (i != j) m[i] = m[j]; check("assignment"); break;
		case 7: *v[i] = std::move(*v[j]); if (i != j) { m[i] = m[j]; m[j].clear(); } check("move assignment"); break;
		default: if (v[i]->getAllocator() != nullptr) { v[i]->append(t.c_str()); m[i] += t; } check("append");
		}
	}
	c.nontrivial = most >= 2;
}
void heapMapCase(Src& s, Ctx& c)
{
	c.label("heap maps"); using V = HeapHashMap<uint32_t, Elem>; Elem::reset(); size_t most = 0;
	{
		std::vector<std::unique_ptr<V>> v; std::vector<std::map<uint32_t, uint32_t>> m; unsigned n = 2 + s.below(8);
		auto check = [&](const char* when) {
			size_t n = 0;
			for (size_t i = 0; i < v.size(); ++i)
			{
				size_t count = 0; for (auto& kv : *v[i]) { auto it = m[i].find(kv.key); CHECK_SIG(it != m[i].end() && it->second == kv.value.v, "heap map", std::string(when) + ": entry " + S(kv.key) + " -> " + S(kv.value.v)); ++count; }
				CHECK_SIG(count == m[i].size(), "heap map", std::string(when) + ": " + S(count) + " entries, expected " + S(m[i].size())); n += count; most = std::max(most, count);
				for (uint32_t k = 0; k < 12; ++k) { if (v[i]->getBucketCount() == 0) continue; Elem* e = (*v[i])[k]; auto it = m[i].find(k); CHECK_SIG((e != nullptr) == (it != m[i].end()) && (e == nullptr || e->v == it->second), "heap map", std::string(when) + ": lookup of " + S(k)); }
			}
			Elem::checkLive(n, when);
		};
		for (unsigned k = 0; k < n; ++k)
		{
			uint32_t a = s.below(12), b = s.below(12), x = s.below(100), y = s.below(100); unsigned op = s.below(8); size_t i = v.empty() ? 0 : s.below(v.size()), j = v.empty() ? 0 : s.below(v.size()); c.mix(op * 1000 + a * 12 + b); NOTE("map op" + S(op) + "(" + S(i) + "," + S(j) + "," + S(a) + "," + S(b) + ") ");
			if (v.empty()) op %= 3;
			switch (op)
			{
			case 0: v.emplace_back(new V()); m.push_back({}); check("default"); break;
			case 1: { unsigned cnt = 1 + s.below(20); v.emplace_back(new V(cnt)); m.push_back({}); CHECK_SIG(v.back()->getBucketCount() == cnt, "buckets", S(cnt)); check("buckets"); break; }
			case 2: if (a == b) b = (a + 1) % 12; v.emplace_back(new V(uint32_t(a), Elem(x), uint32_t(b), Elem(y))); m.push_back({ { a, x }, { b, y } }); check("keys and values"); break;
			case 3: v.emplace_back(new V(std::move(*v[i]))); m.push_back(std::map<uint32_t, uint32_t>(m[i])); m[i].clear(); check("move"); break;
			case 4: *v[i] = std::move(*v[j]); if (i != j) { m[i] = m[j]; m[j].clear(); } check("move assignment"); break;
			default: if (v[i]->getBucketCount() != 0) { (*v[i]).emplaceUnique(a, x); m[i].emplace(a, x); } check("emplaceUnique");
			}
		}
	}
	Elem::checkLive(0, "all maps gone"); c.nontrivial = most >= 2;
}

// ------------------------------------------------------------------ algorithms
template <template <class> class C> void algoCase(Src& s, Ctx& c, IAllocator* al)
{
	C<uint32_t> in(al); std::vector<uint32_t> m; unsigned n = s.below(8); for (unsigned i = 0; i < n; ++i) { uint32_t x = s.below(20); in.emplace_back(x); m.push_back(x); c.mix(x); }
	const C<uint32_t>& cin = in; uint32_t t = s.below(20), k = s.below(5); NOTE("algorithms over " + T(m) + " with " + S(t) + ", " + S(k));
	std::vector<uint32_t> seen; auto pred = [&](const uint32_t& x) { seen.push_back(x); return x < t; };
	auto show = [&] { return T(m) + " with bound " + S(t); };
	bool any = algo::any(cin, pred); auto f = std::find_if(m.begin(), m.end(), [&](uint32_t x) { return x < t; }); CHECK_SIG(any == (f != m.end()), "any", show());
	CHECK_SIG(seen == std::vector<uint32_t>(m.begin(), f == m.end() ? f : f + 1), "any", "elements asked " + T(seen) + " of " + show()); seen.clear();
	bool all = algo::all(cin, pred); f = std::find_if(m.begin(), m.end(), [&](uint32_t x) { return x >= t; }); CHECK_SIG(all == (f == m.end()), "all", show());
	CHECK_SIG(seen == std::vector<uint32_t>(m.begin(), f == m.end() ? f : f + 1), "all", "elements asked " + T(seen) + " of " + show()); seen.clear();
	{
		auto out = algo::transform(cin, [&](const uint32_t& x) -> uint64_t { seen.push_back(x); return uint64_t(x) * 0x100000001ull + k; });
		CHECK_SIG(seen == m && out.size() == m.size() && out.getAllocator() == in.getAllocator(), "transform", show()); size_t i = 0; for (uint64_t x : out) { CHECK_SIG(x == uint64_t(m[i]) * 0x100000001ull + k, "transform", "element " + S(i) + " of " + show()); ++i; }
		i = 0; for (uint32_t x : in) CHECK_SIG(x == m[i++], "transform", "changes its input " + show());
	}
	{
		auto out = algo::transform(in, [&](uint32_t& x) { Elem e(x + k); x += 1; return e; });
		CHECK_SIG(out.size() == m.size(), "transform", show()); size_t i = 0; for (const Elem& e : out) { CHECK_SIG(e.v == m[i] + k, "transform", "element " + S(i) + " of " + show()); ++i; } Elem::checkLive(m.size(), "transform");
		i = 0; for (uint32_t x : in) { CHECK_SIG(x == m[i] + 1, "transform", "cannot change its input " + show()); ++i; }
	}
	Elem::checkLive(0, "transform"); c.nontrivial = m.size() >= 2;
}

// ------------------------------------------------------------------ writers and readers
void ioCase(Src& s, Ctx& c)
{
	c.label("files"); TrackAlloc a; std::vector<uint32_t> w; unsigned len = s.chance(1, 20) ? 600 + s.below(3000) : s.below(40); for (unsigned i = 0; i < len; ++i) w.push_back(i < 30 ? s.word() : i * 2654435761u); c.mix(len); if (len) c.mix(w[0]);
	int fd = memfd_create("f", 0); CHECK(fd >= 0); std::string path = "/proc/self/fd/" + S(uint64_t(fd)); struct Cl { int f; ~Cl() { close(f); } } cl{ fd };
	{
		{ std::vector<unsigned int> sv; BinaryVectorWriter<std::vector<unsigned int>> wr(sv); for (auto x : w) CHECK(wr.put(x)); CHECK_SIG(sv == w, "vector writer", S(sv.size()) + " words"); }
		{ Vector<unsigned int> sv(&a); BinaryVectorWriter<Vector<unsigned int>> wr(sv); for (auto x : w) CHECK(wr.put(x)); CHECK_SIG(sv.size() == w.size() && std::equal(w.begin(), w.end(), sv.begin()), "vector writer", S(sv.size()) + " words"); }
		auto content = [&] { struct stat st{}; fstat(fd, &st); std::vector<uint32_t> r(size_t(st.st_size) / 4); CHECK_SIG(st.st_size % 4 == 0 && pread(fd, r.data(), r.size() * 4, 0) == st.st_size, "file writer", S(uint64_t(st.st_size)) + " bytes in the file"); return r; };
		// write: several files one after the other by the same writer
		unsigned mode = s.below(3); size_t cap = s.chance(1, 3) ? 0 : s.below(200);
		{
			std::unique_ptr<BinaryFileWriter> wr(mode == 0 ? new BinaryFileWriter(a, path.c_str()) : mode == 1 ? new BinaryFileWriter(a, path.c_str(), cap) : new BinaryFileWriter(a));
			CHECK_SIG(wr->isOpen() == (mode != 2) && bool(*wr) == (mode != 2), "file writer", "open after construction");
			if (mode == 2) { CHECK_SIG(!wr->open(nullptr) && !wr->open("/nonexistent/file") && !wr->isOpen(), "file writer", "opens what does not exist"); CHECK_SIG(wr->open(path.c_str()) && wr->isOpen(), "file writer", "does not open"); }
			CHECK_SIG(!wr->open(path.c_str()) && wr->isOpen(), "file writer", "opens twice");
			for (auto x : w) CHECK_SIG(wr->put(x), "file writer", "put");
			unsigned end = s.below(3);
			if (end == 0) wr.reset();
			else
			{
				CHECK_SIG(wr->close() && !wr->isOpen(), "file writer", "close"); CHECK_SIG(content() == w, "file writer", S(content().size()) + " words written, expected " + S(w.size()));
				CHECK_SIG(!wr->close(), "file writer", "closes twice");
				if (end == 2) { std::reverse(w.begin(), w.end()); if (!w.empty()) w.pop_back(); CHECK_SIG(wr->open(path.c_str()), "file writer", "does not reopen"); for (auto x : w) CHECK(wr->put(x)); CHECK_SIG(wr->close(), "file writer", "close"); }
			}
		}
		CHECK_SIG(content() == w, "file writer", S(content().size()) + " words written, expected " + S(w.size()));
		// read: all of it or a part; offset and length are bytes
		bool odd = s.chance(1, 6); if (odd) { CHECK(pwrite(fd, "xyz", 1 + s.below(3), off_t(w.size() * 4)) > 0); }
		struct stat st{}; fstat(fd, &st); size_t size = size_t(st.st_size);
		{
			BinaryFileReader rd(a); unsigned int x = 7; CHECK_SIG(!rd.get(x), "file reader", "words of nothing"); unsigned reads = 1 + s.below(3);
			for (unsigned k = 0; k < reads; ++k)
			{
				size_t off = s.chance(1, 2) ? 0 : s.chance(3, 4) ? 4 * s.below(w.size() + 2) : s.below(size + 8), l = s.chance(1, 2) ? 0 : s.chance(3, 4) ? 4 * s.below(w.size() + 2) : s.below(size + 8);
				bool missing = s.chance(1, 8); size_t bytes = off > size ? 0 : l == 0 ? size - off : l; bool ok = !missing && off <= size && l <= size - off && bytes % 4 == 0; c.mix(off * 4096 + l); NOTE("read " + S(off) + "+" + S(l) + " of " + S(size) + (missing ? " (missing file); " : "; "));
				bool got; std::unique_ptr<BinaryFileReader> other; BinaryFileReader* r = &rd;
				if (s.coin()) got = rd.read(missing ? "/nonexistent/file" : path.c_str(), off, l); else { other.reset(new BinaryFileReader(a, missing ? nullptr : path.c_str(), off, l)); r = other.get(); got = ok; }
				auto t = [&] { return "bytes " + S(off) + " + " + S(l) + " of " + S(size); };
				CHECK_SIG(got == ok, "file reader", "reading " + t() + (got ? " succeeds" : " fails"));
				std::vector<uint32_t> out; while (r->get(x)) out.push_back(x); CHECK_SIG(!r->get(x), "file reader", "continues after the end");
				std::vector<uint32_t> want(ok ? bytes / 4 : 0); if (ok && bytes) CHECK(pread(fd, want.data(), bytes, off_t(off)) == ssize_t(bytes));
				CHECK_SIG(out == want, "file reader", t() + ": " + S(out.size()) + " words, expected " + S(want.size()));
			}
		}
	}
	a.checkAllReturned("files"); c.nontrivial = w.size() >= 2;
}

void helperCase(Src& s, Ctx& c)
{
	unsigned k = s.weighted({ 6, 2, 6, 3, 4, 3, 5, 6, 6, 6, 6, 5, 4 }); c.mix(k);
	NOTE("kind " + S(k) + ": ");
	switch (k)
	{
	case 0: flagCase<Bits>(s, c); break;
	case 1: flagCase<spv::MemoryAccessMask>(s, c); break;
	case 2: loggerCase(s, c); break;
	case 3: consoleCase(s, c); break;
	case 4: hashCase(s, c); break;
	case 5: wordCase(s, c); break;
	case 6: allocCase(s, c); break;
	case 7: heapVectorCase(s, c); break;
	case 8: heapListCase(s, c); break;
	case 9: heapStringCase(s, c); break;
	case 10: heapMapCase(s, c); break;
	case 11:
	{
		c.label("algorithms"); TrackAlloc a; Elem::reset();
		switch (s.below(4)) { case 0: algoCase<List>(s, c, &a); break; case 1: algoCase<Vector>(s, c, &a); break; case 2: algoCase<HeapVector>(s, c, &a); break; default: algoCase<HeapList>(s, c, &a); }
		a.checkAllReturned("algorithms"); break;
	}
	default: ioCase(s, c);
	}
}
pbt::Reg rHelpers("P32", "the case exercises more than the empty state: a flag with a bit set, a message delivered, two hashed values, two allocations or a move, two elements in a container or file", helperCase);
}
