#include "pbt.h"
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <unistd.h>
#include <signal.h>
#include <time.h>
#include <fcntl.h>
#include <unordered_set>
#include <algorithm>

namespace pbt
{
	std::map<std::string, Prop>& props() { static std::map<std::string, Prop> p; return p; }
	std::map<std::string, std::vector<Known>>& knowns() { static std::map<std::string, std::vector<Known>> p; return p; }

	static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

	static Shared* newShared()
	{
		void* p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
		if (p == MAP_FAILED) { perror("mmap"); exit(3); }
		return static_cast<Shared*>(p);
	}

	static uint64_t mixSeed(uint64_t seed, const std::string& prop, uint64_t idx)
	{
		uint64_t h = 1469598103934665603ull ^ (seed * 0x9e3779b97f4a7c15ull);
		for (char c : prop) { h ^= static_cast<unsigned char>(c); h *= 1099511628211ull; }
		h ^= idx * 0xd6e8feb86659fd93ull; h ^= h >> 32; h *= 0xd6e8feb86659fd93ull; h ^= h >> 32;
		return h;
	}

	static std::string jsonStr(const std::string& s)
	{
		std::string o = "\"";
		for (unsigned char c : s)
		{
			if (c == '"' || c == '\\') { o += '\\'; o += static_cast<char>(c); }
			else if (c == '\n') o += "\\n";
			else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
			else o += static_cast<char>(c);
		}
		return o + "\"";
	}

	static int g_caseCpuSeconds = 20;
	static void armWatchdog()
	{
		itimerval it{}; it.it_value.tv_sec = g_caseCpuSeconds; setitimer(ITIMER_PROF, &it, nullptr); // CPU time, so load does not matter
	}

	static void setFail(Shared* sh, const std::string& sig, const std::string& msg)
	{
		snprintf(sh->sig, sizeof(sh->sig), "%s", sig.c_str());
		snprintf(sh->msg, sizeof(sh->msg), "%s", msg.c_str());
		sh->failed = 1;
	}

	enum class R { Ok, Discarded, Failed };
	static R runOne(const Prop& p, Src& s, Ctx& c, Shared* sh)
	{
		try { p.run(s, c); }
		catch (const Discard&) { return R::Discarded; }
		catch (const Fail& f) { setFail(sh, f.sig, f.what()); return R::Failed; }
		catch (const std::exception& e) { setFail(sh, "exception", e.what()); return R::Failed; }
		return R::Ok;
	}

	// one attempt in a child; true if it fails with a signature of the same class
	struct Attempt { bool failed; std::string sig, msg; std::vector<uint32_t> used; };
	static Attempt attempt(const Prop& p, const std::vector<uint32_t>& choices, bool quiet, bool verbose = false, const uint64_t* seed = nullptr)
	{
		static Shared* sh = newShared();
		sh->failed = 0; sh->done = 0; sh->sig[0] = 0; sh->msg[0] = 0; sh->nChoices = 0;
		fflush(stdout); fflush(stderr);
		int fd[2]; if (pipe(fd) != 0) { perror("pipe"); exit(3); }
		pid_t pid = fork();
		if (pid == 0)
		{
			close(fd[0]);
			if (quiet) { dup2(fd[1], 2); int n = open("/dev/null", O_WRONLY); dup2(n, 1); }
			armWatchdog();
			Ctx c; c.verbose = verbose; c.wantSample = verbose; R r;
			if (seed) { Src s(*seed, sh); r = runOne(p, s, c, sh); } else { Src s(&choices, sh); r = runOne(p, s, c, sh); }
			if (verbose) { printf("%s\n", c.sample.c_str()); fflush(stdout); }
			sh->done = 1;
			_exit(r == R::Failed ? 1 : 0);
		}
		close(fd[1]);
		std::string err; char buf[4096]; ssize_t n;
		while ((n = read(fd[0], buf, sizeof buf)) > 0) if (err.size() < 200000) err.append(buf, static_cast<size_t>(n));
		close(fd[0]);
		int st = 0; waitpid(pid, &st, 0);
		Attempt a; a.used.assign(sh->choices, sh->choices + sh->nChoices);
		if (sh->failed) { a.failed = true; a.sig = sh->sig; a.msg = sh->msg; }
		else if (!sh->done)
		{
			a.failed = true;
			if (WIFSIGNALED(st) && (WTERMSIG(st) == SIGPROF || WTERMSIG(st) == SIGXCPU)) a.sig = "hang";
			else
			{
				a.sig = "crash";
				size_t k = err.find("SUMMARY: ");
				if (k != std::string::npos) { size_t e = err.find('\n', k); std::string s = err.substr(k, e - k); a.sig = "crash: "; 
					// keep the kind of error and the function, not addresses
					size_t q = s.find("Sanitizer: "); a.sig += q != std::string::npos ? s.substr(q + 11) : s; }
				else { k = err.find("runtime error: "); if (k != std::string::npos) { a.sig = "crash: UB " + err.substr(k + 15, err.find('\n', k) - k - 15); } else if (WIFSIGNALED(st)) a.sig = "crash: signal " + std::to_string(WTERMSIG(st)); }
			}
			a.msg = err.substr(0, 6000);
		}
		else a.failed = false;
		return a;
	}

	// crash signatures contain locations of the sanitizer report; compare only their kind
	static std::string sigClass(const std::string& s)
	{
		if (s.rfind("crash", 0) == 0) return "crash";
		return s;
	}

	static std::vector<uint32_t> shrink(const Prop& p, std::vector<uint32_t> best, Attempt& last, double budget)
	{
		const std::string cls = sigClass(last.sig);
		double end = now() + budget;
		auto tryIt = [&](const std::vector<uint32_t>& c) -> bool
		{
			if (now() > end) return false;
			Attempt a = attempt(p, c, true);
			if (a.failed && sigClass(a.sig) == cls)
			{
				std::vector<uint32_t> u = a.used; 
				if (u.size() > c.size()) u.resize(c.size());
				while (!u.empty() && u.back() == 0) u.pop_back();
				best = u; last = a; return true;
			}
			return false;
		};
		bool progress = true;
		while (progress && now() < end)
		{
			progress = false;
			for (size_t len = best.size() / 2; len >= 1; len /= 2)
			{
				for (size_t i = 0; i + len <= best.size() && now() < end;)
				{
					std::vector<uint32_t> c = best; c.erase(c.begin() + static_cast<long>(i), c.begin() + static_cast<long>(i + len));
					if (tryIt(c)) progress = true; else i += len;
				}
			}
			for (size_t len = std::min<size_t>(best.size(), 8); len >= 1; len /= 2)
			{
				for (size_t i = 0; i + len <= best.size() && now() < end; i += len)
				{
					bool zero = true; for (size_t k = i; k < i + len; ++k) zero &= best[k] == 0;
					if (zero) continue;
					std::vector<uint32_t> c = best; for (size_t k = i; k < i + len; ++k) c[k] = 0;
					if (tryIt(c)) progress = true;
				}
			}
			for (size_t i = 0; i < best.size() && now() < end; ++i)
			{
				for (uint32_t d : { best[i] / 2, best[i] - 1 })
				{
					if (i >= best.size() || best[i] == 0 || d >= best[i]) continue;
					std::vector<uint32_t> c = best; c[i] = d;
					if (tryIt(c)) progress = true;
				}
			}
		}
		return best;
	}

	static bool readReplay(const char* path, std::string& prop, std::vector<uint32_t>& c)
	{
		FILE* f = fopen(path, "r"); if (!f) return false;
		char line[1 << 12]; std::string all;
		while (fgets(line, sizeof line, f)) all += line;
		fclose(f);
		size_t k = all.find("property:"); if (k == std::string::npos) return false;
		size_t e = all.find('\n', k); prop = all.substr(k + 9, e - k - 9);
		while (!prop.empty() && prop[0] == ' ') prop.erase(0, 1);
		k = all.find("choices:"); if (k == std::string::npos) return false;
		const char* s = all.c_str() + k + 8; char* n = nullptr;
		for (;;) { unsigned long v = strtoul(s, &n, 10); if (n == s) break; c.push_back(static_cast<uint32_t>(v)); s = n; }
		return true;
	}

	int main(int argc, char** argv)
	{
		std::string prop, out = "/dev/null", replay, failOut;
		uint64_t seed = 1, start = 0, count = 100, step = 1; double maxSec = 600, shrinkSec = 60; bool known = false, list = false, survey = false;
		for (int i = 1; i < argc; ++i)
		{
			std::string a = argv[i]; auto val = [&]() -> const char* { return i + 1 < argc ? argv[++i] : ""; };
			if (a == "--prop") prop = val(); else if (a == "--seed") seed = strtoull(val(), nullptr, 10);
			else if (a == "--start") start = strtoull(val(), nullptr, 10); else if (a == "--count") count = strtoull(val(), nullptr, 10);
			else if (a == "--step") step = strtoull(val(), nullptr, 10);
			else if (a == "--max-sec") maxSec = atof(val()); else if (a == "--shrink-sec") shrinkSec = atof(val());
			else if (a == "--out") out = val(); else if (a == "--fail-out") failOut = val(); else if (a == "--replay") replay = val();
			else if (a == "--known") known = true; else if (a == "--list") list = true; else if (a == "--survey") survey = true;
			else { fprintf(stderr, "bad argument %s\n", a.c_str()); return 3; }
		}
		if (list) { for (auto& kv : props()) printf("%s\n", kv.first.c_str()); return 0; }
		if (!replay.empty())
		{
			std::vector<uint32_t> c; std::string rp;
			if (!readReplay(replay.c_str(), rp, c)) { fprintf(stderr, "cannot read replay file\n"); return 3; }
			if (!prop.empty()) rp = prop;
			if (!props().count(rp)) { fprintf(stderr, "unknown property %s\n", rp.c_str()); return 3; }
			Attempt a = attempt(props()[rp], c, false, true);
			if (a.failed) { printf("FAILS [%s] %s\n", a.sig.c_str(), a.msg.c_str()); return 1; }
			printf("holds\n"); return 0;
		}
		if (known)
		{
			for (auto& k : knowns()[prop])
			{
				// each in a child: a finding may crash
				Shared* sh = newShared();
				fflush(stdout);
				pid_t pid = fork();
				if (pid == 0)
				{
					int n = open("/dev/null", O_WRONLY); dup2(n, 2); dup2(n, 1); armWatchdog();
					std::string d; bool r = false;
					try { r = k.reproduces(d); } catch (const Fail& f) { r = true; d = f.what(); }
					snprintf(sh->msg, sizeof sh->msg, "%s", d.c_str()); sh->failed = r; sh->done = 1; _exit(0);
				}
				int st = 0; waitpid(pid, &st, 0);
				bool rep = sh->failed || !sh->done;
				std::string d = sh->done ? std::string(sh->msg) : "crashes";
				for (char& ch : d) if (ch == '\n') ch = ' ';
				printf("%s\t%s\t%s\n", k.id.c_str(), rep ? "reproduces" : "gone", d.c_str());
			}
			return 0;
		}
		if (!props().count(prop)) { fprintf(stderr, "unknown property '%s'\n", prop.c_str()); return 3; }
		const Prop& p = props()[prop];

		if (survey) // for development: every kind of failure among the cases, each with its smallest example
		{
			struct Found { uint64_t n = 0; std::vector<uint32_t> c; Attempt a; }; std::map<std::string, Found> found; double end = now() + maxSec; uint64_t i = 0;
			for (; i < count && now() < end; ++i)
			{
				uint64_t sd = mixSeed(seed, prop, start + i * step); Attempt a = attempt(p, {}, true, false, &sd);
				if (!a.failed) continue;
				Found& f = found[a.sig]; if (!f.n || a.used.size() < f.c.size()) { f.c = a.used; f.a = a; } ++f.n;
			}
			printf("%llu cases\n", (unsigned long long)i);
			for (auto& f : found)
			{
				if (shrinkSec > 0) f.second.c = shrink(p, f.second.c, f.second.a, shrinkSec);
				printf("==== %llu x [%s] %s\n", (unsigned long long)f.second.n, f.first.c_str(), f.second.a.msg.substr(0, 3000).c_str());
				if (!out.empty()) { FILE* o = fopen((out + "." + std::to_string(std::hash<std::string>()(f.first) % 100000)).c_str(), "w"); if (o) { fprintf(o, "# \nproperty: %s\nseed: 0 case: 0\nsignature: %s\nchoices:", prop.c_str(), f.first.c_str()); for (uint32_t v : f.second.c) fprintf(o, " %u", v); fprintf(o, "\n"); fclose(o); } }
			}
			return 0;
		}
		Shared* sh = newShared();
		sh->caseIndex = ~0ull;
		double t0 = now();
		fflush(stdout);
		std::string statsTmp = out + ".tmp";
		pid_t pid = fork();
		if (pid == 0)
		{
			signal(SIGINT, SIG_DFL);
			int n = open("/dev/null", O_WRONLY); dup2(n, 1); if (!getenv("PBT_STDERR")) dup2(n, 2);
			uint64_t evals = 0, nontriv = 0, disc = 0; std::unordered_set<uint64_t> seen; std::map<std::string, uint64_t> labels; std::vector<std::string> samples; uint64_t choices = 0; bool timedOut = false;
			for (uint64_t i = 0; i < count; ++i)
			{
				if (now() - t0 > maxSec) { timedOut = true; break; }
				uint64_t idx = start + i * step;
				sh->caseIndex = idx; armWatchdog();
				Src s(mixSeed(seed, prop, idx), sh); Ctx c; c.wantSample = samples.size() < 3 && evals % 7 == 3;
				R r = runOne(p, s, c, sh);
				if (r == R::Failed) { _exit(1); }
				if (r == R::Discarded) { ++disc; continue; }
				++evals; choices += sh->nChoices;
				if (c.nontrivial) { ++nontriv; if (seen.size() < 100000) seen.insert(c.hash); }
				for (auto& l : c.labels) labels[l.first] += l.second;
				if (c.wantSample && !c.sample.empty() && c.nontrivial) samples.push_back(c.sample.substr(0, 2500));
			}
			FILE* f = fopen(statsTmp.c_str(), "w");
			if (f)
			{
				fprintf(f, "{\"evaluations\":%llu,\"nontrivial\":%llu,\"distinct\":%zu,\"discarded\":%llu,\"choices\":%llu,\"timed_out\":%s,\"rule\":%s,\"labels\":{", (unsigned long long)evals, (unsigned long long)nontriv, seen.size(), (unsigned long long)disc, (unsigned long long)choices, timedOut ? "true" : "false", jsonStr(p.rule).c_str());
				bool first = true; for (auto& l : labels) { fprintf(f, "%s%s:%llu", first ? "" : ",", jsonStr(l.first).c_str(), (unsigned long long)l.second); first = false; }
				fprintf(f, "},\"samples\":["); first = true; for (auto& s : samples) { fprintf(f, "%s%s", first ? "" : ",", jsonStr(s).c_str()); first = false; }
				fprintf(f, "],\"hashes\":["); first = true; for (auto h : seen) { fprintf(f, "%s\"%llx\"", first ? "" : ",", (unsigned long long)h); first = false; }
				fprintf(f, "]}\n"); fclose(f); rename(statsTmp.c_str(), out.c_str());
			}
			sh->done = 1;
			_exit(0);
		}
		int st = 0; waitpid(pid, &st, 0);
		if (sh->done && !sh->failed) return 0;
		if (sh->caseIndex == ~0ull) { fprintf(stderr, "worker died before its first case (status %d)\n", st); return 3; }
		// failure: confirm from recorded choices, then shrink
		std::vector<uint32_t> c(sh->choices, sh->choices + sh->nChoices);
		uint64_t idx = sh->caseIndex;
		std::string firstSig = sh->failed ? sh->sig : "crash", firstMsg = sh->failed ? sh->msg : "";
		Attempt a = attempt(p, c, true);
		if (!a.failed)
		{
			fprintf(stderr, "case %llu failed in the batch [%s] %s but not alone (status %d)\n", (unsigned long long)idx, firstSig.c_str(), firstMsg.c_str(), st);
			return 4; // not reproducible in isolation
		}
		if (shrinkSec > 0) c = shrink(p, c, a, shrinkSec);
		FILE* f = fopen(failOut.empty() ? "/dev/stdout" : failOut.c_str(), "w");
		if (f)
		{
			fprintf(f, "# replay: <harness> --replay <this file>\nproperty: %s\nseed: %llu case: %llu\nsignature: %s\nchoices:", prop.c_str(), (unsigned long long)seed, (unsigned long long)idx, a.sig.c_str());
			for (uint32_t v : c) fprintf(f, " %u", v);
			fprintf(f, "\nmessage: %s\n", a.msg.c_str());
			fclose(f);
		}
		return 1;
	}
}

int main(int argc, char** argv) { return pbt::main(argc, argv); }
