// vsym: symbolic execution of LLVM bitcode with Z3. See DESIGN.md.
#include "exec.hpp"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <fstream>
#include <sstream>
#include <atomic>
#include <algorithm>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <unistd.h>
using namespace vs;

static std::string hx(const std::string& b) { static const char* d = "0123456789abcdef"; std::string r = "x"; for (unsigned char c : b) { r += d[c >> 4]; r += d[c & 15]; } return r; }
static std::string unhx(const std::string& h) { std::string r; for (size_t i = 1; i + 1 < h.size(); i += 2) r.push_back((char)strtol(h.substr(i, 2).c_str(), nullptr, 16)); return r; }
static std::string js(const std::string& s) { std::string r = "\""; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c == '\n') r += "\\n"; else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r + "\""; }

struct Tot { uint64_t v[20] = {}; double z3 = 0; std::set<std::string> fns; };
static void dump(Exec& x, const std::string& file) {
	std::ofstream o(file);
	auto& st = x.S.st;
	o << "N " << x.paths << " " << x.killed << " " << x.errPaths << " " << x.forks << " " << x.instrs << " " << x.asserts << " " << x.assertsSymbolic << " " << x.assertsProved << " " << st.z3Queries << " " << st.z3Sat << " " << st.z3Unsat << " " << st.z3Unknown << " " << st.byteDecisions << " " << st.modelHits << " " << st.searchHits << " " << st.cacheHits << " " << st.crossChecked << " " << st.crossMismatch << " " << st.z3Time << "\n";
	for (auto& e : x.errors) o << "E " << hx(e.second.kind) << " " << hx(e.second.label) << " " << hx(e.second.where) << " " << hx(e.second.stack) << " " << hx(e.second.input) << " " << hx(e.second.obs) << " " << e.second.count << "\n";
	for (auto& i : x.incomplete) o << "I " << hx(i.first) << " " << i.second << "\n";
	for (auto& r : x.reachCount) o << "R " << hx(r.first) << " " << r.second << "\n";
	for (auto& s : x.samples) o << "S " << hx(s.input) << " " << hx(s.obs) << "\n";
	for (auto f : x.P.fns) if (f->seen) o << "F " << hx(f->name) << "\n";
	o << "END\n";
}
int main(int argc, char** argv) {
	if (argc < 3) { fprintf(stderr, "usage: vsym file.bc entry [options]\n"); return 2; }
	Exec x; int jobs = 1; std::string outFile; double tmax = 120; bool verbose = false; size_t nsamples = 4; uint64_t seed = 1;
	for (int i = 3; i < argc; i++) {
		std::string a = argv[i];
		auto nx = [&]() { return std::string(argv[++i]); };
		if (a == "-p") { auto v = nx(); auto q = v.find('='); x.params[v.substr(0, q)] = atoll(v.c_str() + q + 1); }
		else if (a == "-j") jobs = atoi(nx().c_str());
		else if (a == "-o") outFile = nx();
		else if (a == "-t") tmax = atof(nx().c_str());
		else if (a == "--max-instr") x.maxInstr = atoll(nx().c_str());
		else if (a == "--cross") x.S.crossEvery = atoi(nx().c_str());
		else if (a == "--samples") nsamples = atoi(nx().c_str());
		else if (a == "--no-uninit") x.checkUninit = false;
		else if (a == "--seed") seed = atoll(nx().c_str());
		else if (a == "--z3-timeout") x.S.timeoutMs = atoi(nx().c_str());
		else if (a == "--max-values") x.maxValues = atoi(nx().c_str());
		else if (a == "--max-depth") x.maxDepth = atoi(nx().c_str());
		else if (a == "-v") verbose = true;
		else { fprintf(stderr, "vsym: bad option %s\n", a.c_str()); return 2; }
	}
	struct rlimit rl; rl.rlim_cur = rl.rlim_max = 1024ull << 20; setrlimit(RLIMIT_STACK, &rl);
	double t0 = now();
	x.P.load(argv[1]);
	State* root = x.initial(argv[2]);
	x.rng += seed * 0x9E3779B97F4A7C15ull;
	if (!root) { for (auto& e : x.errors) fprintf(stderr, "  %s: %s at %s\n%s", e.second.kind.c_str(), e.second.label.c_str(), e.second.where.c_str(), e.second.stack.c_str()); return 3; }
	if (verbose) fprintf(stderr, "loaded in %.2fs\n", now() - t0);
	x.deadline = now() + tmax; x.maxSamples = nsamples;
	std::vector<State*> work; x.out = &work;
	std::string base = "/tmp/vsym." + std::to_string(getpid());
	std::vector<std::string> files;
	if (jobs <= 1) {
		work.push_back(root);
		while (!work.empty()) { State* s = work.back(); work.pop_back(); if (x.timedOut) { delete s; continue; } x.run(s); }
		files.push_back(base + ".0"); dump(x, files[0]);
	} else {
		x.yieldOnFork = true;
		std::deque<State*> q; q.push_back(root);
		size_t target = jobs * 40;
		while (!q.empty() && q.size() < target && !x.timedOut) { State* s = q.front(); q.pop_front(); work.clear(); x.run(s); for (auto w : work) q.push_back(w); }
		files.push_back(base + ".0"); dump(x, files[0]);
		if (!q.empty() && !x.timedOut) {
			work.clear(); x.yieldOnFork = false;
			std::vector<State*> fr(q.begin(), q.end());
			// deterministic shuffle
			uint64_t r = seed * 0x9E3779B97F4A7C15ull + 12345; for (size_t i = fr.size(); i > 1; i--) { r ^= r << 13; r ^= r >> 7; r ^= r << 17; std::swap(fr[i - 1], fr[r % i]); }
			auto idx = (std::atomic<uint32_t>*)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
			*idx = 0;
			std::vector<pid_t> pids;
			for (int j = 0; j < jobs; j++) {
				std::string f = base + "." + std::to_string(j + 1); files.push_back(f);
				pid_t p = fork();
				if (p == 0) {
					x.paths = x.killed = x.errPaths = x.forks = x.instrs = x.asserts = x.assertsSymbolic = x.assertsProved = 0; x.errors.clear(); x.incomplete.clear(); x.reachCount.clear(); x.samples.clear(); x.sampleSeen = 0; x.S.st = Stats(); x.rng += j * 7919;
					for (;;) {
						uint32_t k = idx->fetch_add(1); if (k >= fr.size()) break;
						if (x.timedOut) { x.incomplete["time limit"]++; continue; }
						work.clear(); work.push_back(fr[k]);
						while (!work.empty()) { State* s = work.back(); work.pop_back(); if (x.timedOut) { delete s; continue; } x.run(s); }
					}
					dump(x, f); _exit(0);
				}
				pids.push_back(p);
			}
			for (auto p : pids) { int st; waitpid(p, &st, 0); }
		} else if (!q.empty()) { x.incomplete["time limit"]++; dump(x, files[0]); }
	}
	// merge
	uint64_t v[18] = {}; double zt = 0; std::map<std::string, Error> errs; std::map<std::string, uint64_t> inc, rch; std::vector<Sample> smp; std::set<std::string> fns;
	for (auto& f : files) {
		std::ifstream i(f); std::string line; bool end = false;
		while (std::getline(i, line)) {
			std::istringstream ss(line); std::string t; ss >> t;
			if (t == "N") { for (auto& k : v) { uint64_t z; ss >> z; k += z; } double d; ss >> d; zt += d; }
			else if (t == "E") { std::string a, b, c, d, e, g; uint64_t n; ss >> a >> b >> c >> d >> e >> g >> n; Error er; er.kind = unhx(a); er.label = unhx(b); er.where = unhx(c); er.stack = unhx(d); er.input = unhx(e); er.obs = unhx(g); er.count = n; std::string key = er.kind + "|" + (er.kind == "assert" || er.label.compare(0, 6, "known:") == 0 ? er.label : er.where); auto it = errs.find(key); if (it == errs.end()) errs[key] = er; else it->second.count += n; }
			else if (t == "I") { std::string a; uint64_t n; ss >> a >> n; inc[unhx(a)] += n; }
			else if (t == "R") { std::string a; uint64_t n; ss >> a >> n; rch[unhx(a)] += n; }
			else if (t == "S") { std::string a, b; ss >> a >> b; smp.push_back({unhx(a), unhx(b)}); }
			else if (t == "F") { std::string a; ss >> a; fns.insert(unhx(a)); }
			else if (t == "END") end = true;
		}
		if (!end) inc["a worker died"]++;
		unlink(f.c_str());
	}
	std::ostringstream o; const char* names[] = {"paths", "killed", "error_paths", "forks", "instrs", "asserts", "asserts_symbolic", "asserts_proved", "z3_queries", "z3_sat", "z3_unsat", "z3_unknown", "domain_decisions", "model_hits", "search_hits", "cache_hits", "cross_checked", "cross_mismatch"};
	o << "{";
	for (int i = 0; i < 18; i++) o << js(names[i]) << ": " << v[i] << ", ";
	o << "\"z3_time\": " << zt << ", \"wall\": " << now() - t0 << ",\n \"incomplete\": {";
	bool first = true; for (auto& i : inc) { o << (first ? "" : ", ") << js(i.first) << ": " << i.second; first = false; }
	o << "},\n \"reach\": {"; first = true; for (auto& i : rch) { o << (first ? "" : ", ") << js(i.first) << ": " << i.second; first = false; }
	o << "},\n \"errors\": ["; first = true; for (auto& e : errs) { auto& q = e.second; o << (first ? "" : ",\n  ") << "{\"kind\": " << js(q.kind) << ", \"label\": " << js(q.label) << ", \"where\": " << js(q.where) << ", \"stack\": " << js(q.stack) << ", \"input\": " << js(q.input) << ", \"obs\": " << js(q.obs) << ", \"count\": " << q.count << "}"; first = false; }
	o << "],\n \"samples\": ["; first = true; for (auto& q : smp) { o << (first ? "" : ",\n  ") << "{\"input\": " << js(q.input) << ", \"obs\": " << js(q.obs) << "}"; first = false; }
	o << "],\n \"functions\": ["; first = true; for (auto& q : fns) { o << (first ? "" : ", ") << js(q); first = false; }
	o << "]}\n";
	if (outFile.empty()) { printf("%s", o.str().c_str()); } else { std::ofstream f(outFile); f << o.str(); }
	return 0;
}
