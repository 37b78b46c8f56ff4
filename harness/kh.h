// Common scaffolding of the conformance drivers: reads generated cases from stdin, builds the real
// models::Dataflow through the public API, runs one callback per case in a forked child (so that a
// crash, an assertion failure or an endless loop of the code under test is an observation, not the
// end of the run) and prints one JSON record per case.
#ifndef KH_H
#define KH_H
#include <array>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <sstream>
#include <iostream>
#include <iomanip>
#include <cmath>
#include <functional>
#include <cstdlib>
#include <cstdio>
#include <cstring>
#include <unistd.h>
#include <poll.h>
#include <signal.h>
#include <time.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <models/Dataflow.h>
#include <commons/KiterRegistry.h>
#include <commons/verbose.h>

namespace kh {

struct TaskSpec { long id; std::string name; long reent; std::vector<double> init, dur; };
struct ChanSpec { long id; std::string name; long src, dst; std::vector<long> pi, pp, ci, cp; long m0, ts; };
struct GraphSpec { std::string name; std::vector<TaskSpec> tasks; std::vector<ChanSpec> chans; };
struct Case {
	std::string id;
	GraphSpec g;
	std::map<std::string,std::string> args;
	std::vector<std::string> lines;       // free "L ..." lines (histories, packet lists, ...)
	bool has(const std::string& k) const { return args.count(k) > 0; }
	std::string str(const std::string& k, const std::string& d = "") const { auto it = args.find(k); return it == args.end() ? d : it->second; }
	long num(const std::string& k, long d = 0) const { auto it = args.find(k); return it == args.end() ? d : std::stol(it->second); }
	double real(const std::string& k, double d = 0) const { auto it = args.find(k); return it == args.end() ? d : std::stod(it->second); }
};

inline std::string q(const std::string& s) {
	std::string r = "\"";
	for (unsigned char c : s) {
		if (c == '"' || c == '\\') { r += '\\'; r += (char)c; }
		else if (c == '\n') r += "\\n";
		else if (c == '\t') r += "\\t";
		else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
		else r += (char)c;
	}
	return r + "\"";
}
// long doubles are passed on as decimal strings: Python turns them into exact rationals
inline std::string ld(long double x) {
	if (std::isnan(x)) return "\"nan\"";
	if (std::isinf(x)) return x > 0 ? "\"inf\"" : "\"-inf\"";
	char b[64]; snprintf(b, sizeof b, "\"%.18Lg\"", x); return b;
}
template <class It, class F> std::string arr(It b, It e, F f) {
	std::string r = "["; bool first = true;
	for (; b != e; ++b) { if (!first) r += ","; first = false; r += f(*b); }
	return r + "]";
}
template <class T> std::string ints(const std::vector<T>& v) { return arr(v.begin(), v.end(), [](const T& x){ return std::to_string((long)x); }); }

struct Out {
	std::string s = "{"; bool first = true;
	void raw(const std::string& k, const std::string& v) { if (!first) s += ","; first = false; s += q(k) + ":" + v; }
	void num(const std::string& k, long v) { raw(k, std::to_string(v)); }
	void str(const std::string& k, const std::string& v) { raw(k, q(v)); }
	void real(const std::string& k, long double v) { raw(k, ld(v)); }
	void flag(const std::string& k, bool v) { raw(k, v ? "true" : "false"); }
	std::string done() const { return s + "}"; }
};

inline models::Dataflow* build(const GraphSpec& g) {
	models::Dataflow* d = new models::Dataflow();
	d->setGraphName(g.name.empty() ? "g" : g.name);
	d->setAppName("app"); d->setGraphType("csdf");
	for (auto& t : g.tasks) {
		Vertex v = d->addVertex((ARRAY_INDEX) t.id);
		d->setVertexName(v, t.name);
		d->setInitPhasesQuantity(v, (EXEC_COUNT) t.init.size());
		d->setPhasesQuantity(v, (EXEC_COUNT) t.dur.size());
		d->setReentrancyFactor(v, t.reent);
		d->setVertexDuration(v, std::vector<TIME_UNIT>(t.dur.begin(), t.dur.end()));
		if (t.init.size()) d->setVertexInitDuration(v, std::vector<TIME_UNIT>(t.init.begin(), t.init.end()));
	}
	for (auto& c : g.chans) {
		Edge e = d->addEdge(d->getVertexById((ARRAY_INDEX) c.src), d->getVertexById((ARRAY_INDEX) c.dst), (ARRAY_INDEX) c.id);
		d->setEdgeName(e, c.name);
		d->setEdgeInPhases(e, std::vector<TOKEN_UNIT>(c.pp.begin(), c.pp.end()));
		d->setEdgeOutPhases(e, std::vector<TOKEN_UNIT>(c.cp.begin(), c.cp.end()));
		if (c.pi.size()) d->setEdgeInInitPhases(e, std::vector<TOKEN_UNIT>(c.pi.begin(), c.pi.end()));
		if (c.ci.size()) d->setEdgeOutInitPhases(e, std::vector<TOKEN_UNIT>(c.ci.begin(), c.ci.end()));
		d->setPreload(e, c.m0);
		d->setTokenSize(e, c.ts);
	}
	return d;
}

// JSON dump of a graph as seen through the accessors
inline std::string dump(const models::Dataflow* d) {
	std::string r = "{\"tasks\":[";
	bool first = true;
	{ForEachVertex(d, v) {
		if (!first) r += ","; first = false;
		r += "{\"id\":" + std::to_string((long) d->getVertexId(v)) + ",\"name\":" + q(d->getVertexName(v)) +
		     ",\"reent\":" + std::to_string((long) d->getReentrancyFactor(v)) +
		     ",\"ninit\":" + std::to_string((long) d->getInitPhasesQuantity(v)) +
		     ",\"nph\":" + std::to_string((long) d->getPhasesQuantity(v));
		auto f = [](TIME_UNIT x){ return ld(x); };
		auto a = d->getVertexInitPhaseDuration(v); auto b = d->getVertexPhaseDuration(v);
		r += ",\"init\":" + arr(a.begin(), a.end(), f) + ",\"dur\":" + arr(b.begin(), b.end(), f) + "}";
	}}
	r += "],\"chans\":["; first = true;
	{ForEachEdge(d, e) {
		if (!first) r += ","; first = false;
		r += "{\"id\":" + std::to_string((long) d->getEdgeId(e)) + ",\"name\":" + q(d->getEdgeName(e)) +
		     ",\"src\":" + std::to_string((long) d->getVertexId(d->getEdgeSource(e))) +
		     ",\"dst\":" + std::to_string((long) d->getVertexId(d->getEdgeTarget(e))) +
		     ",\"pi\":" + ints(d->getEdgeInitInVector(e)) + ",\"pp\":" + ints(d->getEdgeInVector(e)) +
		     ",\"ci\":" + ints(d->getEdgeInitOutVector(e)) + ",\"cp\":" + ints(d->getEdgeOutVector(e)) +
		     ",\"m0\":" + std::to_string((long) d->getPreload(e)) + ",\"ts\":" + std::to_string((long) d->getTokenSize(e)) +
		     ",\"tin\":" + std::to_string((long) d->getEdgeIn(e)) + ",\"tout\":" + std::to_string((long) d->getEdgeOut(e)) + "}";
	}}
	return r + "]}";
}

// captures what the code prints on std::cout
inline std::string capture(const std::function<void()>& f) {
	std::ostringstream o; auto* old = std::cout.rdbuf(o.rdbuf());
	f();
	std::cout.rdbuf(old); return o.str();
}
inline std::string algo(models::Dataflow* d, const std::string& name, parameters_list_t p = parameters_list_t()) {
	const transformation_t* t = KiterRegistry<transformation_t>::get(name);
	if (!t) return "UNKNOWN ALGORITHM " + name;
	return capture([&]{ t->fun(d, p); });
}

inline bool readCase(std::istream& in, Case& c) {
	c = Case(); std::string line; bool open = false;
	while (std::getline(in, line)) {
		std::istringstream s(line); std::string k; s >> k;
		if (k == "CASE") { s >> c.id; open = true; }
		else if (k == "G") { s >> c.g.name; }
		else if (k == "T") {
			TaskSpec t; size_t n; s >> t.id >> t.name >> t.reent;
			s >> n; t.init.resize(n); for (auto& x : t.init) s >> x;
			s >> n; t.dur.resize(n); for (auto& x : t.dur) s >> x;
			c.g.tasks.push_back(t);
		} else if (k == "C") {
			ChanSpec h; size_t n; s >> h.id >> h.name >> h.src >> h.dst;
			for (auto* v : {&h.pi, &h.pp, &h.ci, &h.cp}) { s >> n; v->resize(n); for (auto& x : *v) s >> x; }
			s >> h.m0 >> h.ts; c.g.chans.push_back(h);
		} else if (k == "ARG") { std::string a, b; s >> a; std::getline(s, b); size_t p = b.find_first_not_of(' '); c.args[a] = p == std::string::npos ? "" : b.substr(p); }
		else if (k == "L") { c.lines.push_back(line.size() > 2 ? line.substr(2) : ""); }
		else if (k == "END") return open;
	}
	return false;
}

typedef std::function<void(const Case&, Out&)> fun_t;

inline int run(const fun_t& f) {
	Case c; double limit = getenv("KH_TIMEOUT") ? atof(getenv("KH_TIMEOUT")) : 10;
	signal(SIGPIPE, SIG_IGN);
	while (readCase(std::cin, c)) {
		int p[2]; if (pipe(p)) return 2;
		std::cout.flush(); fflush(stdout);
		pid_t pid = fork();
		if (pid < 0) return 2;
		if (pid == 0) {
			close(p[0]);
			struct rlimit rl; rl.rlim_cur = rl.rlim_max = 2500000000UL; setrlimit(RLIMIT_AS, &rl);
			rl.rlim_cur = rl.rlim_max = 0; setrlimit(RLIMIT_CORE, &rl);
			if (!getenv("KH_DEBUG")) freopen("/dev/null", "w", stderr); freopen("/dev/null", "w", stdout);
			std::string r;
			try { Out o; f(c, o); r = "{\"case\":" + q(c.id) + ",\"status\":\"ok\",\"out\":" + o.done() + "}"; }
			catch (std::runtime_error* e) { r = "{\"case\":" + q(c.id) + ",\"status\":\"throw\",\"out\":{}}"; }
			catch (std::exception& e) { r = "{\"case\":" + q(c.id) + ",\"status\":\"throw\",\"out\":{\"what\":" + q(e.what()) + "}}"; }
			catch (...) { r = "{\"case\":" + q(c.id) + ",\"status\":\"throw\",\"out\":{}}"; }
			size_t off = 0; while (off < r.size()) { ssize_t n = write(p[1], r.data() + off, r.size() - off); if (n <= 0) break; off += (size_t) n; }
			_exit(0);
		}
		close(p[1]);
		std::string r; char buf[65536]; bool killed = false;
		struct timespec t0; clock_gettime(CLOCK_MONOTONIC, &t0);
		while (true) {
			struct timespec t1; clock_gettime(CLOCK_MONOTONIC, &t1);
			double left = limit - ((t1.tv_sec - t0.tv_sec) + (t1.tv_nsec - t0.tv_nsec) / 1e9);
			if (left <= 0) { kill(pid, SIGKILL); killed = true; break; }
			struct pollfd pf = { p[0], POLLIN, 0 };
			int k = poll(&pf, 1, (int) (left * 1000) + 1);
			if (k > 0) { ssize_t n = read(p[0], buf, sizeof buf); if (n <= 0) break; r.append(buf, (size_t) n); }
		}
		close(p[0]); int st = 0; waitpid(pid, &st, 0);
		if (killed) r = "{\"case\":" + q(c.id) + ",\"status\":\"timeout\",\"out\":{}}";
		else if (WIFSIGNALED(st)) r = "{\"case\":" + q(c.id) + ",\"status\":\"signal\",\"out\":{\"sig\":" + std::to_string(WTERMSIG(st)) + "}}";
		else if (r.empty()) r = "{\"case\":" + q(c.id) + ",\"status\":\"exit\",\"out\":{\"code\":" + std::to_string(WEXITSTATUS(st)) + "}}";
		std::cout << r << std::endl;
	}
	return 0;
}
}
#endif
