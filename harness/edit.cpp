// replays editing histories on the real graph.  Every line is one operation: "key=value" fields, lists separated by commas
#include "kh.h"
#include <models/repetition_vector.h>
#include <algorithms/normalization.h>
using namespace kh;
typedef std::map<std::string, std::string> op_t;
static long SC = 1;        // rates and token counts are multiplied by it; durations are counted in halves
static std::vector<long> L(const op_t& o, const std::string& k) { std::vector<long> v; std::istringstream s(o.at(k)); std::string x; while (std::getline(s, x, ',')) v.push_back(std::stol(x)); return v; }
template <class T> static std::vector<T> V(const std::vector<long>& v);
template <> std::vector<TIME_UNIT> V(const std::vector<long>& v) { std::vector<TIME_UNIT> r; for (long x : v) r.push_back((TIME_UNIT) x / 2); return r; }
template <> std::vector<TOKEN_UNIT> V(const std::vector<long>& v) { std::vector<TOKEN_UNIT> r; for (long x : v) r.push_back(x * SC); return r; }
static void apply(models::Dataflow* d, const op_t& o, const std::string& k) {
	auto N = [&](const char* f) { return std::stol(o.at(f)); };
	auto t = [&]{ return d->getVertexByName(o.at("name")); };
	auto c = [&]{ return d->getEdgeByName(o.at("name")); };
	if (k == "newtask") {
		Vertex v = N("id") ? d->addVertex((ARRAY_INDEX) N("id"), o.at("name")) : d->addVertex(o.at("name"));
		d->setPhasesQuantity(v, (EXEC_COUNT) L(o, "x").size()); d->setInitPhasesQuantity(v, (EXEC_COUNT) L(o, "xi").size());
		d->setVertexDuration(v, V<TIME_UNIT>(L(o, "x"))); d->setVertexInitDuration(v, V<TIME_UNIT>(L(o, "xi"))); d->setReentrancyFactor(v, N("r"));
	} else if (k == "newchan") {
		Vertex a = d->getVertexByName(o.at("src")), b = d->getVertexByName(o.at("dst"));
		Edge e = N("id") ? d->addEdge(a, b, (ARRAY_INDEX) N("id"), o.at("name")) : d->addEdge(a, b, o.at("name"));
		d->setEdgeInPhases(e, V<TOKEN_UNIT>(L(o, "pp"))); d->setEdgeOutPhases(e, V<TOKEN_UNIT>(L(o, "cp")));
		if (L(o, "pi").size()) d->setEdgeInInitPhases(e, V<TOKEN_UNIT>(L(o, "pi")));
		if (L(o, "ci").size()) d->setEdgeOutInitPhases(e, V<TOKEN_UNIT>(L(o, "ci")));
		d->setPreload(e, N("m") * SC); d->setTokenSize(e, 1);
	} else if (k == "deltask") d->removeVertex(t());
	else if (k == "delchan") d->removeEdge(c());
	else if (k == "rentask") d->setVertexName(t(), o.at("new"));
	else if (k == "renchan") d->setEdgeName(c(), o.at("new"));
	else if (k == "idtask") d->setVertexId(t(), (ARRAY_INDEX) N("id"));
	else if (k == "idchan") d->setEdgeId(c(), (ARRAY_INDEX) N("id"));
	else if (k == "reent") d->setReentrancyFactor(t(), N("m"));
	else if (k == "preload") d->setPreload(c(), N("m") * SC);
	else if (k == "tsize") d->setTokenSize(c(), N("m"));
	else if (k == "dur") d->setVertexDuration(t(), V<TIME_UNIT>(L(o, "x")));
	else if (k == "rates") { d->setEdgeInPhases(c(), V<TOKEN_UNIT>(L(o, "pp"))); d->setEdgeOutPhases(c(), V<TOKEN_UNIT>(L(o, "cp"))); }
	else if (k == "rephase" || k == "reinit") {
		bool ini = k == "reinit"; Vertex v = t(); auto x = L(o, "x");
		if (ini) { d->setInitPhasesQuantity(v, (EXEC_COUNT) x.size()); d->setVertexInitDuration(v, V<TIME_UNIT>(x)); }
		else { d->setPhasesQuantity(v, (EXEC_COUNT) x.size()); d->setVertexDuration(v, V<TIME_UNIT>(x)); }
		std::istringstream s(o.at("rs")); std::string one;                         // chan:p,p:q,q/chan:...
		while (std::getline(s, one, '/')) {
			size_t i = one.find(':'), j = one.find(':', i + 1); Edge e = d->getEdgeByName(one.substr(0, i));
			auto p = V<TOKEN_UNIT>(L(op_t{{"v", one.substr(i + 1, j - i - 1)}}, "v")), q = V<TOKEN_UNIT>(L(op_t{{"v", one.substr(j + 1)}}, "v"));
			if (d->getEdgeSource(e) == v) { if (ini) d->setEdgeInInitPhases(e, p); else d->setEdgeInPhases(e, p); }
			if (d->getEdgeTarget(e) == v) { if (ini) d->setEdgeOutInitPhases(e, q); else d->setEdgeOutPhases(e, q); }
		}
	}
}
static models::Dataflow* again(const models::Dataflow* d) {      // a graph built from scratch with what the accessors say, in the same order
	models::Dataflow* n = new models::Dataflow(); n->setGraphName("g"); n->setAppName("a"); n->setGraphType("csdf");
	{ForEachVertex(d, v) { Vertex w = n->addUnsafeVertex(d->getVertexId(v)); n->setVertexName(w, d->getVertexName(v)); n->setReentrancyFactor(w, d->getReentrancyFactor(v));
		n->setPhasesQuantity(w, d->getPhasesQuantity(v)); n->setInitPhasesQuantity(w, d->getInitPhasesQuantity(v));
		n->setVertexDuration(w, d->getVertexPhaseDuration(v)); n->setVertexInitDuration(w, d->getVertexInitPhaseDuration(v)); }}
	{ForEachEdge(d, e) { Edge h = n->addEdge(n->getVertexById(d->getVertexId(d->getEdgeSource(e))), n->getVertexById(d->getVertexId(d->getEdgeTarget(e))), d->getEdgeId(e), d->getEdgeName(e));
		n->setEdgeInPhases(h, d->getEdgeInVector(e)); n->setEdgeOutPhases(h, d->getEdgeOutVector(e));
		if (d->getEdgeInitInVector(e).size()) n->setEdgeInInitPhases(h, d->getEdgeInitInVector(e));
		if (d->getEdgeInitOutVector(e).size()) n->setEdgeOutInitPhases(h, d->getEdgeInitOutVector(e));
		n->setPreload(h, d->getPreload(e)); n->setTokenSize(h, d->getTokenSize(e)); }}
	return n;
}
static std::string apart(const std::function<std::string()>& f) {     // in a child: "exit" when the code refuses
	int p[2]; if (pipe(p)) return "pipe"; pid_t pid = fork();
	if (pid == 0) { close(p[0]); alarm(4); std::string r = f(); r = "=" + r; size_t o = 0; while (o < r.size()) { ssize_t n = write(p[1], r.data() + o, r.size() - o); if (n <= 0) break; o += (size_t) n; } _exit(0); }
	close(p[1]); std::string r; char b[4096]; ssize_t n; while ((n = read(p[0], b, sizeof b)) > 0) r.append(b, (size_t) n);
	close(p[0]); int st; waitpid(pid, &st, 0);
	if (WIFSIGNALED(st)) return WTERMSIG(st) == SIGALRM ? "late" : "crash";
	return r.empty() ? "exit" : r;
}
static std::string rep(models::Dataflow* d) { if (!computeRepetitionVector(d)) return "inconsistent"; std::map<long, long> m; {ForEachVertex(d, v) { m[(long) d->getVertexId(v)] = (long) d->getNi(v); }}
	std::string r; for (auto& x : m) r += std::to_string(x.first) + ":" + std::to_string(x.second) + " "; return r; }
static std::string norm(models::Dataflow* d) { if (!algorithms::normalize(d)) return "failed"; std::map<long, long> m; {ForEachVertex(d, v) { m[(long) d->getVertexId(v)] = (long) d->getZi(v); }}
	std::string r; for (auto& x : m) r += std::to_string(x.first) + ":" + std::to_string(x.second) + " ";
	std::map<long, std::string> a; {ForEachEdge(d, e) { a[(long) d->getEdgeId(e)] = std::to_string((long) d->getAlpha(e).numerator()) + "/" + std::to_string((long) d->getAlpha(e).denominator()) + "," + std::to_string((long) d->getNormMop(e)); }}
	for (auto& x : a) r += std::to_string(x.first) + "=" + x.second + " "; return r; }
static std::string thr(models::Dataflow* d) { std::string r; std::istringstream s(algo(d, "1PeriodicThroughput") + algo(d, "KPeriodicThroughput")); std::string l; while (std::getline(s, l)) { size_t i = l.find("hroughput is"); if (i != std::string::npos) r += l.substr(i) + ";"; } return r; }
static long same(const std::string& a, const std::string& b) { return a == b || a == "late" || b == "late"; }
int main() { return run([](const Case& c, Out& o) {
	SC = c.num("scale", 1);
	models::Dataflow* d = new models::Dataflow(); d->setGraphName("g"); d->setAppName("a"); d->setGraphType("csdf");
	std::string res = "[", why;
	for (size_t i = 0; i < c.lines.size(); i++) {
		op_t p; std::istringstream s(c.lines[i]); std::string f; while (s >> f) { size_t j = f.find('='); p[f.substr(0, j)] = f.substr(j + 1); }
		std::string k = p["k"]; long a = 0; auto N = [&](const char* x) { return std::stol(p.at(x)); };
		auto task = [&](const std::string& n) -> long { try { return (long) d->getVertexId(d->getVertexByName(n)); } catch (std::out_of_range&) { return 0; } };
		auto chan = [&](const std::string& n) -> long { try { return (long) d->getEdgeId(d->getEdgeByName(n)); } catch (std::out_of_range&) { return 0; } };
		if (k == "findt") a = task(p["name"]);
		else if (k == "findc") a = chan(p["name"]);
		else if (k == "findtid") { try { a = (long) d->getVertexId(d->getVertexById((ARRAY_INDEX) N("id"))) == N("id"); } catch (std::out_of_range&) {} }
		else if (k == "findcid") { try { a = (long) d->getEdgeId(d->getEdgeById((ARRAY_INDEX) N("id"))) == N("id"); } catch (std::out_of_range&) {} }
		else if (k == "exist") a = d->edgeExist(d->getVertexByName(p["src"]), d->getVertexByName(p["dst"]));
		else if (k == "gcd") a = (long) d->getFineGCD(d->getEdgeByName(p["name"]));
		else if (k == "dur") a = std::lround((double) d->getVertexTotalDuration(d->getVertexByName(p["name"])) * 2);
		else if (k == "no") a = apart([&]{ apply(d, p, p["why"]); return std::string(); }) == "exit";
		else if (k == "reopen") d->reset_computation();
		else if (k == "rep") { models::Dataflow* e = again(d); std::string x = rep(d), y = rep(e); a = same(x, y); if (!a) why += x + " # " + y + "\n"; }
		else if (k == "norm") { models::Dataflow* e = again(d); std::string x = norm(d), y = norm(e); a = same(x, y); if (!a) why += x + " # " + y + "\n"; }
		else if (k == "thr") { models::Dataflow* e = again(d); std::string x = apart([&]{ return thr(d); }), y = apart([&]{ return thr(e); }); a = same(x, y); if (!a) why += x + " # " + y + "\n"; }
		else apply(d, p, k);
		// what the graph looks like now
		std::string adj = "["; long look = 1; bool first = true;
		{ForEachVertex(d, v) {
			std::string in = "[", out = "["; bool fi = true, fo = true;
			{ForInputEdges(d, v, e) { in += (fi ? "" : ",") + std::to_string((long) d->getEdgeId(e)); fi = false; }}
			{ForOutputEdges(d, v, e) { out += (fo ? "" : ",") + std::to_string((long) d->getEdgeId(e)); fo = false; }}
			adj += std::string(first ? "" : ",") + "[" + in + "]," + out + "],[" + std::to_string(d->getVertexInDegree(v)) + "," + std::to_string(d->getVertexOutDegree(v)) + "," + std::to_string(d->getVertexDegree(v)) + "]]"; first = false;
			if (!(d->getVertexById(d->getVertexId(v)) == v) || !(d->getVertexByName(d->getVertexName(v)) == v)) look = 0;
		}}
		{ForEachEdge(d, e) { if (!(d->getEdgeById(d->getEdgeId(e)) == e) || !(d->getEdgeByName(d->getEdgeName(e)) == e)) look = 0; }}
		std::string g = dump(d);
		res += std::string(i ? "," : "") + g.substr(0, g.size() - 1) + ",\"adj\":" + adj + "],\"look\":" + std::to_string(look) + ",\"rep\":" + (d->has_repetition_vector() ? "true" : "false")
			+ ",\"norm\":" + (d->is_normalized() ? "true" : "false") + ",\"ro\":" + (d->is_read_only() ? "true" : "false") + ",\"ans\":" + std::to_string(a)
			+ ",\"nv\":" + std::to_string((long) d->getVerticesCount()) + ",\"ne\":" + std::to_string((long) d->getEdgesCount()) + "}";
	}
	o.raw("obs", res + "]"); o.str("why", why);
	}); }
