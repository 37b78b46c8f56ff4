// runs a design-space exploration with a log directory of its own (below $KH_TMP) and reports the files it writes
#include "kh.h"
#include <sys/stat.h>
#include <fstream>
#include <unistd.h>
using namespace kh;
static std::string slurp(const std::string& f) { std::ifstream i(f); std::stringstream s; s << i.rdbuf(); return s.str(); }
int main() { return run([](const Case& c, Out& o) {
	std::string base = getenv("KH_TMP") ? getenv("KH_TMP") : ".";
	std::string dir = base + "/dse_" + c.id; mkdir(dir.c_str(), 0777);
	parameters_list_t p;
	for (auto& a : c.args) if (a.first.compare(0, 2, "P_") == 0) p[a.first.substr(2)] = a.second;
	p["LOGDIR"] = dir;
	models::Dataflow* d = build(c.g);
	std::string text = algo(d, c.str("algo"), p), s = c.str("suffix"), n = d->getGraphName();
	std::string pp = dir + "/pp_logs/" + n + "_pp" + s + ".csv", log = dir + "/dse_logs/" + n + "_dselog" + s + ".csv";
	o.str("text", text.substr(0, 4000)); o.str("pp", slurp(pp)); o.str("log", slurp(log));
	std::string order; {ForEachEdge(d, e) order += std::to_string(d->getEdgeId(e)) + " "; } o.str("order", order);
	remove(pp.c_str()); remove(log.c_str());
	for (auto x : {"/pp_logs", "/dse_logs", ""}) rmdir((dir + x).c_str());
	}); 
}
