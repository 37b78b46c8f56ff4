// packet lists of a graph (what=list), symbolic execution (what=run), TDMA simulation of a packet list (what=tdma), in files below $KH_TMP
#include "kh.h"
#include <sys/stat.h>
#include <fstream>
#include <unistd.h>
using namespace kh;
static std::string unquote(std::string s) { for (auto& x : s) if (x == ';') x = '\n'; return s; }
int main() { return run([](const Case& c, Out& o) {
	std::string what = c.str("what");
	models::Dataflow* d = build(c.g);
	parameters_list_t p;
	for (auto& a : c.args) if (a.first.compare(0, 2, "P_") == 0) p[a.first.substr(2)] = a.second;
	if (what == "list") o.str("text", algo(d, "SymbolicExecutionWP", p));
	else if (what == "run") { algo(d, "SymbolicExecution"); o.flag("done", true); }
	else {
		std::string base = getenv("KH_TMP") ? getenv("KH_TMP") : ".", dir = base + "/tdma_" + c.id; mkdir(dir.c_str(), 0777);
		std::string pk = unquote(c.str("pkt"));
		if (pk == "graph") pk = algo(d, "SymbolicExecutionWP", p);
		o.str("list", pk);
		std::ofstream(dir + "/pkt") << pk; std::ofstream(dir + "/map") << unquote(c.str("map")); std::ofstream(dir + "/slot") << unquote(c.str("slot"));
		parameters_list_t q; q["pktfile"] = dir + "/pkt"; q["mapfile"] = dir + "/map"; q["slotfile"] = dir + "/slot";
		std::string text = algo(d, "TDMASchedule", q);
		for (auto x : {"/pkt", "/map", "/slot"}) remove((dir + x).c_str());
		rmdir(dir.c_str());
		o.str("text", text);
	}
	});
}
