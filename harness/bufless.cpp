// the bufferless network-on-chip flow: the modelled graph, the groups of tasks that share links of a
// router, and the graph the flow ends with (it writes it in the current directory: a scratch one)
#include "kh.h"
#include <filesystem>
#include <unistd.h>
#include <models/NoC.h>
#include <algorithms/mappings.h>
#include <algorithms/software_noc.h>
#include <algorithms/schedulings.h>
#include <commons/GroupList.h>
#include <printers/SDF3Wrapper.h>
using namespace kh;
static std::string maps(models::Dataflow* d) {
	std::vector<std::string> r; {ForEachVertex(d, v) { r.push_back("[" + std::to_string((long) d->getVertexId(v)) + "," + std::to_string((long) d->getMapping(v)) + "]"); }}
	return arr(r.begin(), r.end(), [](const std::string& x){ return x; });
}
int main() { return run([](const Case& c, Out& o) {
	if (c.has("adds")) {                                   // the group list alone: "l r v  l r v ..."
		GroupList<int, int> g; std::istringstream s(c.str("adds")); int l, r, v; std::string all;
		auto show = [&]{ std::string t; for (auto& b : g.getall()) { t += (t.empty() ? "" : ",") + ints(std::vector<int>(b.begin(), b.end())); } return "[" + t + "]"; };
		while (s >> l >> r >> v) { g.add(l, r, v); all += (all.empty() ? "" : ",") + show(); }
		o.raw("groups", "[" + all + "]");
		return;
	}
	models::Dataflow* d = build(c.g); srand((unsigned) c.num("seed", 1));
	d->setGraphName("g");
	{ std::istringstream s(c.str("mesh")); int x, y; s >> x >> y; NoC n(x, y); d->setNoC(n); }
	std::istringstream s(c.str("algos")); std::string n;
	parameters_list_t p; for (auto& a : c.args) if (a.first.rfind("P_", 0) == 0) p[a.first.substr(2)] = a.second;
	while (s >> n) algo(d, n, p);
	models::Dataflow* m = new models::Dataflow(*d);
	algo(m, "ModelNoCConflictFreeCommunication", {});
	o.raw("model", dump(m)); o.raw("map", maps(m));
	const NoC& k = m->getNoC();
	o.raw("nodes", arr(k.getNodes().begin(), k.getNodes().end(), [](const NetworkNode& x){ return "[" + std::to_string(x.id) + "," + std::to_string((int) x.type) + "]"; }));
	std::string dir = std::string(getenv("KH_TMP") ? getenv("KH_TMP") : ".") + "/b_" + c.id; std::filesystem::create_directories(dir);
	if (chdir(dir.c_str())) { o.str("error", "chdir"); return; }
	setenv("PATH", dir.c_str(), 1);                        // no drawing program here
	parameters_list_t none; std::string printed;
	if (c.has("stages")) { pid_t pid = fork(); if (!pid) { algo(d, "BufferlessNoCScheduling", none); _exit(0); } int st; waitpid(pid, &st, 0); }
	else printed = capture([&]{ algo(d, "BufferlessNoCScheduling", none); });
	std::vector<std::string> ends;
	for (auto& f : std::filesystem::directory_iterator(dir)) { std::string x = f.path().string(); if (x.size() > 8 && x.substr(x.size() - 8) == "_end.xml") ends.push_back(x); }
	o.num("ends", (long) ends.size());
	if (c.has("stages")) {
		std::map<std::string, std::string> fs; for (auto& f : std::filesystem::directory_iterator(dir)) { std::string x = f.path().filename().string(); if (x.size() > 4 && x.substr(x.size() - 4) == ".xml") fs[x] = f.path().string(); }
		std::string all; for (auto& f : fs) all += (all.empty() ? "" : ",") + ("{\"file\":" + q(f.first) + ",\"g\":" + dump(printers::readSDF3File(f.second)) + "}"); o.raw("stages", "[" + all + "]");
	}
	if (ends.size() == 1) { models::Dataflow* e = printers::readSDF3File(ends[0]); o.raw("end", dump(e)); }
	if (chdir("/")) {} std::filesystem::remove_all(dir);
	});
}
