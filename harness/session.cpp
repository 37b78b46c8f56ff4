// a session of analyses and edits on two graphs (the given one, and its mirror image: every channel reversed) in one process
// L A <algorithm> [P=V ...]   L D <task> d1 d2 ...   L M <channel> <tokens>   L X  (go to the other graph)
#include "kh.h"
#include <sys/stat.h>
using namespace kh;
int main() { return run([](const Case& c, Out& o) {
	std::string dir = std::string(getenv("KH_TMP") ? getenv("KH_TMP") : ".") + "/s_" + c.id; mkdir(dir.c_str(), 0777); if (chdir(dir.c_str())) throw std::runtime_error("chdir");
	std::vector<void*> junk; srand((unsigned) c.num("junk", 0));
	for (long i = 0; i < c.num("junk", 0); i++) { junk.push_back(malloc(16 + rand() % 200)); if (rand() % 2) { size_t k = rand() % junk.size(); free(junk[k]); junk[k] = nullptr; } }
	GraphSpec m = c.g;
	for (auto& h : m.chans) { std::swap(h.src, h.dst); std::swap(h.pi, h.ci); std::swap(h.pp, h.cp); }
	std::ios plain(nullptr); plain.copyfmt(std::cout);
	models::Dataflow* g[2] = { build(c.g), build(m) }; int cur = (int) c.num("graph", 0); std::string r = "[";
	for (auto& l : c.lines) {
		std::istringstream s(l); std::string k; s >> k; std::string text; models::Dataflow* d = g[cur];
		if (k == "A") {
			std::string n, a; s >> n; parameters_list_t p;
			while (s >> a) { size_t e = a.find('='); p[a.substr(0, e)] = a.substr(e + 1); }
			std::cout.copyfmt(plain);       // as the command line does between two algorithms
			text = algo(d, n, p);
		} else if (k == "D") {
			ARRAY_INDEX t; s >> t; std::vector<TIME_UNIT> v; double x; while (s >> x) v.push_back(x);
			d->reset_computation(); d->setVertexDuration(d->getVertexById(t), v);
		} else if (k == "M") {
			ARRAY_INDEX e; long x; s >> e >> x; d->reset_computation(); d->setPreload(d->getEdgeById(e), x);
		} else cur = 1 - cur;
		if (r.size() > 1) r += ",";
		r += "{\"text\":" + q(text) + ",\"graph\":" + dump(g[cur]) + "}";
	}
	o.raw("steps", r + "]");
	});
}
