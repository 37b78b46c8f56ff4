// replays histories on the real StorageDistributionSet.  Lines: "kind n v1 .. vD"
#include "kh.h"
#include <algorithms/dse/buffer_sizing.h>
using namespace kh;
int main() { return run([](const Case& c, Out& o) {
	models::Dataflow* d = build(c.g); std::vector<Edge> es;
	{ForEachEdge(d, e) { es.push_back(e); }}
	auto mk = [&](const std::vector<long>& v, long t) { std::map<Edge, std::pair<TOKEN_UNIT, TOKEN_UNIT>> m; TOKEN_UNIT s = 0;
		for (size_t i = 0; i < es.size(); i++) { m[es[i]] = {0, v[i]}; s += v[i]; }
		return StorageDistribution((ARRAY_INDEX) es.size(), (TIME_UNIT) t / 3, m, s); };
	auto vec = [&](const StorageDistribution& s) { return arr(es.begin(), es.end(), [&](Edge e){ return std::to_string((long) s.getChannelQuantity(e)); }); };
	auto list = [&](StorageDistributionSet& S, bool thr) { std::string r = "["; bool first = true;
		for (auto& x : S.getSet()) { if (x.second.empty()) { r += first ? "[]" : ",[]"; first = false; }      // a size without candidates
			for (auto& s : x.second) { r += first ? "" : ","; first = false; if (s.getDistributionSize() != x.first) r += "[],";
				r += thr ? "[" + vec(s) + "," + std::to_string(std::lround((double) s.getThroughput() * 3)) + "]" : vec(s); } }
		return r + "]"; };
	StorageDistributionSet P, Q, F, U, K; K.addStorageDistribution(mk(std::vector<long>(es.size(), 0), 0));
	std::string res = "[";
	for (size_t i = 0; i < c.lines.size(); i++) {
		std::istringstream s(c.lines[i]); std::string k; long n, x; std::vector<long> v; s >> k >> n; while (s >> x) v.push_back(x);
		long a = 0;
		capture([&]{
			std::map<Edge, TOKEN_UNIT> lb; for (auto e : es) lb[e] = n;
			if (k == "explore") { StorageDistribution w = mk(v, n); P.addStorageDistribution(w); P.minimizeStorageDistributions(w); }
			else if (k == "add") Q.addStorageDistribution(mk(v, 0));
			else if (k == "del") Q.removeStorageDistribution(mk(v, 0));
			else if (k == "delsize") Q.removeDistributionSize(n);
			else if (k == "sat") F.addToSat(mk(v, 0));
			else if (k == "unsat") U.add(mk(v, 0), K);
			else if (k == "has") a = Q.hasStorageDistribution(mk(v, 0));
			else if (k == "hassize") a = Q.hasDistribution(n);
			else if (k == "next") a = Q.getSize() ? (long) Q.getNextDistribution().getDistributionSize() : -1;
			else if (k == "complete") a = P.isSearchComplete(Q, (TIME_UNIT) n / 3);
			else if (k == "insat") a = F.satContains(mk(v, 0));
			else if (k == "inunsat") a = U.unsatContains(mk(v, 0));
			else if (k == "back") a = Q.isInBackCone(mk(v, 0), lb);
			else if (k == "fore") a = Q.isInForeCone(mk(v, 0));
		});
		res += std::string(i ? "," : "") + "{\"P\":" + list(P, true) + ",\"Q\":" + list(Q, false) + ",\"F\":" + list(F, false) + ",\"U\":" + list(U, false) + ",\"K\":" + list(K, false)
			+ ",\"ans\":" + std::to_string(a) + ",\"n\":" + std::to_string((long) Q.getSize()) + "}";
	}
	o.raw("obs", res + "]");
	}); }
