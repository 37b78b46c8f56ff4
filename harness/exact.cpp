// a register and a list of operations: "kind n d [c]"
#include "kh.h"
using namespace kh;
int main() { return run([](const Case& c, Out& o) {
	TOKEN_FRACT r(0, 1); std::string res = "[";
	for (size_t i = 0; i < c.lines.size(); i++) {
		std::istringstream s(c.lines[i]); std::string k; long n = 0, d = 1, e = 0; s >> k >> n >> d >> e;
		long w = 0, q = 0; std::string ans;
		auto add = [&](bool b) { ans += std::string(ans.empty() ? "" : ",") + (b ? "1" : "0"); };
		if (k == "set") r = TOKEN_FRACT(n, d);
		else if (k == "mul") r = d == 1 && (n & 1) ? r * n : r * TOKEN_FRACT(n, d);
		else if (k == "div") { if (d == 1 && (n & 1)) r /= n; else r = r / TOKEN_FRACT(n, d); }
		else if (k == "cmp") { if (d == 1 && i % 3) { add(r < n); add(r == n); add(r > n); add(r <= n); add(r != n); }
			else { TOKEN_FRACT x(n, d); add(r < x); add(r == x); add(r > x); add(r <= x); add(r != x); } }
		else if (k == "floor") w = commons::floor(n, d);
		else if (k == "ceil") w = commons::ceil(n, d);
		else if (k == "flooru") w = commons::flooru(n, d);
		else if (k == "ceilu") w = commons::ceilu(n, d);
		else if (k == "below") w = commons::floord(n, d);
		else if (k == "above") w = commons::ceild(n, d);
		else if (k == "modulo") w = commons::modulo(n, d);
		else if (k == "euclid") { auto p = commons::extended_euclide(n, d, e); w = p.first; q = p.second; }
		else if (k == "whole") add(commons::isInteger(commons::division(n, d)));
		res += std::string(i ? "," : "") + "[" + std::to_string((long) r.numerator()) + "," + std::to_string((long) r.denominator()) + "," + std::to_string(w) + "," + std::to_string(q) + ",[" + ans + "]]";
	}
	o.raw("res", res + "]");
	}); }
