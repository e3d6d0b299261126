// P15: the output files say what happened
#include "loads.hpp"
#include <memory>
#include <sys/stat.h>
const char* PROP_ID = "P15";
const char* PROP_RULE =
    "non-trivial: at least one output channel or output file with a non-null value, in at least "
    "three rows";
int PROP_CPU_LIMIT = 30;

// One column of an output file
struct Col
{
	std::string name, unit;
	std::function<double()> now;            // by the API, after every step
	std::function<double(double& tol)> ref; // reference, last row only
	std::vector<double> vals;
};
struct File
{
	std::string path;
	std::vector<Col> cols;
	const char* what;
};

static double
comp(V3 v, int k)
{
	return v[k];
}

void
run_case(Gen& g, Ctx& c)
{
	Loads L;
	LoadOpt o;
	o.gen.maxlines = 4;
	o.gen.maxseg = 4;
	o.maxsteps = 12;
	o.water = 1;
	std::vector<File> files;
	bool units = true;
	double every = 0; // dtOut / dt
	const double deg = 180 / M_PI;
	const char* XYZ = "XYZ";
	const char* xyz = "xyz";
	MoorDyn* S = &L.md.s;
	std::vector<double> vbefore;
	static const char* PRE[][2] = { { "L", "Line" }, { "P", "Point" }, { "R", "Rod" }, { "B", "Body" } };
	bool objects_ok = true;
	std::vector<RodF> RF;

	o.tweak = [&](Gen& g, Sys& y) {
		std::string base = "sys";
		y.path = "sys.txt";
		if (g.chance(1, 4)) {
			mkdir("sub", 0777);
			y.path = "sub/a.b.dat";
			base = "sub/a.b";
			o.bathymetry = false; // its path is relative to the working directory
		}
		units = !g.chance(1, 4);
		if (!units)
			y.opts.push_back({ "WriteUnits", "0" });
		else if (g.coin())
			y.opts.push_back({ "WriteUnits", "1" });
		if (g.chance(1, 3))
			every = g.coin() ? g.range(0, 4) + 0.37 : g.range(1, 4);
		files.push_back({ base + ".out", {}, "main output file" });
		int n = g.range(0, 10);
		auto lower = [&](std::string s) {
			for (auto& ch : s)
				ch = g.coin() ? ::tolower(ch) : ::toupper(ch);
			return s;
		};
		for (int q = 0; q < n; q++) {
			Col C;
			int kind = g.weighted({ 4, 2, y.rods.size() ? 3 : 0, y.bodies.size() ? 3 : 0 });
			size_t cnt = kind == 0   ? y.lines.size()
			             : kind == 1 ? y.points.size()
			             : kind == 2 ? y.rods.size()
			                         : y.bodies.size();
			if (!cnt)
				continue;
			int id = 1 + g.draw(cnt);
			int k = g.range(0, 2);
			std::string pre = std::string(PRE[kind][g.draw(2)]) + std::to_string(id);
			std::string name;
			auto num_ = [&](const char* what, const char* unit) {
				name = pre + what + XYZ[k];
				C.unit = unit;
			};
			if (kind == 0) {
				int N = y.lines[id - 1].n;
				int node = g.range(0, N);
				std::string w = node == 0 && g.coin()   ? "NA"
				                : node == N && g.coin() ? "NB"
				                                        : "N" + std::to_string(node);
				switch (g.range(0, 6)) {
					case 0:
						pre += w;
						num_("P", "(m)");
						C.now = [=] { return comp(lpos(*S, id, node), k); };
						break;
					case 1:
						pre += w;
						num_("V", "(m/s)");
						C.now = [=] { return comp(lvel(*S, id, node), k); };
						break;
					case 2:
						pre += w;
						num_("F", "(N)");
						C.now = [=] { return comp(lforce(*S, id, node), k); };
						break;
					case 3:
						name = pre + w + (g.coin() ? "T" : "Ten");
						C.unit = "(N)";
						C.now = [=] {
							return norm(node == 0 || node == N ? lforce(*S, id, node)
							                                   : lten(*S, id, node));
						};
						break;
					case 4:
						name = pre + (g.coin() ? "TA" : "TenA");
						C.unit = "(N)";
						C.now = [=] { return norm(lforce(*S, id, 0)); };
						break;
					case 5:
						name = pre + (g.coin() ? "TB" : "TenB");
						C.unit = "(N)";
						C.now = [=] { return norm(lforce(*S, id, N)); };
						break;
					case 6:
						C.unit = "(N)";
						if (g.coin()) {
							name = "FairTen" + std::to_string(id);
							C.now = [=] { return norm(lforce(*S, id, N)); };
						} else {
							name = "AnchTen" + std::to_string(id);
							C.now = [=] { return norm(lforce(*S, id, 0)); };
						}
				}
				c.tag("line channel");
			} else if (kind == 1) {
				auto& P = y.points[id - 1];
				bool fixed = P.attach == "Fixed" || P.attach == "Coupled";
				switch (g.range(0, 4)) {
					case 0:
						num_("P", "(m)");
						C.now = [=] { return comp(ppos(*S, id), k); };
						break;
					case 1:
						num_("V", "(m/s)");
						C.now = [=] { return comp(pvel(*S, id), k); };
						break;
					case 2:
						num_("F", "(N)");
						C.now = [=] { return comp(pforce(*S, id), k); };
						break;
					case 3:
						name = pre + (g.coin() ? "T" : "Ten");
						C.unit = "(N)";
						C.now = [=] { return norm(pforce(*S, id)); };
						break;
					case 4:
						if (!fixed && P.attach != "Free")
							continue;
						num_("A", "(m/s2)");
						C.ref = [=, &L](double& tol) {
							V3 v = pvel(*S, id);
							if (fixed)
								return 0.0;
							tol = 1e-13 * (norm(v) + norm(L.points[id - 1].v)) / L.dt + 1e-9;
							return comp((v - L.points[id - 1].v) / L.dt, k);
						};
				}
				c.tag("point channel");
			} else if (kind == 2) {
				auto& R = y.rods[id - 1];
				int N = R.n;
				bool len = N > 0;
				// the loads of the fixed rods are not computed
				int ab = attach_body(R.attach);
				bool still = R.attach == "Fixed" ||
				             (ab && y.bodies[ab - 1].type == "Fixed" && !is_pinned(R.attach));
				bool coupled = R.attach == "Coupled";
				bool freerod = R.attach == "Free";
				int ch = g.range(0, 9);
				if (still && ch > 4)
					continue;
				switch (ch) {
					case 0:
						num_("P", "(m)");
						C.now = [=] { return comp(rpos(*S, id, 0), k); };
						break;
					case 1:
						num_("V", "(m/s)");
						C.now = [=] { return comp(rvel(*S, id, 0), k); };
						break;
					case 2:
					case 3: {
						bool mom = g.coin();
						num_(mom ? "M" : "F", mom ? "(Nm)" : "(N)");
						C.now = [=] {
							double f[6];
							MoorDyn_GetRodForce(MoorDyn_GetRod(*S, id), f);
							return f[k + 3 * mom];
						};
						break;
					}
					case 4: {
						int node = g.range(0, N);
						std::string w = node == 0 && g.coin()   ? "NA"
						                : node == N && g.coin() ? "NB"
						                                        : "N" + std::to_string(node);
						pre += w;
						int what = g.range(0, 2);
						if (what == 0) {
							num_("P", "(m)");
							C.now = [=] { return comp(rpos(*S, id, node), k); };
						} else if (what == 1) {
							num_("V", "(m/s)");
							C.now = [=] { return comp(rvel(*S, id, node), k); };
						} else {
							if (still)
								continue;
							num_("F", "(N)");
							C.ref = [=, &RF](double& tol) {
								tol = 1e-8 * RF[id - 1].scale + 1e-6;
								return comp(RF[id - 1].Fn[node], k);
							};
						}
						break;
					}
					case 5: {
						if (!len)
							continue;
						bool pitch = g.coin();
						k = pitch;
						num_("R", "(deg)");
						C.ref = [=, &L](double& tol) {
							V3 q = L.rods[id - 1].q;
							double phi = atan2(std::hypot(q.x, q.y), q.z);
							double b = atan2(q.y, q.x);
							if (std::hypot(q.x, q.y) < 1e-5)
								tol = 360; // heading of a vertical rod
							tol += 1e-6;
							return deg * (pitch ? phi * cos(b) : -phi * sin(b));
						};
						break;
					}
					case 6: {
						if (!len)
							continue;
						bool B = g.coin();
						name = pre + (g.coin() ? "T" : "Ten") + (B ? "B" : "A");
						C.unit = "(N)";
						C.ref = [=, &L](double& tol) {
							V3 f;
							for (auto& e : ends_at(L, true, id, B))
								f += e.F;
							for (auto& q : L.lf)
								tol += 1e-9 * (q.scale[0] + q.scale.back()) + q.bscale[0] +
								       q.bscale.back();
							return norm(f);
						};
						break;
					}
					case 7:
						name = pre + "Sub";
						C.unit = "(frac)";
						C.ref = [=, &RF](double& tol) {
							double v = 0;
							for (double x : RF[id - 1].vof)
								v += x / RF[id - 1].vof.size();
							tol = 1e-6;
							return v;
						};
						break;
					case 8:
						if (!coupled)
							continue;
						k = g.range(0, 1);
						num_("RV", "(deg/s)");
						C.ref = [=, &L](double& tol) {
							size_t ix = 0;
							for (auto& b : L.y.bodies)
								ix += b.type == "Coupled" ? 6 : b.type == "CoupledPinned" ? 3 : 0;
							for (int i = 0; i < id - 1; i++)
								ix += L.y.rods[i].attach == "Coupled"         ? 6
								      : L.y.rods[i].attach == "CoupledPinned" ? 3
								                                              : 0;
							tol = 1e-9;
							return deg * L.xd[ix + 3 + k];
						};
						break;
					case 9:
						if (!freerod)
							continue;
						num_("A", "(m/s2)");
						C.ref = [=, &L](double& tol) {
							V3 v = rvel(*S, id, 0), v0 = L.rods[id - 1].v[0];
							tol = 1e-13 * (norm(v) + norm(v0)) / L.dt + 1e-9;
							return comp((v - v0) / L.dt, k);
						};
				}
				c.tag("rod channel");
			} else {
				auto& B = y.bodies[id - 1];
				bool fixed = B.type == "Fixed", freeb = B.type == "Free";
				auto state = [=](int i) {
					double r[6], v[6];
					MoorDyn_GetBodyState(MoorDyn_GetBody(*S, id), r, v);
					return i < 6 ? r[i] : v[i - 6];
				};
				bool rot = g.coin();
				switch (g.range(0, 4)) {
					case 0:
						num_(rot ? "R" : "P", rot ? "(deg)" : "(m)");
						C.now = [=] { return state(k + 3 * rot) * (rot ? deg : 1); };
						break;
					case 1:
						num_(rot ? "RV" : "V", rot ? "(deg/s)" : "(m/s)");
						C.now = [=] { return state(6 + k + 3 * rot) * (rot ? deg : 1); };
						break;
					case 2:
						num_(rot ? "M" : "F", rot ? "(Nm)" : "(N)");
						C.now = [=] {
							double f[6];
							MoorDyn_GetBodyForce(MoorDyn_GetBody(*S, id), f);
							return f[k + 3 * rot];
						};
						break;
					case 3:
						if (!freeb)
							continue;
						name = pre + (g.coin() ? "T" : "Ten");
						C.unit = "(N)";
						C.now = [=] {
							double f[6];
							MoorDyn_GetBodyForce(MoorDyn_GetBody(*S, id), f);
							return std::sqrt(f[0] * f[0] + f[1] * f[1] + f[2] * f[2]);
						};
						break;
					case 4:
						if (!freeb && !fixed)
							continue;
						num_(rot ? "RA" : "A", rot ? "(deg/s2)" : "(m/s2)");
						C.ref = [=, &L](double& tol) {
							if (fixed)
								return 0.0;
							auto& K = L.bodies[id - 1];
							double v = state(6 + k + 3 * rot), v0 = rot ? K.w[k] : K.v[k];
							tol = (1e-13 * (norm(K.v) + norm(K.w)) / L.dt + 1e-9) * (rot ? deg : 1);
							return (v - v0) / L.dt * (rot ? deg : 1);
						};
				}
				c.tag("body channel");
			}
			C.name = lower(name);
			y.outs.push_back(C.name);
			files[0].cols.push_back(C);
		}
		for (size_t i = 0; i < y.lines.size(); i++) {
			if (!g.coin())
				continue;
			int id = i + 1, N = y.lines[i].n;
			std::string f;
			int mask = g.range(1, 1023);
			const char* all = "pvUDctsdKb"; // the last two come with some other
			for (int q = 0; q < 10; q++)
				if (mask & (1 << q))
					f += all[q];
			if (!(mask & 255))
				f += "p";
			y.lines[i].out = f;
			File F{ base + "_Line" + std::to_string(id) + ".out", {}, "line output file" };
			auto has = [&](char ch) { return f.find(ch) != std::string::npos; };
			auto vecs = [&](char ch, const char* what, const char* unit, int from, int to,
			                const char* label, std::function<V3(int)> now,
			                std::function<V3(int)> ref, std::function<double(int)> tol) {
				if (!has(ch))
					return;
				c.tag(std::string("line file ") + ch);
				for (int q = from; q <= to; q++)
					for (int k = 0; k < 3; k++) {
						Col C;
						C.name = std::string(label) + std::to_string(q) + what + xyz[k];
						C.unit = unit;
						if (now)
							C.now = [=] { return comp(now(q), k); };
						if (ref)
							C.ref = [=](double& t) {
								t = tol(q);
								return comp(ref(q), k);
							};
						F.cols.push_back(C);
					}
			};
			auto scalars = [&](char ch, const char* what, const char* unit, int from, int to,
			                   const char* label, std::function<double(int)> now,
			                   std::function<double(int)> ref, std::function<double(int)> tol) {
				if (!has(ch))
					return;
				c.tag(std::string("line file ") + ch);
				for (int q = from; q <= to; q++) {
					Col C;
					C.name = std::string(label) + std::to_string(q) + what;
					C.unit = unit;
					if (now)
						C.now = [=] { return now(q); };
					if (ref)
						C.ref = [=](double& t) {
							t = tol(q);
							return ref(q);
						};
					F.cols.push_back(C);
				}
			};
			auto* lf = &L.lf;
			auto* K = &L.lines;
			vecs('p', "p", "(m)", 0, N, "Node", [=](int q) { return lpos(*S, id, q); }, 0, 0);
			scalars('K', "Ku", "(1/m)", 0, N, "Node", [=](int q) { return lcurv(*S, id, q); }, 0, 0);
			vecs('v', "v", "(m/s)", 0, N, "Node", [=](int q) { return lvel(*S, id, q); }, 0, 0);
			vecs('U', "U", "(m/s)", 0, N, "Node", 0, [=](int q) { return (*K)[i].w[q].U; },
			     [=](int q) { return 1e-8 * (1 + norm((*K)[i].w[q].U)); });
			vecs('D', "D", "(N)", 0, N, "Node",
			     [=](int q) { return ldrag(*S, id, q) + lfk(*S, id, q); }, 0, 0);
			scalars('t', "Te", "(N)", 1, N, "Seg", 0,
			        [=](int q) { return norm((*lf)[i].segEl[q - 1]); },
			        [=](int q) { return 1e-9 * (*lf)[i].scale[q] + 1e-6; });
			vecs('c', "c", "(N)", 1, N, "Seg", 0, [=](int q) { return (*lf)[i].segTd[q - 1]; },
			     [=](int q) { return 1e-9 * (*lf)[i].scale[q] + 1e-6; });
			scalars('s', "St", "(-)", 1, N, "Seg", 0, [=](int q) { return (*lf)[i].strain[q - 1]; },
			        [=](int) { return 1e-9; });
			scalars('d', "dSt", "(-/s)", 1, N, "Seg", 0, [=](int q) { return (*lf)[i].rate[q - 1]; },
			        [=](int) { return 1e-9; });
			vecs('b', "b", "(N)", 0, N, "Node", [=](int q) { return lseabed(*S, id, q); }, 0, 0);
			files.push_back(F);
		}
		for (size_t i = 0; i < y.rods.size(); i++) {
			if (!g.coin())
				continue;
			int id = i + 1, N = y.rods[i].n;
			int mask = g.range(1, 3);
			bool fo = g.coin();
			int ab = attach_body(y.rods[i].attach);
			bool still = y.rods[i].attach == "Fixed" || (ab && y.bodies[ab - 1].type == "Fixed" &&
			                                            !is_pinned(y.rods[i].attach));
			y.rods[i].out = std::string(mask & 1 ? "p" : "") + (fo ? "f" : "") + (mask & 2 ? "v" : "");
			File F{ base + "_Rod" + std::to_string(id) + ".out", {}, "rod output file" };
			for (int w = 0; w < 3; w++) {
				if (w < 2 ? !(mask & (1 << w)) : !fo)
					continue;
				for (int q = 0; q <= N; q++)
					for (int k = 0; k < 3; k++) {
						Col C;
						C.name = "Node" + std::to_string(q) + (w == 0 ? "p" : w == 1 ? "v" : "F") +
						         xyz[k];
						C.unit = w == 0 ? "(m)" : w == 1 ? "(m/s)" : "(N)";
						if (w == 0)
							C.now = [=] { return comp(rpos(*S, id, q), k); };
						else if (w == 1)
							C.now = [=] { return comp(rvel(*S, id, q), k); };
						else if (!still)
							C.ref = [=, &RF](double& tol) {
								tol = 1e-8 * RF[id - 1].scale + 1e-6;
								return comp(RF[id - 1].Fn[q], k);
							};
						F.cols.push_back(C);
					}
			}
			c.tag("rod file");
			files.push_back(F);
		}
		for (size_t i = 0; i < y.bodies.size(); i++) {
			int id = i + 1;
			File F{ base + "_Body" + std::to_string(id) + ".out", {}, "body output file" };
			for (int k = 0; k < 6; k++) {
				Col C;
				static const char* nm[] = { "x", "y", "z", "roll", "pitch", "yaw" };
				C.name = nm[k];
				C.unit = k < 3 ? "(m)" : "(deg)";
				C.now = [=] {
					double r[6], v[6];
					MoorDyn_GetBodyState(MoorDyn_GetBody(*S, id), r, v);
					return r[k] * (k < 3 ? 1 : deg);
				};
				F.cols.push_back(C);
			}
			c.tag("body file");
			files.push_back(F);
		}
	};
	std::vector<double> times;
	double tprev = 0;
	bool lastrow = false;
	std::string optpatch;
	o.after = [&](double t) {
		bool write = true;
		if (every > 0) { // then there is not a row at t = 0
			if (t == 0)
				return;
			double d = every * L.dt, a = tprev / d, b = t / d;
			// with a whole number of steps everything here is exact
			if (every != std::floor(every) && std::fabs(b - std::round(b)) < 1e-6)
				c.discard("output instant on the edge");
			write = std::floor(b) > std::floor(a);
		}
		tprev = t;
		lastrow = write;
		if (!write)
			return;
		times.push_back(t);
		for (auto& F : files)
			for (auto& C : F.cols)
				C.vals.push_back(C.now ? C.now() : NAN);
	};
	// dtOut needs the time step, which is known after the tweak
	o.pre = [&](Sys& y) {
		if (every > 0) {
			if (every == std::floor(every))
				y.dtM = L.dt = std::exp2(std::floor(std::log2(y.dtM)));
			y.opts.push_back({ "dtOut", num(every * y.dtM) });
		}
	};
	drive(g, c, L, o);
	for (auto& F : L.lf)
		if (F.friction_edge || F.surface_edge)
			objects_ok = false;
	for (size_t p = 0; p < L.y.rods.size(); p++) {
		RF.push_back(ref_rod(L.y, L.y.rt[L.y.rods[p].type], L.rods[p], ends_at(L, true, p + 1, false),
		                     ends_at(L, true, p + 1, true), L.depth));
		if (RF.back().edge || RF.back().vert + RF.back().vertM > 0)
			objects_ok = false;
	}
	// references of the last row
	std::vector<std::vector<std::pair<double, double>>> last(files.size());
	for (size_t i = 0; i < files.size(); i++)
		for (auto& C : files[i].cols) {
			double tol = 0, v = NAN;
			if (C.ref && objects_ok && lastrow)
				v = C.ref(tol);
			last[i].push_back({ v, tol });
		}
	L.md.close();
	if (every > 0)
		c.tag("dtOut");
	if (!units)
		c.tag("no units");
	if (times.empty())
		return;
	size_t big = 0;
	for (size_t i = 0; i < files.size(); i++) {
		auto& F = files[i];
		std::string s = get_file(F.path);
		std::vector<std::vector<std::string>> rows;
		std::istringstream in(s);
		std::string ln;
		while (std::getline(in, ln)) {
			std::istringstream w(ln);
			std::vector<std::string> r;
			std::string x;
			while (w >> x)
				r.push_back(x);
			rows.push_back(r);
		}
		size_t hdr = 1 + units;
		c.evals++;
		if (rows.size() != hdr + times.size())
			c.fail("rows", "%s %s has %zu lines, expected %zu headers and %zu rows", F.what,
			       F.path.c_str(), rows.size(), hdr, times.size());
		for (size_t r = 0; r < rows.size(); r++)
			if (rows[r].size() != 1 + F.cols.size())
				c.fail("columns", "%s %s: line %zu has %zu columns, expected %zu", F.what,
				       F.path.c_str(), r + 1, rows[r].size(), 1 + F.cols.size());
		if (rows[0][0] != "Time" || (units && rows[1][0] != "(s)"))
			c.fail("header", "%s %s: wrong header of the time column", F.what, F.path.c_str());
		for (size_t q = 0; q < F.cols.size(); q++) {
			auto& C = F.cols[q];
			if (rows[0][q + 1] != C.name)
				c.fail("header", "%s %s: column %zu is named %s instead of %s", F.what,
				       F.path.c_str(), q + 1, rows[0][q + 1].c_str(), C.name.c_str());
			if (units && rows[1][q + 1] != C.unit)
				c.fail("units", "%s %s: column %s has units %s instead of %s", F.what, F.path.c_str(),
				       C.name.c_str(), rows[1][q + 1].c_str(), C.unit.c_str());
		}
		for (size_t r = 0; r < times.size(); r++) {
			auto& R = rows[hdr + r];
			double t = atof(R[0].c_str());
			c.evals++;
			if (!(std::fabs(t - times[r]) <= 6e-6 * times[r]))
				c.fail("time", "%s %s: time of row %zu is %s, expected %.9g", F.what, F.path.c_str(),
				       r, R[0].c_str(), times[r]);
			for (size_t q = 0; q < F.cols.size(); q++) {
				auto& C = F.cols[q];
				double got = atof(R[q + 1].c_str()), want, tol = 1e-300;
				if (C.now)
					want = C.vals[r];
				else if (r + 1 == times.size() && last[i][q].first == last[i][q].first) {
					want = last[i][q].first;
					tol = last[i][q].second;
				} else
					continue;
				if (!std::isfinite(want))
					continue;
				c.evals++;
				if (want != 0)
					big++;
				if (!(std::fabs(got - want) <= 6e-6 * std::fabs(want) + tol))
					c.fail(C.now ? "value" : "value-ref", "%s %s: %s at t = %.9g is %s, expected %.12g",
					       F.what, F.path.c_str(), C.name.c_str(), times[r], R[q + 1].c_str(), want);
			}
		}
	}
	c.nontrivial(big && times.size() >= 3);
}
