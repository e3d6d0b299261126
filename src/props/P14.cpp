// P14: the seabed is the one of the bathymetry file, everywhere
#include "loads.hpp"
#include "Seafloor.h"
#include <algorithm>
const char* PROP_ID = "P14";
const char* PROP_RULE =
    "non-trivial: a bathymetry with at least 2 different depths, looked up inside and outside of "
    "the grid, with at least one node in contact and another one clear of the seabed";
int PROP_CPU_LIMIT = 20;

void
run_case(Gen& g, Ctx& c)
{
	int nx = g.range(1, 6), ny = g.range(1, 6);
	std::vector<double> X, Y;
	double scale = g.pick(std::vector<double>{ 1, 0.125, 16 });
	double v = g.range(-40, 20) * scale;
	for (int i = 0; i < nx; i++)
		X.push_back(v), v += g.range(1, 25) * scale;
	v = g.range(-40, 20) * scale;
	for (int i = 0; i < ny; i++)
		Y.push_back(v), v += g.range(1, 25) * scale;
	std::vector<std::vector<double>> Z(nx, std::vector<double>(ny));
	double sum = 0, top = -1e300, bottom = 1e300;
	std::vector<std::string> rows;
	std::string sep = g.chance(1, 6) ? "\t" : g.chance(1, 4) ? "   " : " ";
	std::string eol = g.chance(1, 6) ? "\r\n" : g.chance(1, 6) ? " \n" : "\n";
	auto fmt = [&](double x) {
		char b[64];
		int k = g.range(0, 3);
		if (k < 2)
			return num(x);
		snprintf(b, sizeof b, k == 2 ? "%.8e" : "%.6f", x);
		return std::string(b);
	};
	for (int i = 0; i < nx; i++)
		for (int j = 0; j < ny; j++) {
			// exact in single precision
			double z = -g.range(64, 512) / 8.0;
			Z[i][j] = z;
			sum += z;
			top = std::max(top, z);
			bottom = std::min(bottom, z);
			rows.push_back(fmt(X[i]) + sep + fmt(Y[j]) + sep + fmt(z) + eol);
		}
	if (g.coin())
		for (size_t i = rows.size(); i > 1; i--)
			std::swap(rows[i - 1], rows[g.draw(i)]);
	std::string o = std::to_string(nx) + sep + std::to_string(ny) + eol;
	for (int i = 0; i < nx; i++)
		o += (i ? sep : "") + fmt(X[i]);
	o += eol;
	for (int i = 0; i < ny; i++)
		o += (i ? sep : "") + fmt(Y[i]);
	o += eol;
	for (auto& r : rows)
		o += r;
	// an odd case of the reader: one tab-separated entry cannot be told from a blank one
	Sys y;
	bool flat = g.chance(1, 10);
	y.files["bath.txt"] = o;
	if (!flat)
		y.opts.push_back({ "SeafloorFile", "bath.txt" });
	y.depth = 70;
	y.kb = g.logreal(1e2, 1e5);
	y.cb = g.logreal(1e1, 1e4);
	y.scheme = "euler";
	y.dtM = 1e-5;
	LType t;
	t.name = "main";
	t.d = g.logreal(0.02, 0.3, 200);
	t.BA = 0;
	t.EA = 1e4;
	y.lt.push_back(t);
	// probes: lines of one segment, coupled at both ends
	int np = g.range(1, 4);
	auto at = [&](int n, const std::vector<double>& T) {
		// a tick, somewhere in a cell, or outside
		double lo = T.front(), hi = T.back();
		switch (g.weighted({ 3, 1, 1, 1 })) {
			case 0:
				return lo + (hi - lo) * g.real(0, 1);
			case 1:
				return g.pick(T);
			case 2:
				return lo - g.real(0, 60);
			default:
				return hi + g.real(0, 60);
		}
	};
	auto bed = [&](double x, double yy) { return flat ? -y.depth : bilinear(X, Y, Z, x, yy); };
	std::vector<V3> P;
	for (int i = 0; i < np; i++)
		for (int k = 0; k < 2; k++) {
			SPoint p;
			p.attach = "Coupled";
			double px = at(nx, X), py = at(ny, Y);
			if (k && g.coin()) {
				px = P.back().x + g.sym(5);
				py = P.back().y + g.sym(5);
			}
			p.r = { px, py, bed(px, py) + 1 };
			P.push_back(p.r);
			y.points.push_back(p);
			if (k) {
				SLine l;
				l.a = { false, 2 * i + 1, false };
				l.b = { false, 2 * i + 2, false };
				l.len = 0.5 + norm(P[2 * i] - P[2 * i + 1]);
				l.n = 1;
				y.lines.push_back(l);
			}
		}
	y.write();
	c.note("%s\n%s", y.text().c_str(), o.c_str());
	MD a(y.path);
	if (!a.s)
		c.fail("create", "a valid system was rejected");
	std::vector<double> x = coupled_x0(y), xd(x.size() + 1, 0), f(x.size() + 1);
	int e = MoorDyn_Init_NoIC(a.s, x.data(), xd.data());
	if (e)
		c.fail("init", "initialisation failed with %d", e);
	MoorDynSeafloor S = MoorDyn_GetSeafloor(a.s);
	int in = 0, out = 0;
	if (!flat) {
		if (!S)
			c.fail("handle", "there is no seafloor");
		double d = 0;
		if (MoorDyn_GetAverageDepth(S, &d) || !(std::fabs(d - sum / (nx * ny)) < 1e-9 * 100))
			c.fail("average", "the average depth is %.12g, expected %.12g", d, sum / (nx * ny));
		if (MoorDyn_GetMinDepth(S, &d) || !(d == top))
			c.fail("minimum", "the shallowest depth is %.12g, expected %.12g", d, top);
		int nq = g.range(5, 40);
		for (int q = 0; q < nq; q++) {
			double px = at(nx, X), py = at(ny, Y), z = NAN;
			if (q == 0)
				px = 1e6, py = -1e6;
			double w = bilinear(X, Y, Z, px, py);
			c.evals++;
			if (MoorDyn_GetDepthAt(S, px, py, &z) || !(std::fabs(z - w) < 1e-9 * 100))
				c.fail("depth", "the seabed at (%.10g %.10g) is %.12g, expected %.12g", px, py, z, w);
			bool inside = px > X.front() && px < X.back() && py > Y.front() && py < Y.back();
			(inside ? in : out)++;
		}
	} else
		c.tag("flat");
	// contact of the probes, at rest
	int touch = 0, clear = 0;
	double t0 = 0;
	for (int k = 0; k < 3; k++) {
		double h = y.dtM;
		e = MoorDyn_Step(a.s, x.data(), xd.data(), f.data(), &t0, &h);
		if (e)
			c.fail("step", "step failed with %d", e);
		for (int i = 0; i < np; i++)
			for (int n = 0; n < 2; n++) {
				V3 p = lpos(a.s, i + 1, n), F = lseabed(a.s, i + 1, n);
				double b = bed(p.x, p.y);
				if (std::fabs(b - p.z) < 1e-9)
					continue;
				double w = p.z < b ? (b - p.z) * y.kb * 0.5 * t.d * y.lines[i].len : 0;
				double tol = 1e-9 * (1 + y.kb * t.d * y.lines[i].len * 70);
				c.evals++;
				if (!(std::fabs(F.z - w) <= tol))
					c.fail("contact", "node %d of line %d at (%.10g %.10g %.10g), seabed at %.10g: "
					       "reaction %.10g, expected %.10g", n, i + 1, p.x, p.y, p.z, b, F.z, w);
				(p.z < b ? touch : clear)++;
			}
		// somewhere else
		for (int i = 0; i < 2 * np; i++) {
			x[3 * i] = at(nx, X);
			x[3 * i + 1] = at(ny, Y);
			x[3 * i + 2] = bed(x[3 * i], x[3 * i + 1]) + g.sym(2);
		}
	}
	if (nx == 1 || ny == 1)
		c.tag("single row or column");
	c.tag("separator " + std::string(sep == "\t" ? "tab" : sep == " " ? "space" : "spaces"));
	if (rows.size() > 1)
		c.tag("irregular grid");
	c.nontrivial(top > bottom && in && out && touch && clear);
}
