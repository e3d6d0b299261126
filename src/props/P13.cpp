// P13: waves and currents of the input files
#include "loads.hpp"
const char* PROP_ID = "P13";
const char* PROP_RULE =
    "non-trivial: the water kinematics expected at some of the queried points is not null";
int PROP_CPU_LIMIT = 30;

static void
queries(Gen& g, Ctx& c)
{
	Sys y;
	y.depth = g.pick(std::vector<double>{ 20, 50, 200, 1000 });
	y.g = g.pick(std::vector<double>{ 9.81, 10 });
	y.rho = g.pick(std::vector<double>{ 1025, 1000 });
	LType lt;
	lt.name = "a";
	y.lt.push_back(lt);
	y.points.resize(2);
	y.points[0].attach = y.points[1].attach = "Fixed";
	y.points[0].r = { 0, 0, -5 };
	y.points[1].r = { 10, 0, -5 };
	SLine l;
	l.a.id = 1;
	l.b.id = 2;
	l.len = 10;
	l.n = 1;
	y.lines.push_back(l);
	Loads B;
	bool bath = g.chance(1, 3);
	double h = y.depth;
	B.depth = [&](double, double) { return -y.depth; };
	if (bath) {
		gen_bathymetry(g, B, -y.depth * 1.1, -y.depth * 0.7);
		y.files = B.y.files;
		y.opts = B.y.opts;
		h = 0;
		for (auto& r : B.bathz)
			for (double z : r)
				h -= z / (B.bathx.size() * B.bathy.size());
		B.depth = [&](double a, double b) { return bilinear(B.bathx, B.bathy, B.bathz, a, b); };
		c.tag("bathymetry");
	}
	int wave = g.pick(std::vector<int>{ 7, 2, 3, 0 }),
	    cur = g.pick(std::vector<int>{ 0, 1, 2, 5 });
	double ts = g.pick(std::vector<double>{ 1, 0.25, 4 });
	Water W = gen_water(g, wave, cur, y.g, y.rho, h, B.depth, ts);
	use_water(y, W, false);
	y.dtM = 0.5;
	y.scheme = g.pick(std::vector<std::string>{ "rk2", "euler", "rk4", "ab3" });
	bool dir = g.coin();
	if (dir) {
		y.path = "sub/sys.txt";
		if (system("mkdir -p sub"))
			c.discard("mkdir");
	}
	y.write();
	if (bath)
		put_file("bath.txt", y.files["bath.txt"]); // relative to the working directory
	c.note("%s", y.text().c_str());
	for (auto& f : W.files)
		c.note("--> %s\n%s", f.first.c_str(), f.second.c_str());
	c.tag("waves " + std::to_string(wave));
	c.tag("currents " + std::to_string(cur));
	MD md(y.path);
	if (!md.s)
		c.fail("create", "a valid system was rejected");
	if (int e = MoorDyn_Init_NoIC(md.s, NULL, NULL))
		c.fail("init", "initialisation of a valid system failed with %d", e);
	MoorDynWaves w = MoorDyn_GetWaves(md.s);
	double t = 0;
	for (int s = 0, ns = g.range(1, 4); s < ns; s++) {
		for (int q = 0; q < 4 && W.time_ok(t); q++) {
			V3 p{ g.sym(40, 400), g.sym(40, 400), 0 };
			double bot = B.depth(p.x, p.y);
			p.z = g.chance(1, 10) ? g.real(0, 0.05, 10) * h : bot * g.real(0, 1, 200);
			double U[3], Ud[3], zeta = NAN, pd = NAN;
			MoorDynSeafloor fl = bath ? MoorDyn_GetSeafloor(md.s) : NULL;
			if (bath && !fl)
				c.fail("seafloor", "there is no seafloor despite the bathymetry file");
			int e = MoorDyn_GetWavesKin(w, p.x, p.y, p.z, U, Ud, &zeta, &pd, fl);
			if (e)
				c.fail("query", "the query failed with %d", e);
			WKin k = W.eval(p, t), sc = W.scale(p);
			// the depth dependence of the phase goes with the interpolated elevation
			double tol = 2e-6;
			char b[160];
			snprintf(b, sizeof b, " at (%g %g %g), t = %g", p.x, p.y, p.z, t);
			std::string at = b;
			check_vec(c, "velocity", "water velocity" + at, { U[0], U[1], U[2] }, k.U,
			          tol * sc.U.x + 1e-9);
			check_vec(c, "acceleration", "water acceleration" + at, { Ud[0], Ud[1], Ud[2] },
			          k.Ud, tol * sc.Ud.x + 1e-9);
			check_vec(c, "elevation", "elevation" + at, { zeta, 0, 0 }, { k.zeta, 0, 0 },
			          tol * sc.zeta + 1e-9);
			check_vec(c, "pressure", "dynamic pressure" + at, { pd, 0, 0 }, { k.pd, 0, 0 },
			          tol * sc.pd + 1e-6);
			c.nontrivial(norm(k.U) > 1e-3 || std::fabs(k.zeta) > 1e-3);
		}
		double dt = g.range(1, 24) * ts / 8;
		if (int e = MoorDyn_Step(md.s, NULL, NULL, NULL, &t, &dt))
			c.fail("step", "the step failed with %d", e);
		if (cur > 1 && t > W.ct.v.back())
			c.tag("after the last current");
	}
}

static void
loads(Gen& g, Ctx& c)
{
	Loads L;
	LoadOpt o;
	o.gen.maxlines = 3;
	o.gen.maxseg = 4;
	o.gen.bending = false;
	o.gen.curves = false;
	o.gen.friction = false;
	o.internal_pressure = false;
	o.payout = false;
	o.water = 4;
	o.maxsteps = 25;
	drive(g, c, L, o);
	MoorDyn s = L.md.s;
	const Sys& y = L.y;
	for (auto& F : L.lf)
		if (F.friction_edge || F.surface_edge)
			c.discard("non-smooth state");
	bool wet = false;
	auto nt = [&](V3 U) { wet = wet || norm(U) > 1e-3; };
	for (size_t i = 0; i < y.lines.size(); i++)
		for (size_t k = 0; k < L.lines[i].r.size(); k++) {
			auto& F = L.lf[i];
			nt(L.lines[i].w[k].U);
			std::string N = "line " + std::to_string(i + 1) + " node " + std::to_string(k) + " ";
			double tol = 1e-10 * F.scale[k] + 1e-9;
			check_vec(c, "line-drag", N + "drag", ldrag(s, i + 1, k), F.D[k], tol);
			check_vec(c, "line-fk", N + "fluid inertia", lfk(s, i + 1, k), F.FK[k], tol);
			check_vec(c, "line-weight", N + "weight", lweight(s, i + 1, k), F.W[k], tol);
		}
	for (size_t i = 0; i < y.points.size(); i++) {
		auto& S = y.points[i];
		V3 F;
		M3 M;
		auto& P = L.points[i];
		auto ends = ends_at(L, false, i + 1, false);
		if (S.attach != "Free")
			continue;
		nt(P.U);
		ref_point(y, S, P.v, P.U, ends, F, M);
		double sc = 0;
		for (auto& f : L.lf)
			for (double v : f.scale)
				sc += v;
		check_vec(c, "point-force", "point " + std::to_string(i + 1) + " force",
		          pforce(s, i + 1), F, 1e-9 * (sc + norm(F) + S.m * 10) + 1e-6);
	}
	// the rods without lines, whose load is only that of the water
	for (size_t i = 0; i < y.rods.size(); i++) {
		if (y.rods[i].attach != "Free" || y.rods[i].n == 0)
			continue;
		RodF R = ref_rod(y, y.rt[y.rods[i].type], L.rods[i], ends_at(L, true, i + 1, false),
		                 ends_at(L, true, i + 1, true), L.depth);
		if (R.edge)
			continue;
		nt(L.rods[i].w[0].U);
		double f[6], sc = 0;
		for (auto& q : L.lf)
			for (double v : q.scale)
				sc += v;
		MoorDyn_GetRodForce(MoorDyn_GetRod(s, i + 1), f);
		check_vec(c, "rod-force", "rod " + std::to_string(i + 1) + " force",
		          { f[0], f[1], f[2] }, R.F.f, 1e-9 * (R.scale + sc) + 1e-8 + R.vert);
	}
	for (size_t i = 0; i < y.bodies.size(); i++)
		nt(L.bodies[i].U);
	c.nontrivial(wet);
}

void
run_case(Gen& g, Ctx& c)
{
	if (g.range(0, 2) < 2)
		queries(g, c);
	else
		loads(g, c);
}
