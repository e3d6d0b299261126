// P20: the internal time step is the documented one, and it is the one which is used
#include "loads.hpp"
const char* PROP_ID = "P20";
const char* PROP_RULE = "non-trivial: there are lines, and either the time step came from a CFL factor or "
                        "it was changed through the API, or a step was divided in several internal ones";
int PROP_CPU_LIMIT = 30;

void
run_case(Gen& g, Ctx& c)
{
	GenOpt o;
	o.maxlines = 4;
	o.maxseg = 5;
	Sys y = gen_sys(g, o);
	// some systems have no lines at all
	if (g.chance(1, 12)) {
		y.lines.clear();
		c.tag("no lines");
	}
	// tables which do not start at the origin
	for (auto& T : y.lt)
		if (T.ea.x.size() > 2 && g.coin()) {
			T.ea.x.erase(T.ea.x.begin());
			T.ea.y.erase(T.ea.y.begin());
			c.tag("table without the origin");
		}
	y.scheme = "euler";
	const double stable = stable_dt(y, 0.02);
	// the free falling point that measures the internal steps
	SPoint probe;
	probe.attach = "Free";
	probe.r = V3{ 300, 300, (double)g.range(1, 60) };
	probe.m = g.logreal(1, 1000);
	y.points.push_back(probe);
	const int P = y.points.size();
	double period = INFINITY;
	for (auto& L : y.lines) {
		const LType& T = y.lt[L.type];
		double l = L.len / L.n;
		period = std::min(period, 2 * M_PI * l * std::sqrt(T.w / T.EA0()));
	}
	const bool lines = !y.lines.empty();
	// what the file says
	int mode = g.weighted({ 3, 3, 4, 1 });
	double fdt = stable * g.real(0.1, 1), fcfl = 0;
	if (lines)
		fcfl = stable * g.real(0.1, 1) / period;
	else
		fcfl = g.real(0.01, 1);
	Sys z = y;
	bool relative = false; // lengths as a fraction of the distance between the ends
	if (g.chance(1, 20) && mode != 0)
		for (auto& L : z.lines) {
			double d = norm(end_pos(y, L.a) - end_pos(y, L.b));
			if (d > 1.5 && L.len > 0.3 * d) {
				L.len = -L.len / d;
				relative = true;
			}
		}
	z.dtM = mode == 0 || mode == 2 ? fdt : 0;
	fdt = atof(num(fdt).c_str());
	if (mode == 1 || mode == 2) {
		z.opts.push_back({ g.coin() ? "CFL" : "cfl", num(fcfl) });
		fcfl = atof(num(fcfl).c_str());
	}
	z.write();
	double dt = INFINITY; // the expected one
	if (mode == 0 || mode == 2)
		dt = fdt;
	if (mode == 1 || mode == 2)
		dt = std::min(dt, fcfl * period);
	if (mode == 3)
		dt = 0.5 * period;
	const char* MN[] = { "dtM", "CFL", "both", "default" };
	c.tag(MN[mode]);
	c.note("%s: dtM %g CFL %g, natural period %g, expected %g\n%s", MN[mode], fdt, fcfl, period, dt,
	       z.text().c_str());
	MD a(z.path);
	if (!a.s)
		c.fail("create", "a valid system was rejected");
	MoorDyn s = a.s;
	bool set = false, cut = false;
	if (relative) {
		Motion m = gen_motion(g, y, 0.3, 0.1, 2.0);
		std::vector<double> x, xd;
		m.eval(0, x, xd);
		if (int e = MoorDyn_Init_NoIC(s, x.data(), xd.data()))
			c.fail("init", "initialisation failed with %d", e);
		double d = NAN;
		MoorDyn_GetDt(s, &d);
		c.evals++;
		c.tag("relative length");
		// (the ends of the coupled objects may be elsewhere)
		if (!(d > dt * 0.5 && d < dt * 2))
			c.fail("cfl-relative", "with a length relative to the distance between the ends, the time step is "
			       "%g, expected about %g", d, dt);
		c.nontrivial();
		return;
	}
	double given_cfl = -1;
	auto check = [&](const char* when) {
		double d = NAN, q = NAN;
		if (MoorDyn_GetDt(s, &d) || MoorDyn_GetCFL(s, &q))
			c.fail("getter", "%s MoorDyn_GetDt or MoorDyn_GetCFL failed", when);
		c.evals += 2;
		if (std::isinf(dt) ? d < 1e300 : !(std::fabs(d - dt) <= 1e-9 * dt))
			c.fail("dt", "%s the time step is %.15g, expected %.15g", when, d, dt);
		double e = given_cfl >= 0 ? given_cfl : lines ? dt / period : 0;
		if (!(std::fabs(q - e) <= 1e-9 * e))
			c.fail("cfl", "%s the CFL factor is %.15g, expected %.15g", when, q, e);
	};
	auto change = [&]() {
		set = true;
		if (g.coin()) {
			dt = stable * g.real(0.1, 1);
			c.note("SetDt %g\n", dt);
			if (MoorDyn_SetDt(s, dt))
				c.fail("setter", "MoorDyn_SetDt failed");
			given_cfl = -1;
			c.tag("SetDt");
		} else {
			given_cfl = lines ? stable * g.real(0.1, 1) / period : g.real(0.01, 1);
			dt = given_cfl * period;
			c.note("SetCFL %g\n", given_cfl);
			if (MoorDyn_SetCFL(s, given_cfl))
				c.fail("setter", "MoorDyn_SetCFL failed");
			c.tag("SetCFL");
		}
		check("after setting it");
	};
	if (g.chance(1, 4)) {
		change();
		given_cfl = -1; // the actual one is reported after the initialization
		c.tag("set before the initialization");
	}
	Motion m = gen_motion(g, y, 0.3, 0.1, 2.0);
	std::vector<double> x, xd, f(m.d.size() + 1);
	m.eval(0, x, xd);
	if (int e = MoorDyn_Init_NoIC(s, x.data(), xd.data()))
		c.fail("init", "initialisation failed with %d", e);
	check("after the initialization");
	double t = 0, Z = probe.r.z, v = 0;
	int n = g.range(1, 8), steps = 0;
	for (int k = 0; k < n; k++) {
		if (g.chance(1, 3))
			change();
		if (dt > stable * 1.001 && lines)
			continue; // it would be unstable
		double h = std::isinf(dt) ? g.real(0.01, 1) : dt * g.real(0.2, 6, 29);
		// slightly more or less than a number of internal steps
		if (!std::isinf(dt) && g.chance(1, 3))
			h = dt * (g.range(1, 6) + (g.coin() ? 1 : -1) * g.logreal(1e-6, 0.3));
		m.eval(t, x, xd);
		double hh = h;
		int e = MoorDyn_Step(s, x.data(), xd.data(), f.data(), &t, &hh);
		if (e == MOORDYN_NAN_ERROR)
			c.discard("unstable");
		if (e)
			c.fail("step", "step failed with %d", e);
		steps++;
		double left = h;
		int ni = 0;
		while (left > 1e-9 * h) {
			double q = std::min(dt, left);
			Z += q * v;
			v -= y.g * q;
			left -= q;
			ni++;
		}
		cut = cut || ni > 1;
		V3 r = ppos(s, P), u = pvel(s, P);
		c.evals++;
		double tol = 1e-11 * (1 + std::fabs(Z)) + 1e-7 * y.g * h * std::min(dt, h);
		if (!(std::fabs(r.z - Z) <= tol) || !(std::fabs(u.z - v) <= 1e-9 * (1 + std::fabs(v))))
			c.fail("steps",
			       "after a step of %g with a time step of %g the free falling point is at %.15g (velocity "
			       "%.12g), expected %.15g (%.12g) with %d internal steps",
			       h, dt, r.z, u.z, Z, v, ni);
		check("after a step");
	}
	c.nontrivial(lines && (mode == 1 || mode == 2 || set || cut));
}
