// P11: the time integration converges, and does not depend on how it is called
#include "model.hpp"
const char* PROP_ID = "P11";
const char* PROP_RULE =
    "non-trivial: the system moved (some line node, point, rod or body velocity changed) and the "
    "errors that are compared lie above the rounding floor";
int PROP_CPU_LIMIT = 60;

struct Scheme
{
	const char* name;
	int order;
	// third and fourth order Adams-Bashforth, which lose their history (known finding)
	bool ab34() const { return strstr(name, "ab3") || strstr(name, "ab4"); }
};
static const std::vector<Scheme> SCHEMES = { { "rk2", 2 },      { "euler", 1 },     { "heun", 1 },
	                                         { "rk4", 4 },      { "ab2", 2 },       { "ab3", 2 },
	                                         { "ab4", 2 },      { "lab2", 2 },      { "lab3", 2 },
	                                         { "lab4", 2 },     { "beuler3", 1 },   { "midpoint3", 2 },
	                                         { "aca3", 1 },     { "wilson3", 1 },   { "leuler", 1 },
	                                         { "beuler8", 1 },  { "midpoint8", 2 }, { "aca8", 1 },
	                                         { "wilson8", 1 },  { "anderson3", 1 },  { "anderson8", 1 } };

// kinematics of everything
static Snap
kin(MoorDyn s, const Sys& y)
{
	return snap(s, y, SNAP_KIN);
}

struct Run
{
	std::vector<Snap> s;
	std::vector<std::vector<double>> f;
};

static std::vector<double> RATES; // of the unstretched lengths
static void
start_winches(MoorDyn s)
{
	for (size_t i = 0; i < RATES.size(); i++)
		MoorDyn_SetLineUnstretchedLengthVel(MoorDyn_GetLine(s, i + 1), RATES[i]);
}

// integrate with the given scheme, internal step and outer step
static Run
integrate(Ctx& c, Sys y, const std::string& scheme, double h, double DT, int nout, const Motion& m,
          int dyn = SNAP_KIN)
{
	y.scheme = scheme;
	y.dtM = h;
	y.write();
	Run R;
	MD a(y.path);
	if (!a.s)
		c.fail("create", "a valid system was rejected");
	std::vector<double> x, xd, f(m.d.size() + 1);
	m.eval(0, x, xd);
	int e = MoorDyn_Init_NoIC(a.s, x.data(), xd.data());
	if (e)
		c.fail("init", "initialisation of a valid system failed with %d", e);
	start_winches(a.s);
	double t = 0;
	for (int k = 0; k < nout; k++) {
		m.eval(k * DT, x, xd);
		double d = DT;
		t = k * DT;
		e = MoorDyn_Step(a.s, x.data(), xd.data(), f.data(), &t, &d);
		if (e == MOORDYN_NAN_ERROR)
			c.discard("unstable");
		if (e)
			c.fail("step", "step failed with %d", e);
		c.evals++;
		if (std::fabs(t - (k + 1) * DT) > 1e-9 * (1 + t) || d != DT)
			c.fail("time", "%s: the time after step %d of %.17g is %.17g", scheme.c_str(), k + 1, DT,
			       t);
		R.s.push_back(snap(a.s, y, dyn));
		R.f.push_back(f);
		if (!finite_all(R.s.back()))
			c.discard("non-finite state");
	}
	return R;
}

static double
distance(const Run& a, const Run& b)
{
	double s = 0;
	size_t n = 0;
	for (size_t k = 0; k < a.s.size(); k++)
		for (size_t i = 0; i < a.s[k].v.size(); i++) {
			double d = a.s[k].v[i] - b.s[k].v[i];
			s += d * d;
			n++;
		}
	return std::sqrt(s / std::max<size_t>(1, n));
}

static double
pow2floor(double x)
{
	return std::exp2(std::floor(std::log2(x)));
}


// free fall of a point with quadratic drag, starting at rest
static void
falling(Gen& g, Ctx& c, const Scheme& sc)
{
	Sys y;
	LType t;
	t.name = "main";
	y.lt.push_back(t);
	y.depth = 500;
	for (int k = 0; k < 2; k++) {
		SPoint p;
		p.attach = "Fixed";
		p.r = { 30.0 + 10 * k, 0, -100 };
		y.points.push_back(p);
	}
	SLine L;
	L.type = 0;
	L.a = { false, 1, false };
	L.b = { false, 2, false };
	L.len = 10;
	L.n = 1;
	y.lines.push_back(L);
	SPoint p;
	p.attach = "Free";
	p.r = { 0, 0, -200 };
	p.m = g.real(50, 2000, 100);
	p.v = p.m / y.rho * g.pick<double>({ 0.5, 0, 0.2, 1.5, 2 });
	p.v = std::floor(p.v * 1000) / 1000;
	p.ca = g.real(0, 2, 20);
	p.cda = g.chance(1, 4) ? 0.0 : g.real(0.05, 3, 60);
	y.points.push_back(p);
	double M = p.m + p.ca * y.rho * p.v, W = y.g * (p.m - y.rho * p.v), D = 0.5 * y.rho * p.cda;
	double sgn = W < 0 ? 1 : -1;
	double vt = D > 0 ? std::sqrt(std::fabs(W) / D) : 1e300, a = std::fabs(W) / M;
	double tau = D > 0 ? vt / a : 1;
	if (std::fabs(W) < 1)
		c.discard("neutrally buoyant");
	double T = std::min(3.0, tau * g.real(0.3, 2));
	auto exact = [&](double t, double& z, double& v) {
		if (D == 0) {
			v = sgn * a * t;
			z = p.r.z + 0.5 * v * t;
		} else {
			v = sgn * vt * std::tanh(t / tau);
			z = p.r.z + sgn * vt * tau * std::log(std::cosh(t / tau));
		}
	};
	int nout = g.range(2, 6);
	c.note("free fall for %g s in %d outer steps, scheme %s\n%s", T, nout, sc.name,
	       y.text().c_str());
	double DT = T / nout;
	Motion m;
	double e[2] = { 0, 0 };
	for (int l = 0; l < 2; l++) {
		double h = DT / (16 << (2 * l));
		Run r = integrate(c, y, sc.name, h * (1 + 1e-12), DT, nout, m);
		for (int k = 0; k < nout; k++) {
			double z, v;
			exact((k + 1) * DT, z, v);
			auto& s = r.s[k];
			for (size_t i = 0; i < s.v.size(); i++) {
				double want = s.lab[i] == "point3.pos.z"   ? z
				              : s.lab[i] == "point3.vel.z" ? v
				                                           : NAN;
				if (want != want)
					continue;
				e[l] = std::max(e[l], std::fabs(s.v[i] - want) / (1 + a * T));
			}
		}
	}
	c.evals += 2;
	double floor_ = 1e-9;
	int p_ = sc.order;
	double need = p_ == 4 ? 100 : p_ == 2 ? 8 : 1.6;
	bool above = e[0] > floor_ && e[1] > floor_ / 10;
	if (sc.ab34() && above && e[0] / e[1] >= 1.6 && e[0] / e[1] < need)
		c.fail("ab-order", "%s converges as a first order scheme (%g -> %g)", sc.name, e[0], e[1]);
	if (e[0] > floor_ && e[1] > floor_ / 10 && !(e[0] / e[1] >= need))
		c.fail("free-fall", "%s: the error with respect to the exact free fall is %g, and %g with four "
		       "times shorter steps", sc.name, e[0], e[1]);
	// whatever the order, the first error has to be a small fraction of the motion
	if (!(e[0] < 0.3))
		c.fail("free-fall", "%s: the error with respect to the exact free fall is %g", sc.name, e[0]);
	if (D == 0)
		c.metric((std::string("uniform-") + sc.name).c_str(), e[0]);
	if (D == 0 && (p_ == 4 || !strcmp(sc.name, "rk2")) && !(e[0] < 1e-9))
		c.fail("free-fall", "%s: uniform acceleration is not exact (error %g)", sc.name, e[0]);
	c.nontrivial();
}

void
run_case(Gen& g, Ctx& c)
{
	int mode = g.weighted({ 3, 2, 1 });
	GenOpt o;
	o.maxlines = 3;
	o.maxseg = 5;
	o.seabed = o.surface = o.friction = o.curves = false;
	const Scheme& sc = g.pick(SCHEMES);
	c.tag(std::string("scheme:") + sc.name);
	RATES.clear();
	// Anderson's scheme iterates up to a tolerance, below which there is no convergence
	if (!strncmp(sc.name, "anderson", 8))
		mode = 1;
	if (mode == 2) {
		c.tag("free fall");
		falling(g, c, sc);
		return;
	}
	Sys y = gen_sys(g, o);
	bool nodrag = g.coin();
	bool waves = g.chance(1, 3);
	double deep = waves ? 12 : 60;
	if (waves) {
		// waves which are far from the objects, but not so much for their effects to vanish
		std::string o = "0 0 0\n";
		double w = 0;
		for (int k = g.range(1, 3); k > 0; k--) {
			w += g.real(0.4, 1.2, 40);
			o += num(w) + " " + num(g.sym(1.5, 30)) + " " + num(g.sym(1.5, 30)) + " " + num(g.sym(3.1, 31)) + "\n";
		}
		y.files["wave_frequencies.txt"] = o;
		y.opts.push_back({ "WaveKin", "7" });
		c.note("waves\n%s", o.c_str());
		c.tag("waves");
	}
	// deep water and taut lines: the equations are smooth
	for (auto& b : y.bodies)
		b.r.z -= deep;
	for (auto& r : y.rods)
		if (r.attach.compare(0, 4, "Body")) {
			r.a.z -= deep;
			r.b.z -= deep;
		}
	for (auto& p : y.points)
		if (p.attach.compare(0, 4, "Body"))
			p.r.z -= deep;
	for (auto& L : y.lines)
		L.len = std::floor(1000 * norm(end_pos(y, L.a) - end_pos(y, L.b)) * g.real(0.85, 0.97, 60)) /
		        1000;
	if (nodrag) {
		for (auto& t : y.lt)
			t.Cd = t.CdAx = 0;
		for (auto& t : y.rt)
			t.Cd = t.CdEnd = 0;
		for (auto& b : y.bodies)
			for (auto& d : b.cda)
				d = 0;
		for (auto& p : y.points)
			p.cda = 0;
	}
	// the bending of a line which folds back over the rod is singular
	for (auto& L : y.lines)
		for (int k = 0; k < 2; k++) {
			const SEnd &e = k ? L.b : L.a, &q = k ? L.a : L.b;
			if (!e.rod)
				continue;
			V3 out = rod_dir(y, e.id) * (e.endB ? 1.0 : -1.0);
			if (dot(unit(end_pos(y, q) - end_pos(y, e)), out) < -0.8)
				y.lt[L.type].EI = 0;
		}
	Motion m = gen_motion(g, y, 1.0, 0.2, 1.0);
	for (auto& d : m.d)
		d.a = 0;
	c.tag(nodrag ? "no drag" : "with drag");
	int sub = 1 << g.range(0, 2);
	int nout = g.range(2, 8);
	if (mode == 0) {
		c.tag("convergence");
		int p = sc.order;
		bool four = !strcmp(sc.name, "rk4");
		double h = pow2floor(stable_dt(y, four ? 0.35 : 0.04));
		if (sc.name[0] == 'l' || sc.ab34()) {
			// the slowest objects are updated only every so many steps, and
			// the multistep schemes start with a different formula
			sub = 8;
			nout = 16;
		}
		double DT = h * sub;
		nout = std::max(4, nout);
		if (g.chance(1, 3)) {
			c.tag("winches");
			for (auto& L : y.lines)
				RATES.push_back(g.coin() ? 0 : 0.01 * L.len * g.sym(1, 20) / (DT * nout));
			for (double v : RATES)
				c.note("rate %g\n", v);
		}
		if (four && !nodrag)
			p = 2; // the drag is not smooth at rest
		double need = p == 4 ? 100 : p == 2 ? 8 : 1.6;
		c.note("convergence, scheme %s, h %g, outer step %g x %d\n%s", sc.name, h, DT, nout,
		       y.text().c_str());
		double e0 = 0, e2 = 0;
		std::string log;
		// the asymptotic regime may need shorter steps
		for (int lev = 0; lev < 3; lev++) {
			Run r0 = integrate(c, y, sc.name, h, DT, nout, m);
			Run r2 = integrate(c, y, sc.name, h / 4, DT, nout, m);
			Run rr = integrate(c, y, "rk4", h / 16, DT, nout, m);
			e0 = distance(r0, rr), e2 = distance(r2, rr);
			c.evals += 2;
			if (lev == 0)
				c.nontrivial(e0 > 1e-9);
			char b[100];
			snprintf(b, sizeof b, " %g -> %g (h %g)", e0, e2, h);
			log += b;
			if (e0 <= 1e-9 || e0 / e2 >= need)
				return;
			if (sc.ab34() && e0 / e2 >= 1.6)
				c.fail("ab-order", "%s converges as a first order scheme:%s", sc.name, log.c_str());
			c.tag("refined");
			h /= 8;
			DT = h * sub;
		}
		c.fail("convergence", "%s does not converge to the reference solution as expected from its "
		       "order when the internal step is divided by 4:%s", sc.name, log.c_str());
	}
	c.tag("splitting");
	double h = pow2floor(stable_dt(y, 0.1));
	sub = g.range(1, 5);
	double frac = g.pick<double>({ 0.0, 0.5, 0.25 });
	if (sub == 1 && frac == 0)
		frac = 0.5;
	c.note("splitting, scheme %s, h %g, %d steps of %g\n%s", sc.name, h, nout, sub + frac,
	       y.text().c_str());
	if (g.chance(1, 3)) {
		c.tag("winches");
		for (auto& L : y.lines)
			RATES.push_back(g.coin() ? 0 : 0.01 * L.len * g.sym(1, 20) / ((sub + frac) * h * nout));
		for (double v : RATES)
			c.note("rate %g\n", v);
	}
	y.scheme = sc.name;
	y.dtM = h;
	y.write();
	std::vector<double> x, xd, f(m.d.size() + 1), fb(m.d.size() + 1);
	MD A(y.path), B(y.path);
	if (!A.s || !B.s)
		c.fail("create", "a valid system was rejected");
	m.eval(0, x, xd);
	for (MD* s : { &A, &B }) {
		int e = MoorDyn_Init_NoIC(s->s, x.data(), xd.data());
		if (e)
			c.fail("init", "initialisation of a valid system failed with %d", e);
		start_winches(s->s);
	}
	auto step = [&](MD& s, double t0, double dt, std::vector<double>& f) {
		double t = t0, d = dt;
		m.eval(t0, x, xd);
		int e = MoorDyn_Step(s.s, x.data(), xd.data(), f.data(), &t, &d);
		if (e == MOORDYN_NAN_ERROR)
			c.discard("unstable");
		if (e)
			c.fail("step", "step failed with %d", e);
		c.evals++;
		if (std::fabs(t - t0 - dt) > 1e-9 * (1 + t))
			c.fail("time", "%s: a step of %.17g from %.17g ends at %.17g", sc.name, dt, t0, t);
	};
	double t = 0;
	for (int k = 0; k < nout; k++) {
		step(A, t, (sub + frac) * h, f);
		for (int i = 0; i < sub; i++)
			step(B, t + i * h, h, fb);
		if (frac > 0)
			step(B, t + sub * h, frac * h, fb);
		t += (sub + frac) * h;
		for (int what : { SNAP_KIN, SNAP_DYN }) {
			Snap a = snap(A.s, y, what), b = snap(B.s, y, what);
			if (!finite_all(a) || !finite_all(b))
				c.discard("non-finite state");
			double mx = 1;
			for (double v : a.v)
				mx = std::max(mx, std::fabs(v));
			double tol = what == SNAP_KIN ? 1e-8 * mx : 1e-6 * mx;
			for (size_t i = 0; i < a.v.size(); i++) {
				c.evals++;
				if (!(std::fabs(a.v[i] - b.v[i]) <= tol))
					c.fail("splitting", "%s: %s is %.15g after steps of %g, and %.15g after shorter "
					       "steps that amount to the same", sc.name, a.lab[i].c_str(), a.v[i],
					       (sub + frac) * h, b.v[i]);
			}
		}
		double mx = 1;
		for (double v : f)
			mx = std::max(mx, std::fabs(v));
		for (size_t i = 0; i < f.size(); i++)
			if (!(std::fabs(f[i] - fb[i]) <= 1e-6 * mx))
				c.fail("splitting-forces", "%s: coupled force %zu is %.15g, and %.15g after shorter "
				       "steps", sc.name, i, f[i], fb[i]);
	}
	c.nontrivial();
}
