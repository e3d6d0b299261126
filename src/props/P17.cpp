// P17: the initial condition
#include "loads.hpp"
#include <sys/stat.h>
const char* PROP_ID = "P17";
const char* PROP_RULE =
    "non-trivial: a line starts on a catenary that is not straight, or the initial condition moved "
    "something, or a neutral object was left where it was by an initial condition that did run";
int PROP_CPU_LIMIT = 60;

namespace {
// ------------------------------------------------- elastic catenary, brute force
struct Cat
{
	double H = 0, V = 0, W, L, EA;
	bool contact;
	double z_end(double h, double v) const
	{
		if (contact && v < W * L)
			return h / W * (sqrt(1 + (v / h) * (v / h)) - 1) + v * v / (2 * EA * W);
		double a = v - W * L;
		return h / W * (sqrt(1 + (v / h) * (v / h)) - sqrt(1 + (a / h) * (a / h))) +
		       L / EA * (v - W * L / 2);
	}
	double x_end(double h, double v) const
	{
		if (contact && v < W * L)
			return h / W * asinh(v / h) + L - v / W + h * L / EA;
		return h / W * (asinh(v / h) - asinh((v - W * L) / h)) + h * L / EA;
	}
	// vertical tension at the upper end for a horizontal one
	double solve_v(double h, double ZF) const
	{
		double lo = contact ? 0 : -1, hi = 1;
		double s = W * L + h + EA * 1e-3;
		if (!contact)
			while (z_end(h, lo * s) > ZF)
				lo *= 2;
		while (z_end(h, hi * s) < ZF)
			hi *= 2;
		lo *= s, hi *= s;
		for (int i = 0; i < 200; i++) {
			double m = (lo + hi) / 2;
			(z_end(h, m) < ZF ? lo : hi) = m;
		}
		return (lo + hi) / 2;
	}
	bool solve(double XF, double ZF)
	{
		double lo = log(1e-9 * W * L), hi = log(10 * EA);
		if (x_end(exp(lo), solve_v(exp(lo), ZF)) > XF || x_end(exp(hi), solve_v(exp(hi), ZF)) < XF)
			return false;
		for (int i = 0; i < 100; i++) {
			double m = (lo + hi) / 2;
			(x_end(exp(m), solve_v(exp(m), ZF)) < XF ? lo : hi) = m;
		}
		H = exp((lo + hi) / 2);
		V = solve_v(H, ZF);
		return true;
	}
	void at(double s, double& x, double& z) const
	{
		double a = V - W * L; // at the lower end
		if (contact && a < 0) {
			double lb = L - V / W, t = W * (s - lb);
			if (s <= lb) {
				x = s * (1 + H / EA);
				z = 0;
				return;
			}
			x = H / W * asinh(t / H) + lb + H * s / EA;
			z = H / W * (sqrt(1 + (t / H) * (t / H)) - 1) + t * t / (2 * EA * W);
			return;
		}
		double t = a + W * s;
		x = H / W * (asinh(t / H) - asinh(a / H)) + H * s / EA;
		z = H / W * (sqrt(1 + (t / H) * (t / H)) - sqrt(1 + (a / H) * (a / H))) +
		    s / EA * (a + W * s / 2);
	}
};

void
profiles(Gen& g, Ctx& c)
{
	Sys y;
	y.g = g.chance(1, 4) ? g.real(1, 20) : 9.81;
	y.rho = g.chance(1, 4) ? g.real(500, 1500) : 1025;
	y.depth = g.pick(std::vector<double>{ 50, 20, 300 });
	int nt = g.range(1, 2);
	for (int i = 0; i < nt; i++) {
		LType t;
		t.name = i ? "b" : "a";
		t.d = g.logreal(0.02, 0.3);
		t.w = atof(num(floor((g.chance(1, 5) ? g.real(0.3, 0.9) : g.real(1.1, 8)) * y.rho * t.A() * 1000) / 1000).c_str());
		t.EA = floor(t.w * 9.81 * 50 * g.logreal(2, 5000));
		y.lt.push_back(t);
	}
	int nl = g.range(1, 3);
	std::vector<Cat> cats;
	std::vector<std::pair<V3, V3>> ends;
	for (int i = 0; i < nl; i++) {
		SPoint a, b;
		a.attach = g.pick(std::vector<std::string>{ "Fixed", "Coupled", "Free" });
		b.attach = g.pick(std::vector<std::string>{ "Coupled", "Fixed", "Free" });
		a.m = b.m = 100;
		a.r = { g.sym(50), g.sym(50), g.coin() ? -y.depth : -y.depth * g.real(0.1, 0.9) };
		double span = y.depth * g.real(0.3, 3), ang = g.coin() ? g.range(0, 3) * M_PI / 2 : g.sym(3.14);
		b.r = { a.r.x + span * cos(ang), a.r.y + span * sin(ang),
			    g.chance(1, 6) ? a.r.z : -y.depth * g.real(0, 0.95) };
		if (g.chance(1, 12)) // vertical
			b.r.x = a.r.x, b.r.y = a.r.y;
		if (norm(a.r - b.r) < 1)
			b.r.z = a.r.z + 5;
		if (g.coin())
			std::swap(a.r, b.r);
		y.points.push_back(a);
		y.points.push_back(b);
		SLine l;
		l.type = g.range(0, nt - 1);
		l.a.id = 2 * i + 1;
		l.b.id = 2 * i + 2;
		l.len = floor(1000 * norm(a.r - b.r) * (g.coin() ? g.real(0.9, 1.2) : g.real(1, 2))) / 1000;
		l.n = g.range(2, 12);
		y.lines.push_back(l);
	}
	y.dtM = 0.001;
	bool ic = g.coin(); // with no time for it
	y.tmaxic = 0;
	y.scheme = g.pick(std::vector<std::string>{ "rk2", "euler", "ab2", "leuler", "wilson5" });
	if (ic && g.coin())
		y.opts.push_back({ "ICgenDynamic", "1" });
	y.write();
	c.note("%s", y.text().c_str());
	MD m(y.path);
	if (!m.s)
		c.fail("create", "a valid system was rejected");
	auto x = coupled_x0(y);
	std::vector<double> xd(x.size() + 1, 0);
	x.push_back(0);
	int e = ic ? MoorDyn_Init(m.s, x.data(), xd.data()) : MoorDyn_Init_NoIC(m.s, x.data(), xd.data());
	if (e)
		c.fail("init", "the initialisation failed with %d", e);
	for (int i = 0; i < nl; i++) {
		auto& l = y.lines[i];
		auto& t = y.lt[l.type];
		V3 A = y.points[2 * i].r, B = y.points[2 * i + 1].r;
		std::vector<V3> ref(l.n + 1);
		double XF = hypot(B.x - A.x, B.y - A.y), ZF = B.z - A.z;
		bool straight = XF == 0, either = false;
		double W = (t.w - y.rho * t.A()) * y.g;
		Cat q;
		q.contact = std::min(A.z, B.z) <= -y.depth * (1 - 1e-5) && W > 0;
		q.W = fabs(W), q.L = l.len, q.EA = t.EA;
		bool up = W < 0;           // the mirror image
		bool rev = (up ? -ZF : ZF) < 0; // from the lower end
		if (!straight && q.contact) {
			double lm = XF - q.EA / W + sqrt(q.EA / W * q.EA / W + 2 * fabs(ZF) * q.EA / W);
			if (fabs(l.len / lm - 1) < 1e-6)
				either = true;
			else if (l.len > lm)
				straight = true;
		}
		double chord = hypot(XF, ZF);
		for (int k = 0; k <= l.n; k++)
			ref[k] = A + (double(k) / l.n) * (B - A);
		auto err = [&](const std::vector<V3>& r) {
			double w = 0;
			for (int k = 0; k <= l.n; k++)
				w = std::max(w, norm(lpos(m.s, i + 1, k) - r[k]));
			return w;
		};
		double es = err(ref), ec = INFINITY;
		std::vector<V3> cat = ref;
		if (!straight) {
			if (!q.solve(XF, fabs(ZF)))
				either = true;
			else {
				for (int k = 0; k <= l.n; k++) {
					double X, Z, s = l.len * k / l.n;
					q.at(rev ? l.len - s : s, X, Z);
					if (rev)
						X = XF - X, Z = Z - fabs(ZF);
					if (up)
						Z = -Z;
					cat[k] = { A.x + X * (B.x - A.x) / XF, A.y + X * (B.y - A.y) / XF, A.z + Z };
				}
				ec = err(cat);
			}
		}
		c.evals++;
		double tol = 5e-3 * std::max(chord, l.len);
		double ratio = l.len / chord;
		// where Newton is known to struggle: almost vertical and almost straight lines
		if (XF < 0.1 * l.len || ratio > 1.8 || q.contact || up)
			either = true;
		c.tag(straight ? "straight" : q.contact && q.V < q.W * q.L ? "on the seabed" : up ? "buoyant" : "hanging");
		if (straight) {
			if (!(es < 1e-9 * (100 + chord)))
				c.fail("straight", "line %d does not start straight, %g m away", i + 1, es);
			continue;
		}
		if (ec < es) {
			c.metric("catenary (rel)", ec / l.len);
			c.nontrivial(es > tol);
		}
		if (either && es < 1e-9 * (100 + chord)) {
			c.tag("fallback");
			continue;
		}
		if (up) // the solver is loose for them
			tol = std::max(tol, es);
		if (!(ec <= tol)) {
			if (ec == INFINITY)
				continue;
			c.fail("catenary", "line %d starts %g m away from the catenary (and %g m away from the "
			       "straight segment), its length is %g and it spans %g m by %g m, H %g V %g W %g", i + 1, ec, es, l.len,
			       XF, ZF, q.H, q.V, W * l.len);
		}
	}
}

// ---------------------------------------------------------------- helpers
Snap
kin(MoorDyn s, const Sys& y)
{
	return snap(s, y, SNAP_KIN);
}
void
same(Ctx& c, const char* sig, const Snap& a, const Snap& b, double tol, const char* what)
{
	if (a.v.size() != b.v.size())
		c.fail(sig, "%s: different number of observables", what);
	for (size_t i = 0; i < a.v.size(); i++) {
		c.evals++;
		double d = fabs(a.v[i] - b.v[i]), s = std::max(1.0, fabs(a.v[i]));
		if (a.lab[i].find(".r") != std::string::npos && a.lab[i].substr(0, 4) == "body" &&
		    a.lab[i].back() >= '3') // angles
			d = std::min(d, fabs(d - 2 * M_PI));
		c.metric(sig, d / s);
		if (!(d <= tol * s))
			c.fail(sig, "%s: %s is %.15g and should be %.15g", what, a.lab[i].c_str(), b.v[i], a.v[i]);
	}
}
void
init(Ctx& c, MD& m, const Sys& y, bool ic)
{
	if (!m.s)
		c.fail("create", "a valid system was rejected");
	auto x = coupled_x0(y);
	x.push_back(0);
	std::vector<double> xd(x.size(), 0);
	int e = ic ? MoorDyn_Init(m.s, x.data(), xd.data()) : MoorDyn_Init_NoIC(m.s, x.data(), xd.data());
	if (e == MOORDYN_NAN_ERROR)
		c.discard("unstable");
	if (e)
		c.fail("init", "the initialisation failed with %d", e);
}
// the run that follows does not remember the initial condition
void
goes_on(Gen& g, Ctx& c, MD& X, const Sys& y)
{
	std::vector<uint64_t> data;
	size_t sz = 0;
	if (MoorDyn_Serialize(X.s, &sz, NULL))
		c.fail("save", "the state could not be saved");
	data.resize(sz / 8 + 1);
	MoorDyn_Serialize(X.s, &sz, data.data());
	MD Y(y.path);
	init(c, Y, y, false);
	if (MoorDyn_Deserialize(Y.s, data.data()))
		c.fail("load", "the state could not be loaded");
	same(c, "after", kin(X.s, y), kin(Y.s, y), 1e-12, "the state given to a twin without initial condition");
	Motion m = gen_motion(g, y, 1.0, 0.3, 3.0);
	std::vector<double> x, xd, fx(m.d.size() + 1), fy(m.d.size() + 1);
	double tx = 0, ty = 0;
	for (int k = 0; k < 3; k++) {
		m.eval(k * y.dtM, x, xd);
		double h = y.dtM;
		int ex = MoorDyn_Step(X.s, x.data(), xd.data(), fx.data(), &tx, &h);
		h = y.dtM;
		int ey = MoorDyn_Step(Y.s, x.data(), xd.data(), fy.data(), &ty, &h);
		if (ex == MOORDYN_NAN_ERROR || ey == MOORDYN_NAN_ERROR)
			c.discard("unstable");
		if (ex || ey)
			c.fail("step", "a step failed with %d %d", ex, ey);
		Snap a = snap(Y.s, y), b = snap(X.s, y);
		if (!finite_all(a))
			c.discard("unstable");
		double big = 1;
		for (double v : a.v)
			big = std::max(big, fabs(v));
		for (size_t i = 0; i < a.v.size(); i++) {
			c.evals++;
			double s = std::max(1.0, fabs(a.v[i]));
			if (!(fabs(a.v[i] - b.v[i]) <= 1e-9 * s + 1e-14 * big))
				c.fail("after", "step %d after the initial condition: %s is %.15g, and %.15g in a twin that "
				       "was given the same state", k + 1, a.lab[i].c_str(), b.v[i], a.v[i]);
		}
	}
}

// ----------------------------------------------------- dynamic relaxation
void
dynamic(Gen& g, Ctx& c)
{
	GenOpt o;
	o.maxseg = 5;
	o.maxlines = 3;
	Sys y = gen_sys(g, o);
	y.scheme = g.pick(std::vector<std::string>{ "rk2", "euler", "rk4", "heun", "ab2", "ab4", "midpoint3", "leuler", "lab3", "wilson5", "beuler3" });
	y.dtM = exp2(floor(log2(stable_dt(y, 0.03)))); // the sums of steps are exact
	int k = g.range(1, 6), m = g.range(3, 60);
	double f = g.coin() ? g.real(1, 10) : g.real(0.2, 2), th = g.logreal(1e-3, 3), ds = k * y.dtM;
	y.tmaxic = ds * (m - 0.5);
	y.opts.push_back({ "ICgenDynamic", "1" });
	y.opts.push_back({ "dtIC", num(10 * ds) });
	y.opts.push_back({ "CdScaleIC", num(f) });
	y.opts.push_back({ "threshIC", num(th) });
	y.path = "a/sys.txt";
	mkdir("a", 0755);
	mkdir("b", 0755);
	Sys z = y;
	z.path = "b/sys.txt";
	for (auto& t : z.lt)
		t.Cd *= f, t.CdAx *= f;
	for (auto& t : z.rt)
		t.Cd *= f, t.CdEnd *= f;
	for (auto& p : z.points)
		p.cda *= f;
	for (auto& b : z.bodies)
		for (double& v : b.cda)
			v *= f;
	y.write();
	z.write();
	c.note("k %d m %d f %g th %g\n%s", k, m, f, th, y.text().c_str());
	MD X(y.path), Z(z.path);
	init(c, Z, z, false);
	Snap s0 = kin(Z.s, z);
	auto x = coupled_x0(y);
	x.push_back(0);
	std::vector<double> xd(x.size(), 0), ff(x.size());
	std::vector<std::vector<double>> T;
	double t = 0;
	bool conv = false;
	int samples = 0;
	double margin = INFINITY;
	for (int i = 1; i <= m && !conv; i++) {
		for (int j = 0; j < k; j++) {
			double h = y.dtM;
			int e = MoorDyn_Step(Z.s, x.data(), xd.data(), ff.data(), &t, &h);
			if (e == MOORDYN_NAN_ERROR)
				c.discard("unstable");
			if (e)
				c.fail("step", "a step of the relaxation failed with %d", e);
		}
		samples = i;
		std::vector<double> ten;
		for (size_t l = 0; l < y.lines.size(); l++)
			ten.push_back(norm(lten(Z.s, l + 1, y.lines[l].n)));
		for (double v : ten)
			if (v < 1e-6)
				c.discard("slack");
		T.push_back(ten);
		if (i >= 10) {
			double w = 0;
			for (size_t l = 0; l < ten.size(); l++)
				for (int j = i - 10; j < i - 1; j++)
					w = std::max(w, fabs(ten[l] / T[j][l] - 1));
			if (!(w < 1e300))
				c.discard("slack");
			margin = std::min(margin, fabs(w / th - 1));
			conv = w <= th;
		}
	}
	if (margin < 1e-6)
		c.discard("on the threshold");
	Snap sz = kin(Z.s, z);
	if (!finite_all(sz))
		c.discard("unstable");
	for (double v : sz.v)
		if (fabs(v) > 1e4)
			c.discard("unstable");
	init(c, X, y, true);
	Snap sx = kin(X.s, y);
	c.tag(conv ? "converged" : "out of time");
	same(c, "dynamic", sz, sx, 1e-6,
	     conv ? "the relaxation until the tensions are steady for dtIC" : "the relaxation for TmaxIC");
	goes_on(g, c, X, y);
	c.nontrivial(sz.v != s0.v);
	(void)samples;
}

// ------------------------------------------------------ stationary solution
void
stationary(Gen& g, Ctx& c)
{
	GenOpt o;
	o.maxseg = 5;
	o.maxlines = 3;
	Sys y = gen_sys(g, o);
	y.scheme = g.pick(std::vector<std::string>{ "rk2", "euler", "rk4", "ab3", "leuler", "midpoint3", "wilson5" });
	y.dtM = stable_dt(y, 0.05);
	bool zero = g.chance(1, 5), dyn = g.chance(1, 6), wet = g.coin();
	int k = g.range(1, 20), m = g.range(1, 20);
	y.tmaxic = zero ? 0 : k * m * y.dtM;
	y.opts.push_back({ "dtIC", num(k * y.dtM) });
	y.opts.push_back({ "threshIC", num(g.logreal(1e-8, 0.1)) });
	if (dyn)
		y.opts.push_back({ "ICgenDynamic", "1" });
	Sys d = y; // without waves
	d.path = "a/sys.txt";
	y.path = "b/sys.txt";
	mkdir("a", 0755);
	mkdir("b", 0755);
	Water W;
	if (wet) {
		int wave = g.pick(std::vector<int>{ 7, 2, 3, 0 }), cur = g.pick(std::vector<int>{ 0, 1, 2, 5 });
		W = gen_water(g, wave, cur, y.g, y.rho, y.depth, [&](double, double) { return -y.depth; }, 1);
		use_water(y, W, false);
		std::string path = d.path;
		d = y;
		d.path = path;
		for (size_t i = 0; i < d.opts.size(); i++)
			if (d.opts[i].first == "WaveKin")
				d.opts.erase(d.opts.begin() + i--);
		c.tag("waves");
	}
	d.write();
	y.write();
	c.note("%s", y.text().c_str());
	c.tag(zero ? "no time" : dyn ? "dynamic" : "stationary");
	MD X(y.path), D(d.path), Z(y.path);
	init(c, X, y, true);
	init(c, D, d, true);
	init(c, Z, y, false);
	Snap x = kin(X.s, y), z = kin(Z.s, y);
	if (!finite_all(x))
		c.discard("unstable");
	same(c, "waves", kin(D.s, d), x, 0, "waves during the initial condition");
	if (zero)
		same(c, "no-time", z, x, 0, "initial condition without time (TmaxIC 0)");
	for (size_t i = 0; i < x.v.size(); i++) {
		const std::string& n = x.lab[i];
		c.evals++;
		if (!dyn && (n.find(".vel") != std::string::npos || n.find(".v") != std::string::npos) && x.v[i] != 0)
			c.fail("rest", "%s is %g after the stationary solution", n.c_str(), x.v[i]);
		if (n.find("unstretched") != std::string::npos && x.v[i] != z.v[i])
			c.fail("length", "%s is %.15g after the initial condition, it was %.15g", n.c_str(), x.v[i], z.v[i]);
	}
	bool moved = x.v != z.v;
	// the water is that of the start of the simulation
	if (wet) {
		std::vector<double> cx = coupled_x0(y), xd(cx.size() + 1, 0), f(cx.size() + 1);
		cx.push_back(0);
		double ta = 0, tb = 0;
		for (int q = 0; q < 2; q++) {
			for (int i = 0; i < 4; i++) {
				double X0 = g.sym(20), Y0 = g.sym(20), Z0 = -g.real(0, 30);
				double U[2][3], A[2][3], e[2], p[2];
				int r0 = MoorDyn_GetWavesKin(MoorDyn_GetWaves(X.s), X0, Y0, Z0, U[0], A[0], &e[0], &p[0], NULL);
				int r1 = MoorDyn_GetWavesKin(MoorDyn_GetWaves(Z.s), X0, Y0, Z0, U[1], A[1], &e[1], &p[1], NULL);
				if (r0 != r1)
					c.fail("water", "GetWavesKin returns %d with the initial condition, %d without", r0, r1);
				if (!r0)
					for (int j = 0; j < 3; j++)
						if (!(U[0][j] == U[1][j] && A[0][j] == A[1][j]) || e[0] != e[1])
							c.fail("water", "the water moves at (%g %g %g), elevation %g, after the initial "
							       "condition, and (%g %g %g), elevation %g, without it", U[0][0], U[0][1],
							       U[0][2], e[0], U[1][0], U[1][1], U[1][2], e[1]);
			}
			double h = y.dtM;
			int e0 = MoorDyn_Step(X.s, cx.data(), xd.data(), f.data(), &ta, &h);
			h = y.dtM;
			int e1 = MoorDyn_Step(Z.s, cx.data(), xd.data(), f.data(), &tb, &h);
			if (e0 || e1)
				c.discard("unstable");
		}
	} else
		goes_on(g, c, X, y);
	c.nontrivial(zero || moved);
}

// --------------------------------------------------------------- at rest
void
neutral(Gen& g, Ctx& c)
{
	Sys y;
	y.rho = 1000;
	y.depth = 100;
	LType t;
	t.name = "a";
	t.w = 30;
	t.EA = 1e5;
	y.lt.push_back(t);
	RType r;
	r.name = "n";
	r.d = 0.5;
	r.w = y.rho * M_PI / 4 * r.d * r.d;
	y.rt.push_back(r);
	y.points.resize(2);
	y.points[0].attach = y.points[1].attach = "Fixed";
	y.points[0].r = { 0, 0, -50 };
	y.points[1].r = { 20, 0, -40 };
	SLine l;
	l.a.id = 1;
	l.b.id = 2;
	l.len = 20;
	l.n = 4;
	y.lines.push_back(l);
	auto pos = [&] { return V3{ g.sym(50), g.sym(50), -g.real(10, 80) }; };
	for (int i = 0, n = g.range(0, 3); i < n; i++) {
		SBody b;
		b.type = g.pick(std::vector<std::string>{ "Free", "Free", "CoupledPinned" });
		b.r = pos();
		b.ang = { g.sym(179), g.sym(80), g.sym(179) };
		b.m = g.real(500, 5000);
		b.v = b.m / y.rho;
		for (int j = 0; j < 3; j++)
			b.I[j] = floor(b.m * g.real(0.5, 3));
		y.bodies.push_back(b);
	}
	for (int i = 0, n = g.range(y.bodies.empty() ? 1 : 0, 2); i < n; i++) {
		SRod q;
		q.attach = g.pick(std::vector<std::string>{ "Free", "Pinned", "CoupledPinned" });
		q.a = pos();
		V3 dir{ g.sym(1), g.sym(1), g.sym(1) };
		if (norm(dir) < 0.2)
			dir = { 1, 0, 0 };
		q.b = q.a + g.real(1, 8) * unit(dir);
		q.n = g.range(1, 5);
		y.rods.push_back(q);
	}
	if (g.coin()) {
		SPoint p;
		p.attach = "Free";
		p.r = pos();
		p.v = 0.125;
		p.m = 125;
		y.points.push_back(p);
	}
	y.dtM = 0.002;
	y.tmaxic = g.real(0.1, 5);
	y.opts.push_back({ "dtIC", "0.05" });
	y.opts.push_back({ "threshIC", "1e-9" });
	bool dyn = g.chance(1, 4);
	if (dyn)
		y.opts.push_back({ "ICgenDynamic", "1" });
	y.write();
	c.note("%s", y.text().c_str());
	c.tag(dyn ? "neutral, dynamic" : "neutral");
	MD X(y.path), Z(y.path);
	init(c, Z, y, false);
	init(c, X, y, true);
	auto near = [&](const std::string& what, V3 a, V3 b) {
		c.evals++;
		c.metric("neutral (m)", norm(a - b));
		if (!(norm(a - b) < 1e-6))
			c.fail("neutral", "%s, in equilibrium, went from (%.9g %.9g %.9g) to (%.9g %.9g %.9g)", what.c_str(),
			       a.x, a.y, a.z, b.x, b.y, b.z);
	};
	for (size_t i = 1; i <= y.bodies.size(); i++) {
		double a[6], b[6], v[6];
		MoorDyn_GetBodyState(MoorDyn_GetBody(Z.s, i), a, v);
		MoorDyn_GetBodyState(MoorDyn_GetBody(X.s, i), b, v);
		near("body " + std::to_string(i), { a[0], a[1], a[2] }, { b[0], b[1], b[2] });
		M3 R = euler({ a[3], a[4], a[5] }), S = euler({ b[3], b[4], b[5] });
		for (int u = 0; u < 3; u++) {
			V3 x{ double(u == 0), double(u == 1), double(u == 2) };
			near("an axis of body " + std::to_string(i), R * x, S * x);
		}
	}
	for (size_t i = 1; i <= y.rods.size(); i++)
		for (int k : { 0, y.rods[i - 1].n })
			near("rod " + std::to_string(i) + " node " + std::to_string(k), rpos(Z.s, i, k), rpos(X.s, i, k));
	for (size_t i = 3; i <= y.points.size(); i++)
		near("point " + std::to_string(i), ppos(Z.s, i), ppos(X.s, i));
	double moved = 0;
	for (int k = 0; k <= l.n; k++)
		moved = std::max(moved, norm(lpos(X.s, 1, k) - lpos(Z.s, 1, k)));
	c.nontrivial(moved > 1e-6);
}
// weight plus elastic energy
double
energy(MoorDyn s, const Sys& y, double& scale)
{
	double U = 0;
	auto add = [&](double u) { U += u, scale += fabs(u); };
	for (size_t i = 0; i < y.lines.size(); i++) {
		auto& l = y.lines[i];
		auto& t = y.lt[l.type];
		double dl = l.len / l.n, W = (t.w - y.rho * t.A()) * y.g * dl;
		for (int k = 0; k < l.n; k++) {
			V3 a = lpos(s, i + 1, k), b = lpos(s, i + 1, k + 1);
			double e = std::max(0.0, norm(b - a) - dl);
			add(0.5 * t.EA / dl * e * e);
			add(W * (a.z + b.z) / 2);
		}
	}
	for (size_t i = 0; i < y.points.size(); i++)
		if (y.points[i].attach == "Free")
			add((y.points[i].m - y.rho * y.points[i].v) * y.g * ppos(s, i + 1).z);
	return U;
}
void
equilibrium(Gen& g, Ctx& c)
{
	GenOpt o;
	o.maxseg = 6;
	o.bodies = o.rods = o.friction = o.curves = o.bending = o.seabed = o.surface = false;
	Sys y = gen_sys(g, o);
	y.depth = 1000;
	y.dtM = stable_dt(y, 0.1);
	int n = g.range(10, 2000);
	y.tmaxic = n * y.dtM;
	y.opts.push_back({ "dtIC", num(g.range(1, 20) * y.dtM) });
	y.opts.push_back({ "threshIC", "1e-12" });
	y.write();
	c.note("%s", y.text().c_str());
	MD X(y.path), Z(y.path);
	init(c, X, y, true);
	init(c, Z, y, false);
	double sc = 1, u0 = energy(Z.s, y, sc), u1 = energy(X.s, y, sc);
	for (size_t i = 1; i <= y.points.size(); i++)
		if (ppos(X.s, i).z > -1)
			c.discard("surface");
	for (MD* m : { &X, &Z })
		for (size_t i = 0; i < y.lines.size(); i++)
			for (int k = 0; k <= y.lines[i].n; k++)
				if (lpos(m->s, i + 1, k).z > -0.5)
					c.discard("surface");
	c.evals++;
	c.metric("energy", (u1 - u0) / sc);
	if (!(u1 <= u0 + 1e-9 * sc))
		c.fail("energy", "the potential energy grew from %.12g to %.12g in the stationary initial condition", u0, u1);
	c.nontrivial(u1 < u0 - 1e-6 * sc);
}
} // namespace

void
run_case(Gen& g, Ctx& c)
{
	switch (g.weighted({ 4, 3, 3, 1, 2 })) {
		case 0: c.tag("profile"); return profiles(g, c);
		case 1: c.tag("dynamic IC"); return dynamic(g, c);
		case 2: c.tag("stationary IC"); return stationary(g, c);
		case 3: return neutral(g, c);
		default: c.tag("equilibrium"); return equilibrium(g, c);
	}
}
