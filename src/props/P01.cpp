// P01: checkpoint / restore is transparent
#include "model.hpp"
const char* PROP_ID = "P01";
const char* PROP_RULE =
    "non-trivial: at least one step before and two steps after the checkpoint, with all "
    "observables finite and at least one line node that moves after the checkpoint";
int PROP_CPU_LIMIT = 30;

static const std::vector<std::string> SCHEMES = { "rk2",  "euler", "leuler",  "heun",
	                                              "rk4",  "ab2",   "ab3",     "ab4",
	                                              "lab2", "lab3",  "lab4",    "beuler3",
	                                              "midpoint3", "aca5", "wilson5", "anderson5" };

static void
compare(Ctx& c, const char* sig, const Snap& a, const Snap& b, const char* what, double tol)
{
	if (a.v.size() != b.v.size())
		c.fail(sig, "%s: different number of observables", what);
	// magnitudes per quantity kind
	for (size_t i = 0; i < a.v.size(); i++) {
		c.evals++;
		double d = std::fabs(a.v[i] - b.v[i]);
		double s = std::max(1.0, std::max(std::fabs(a.v[i]), std::fabs(b.v[i])));
		c.metric("rel_diff", d / s);
		if (!(d <= tol * s))
			c.fail(sig, "%s: %s is %.17g, expected %.17g", what, a.lab[i].c_str(), b.v[i], a.v[i]);
	}
}

void
run_case(Gen& g, Ctx& c)
{
	Sys y = gen_sys(g);
	y.scheme = g.pick(SCHEMES);
	bool noic = g.chance(3, 4);
	y.tmaxic = 0.5;
	y.dtM = stable_dt(y, 0.05);
	y.opts.push_back({ "dtIC", "0.1" });
	noic = noic || y.dtM < 4e-5; // the initial condition takes too many steps
	int nsub = g.range(1, 4);
	double dt = y.dtM * nsub;
	if (g.coin())
		dt *= 0.875; // not a multiple of the internal step
	int n1 = g.range(1, 12), n2 = g.range(2, 12);
	bool via_file = g.coin();
	bool fresh = g.coin();
	int extra = g.range(0, 5); // steps past the checkpoint before rolling back
	Motion m = gen_motion(g, y, 1.0, 0.3, 3.0);
	int payout = g.weighted({ 3, 1, 1 });
	double payv = payout ? g.real(0.9, 1.1) : 0;
	y.write();
	c.note("scheme %s dt %g n1 %d n2 %d file %d fresh %d extra %d payout %d %g noic %d\n%s",
	       y.scheme.c_str(), dt, n1, n2, via_file, fresh, extra, payout, payv, noic,
	       y.text().c_str());
	c.tag("scheme:" + y.scheme);
	c.tag(via_file ? "via:file" : "via:memory");
	c.tag(fresh ? "into:fresh" : "into:same");
	if (payout)
		c.tag("payout");

	std::vector<double> x, xd, f(m.d.size() + 1);
	auto init = [&](MD& s) {
		m.eval(0, x, xd);
		int e = noic ? MoorDyn_Init_NoIC(s.s, x.data(), xd.data())
		             : MoorDyn_Init(s.s, x.data(), xd.data());
		if (e == MOORDYN_NAN_ERROR)
			c.discard("unstable initial condition");
		if (e)
			c.fail("init", "initialisation of a valid system failed with %d", e);
	};
	auto step = [&](MD& s, int k, double& t) {
		m.eval(k * dt, x, xd);
		double h = dt;
		int e = MoorDyn_Step(s.s, x.data(), xd.data(), f.data(), &t, &h);
		if (e == MOORDYN_NAN_ERROR)
			c.discard("unstable");
		if (e)
			c.fail("step", "step failed with %d", e);
	};
	auto pay = [&](MD& s) {
		if (!payout)
			return;
		MoorDynLine l = MoorDyn_GetLine(s.s, 1);
		if (payout == 1)
			MoorDyn_SetLineUnstretchedLength(l, y.lines[0].len * payv);
		else
			MoorDyn_SetLineUnstretchedLengthVel(l, y.lines[0].len * (payv - 1.0));
	};
	// uninterrupted reference run
	std::vector<Snap> ref;
	std::vector<std::vector<double>> reff;
	std::vector<double> reft;
	double t = 0;
	{
		MD a(y.path);
		if (!a.s)
			c.fail("create", "a valid system was rejected");
		init(a);
		for (int k = 0; k < n1 + n2; k++) {
			if (k == n1 / 2)
				pay(a);
			step(a, k, t);
			ref.push_back(snap(a.s, y));
			reff.push_back(f);
			reft.push_back(t);
			if (!finite_all(ref.back()))
				c.discard("non-finite state");
		}
	}
	// run with a checkpoint
	MD b(y.path);
	init(b);
	t = 0;
	for (int k = 0; k < n1; k++) {
		if (k == n1 / 2)
			pay(b);
		step(b, k, t);
	}
	compare(c, "reproducible", ref[n1 - 1], snap(b.s, y), "re-run before the checkpoint", 1e-9);
	std::vector<uint64_t> data;
	int e;
	if (via_file) {
		e = MoorDyn_Save(b.s, "chk.dat");
	} else {
		size_t sz = 0;
		e = MoorDyn_Serialize(b.s, &sz, NULL);
		data.resize(sz / sizeof(uint64_t) + 1);
		if (!e)
			e = MoorDyn_Serialize(b.s, &sz, data.data());
	}
	if (e)
		c.fail("save", "saving failed with %d", e);
	compare(c, "save-disturbs", ref[n1 - 1], snap(b.s, y), "state right after saving", 0);
	for (int k = 0; k < extra; k++) {
		step(b, n1 + k, t);
		if (n1 + k < n1 + n2)
			compare(c, "save-disturbs", ref[n1 + k], snap(b.s, y), "run after saving", 1e-9);
	}
	MD fr;
	MD* r = &b;
	if (fresh) {
		b.close();
		fr.s = MoorDyn_Create(y.path.c_str());
		MoorDyn_SetVerbosity(fr.s, MOORDYN_NO_OUTPUT);
		init(fr);
		r = &fr;
	}
	e = via_file ? MoorDyn_Load(r->s, "chk.dat") : MoorDyn_Deserialize(r->s, data.data());
	if (e)
		c.fail("load", "restoring failed with %d", e);
	// the payout speed is a control input of the host, like the coupled motions
	if (fresh && payout == 2)
		pay(*r);
	compare(c, "restored-state", ref[n1 - 1], snap(r->s, y), "state right after restoring", 1e-9);
	bool moved = false;
	for (int k = n1; k < n1 + n2; k++) {
		step(*r, k, t);
		c.evals++;
		if (std::fabs(t - reft[k]) > 1e-9 * (1 + t))
			c.fail("restored-time", "time after restoring is %.17g, expected %.17g", t, reft[k]);
		Snap s = snap(r->s, y);
		compare(c, "continuation", ref[k], s, "continuation after restoring", 1e-9);
		for (size_t i = 0; i < m.d.size(); i++) {
			c.evals++;
			if (!(std::fabs(f[i] - reff[k][i]) <= 1e-9 * std::max(1.0, std::fabs(f[i]))))
				c.fail("continuation-forces", "coupled force %zu is %.17g, expected %.17g", i, f[i],
				       reff[k][i]);
		}
		moved = moved || s.v != ref[n1 - 1].v;
	}
	c.nontrivial(moved);
}
