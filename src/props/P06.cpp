// P06: the unstretched length of the lines follows what the host asked for
#include "loads.hpp"
const char* PROP_ID = "P06";
const char* PROP_RULE =
    "non-trivial: some line was given a payout rate or a new length, and at least 2 steps were "
    "integrated";
int PROP_CPU_LIMIT = 30;

static const std::vector<std::string> SCHEMES = {
	"rk2", "euler", "leuler", "heun", "rk4", "ab2", "ab3", "ab4", "lab2", "lab3", "lab4", "beuler3",
	"midpoint3", "aca5", "wilson5", "anderson5" };

void
run_case(Gen& g, Ctx& c)
{
	GenOpt o;
	o.maxlines = 4;
	o.maxseg = 5;
	Sys y = gen_sys(g, o);
	if (y.lines.empty())
		c.discard("no lines");
	y.scheme = g.pick(SCHEMES);
	y.dtM = stable_dt(y, 0.04);
	y.opts.push_back({ "dtIC", "0.1" });
	y.tmaxic = 0.3;
	// the initial condition of very stiff systems takes too many steps
	bool noic = g.chance(7, 8) || y.dtM < 2e-5;
	double dt = y.dtM * g.range(1, 5);
	if (g.coin())
		dt *= 0.9;
	Motion m = gen_motion(g, y, 0.5, 0.3, 3.0);
	size_t nl = y.lines.size();
	// lengths which are given as a fraction of the distance between the ends
	std::vector<double> frac(nl, 0);
	Sys z = y;
	for (size_t i = 0; i < nl; i++)
		if (g.chance(1, 6)) {
			double d = norm(end_pos(y, y.lines[i].a) - end_pos(y, y.lines[i].b));
			if (d < 0.3 || y.lines[i].len < 0.3 * d)
				continue;
			frac[i] = y.lines[i].len / d;
			z.lines[i].len = -frac[i];
		}
	z.write();
	c.note("scheme %s dt %g noic %d\n%s", y.scheme.c_str(), dt, noic, z.text().c_str());
	MD a(z.path);
	if (!a.s)
		c.fail("create", "a valid system was rejected");
	MoorDyn s = a.s;
	std::vector<double> x, xd, f(m.d.size() + 1);
	m.eval(0, x, xd);
	if (!noic)
		std::fill(xd.begin(), xd.end(), 0.0);
	// the ends when the length is decided
	int e = noic ? MoorDyn_Init_NoIC(s, x.data(), xd.data()) : MoorDyn_Init(s, x.data(), xd.data());
	if (e == MOORDYN_NAN_ERROR)
		c.discard("unstable initial condition");
	if (e)
		c.fail("init", "initialisation failed with %d", e);
	std::vector<double> len(nl), rate(nl, 0), prev(nl);
	for (size_t i = 0; i < nl; i++) {
		len[i] = y.lines[i].len;
		if (frac[i] && !noic) // the ends may have moved since then
			MoorDyn_GetLineUnstretchedLength(MoorDyn_GetLine(s, i + 1), &len[i]);
		else if (frac[i]) {
			unsigned n = 0;
			MoorDyn_GetLineN(MoorDyn_GetLine(s, i + 1), &n);
			len[i] = frac[i] * norm(lpos(s, i + 1, 0) - lpos(s, i + 1, n));
			c.tag("fraction of the distance");
		}
	}
	prev = len;
	std::vector<double> grown(nl, 0); // in the last step
	auto check = [&](const char* when, double rel = 1e-13) {
		for (size_t i = 0; i < nl; i++) {
			double l = NAN;
			if (MoorDyn_GetLineUnstretchedLength(MoorDyn_GetLine(s, i + 1), &l))
				c.fail("getter", "MoorDyn_GetLineUnstretchedLength failed");
			c.evals++;
			if (!(std::fabs(l - len[i]) <= rel * std::fabs(len[i]) + 1e-9 * std::fabs(grown[i])))
				c.fail("length", "%s the length of line %zu is %.15g, expected %.15g", when, i + 1, l,
				       len[i]);
			len[i] = l;
			grown[i] = 0;
		}
	};
	check("after the initialization", 1e-9);
	int steps = 0, sets = 0, n = g.range(2, 14);
	double t = 0;
	for (int k = 0; k < n; k++) {
		int i = g.range(0, nl - 1);
		MoorDynLine l = MoorDyn_GetLine(s, i + 1);
		switch (g.weighted({ 4, 2, 1, 1 })) {
			case 0: {
				m.eval(t, x, xd);
				double h = dt;
				e = MoorDyn_Step(s, x.data(), xd.data(), f.data(), &t, &h);
				if (e == MOORDYN_NAN_ERROR)
					c.discard("unstable");
				if (e)
					c.fail("step", "step failed with %d", e);
				for (size_t q = 0; q < nl; q++) {
					prev[q] = len[q];
					grown[q] = rate[q] * dt;
					len[q] += grown[q];
				}
				steps++;
				check("after a step");
				if (!finite_all(snap(s, y, SNAP_KIN)))
					c.discard("non-finite state");
				// the weight is that of a length between both ends of the step
				for (size_t q = 0; q < nl; q++) {
					const LType& T = y.lt[y.lines[q].type];
					unsigned N = 0;
					MoorDyn_GetLineN(MoorDyn_GetLine(s, q + 1), &N);
					double w = 0, top = -1e9, vel = 0;
					for (unsigned j = 0; j <= N; j++) {
						w += lweight(s, q + 1, j).z;
						top = std::max(top, lpos(s, q + 1, j).z);
						vel = std::max(vel, norm(lvel(s, q + 1, j)));
					}
					if (top > -0.5 - 2 * vel * dt || !sets)
						continue;
					double u = -y.g * (T.w - y.rho * T.A());
					// Wilson's scheme looks further than the end of the step
					double fin = y.scheme[0] == 'w' ? prev[q] + 2 * (len[q] - prev[q]) : len[q];
					double lo = std::min(u * prev[q], u * fin), hi = std::max(u * prev[q], u * fin);
					double tol = 1e-9 * (T.w + y.rho * T.A()) * y.g * std::max(len[q], prev[q]);
					c.evals++;
					bool local = y.scheme[0] == 'l'; // the line might not be computed this time
					if (!local && !(w >= lo - tol && w <= hi + tol))
						c.fail("weight", "the weight of line %zu is %.12g, out of %.12g %.12g", q + 1, w,
						       lo, hi);
				}
				break;
			}
			case 1: {
				double v = g.sym(0.2, 20) * y.lines[i].len / (n * dt);
				if (g.coin()) // down to very slow winches
					v *= std::pow(10, -g.range(1, 8));
				c.note("rate of %d: %g\n", i + 1, v);
				if (MoorDyn_SetLineUnstretchedLengthVel(l, v))
					c.fail("setter", "MoorDyn_SetLineUnstretchedLengthVel failed");
				rate[i] = v;
				sets += v != 0;
				c.tag(v ? "rate" : "stop");
				check("after setting a rate");
				break;
			}
			case 2: {
				double v = y.lines[i].len * g.real(0.8, 1.2);
				c.note("length of %d: %g\n", i + 1, v);
				if (MoorDyn_SetLineUnstretchedLength(l, v))
					c.fail("setter", "MoorDyn_SetLineUnstretchedLength failed");
				len[i] = v;
				sets++;
				c.tag(rate[i] ? "length set while paying out" : "length set");
				check("after setting a length");
				break;
			}
			default: {
				// a checkpoint and a change of scheme do not disturb the reel
				if (g.coin()) {
					size_t sz = 0;
					MoorDyn_Serialize(s, &sz, nullptr);
					std::vector<uint64_t> d(sz / 8 + 1);
					if (MoorDyn_Serialize(s, nullptr, d.data()) || MoorDyn_Deserialize(s, d.data()))
						c.fail("checkpoint", "the checkpoint failed");
					check("after a checkpoint");
				} else {
					y.scheme = g.pick(SCHEMES);
					c.note("scheme %s\n", y.scheme.c_str());
					if (MoorDyn_SetTimeScheme(s, y.scheme.c_str()))
						c.fail("scheme", "MoorDyn_SetTimeScheme failed");
					check("after setting the scheme");
				}
			}
		}
	}
	c.tag("scheme:" + y.scheme);
	c.nontrivial(sets && steps >= 2);
}
