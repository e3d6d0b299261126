// P05: loads and masses of the line nodes
#include "loads.hpp"
const char* PROP_ID = "P05";
const char* PROP_RULE =
    "non-trivial: at least one step was integrated before the checked one and the checked state "
    "has a line with a stretched segment or a line touching the seabed, plus at least one interior "
    "node with non-zero velocity";
int PROP_CPU_LIMIT = 30;

void
run_case(Gen& g, Ctx& c)
{
	Loads L;
	LoadOpt o;
	o.gen.maxlines = 3;
	drive(g, c, L, o);
	MoorDyn s = L.md.s;
	const Sys& y = L.y;
	for (size_t i = 0; i < y.lines.size(); i++) {
		auto& F = L.lf[i];
		auto& K = L.lines[i];
		const LType& t = y.lt[y.lines[i].type];
		int n = K.r.size() - 1;
		if (F.friction_edge)
			c.discard("friction at the saturation level");
		if (F.surface_edge)
			c.discard("node exactly at the free surface");
		bool moving = false;
		for (int k = 1; k < n; k++)
			moving = moving || norm(K.v[k]) > 1e-9;
		c.nontrivial(moving && (!F.compressed || F.bottom || n > 1));
		if (F.bottom)
			c.tag("seabed");
		if (F.wet && F.dry)
			c.tag("surface crossing");
		if (F.bent)
			c.tag("bending");
		if (F.compressed)
			c.tag("slack segment");
		if (t.ea.x.size())
			c.tag("tabulated stiffness");
		if (t.ba.x.size())
			c.tag("tabulated damping");
		if (t.ei.x.size())
			c.tag("tabulated bending");
		if (L.external)
			c.tag("moving water");
		MoorDynLine l = MoorDyn_GetLine(s, i + 1);
		double tmax = 0;
		for (int k = 0; k <= n; k++) {
			std::string N = "line " + std::to_string(i + 1) + " node " + std::to_string(k) + " ";
			double tol = 1e-10 * F.scale[k] + F.bscale[k] + 1e-9;
			check_vec(c, "tension", N + "tension", lten(s, i + 1, k), F.ten[k], tol);
			check_vec(c, "weight", N + "weight", lweight(s, i + 1, k), F.W[k], tol);
			check_vec(c, "drag", N + "drag", ldrag(s, i + 1, k), F.D[k], tol);
			check_vec(c, "froude-krylov", N + "Froude-Krylov force", lfk(s, i + 1, k), F.FK[k],
			          tol);
			check_vec(c, "seabed", N + "seabed reaction", lseabed(s, i + 1, k), F.B[k], tol);
			check_vec(c, "bending", N + "bending force", lbend(s, i + 1, k), F.Bs[k], tol);
			check_vec(c, "force", N + "net force", lforce(s, i + 1, k), F.F[k], tol);
			M3 M = lmass(s, i + 1, k);
			double md = maxabs(M - F.M[k]);
			c.evals += 9;
			if (!(md <= 1e-9 * (1e-6 + maxabs(F.M[k]))))
				c.fail("mass", "%smass matrix differs by %g (%g)", N.c_str(), md,
				       maxabs(F.M[k]));
			double kc = lcurv(s, i + 1, k);
			double kt = 1e-6 * (1 + 1 / (K.len / n));
			if (!(std::fabs(kc - F.K[k]) <= kt))
				c.fail("curvature", "%scurvature is %g, expected %g", N.c_str(), kc, F.K[k]);
			tmax = std::max(tmax, norm(F.ten[k]));
			// Newton's second law for the interior nodes
			if (k > 0 && k < n) {
				V3 a = solve(F.M[k], F.F[k]);
				V3 v = lvel(s, i + 1, k), want = K.v[k] + L.dt * a;
				double m = norm(a) / (1e-300 + norm(F.F[k]));
				check_vec(c, "acceleration", N + "velocity after the step", v, want,
				          1e-9 * (norm(K.v[k]) + 1e-3) + L.dt * m * 3 * tol);
				check_vec(c, "advance", N + "position after the step", lpos(s, i + 1, k),
				          K.r[k] + L.dt * K.v[k], 1e-9);
			}
		}
		double q = 0, fa = 0, mt = 0;
		MoorDyn_GetLineMaxTen(l, &mt);
		MoorDyn_GetLineFairTen(l, &q);
		(void)fa;
		double tol = 0;
		for (int k = 0; k <= n; k++)
			tol = std::max(tol, 1e-10 * F.scale[k] + 1e-9);
		if (!(std::fabs(q - norm(F.ten[n])) <= tol))
			c.fail("fairten", "line %zu fairlead tension is %g, expected %g", i + 1, q,
			       norm(F.ten[n]));
		if (!(std::fabs(mt - tmax) <= tol))
			c.fail("maxten", "line %zu maximum tension is %g, expected %g", i + 1, mt, tmax);
	}
}
