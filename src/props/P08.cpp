// P08: loads and inertia of the rods
#include "loads.hpp"
const char* PROP_ID = "P08";
const char* PROP_RULE =
    "non-trivial: a rod with computed loads (not fixed to the ground) whose reference load is not "
    "null and that is moving, has lines attached, crosses the surface or touches the seabed";
int PROP_CPU_LIMIT = 30;

void
run_case(Gen& g, Ctx& c)
{
	Loads L;
	LoadOpt o;
	o.gen.maxlines = 3;
	o.gen.maxseg = 4;
	o.gen.zerorods = false;
	o.tweak = [](Gen& g, Sys& y) {
		// make sure that there are rods, often crossing the surface
		if (y.rods.empty())
			throw Discard{ "no rods" };
		for (auto& r : y.rods)
			if (!attach_body(r.attach) && g.chance(1, 3)) {
				double dz = -0.5 * (r.a.z + r.b.z) + g.sym(1.5, 60);
				if (y.depth > 100) {
					r.a.z += dz;
					r.b.z += dz;
				}
			} else if (!attach_body(r.attach) && y.depth < 100 && g.chance(1, 3)) {
				// lower the rod until it touches the seabed
				double dz = -y.depth - std::min(r.a.z, r.b.z) + 0.001 * g.range(1, 100);
				if (dz < 0) {
					r.a.z += dz;
					r.b.z += dz;
				}
			}
		// the lines follow the displaced rods
		for (auto& l : y.lines) {
			double d = norm(end_pos(y, l.a) - end_pos(y, l.b));
			if (d < 1)
				throw Discard{ "degenerated line" };
			if (l.len < 0.9 * d || l.len > 1.4 * d)
				l.len = std::floor(100 * d * 1.05) / 100;
		}
	};
	drive(g, c, L, o);
	MoorDyn s = L.md.s;
	const Sys& y = L.y;
	for (auto& F : L.lf)
		if (F.friction_edge || F.surface_edge)
			c.discard("non-smooth state");
	size_t ix = 0;
	for (auto& b : y.bodies)
		ix += b.type == "Coupled" ? 6 : b.type == "CoupledPinned" ? 3 : 0;
	for (size_t i = 0; i < y.rods.size(); i++) {
		auto& S = y.rods[i];
		int bo = attach_body(S.attach);
		bool pinned = is_pinned(S.attach);
		bool c6 = S.attach == "Coupled", c3 = S.attach == "CoupledPinned";
		size_t my = ix;
		ix += c6 ? 6 : c3 ? 3 : 0;
		if (S.attach == "Fixed" || (bo && !pinned && y.bodies[bo - 1].type == "Fixed"))
			continue;
		auto ea = ends_at(L, true, i + 1, false), eb = ends_at(L, true, i + 1, true);
		RodF R = ref_rod(y, y.rt[S.type], L.rods[i], ea, eb, L.depth);
		if (R.edge)
			continue;
		double bs = 0, sc = R.scale;
		for (size_t l = 0; l < y.lines.size(); l++)
			for (int e = 0; e < 2; e++) {
				const SEnd& E = e ? y.lines[l].b : y.lines[l].a;
				if (E.rod && E.id == (int)i + 1) {
					size_t n = e ? L.lf[l].F.size() - 1 : 0;
					sc += L.lf[l].scale[n];
					bs += L.lf[l].bscale[n] * (1 + y.lines[l].len);
				}
			}
		std::string N = "rod " + std::to_string(i + 1) + " (" + S.attach + ") ";
		c.nontrivial(true);
		c.tag("rod " + std::string(bo ? "of a body" : "") + (pinned ? "pinned" : "") +
		      (bo ? "" : S.attach));
		if (R.crossing)
			c.tag(L.rods[i].q.z > 0 ? "crossing the surface" : "crossing the surface upside down");
		if (R.bottom)
			c.tag("on the seabed");
		if (ea.size() + eb.size())
			c.tag("with lines");
		double f[6], m[6][6];
		MoorDynRod r = MoorDyn_GetRod(s, i + 1);
		MoorDyn_GetRodForce(r, f);
		MoorDyn_GetRodM(r, m);
		double mt = 0, md = 0;
		for (int k = 0; k < 36; k++) {
			mt = std::max(mt, std::fabs(R.M[k / 6][k % 6]));
			md = std::max(md, std::fabs(R.M[k / 6][k % 6] - m[k / 6][k % 6]));
		}
		c.evals += 36;
		if (!(md <= 1e-8 * mt + R.vertM))
			c.fail("rod-mass", "%smass matrix differs by %g (%g)", N.c_str(), md, mt);
		V6 F = R.F;
		double tol = 1e-9 * sc * (1 + L.rods[i].len) + bs + 1e-8 + R.vert;
		if (c6 || c3) {
			V6 a;
			for (int k = 0; k < 3; k++) {
				a.f[k] = (L.xd[my + k] - L.xdprev[my + k]) / L.dt;
				if (c6)
					a.m[k] = (L.xd[my + 3 + k] - L.xdprev[my + 3 + k]) / L.dt;
			}
			if (c3)
				a.m = solve(block(R.M, 1, 1), R.F.m - block(R.M, 1, 0) * a.f);
			F.f = F.f - block(R.M, 0, 0) * a.f - block(R.M, 0, 1) * a.m;
			F.m = F.m - block(R.M, 1, 0) * a.f - block(R.M, 1, 1) * a.m;
			tol += (1e-10 * mt + R.vertM) * (norm(a.f) + norm(a.m));
			if (c3 && R.vertM > 0)
				continue;
			if (c3) {
				// the rotational balance is ill conditioned for slender rods
				F.m = {};
				tol += 1e-7 * norm(a.m) * mt;
			}
			if (norm(a.f) > 1e-6)
				c.tag("accelerated by the host");
		}
		check_vec(c, "rod-force", N + "force", { f[0], f[1], f[2] }, F.f, tol);
		check_vec(c, "rod-moment", N + "moment", { f[3], f[4], f[5] }, F.m, tol);
		// equations of motion
		if (S.attach == "Free") {
			V6 a = solve(R.M, R.F);
			double at = 1e-6 * (norm(a.f) + norm(a.m) * (1 + L.rods[i].len));
			if (R.vert + R.vertM > 0)
				continue;
			V3 v = rvel(s, i + 1, 0);
			check_vec(c, "rod-acceleration", N + "end A velocity after the step", v,
			          L.rods[i].v[0] + L.dt * a.f,
			          1e-9 * (norm(L.rods[i].v[0]) + 1e-3) + L.dt * at);
			check_vec(c, "rod-advance", N + "end A position after the step", rpos(s, i + 1, 0),
			          L.rods[i].a + L.dt * L.rods[i].v[0], 1e-9);
		}
	}
}
