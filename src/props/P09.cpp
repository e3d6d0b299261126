// P09: loads and inertia of the bodies
#include "loads.hpp"
const char* PROP_ID = "P09";
const char* PROP_RULE =
    "non-trivial: a free, coupled or coupled-pinned body whose reference load or mass is not null";
int PROP_CPU_LIMIT = 30;

void
run_case(Gen& g, Ctx& c)
{
	Loads L;
	LoadOpt o;
	o.gen.maxlines = 4;
	o.gen.maxseg = 4;
	o.gen.zerorods = false;
	o.angamp = 1.0;
	o.tweak = [](Gen& g, Sys& y) {
		if (y.bodies.empty())
			throw Discard{ "no bodies" };
		for (auto& b : y.bodies) {
			b.ncda = g.pick(std::vector<int>{ 6, 3, 2, 1 });
			if (b.ncda == 1)
				for (int k = 1; k < 6; k++)
					b.cda[k] = b.cda[0];
			if (b.ncda == 2)
				for (int k = 1; k < 6; k++)
					b.cda[k] = b.cda[k / 3 * 3];
			if (b.ncda == 3)
				for (int k = 3; k < 6; k++)
					b.cda[k] = b.cda[k - 3];
		}
	};
	drive(g, c, L, o);
	MoorDyn s = L.md.s;
	const Sys& y = L.y;
	for (auto& F : L.lf)
		if (F.friction_edge || F.surface_edge)
			c.discard("non-smooth state");
	size_t ix = 0;
	for (size_t i = 0; i < y.bodies.size(); i++) {
		auto& S = y.bodies[i];
		bool c6 = S.type == "Coupled", c3 = S.type == "CoupledPinned";
		size_t my = ix;
		ix += c6 ? 6 : c3 ? 3 : 0;
		if (S.type == "Fixed")
			continue;
		auto& K = L.bodies[i];
		BodyF B = ref_body(y, S, K);
		bool edge = false;
		double bs = 0, sc = 0, vert = 0, vertM = 0;
		for (size_t p = 0; p < y.points.size(); p++)
			if (attach_body(y.points[p].attach) == (int)i + 1) {
				V6 F;
				M3 M;
				ref_point(y, y.points[p], L.points[p].v, L.points[p].U,
				          ends_at(L, false, p + 1, false), F.f, M);
				V3 r = L.points[p].r - K.r;
				M6 m;
				setblock(m, 0, 0, M);
				body_add(B, r, F, m, -(M * cross(K.w, cross(K.w, r))));
				c.tag("points attached");
			}
		for (size_t p = 0; p < y.rods.size(); p++)
			if (attach_body(y.rods[p].attach) == (int)i + 1) {
				RodF R = ref_rod(y, y.rt[y.rods[p].type], L.rods[p],
				                 ends_at(L, true, p + 1, false), ends_at(L, true, p + 1, true),
				                 L.depth);
				edge = edge || R.edge;
				V3 cf;
				for (size_t k = 0; k < R.rn.size(); k++)
					cf -= R.Mn[k] * cross(K.w, cross(K.w, R.rn[k] - K.r));
				body_add(B, R.rn[0] - K.r, R.F, R.M, cf);
				vert += R.vert + norm(R.rn[0] - K.r) * R.vert;
				vertM += R.vertM;
				sc += R.scale * (1 + L.rods[p].len);
				c.tag(is_pinned(y.rods[p].attach) ? "pinned rods attached" : "rods attached");
			}
		for (size_t l = 0; l < y.lines.size(); l++)
			for (size_t k = 0; k < L.lf[l].F.size(); k++) {
				bs += L.lf[l].bscale[k] * 10;
				sc += L.lf[l].scale[k];
			}
		if (edge)
			continue;
		c.tag("body " + S.type);
		std::string N = "body " + std::to_string(i + 1) + " (" + S.type + ") ";
		double f[6], m[6][6], mt = 0, md = 0;
		MoorDynBody b = MoorDyn_GetBody(s, i + 1);
		MoorDyn_GetBodyForce(b, f);
		MoorDyn_GetBodyM(b, m);
		for (int k = 0; k < 36; k++) {
			mt = std::max(mt, std::fabs(B.M[k / 6][k % 6]));
			md = std::max(md, std::fabs(B.M[k / 6][k % 6] - m[k / 6][k % 6]));
		}
		c.nontrivial(mt > 0 || B.scale > 0);
		c.evals += 36;
		if (!(md <= 1e-8 * (mt + 1e-6) + vertM))
			c.fail("body-mass", "%smass matrix differs by %g (%g)", N.c_str(), md, mt);
		V6 F = B.F;
		double tol = 1e-9 * (B.scale + sc) + bs + 1e-8 + vert;
		V6 a;
		if (c6 || c3) {
			for (int k = 0; k < 3; k++) {
				a.f[k] = (L.xd[my + k] - L.xdprev[my + k]) / L.dt;
				if (c6)
					a.m[k] = (L.xd[my + 3 + k] - L.xdprev[my + 3 + k]) / L.dt;
			}
			if (c3)
				a.m = solve(block(B.M, 1, 1), B.F.m - block(B.M, 1, 0) * a.f);
			F.f = F.f - block(B.M, 0, 0) * a.f - block(B.M, 0, 1) * a.m;
			F.m = F.m - block(B.M, 1, 0) * a.f - block(B.M, 1, 1) * a.m;
			if (c3)
				F.m = {};
			tol += (1e-9 * mt + vertM) * (norm(a.f) + norm(a.m));
			if (c3 && vertM > 0)
				continue;
			if (norm(a.f) > 1e-6)
				c.tag("accelerated by the host");
		}
		check_vec(c, "body-force", N + "force", { f[0], f[1], f[2] }, F.f, tol);
		check_vec(c, "body-moment", N + "moment", { f[3], f[4], f[5] }, F.m, tol);
		if (vert + vertM > 0)
			continue;
		double r2[6], v2[6];
		MoorDyn_GetBodyState(b, r2, v2);
		if (S.type == "Free") {
			a = solve(B.M, B.F);
			double at = 1e-7 * (norm(a.f) + norm(a.m) * 10) + 1e-9;
			check_vec(c, "body-acceleration", N + "velocity after the step",
			          { v2[0], v2[1], v2[2] }, K.v + L.dt * a.f,
			          1e-9 * (norm(K.v) + 1e-3) + L.dt * at);
			check_vec(c, "body-acceleration", N + "angular velocity after the step",
			          { v2[3], v2[4], v2[5] }, K.w + L.dt * a.m,
			          1e-9 * (norm(K.w) + 1e-3) + L.dt * at);
			check_vec(c, "body-advance", N + "position after the step", { r2[0], r2[1], r2[2] },
			          K.r + L.dt * K.v, 1e-9);
		} else if (c3)
			check_vec(c, "body-acceleration", N + "angular velocity after the step",
			          { v2[3], v2[4], v2[5] }, K.w + L.dt * a.m,
			          1e-9 * (norm(K.w) + 1e-3) + L.dt * (1e-7 * norm(a.m) * 10 + 1e-9));
		if (S.type == "Free" || c3) {
			// R' = R + dt [w]x R, up to second order terms
			M3 R2 = euler({ r2[3], r2[4], r2[5] });
			M3 want = K.R + L.dt * (skew(K.w) * K.R);
			double wd = norm(K.w) * L.dt;
			double d = maxabs(R2 - want);
			c.evals += 9;
			if (!(d <= 1e-9 + wd * wd))
				c.fail("body-rotation", "%sorientation after the step differs by %g", N.c_str(),
				       d);
		}
	}
}
