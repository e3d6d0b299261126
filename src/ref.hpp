// Reference load model: an independent evaluation of the loads and masses of
// lines, points, rods and bodies from the kinematics of the system and of the
// water, following docs/structure.rst and docs/theory.
#pragma once
#include "model.hpp"
#include <functional>

struct WKin
{
	V3 U, Ud;
	double zeta = 0, pd = 0;
};
typedef std::function<double(double, double)> DepthFn; // returns the seabed z

struct M6
{
	double m[6][6] = { { 0 } };
	double* operator[](int i) { return m[i]; }
	const double* operator[](int i) const { return m[i]; }
};
struct V6
{
	V3 f, m;
};
inline M6
operator+(const M6& a, const M6& b)
{
	M6 r;
	for (int i = 0; i < 36; i++)
		r.m[i / 6][i % 6] = a.m[i / 6][i % 6] + b.m[i / 6][i % 6];
	return r;
}
inline M3
block(const M6& a, int I, int J)
{
	M3 r;
	for (int i = 0; i < 3; i++)
		for (int j = 0; j < 3; j++)
			r[i][j] = a[3 * I + i][3 * J + j];
	return r;
}
inline void
setblock(M6& a, int I, int J, const M3& b)
{
	for (int i = 0; i < 3; i++)
		for (int j = 0; j < 3; j++)
			a[3 * I + i][3 * J + j] = b[i][j];
}
// mass matrix about a point P of a mass matrix given at C, with r = C - P.
// v_C = v_P + w x r = v_P - skew(r) w
inline M6
shift_mass(V3 r, const M6& a)
{
	// M' = T^t M T, T = [I, -S; 0, I]
	M3 S = -1.0 * skew(r);
	M3 A = block(a, 0, 0), B = block(a, 0, 1), C = block(a, 1, 0), D = block(a, 1, 1);
	M6 o;
	setblock(o, 0, 0, A);
	setblock(o, 0, 1, A * S + B);
	setblock(o, 1, 0, tr(S) * A + C);
	setblock(o, 1, 1, tr(S) * A * S + tr(S) * B + C * S + D);
	return o;
}
inline M6
shift_mass(V3 r, const M3& m)
{
	M6 a;
	setblock(a, 0, 0, m);
	return shift_mass(r, a);
}
inline std::vector<double>
solve(std::vector<std::vector<double>> a, std::vector<double> b)
{
	int n = b.size();
	for (int i = 0; i < n; i++) {
		int p = i;
		for (int k = i + 1; k < n; k++)
			if (std::fabs(a[k][i]) > std::fabs(a[p][i]))
				p = k;
		std::swap(a[i], a[p]);
		std::swap(b[i], b[p]);
		for (int k = i + 1; k < n; k++) {
			double f = a[k][i] / a[i][i];
			for (int j = i; j < n; j++)
				a[k][j] -= f * a[i][j];
			b[k] -= f * b[i];
		}
	}
	for (int i = n - 1; i >= 0; i--) {
		for (int j = i + 1; j < n; j++)
			b[i] -= a[i][j] * b[j];
		b[i] /= a[i][i];
	}
	return b;
}
inline V3
solve(const M3& m, V3 f)
{
	std::vector<std::vector<double>> a(3, std::vector<double>(3));
	for (int i = 0; i < 3; i++)
		for (int j = 0; j < 3; j++)
			a[i][j] = m[i][j];
	auto x = solve(a, { f.x, f.y, f.z });
	return { x[0], x[1], x[2] };
}
inline V6
solve(const M6& m, const V6& f)
{
	std::vector<std::vector<double>> a(6, std::vector<double>(6));
	for (int i = 0; i < 6; i++)
		for (int j = 0; j < 6; j++)
			a[i][j] = m[i][j];
	auto x = solve(a, { f.f.x, f.f.y, f.f.z, f.m.x, f.m.y, f.m.z });
	return { { x[0], x[1], x[2] }, { x[3], x[4], x[5] } };
}

inline double
interp(const Curve& c, double x)
{
	if (x <= c.x.front())
		return c.y.front();
	if (x >= c.x.back())
		return c.y.back();
	size_t i = 1;
	while (x > c.x[i])
		i++;
	return c.y[i - 1] + (c.y[i] - c.y[i - 1]) * (x - c.x[i - 1]) / (c.x[i] - c.x[i - 1]);
}

// submerged fraction of a segment
inline double
sub_frac(V3 a, V3 b, double surf, double d)
{
	double z1 = a.z - surf, z2 = b.z - surf;
	if (z1 <= 0 && z2 < 0)
		return 1;
	if (z1 < 0 && z2 <= 0)
		return 1;
	if (z1 > 0 && z2 > 0)
		return 0;
	if (z1 == -z2)
		return 0.5;
	V3 lo = z1 < z2 ? a : b, up = z1 < z2 ? b : a;
	V3 ax = up - lo;
	V3 n = cross(ax, cross(V3{ 0, 0, 1 }, ax));
	double nn = norm(n);
	double nz = nn > 0 ? n.z / nn * d / 2 : 0;
	double l = std::fabs(lo.z - surf - nz), u = up.z - surf + nz;
	return l / (l + u);
}

struct LineK
{
	std::vector<V3> r, v;
	std::vector<WKin> w;
	double len = 0;  // current unstretched length
	double len0 = 0; // unstretched length when initialised
	bool cantA = false, cantB = false;
	V3 qA, qB; // line tangent imposed by the rod
	std::vector<double> pin;
	bool pb = false;
};
struct LineF
{
	std::vector<V3> F, T, W, D, FK, B, Bs, Pb, ten;
	std::vector<double> K, scale, bscale;
	std::vector<M3> M;
	std::vector<V3> segT; // T + Td of each segment
	std::vector<V3> segEl, segTd; // elastic and damping parts
	std::vector<double> strain, rate;
	V3 momA, momB;
	bool compressed = false, friction_edge = false, surface_edge = false, wet = false, dry = false, bottom = false,
	     bent = false;
};

inline LineF
ref_line(const Sys& y, const LType& t, const LineK& k, const DepthFn& depth)
{
	LineF o;
	const int n = (int)k.r.size() - 1;
	const double A = t.A(), l = k.len / n, rho = t.w / A;
	std::vector<V3> qs(n), q(n + 1), T(n), Td(n);
	std::vector<double> ls(n), ld(n), fr(n);
	for (int i = 0; i < n; i++) {
		V3 d = k.r[i + 1] - k.r[i];
		ls[i] = norm(d);
		qs[i] = d / ls[i];
		ld[i] = dot(qs[i], k.v[i + 1] - k.v[i]);
		fr[i] = sub_frac(k.r[i], k.r[i + 1], 0.5 * (k.w[i].zeta + k.w[i + 1].zeta), t.d);
		for (int e = i; e <= i + 1; e++)
			if (std::fabs(k.r[e].z - 0.5 * (k.w[i].zeta + k.w[i + 1].zeta)) < 1e-7)
				o.surface_edge = true;
		if (fr[i] > 0)
			o.wet = true;
		if (fr[i] < 1)
			o.dry = true;
	}
	const bool EI = t.EI > 0 || t.ei.x.size();
	for (int i = 1; i < n; i++)
		q[i] = unit(k.r[i + 1] - k.r[i - 1]);
	q[0] = (k.cantA && EI) ? k.qA : qs[0];
	q[n] = (k.cantB && EI) ? k.qB : qs[n - 1];
	for (int i = 0; i < n; i++) {
		double f = 0;
		if (ls[i] > l) {
			double e = (ls[i] - l) / l;
			f = t.ea.x.size() ? interp(t.ea, e) : t.EA * e;
		} else
			o.compressed = true;
		T[i] = f * qs[i];
		double fd, rate = ld[i] / l;
		if (t.ba.x.size())
			fd = (rate < 0 ? -1 : 1) * interp(t.ba, std::fabs(rate));
		else {
			double BA = t.BA;
			if (BA < 0)
				BA = -BA * (k.len0 / n) * sqrt(t.EA0() * t.w);
			fd = BA * rate;
		}
		Td[i] = fd * qs[i];
	}
	o.segEl = T;
	o.segTd = Td;
	for (int i = 0; i < n; i++) {
		o.strain.push_back(ls[i] / l - 1);
		o.rate.push_back(ld[i] / l);
	}
	o.segT.resize(n);
	for (int i = 0; i < n; i++)
		o.segT[i] = T[i] + Td[i];
	o.F.assign(n + 1, {});
	o.T = o.W = o.D = o.FK = o.B = o.Bs = o.Pb = o.ten = o.F;
	o.K.assign(n + 1, 0);
	o.scale.assign(n + 1, 0);
	o.bscale.assign(n + 1, 0);
	o.M.resize(n + 1);
	std::vector<V3> p(n + 1);
	auto curv = [](double len, V3 a, V3 b) {
		double c = dot(a, b);
		return c + 2.22e-16 > 1 ? 0.0 : 4 / len * sqrt(0.5 * (1 - c));
	};
	if (EI || k.pb)
		for (int i = 0; i <= n; i++) {
			V3 a, b;
			double len;
			if (i == 0) {
				if (!k.cantA)
					continue;
				a = q[0], b = qs[0], len = ls[0];
			} else if (i == n) {
				if (!k.cantB)
					continue;
				a = qs[n - 1], b = q[n], len = ls[n - 1];
			} else
				a = qs[i - 1], b = qs[i], len = ls[i - 1] + ls[i];
			o.K[i] = curv(len, a, b);
			V3 c = cross(a, b);
			if (norm(c) > 1e-14)
				p[i] = c / norm(c);
			// folded: the bending plane is undefined
			if (dot(a, b) < 0 && norm(c) < 1e-6)
				o.friction_edge = true;
			double ei = t.ei.x.size() ? interp(t.ei, o.K[i]) : t.EI * o.K[i];
			double bs = 0;
			if (i > 0) {
				V3 f = (EI ? ei / ls[i - 1] : 0) * cross(qs[i - 1], p[i]);
				o.Bs[i - 1] += f;
				o.Bs[i] -= f;
				bs = std::max(bs, 1 / ls[i - 1]);
			}
			if (i < n) {
				V3 f = (EI ? ei / ls[i] : 0) * cross(qs[i], p[i]);
				o.Bs[i + 1] += f;
				o.Bs[i] -= f;
				bs = std::max(bs, 1 / ls[i]);
			}
			if (EI && i == 0)
				o.momA = ei * p[i];
			if (EI && i == n)
				o.momB = -(ei * p[i]);
			// the curvature is ill conditioned in almost straight lines
			double eimax = t.EI;
			for (size_t m = 1; m < t.ei.x.size(); m++)
				eimax = std::max(eimax,
				                 (t.ei.y[m] - t.ei.y[m - 1]) / (t.ei.x[m] - t.ei.x[m - 1]));
			double eps = eimax * bs * 4 / len;
			// error of sqrt(0.5 (1 - cos)) and of the normal direction
			double s = o.K[i] * len / 4;
			eps *= s > 1e-7 ? 1e-15 / s + 1e-14 : 1e-7;
			for (int m = std::max(0, i - 1); m <= std::min(n, i + 1); m++)
				o.bscale[m] += eps * 100;
			if (o.K[i] > 1e-6)
				o.bent = true;
		}
	for (int i = 0; i <= n; i++) {
		double lsum = 0, wl = 0;
		V3 ten{};
		if (i > 0) {
			lsum += l;
			wl += fr[i - 1] * l;
			o.F[i] -= T[i - 1] + Td[i - 1];
			ten += o.segT[i - 1];
			o.scale[i] += norm(T[i - 1]) + norm(Td[i - 1]);
		}
		if (i < n) {
			lsum += l;
			wl += fr[i] * l;
			o.F[i] += T[i] + Td[i];
			ten += o.segT[i];
			o.scale[i] += norm(T[i]) + norm(Td[i]);
		}
		o.ten[i] = (i > 0 && i < n) ? ten / 2 : ten;
		o.T[i] = o.F[i];
		o.W[i] = { 0, 0, -0.5 * A * y.g * (rho * lsum - y.rho * wl) };
		V3 rel = k.w[i].U - k.v[i];
		V3 vq = dot(rel, q[i]) * q[i], vp = rel - vq;
		o.D[i] = 0.25 * y.rho * t.Cd * t.d * wl * norm(vp) * vp +
		         0.25 * y.rho * t.CdAx * M_PI * t.d * wl * norm(vq) * vq;
		V3 aq = dot(k.w[i].Ud, q[i]) * q[i], ap = k.w[i].Ud - aq;
		o.FK[i] = 0.5 * y.rho * A * wl * ((1 + t.Ca) * ap + (1 + t.CaAx) * aq);
		double bot = depth(k.r[i].x, k.r[i].y);
		if (k.r[i].z < bot) {
			o.bottom = true;
			double Bz = ((bot - k.r[i].z) * y.kb - k.v[i].z * y.cb) * 0.5 * t.d * lsum;
			double vh = std::hypot(k.v[i].x, k.v[i].y);
			double fmax = std::fabs(Bz) * y.fric, ff = vh * y.fric * y.fricdamp;
			if (std::fabs(ff - y.statdyn * fmax) < 1e-6 * (ff + y.statdyn * fmax) && ff > 0)
				o.friction_edge = true;
			if (ff > y.statdyn * fmax)
				ff = fmax;
			o.B[i] = { 0, 0, Bz };
			if (vh > 0)
				o.B[i] -= ff / vh * V3{ k.v[i].x, k.v[i].y, 0 };
		}
		if (k.pb && norm(p[i]) > 0) {
			double h = std::max(0.0, k.w[i].zeta - k.r[i].z);
			double pr = k.pin[i] - (y.rho * y.g * h + k.w[i].pd);
			o.Pb[i] = 0.5 * A * lsum * pr * o.K[i] * cross(q[i], p[i]);
			double s = o.K[i] * l / 4;
			o.bscale[i] += 0.5 * A * lsum * std::fabs(pr) * (s > 1e-7 ? 1e-13 / s : 1e-5) / l;
		}
		o.F[i] += o.W[i] + o.D[i] + o.FK[i] + o.B[i] + o.Bs[i] + o.Pb[i];
		o.scale[i] += norm(o.W[i]) + norm(o.D[i]) + norm(o.FK[i]) + norm(o.B[i]) +
		              norm(o.Bs[i]) + norm(o.Pb[i]);
		// conditioning of the strain
		double ea = t.EA0();
		for (size_t m = 1; m < t.ea.x.size(); m++)
			ea = std::max(ea, (t.ea.y[m] - t.ea.y[m - 1]) / (t.ea.x[m] - t.ea.x[m - 1]));
		o.scale[i] += 1e-4 * ea;
		M3 Q = outer(q[i], q[i]);
		double v = 0.5 * A * wl;
		o.M[i] = eye(0.5 * A * rho * lsum) +
		         (y.rho * v) * (t.Ca * (eye() - Q) + t.CaAx * Q);
	}
	return o;
}

// ----------------------------------------------------------------- points
struct End
{
	V3 F, mom;
	M3 M;
};
inline void
ref_point(const Sys& y, const SPoint& p, V3 v, V3 U, const std::vector<End>& ends, V3& F, M3& M)
{
	F = { 0, 0, y.g * (p.v * y.rho - p.m) };
	M = eye(p.m + p.v * y.rho * p.ca);
	V3 rel = U - v;
	F += 0.5 * y.rho * p.cda * norm(rel) * rel;
	for (auto& e : ends) {
		F += e.F;
		M = M + e.M;
	}
}

// ------------------------------------------------------------------- rods
struct RodK
{
	V3 a, q;
	double len = 0;
	std::vector<V3> v; // per node
	std::vector<WKin> w;
};
struct RodF
{
	V6 F; // about end A
	M6 M;
	std::vector<V3> Fn; // per node
	std::vector<M3> Mn;
	std::vector<V3> rn;
	std::vector<double> vof;
	bool edge = false, crossing = false, bottom = false;
	double vert = 0, vertM = 0; // errors allowed in almost vertical rods, whose heading is dropped
	double scale = 0;
};
inline RodF
ref_rod(const Sys& y, const RType& t, const RodK& k, const std::vector<End>& ea,
        const std::vector<End>& eb, const DepthFn& depth)
{
	RodF o;
	int n = (int)k.v.size() - 1;
	double L = k.len, Area = M_PI / 4 * t.d * t.d, d = t.d, rho = y.rho, g = y.g;
	double sph = std::hypot(k.q.x, k.q.y), cph = k.q.z;
	V3 h = sph > 1e-6 ? V3{ k.q.x / sph, k.q.y / sph, 0 } : V3{ 1, 0, 0 };
	// direction of positive rotation that tilts the rod towards its heading
	V3 tilt{ -h.y, h.x, 0 };
	double zeta = k.w[n].zeta;
	V3 b = k.a + L * k.q;
	double zA = k.a.z, zB = b.z;
	V3 mom;
	o.crossing = (zA < zeta) != (zB < zeta);
	// wet part of the axis, measured from end A
	double w0 = 0, w1 = 0;
	if (zA < zeta && zB < zeta)
		w1 = L;
	else if (zA < zeta && zB > zeta)
		w1 = (zeta - zA) / k.q.z;
	else if (zB < zeta && zA > zeta) {
		w0 = (zeta - zA) / k.q.z;
		w1 = L;
	}
	if (std::fabs(zA - zeta) < 1e-6 || std::fabs(zB - zeta) < 1e-6)
		o.edge = true;
	double s = 0;
	for (int i = 0; i <= n; i++) {
		double dL = n ? L / n * ((i == 0 || i == n) ? 0.5 : 1.0) : 0;
		V3 r = k.a + (n ? (double)i / n * L : 0.0) * k.q;
		o.rn.push_back(r);
		double m = Area * dL * (t.w / Area), v = Area * dL;
		double ov = std::max(0.0, std::min(s + dL, w1) - std::max(s, w0));
		double vof0 = dL > 0 ? ov / dL : 0;
		if (n == 0)
			vof0 = w1 > w0 ? 1 : 0;
		s += dL;
		double hi = r.z + 0.5 * d * sph, lo = r.z - 0.5 * d * sph;
		double A = 0, zc = 0;
		if (lo > zeta) {
		} else if (hi < zeta) {
			A = Area;
			zc = r.z;
		} else if (sph < 0.001) {
			o.edge = true;
		} else {
			double al = acos(std::max(-1.0, std::min(1.0, 2 * (r.z - zeta) / sph / d)));
			A = d * d / 8 * (2 * al - sin(2 * al));
			if (2 * al - sin(2 * al) < 1e-6)
				o.edge = true;
			zc = r.z - 2.0 / 3.0 * d * pow(sin(al), 3) / (2 * al - sin(2 * al));
		}
		if (std::fabs(lo - zeta) < 1e-6 || std::fabs(hi - zeta) < 1e-6)
			o.edge = true;
		double vof = vof0 * cph * cph + A / Area * sph * sph;
		o.vof.push_back(vof);
		M3 Q = outer(k.q, k.q);
		M3 M = eye(m) + (vof * rho * v * t.Ca) * (eye() - Q);
		V3 rel = k.w[i].U - k.v[i];
		V3 vq = dot(rel, k.q) * k.q, vp = rel - vq;
		V3 aq = dot(k.w[i].Ud, k.q) * k.q, ap = k.w[i].Ud - aq;
		V3 F;
		if (n) {
			F += V3{ 0, 0, -m * g };
			// buoyancy normal to the axis
			V3 up{ 0, 0, 1 };
			F += vof * v * rho * g * (up - dot(up, k.q) * k.q);
			if (sph < 1.01e-6)
				o.vert += 2.01 * sph * vof * v * rho * g * (1 + L);
			F += vof * 0.5 * rho * t.Cd * d * dL * norm(vp) * vp;
			F += vof * rho * (1 + t.Ca) * v * ap;
			double bot = depth(r.x, r.y);
			if (r.z < bot) {
				o.bottom = true;
				F += V3{ 0, 0, ((bot - r.z) * y.kb - k.v[i].z * y.cb) * d * dL };
			}
		}
		for (int e = 0; e < 2; e++) {
			if (!(e == 0 ? i == 0 : i == n) || !(lo < zeta))
				continue;
			double sg = e == 0 ? 1 : -1;
			// hydrostatic pressure on the cap, pushing along the axis at end A
			F += (-sg * vof * Area * rho * g * zc) * k.q;
			if (sph < 1.01e-6)
				o.vert += 2.01 * sph * (std::fabs(vof * Area * rho * g * zc) * (1 + L) +
				                        std::fabs(vof * M_PI / 64 * pow(d, 4) * rho * g));
			mom += (sg * vof * M_PI / 64 * pow(d, 4) * rho * g * sph) * tilt;
			F += 0.5 * vof * Area * rho * t.CdEnd * norm(vq) * vq;
			double Vt = 2.0 / 3 * M_PI * d * d * d / 8;
			F += vof * rho * t.CaEnd * Vt * aq;
			F += sg * vof * Area * k.w[i].pd * k.q;
			M = M + (vof * rho * t.CaEnd * Vt) * Q;
		}
		o.scale += norm(F);
		o.Fn.push_back(F);
		o.Mn.push_back(M);
	}
	if (o.crossing)
		mom -= (M_PI / 16 * pow(d, 4) * rho * g * sph * cph) * tilt;
	for (auto& e : ea) {
		o.Fn[0] += e.F;
		o.Mn[0] = o.Mn[0] + e.M;
		mom += e.mom;
		o.scale += norm(e.F) + norm(e.mom);
	}
	for (auto& e : eb) {
		o.Fn[n] += e.F;
		o.Mn[n] = o.Mn[n] + e.M;
		mom += e.mom;
		o.scale += norm(e.F) + norm(e.mom);
	}
	for (int i = 0; i <= n; i++) {
		V3 rel = o.rn[i] - k.a;
		o.F.f += o.Fn[i];
		o.F.m += cross(rel, o.Fn[i]);
		o.M = o.M + shift_mass(rel, o.Mn[i]);
	}
	o.F.m += mom;
	if (n) {
		// distributed inertia of a solid cylinder minus what the lumped
		// masses already give
		double mass = t.w * L, rr = d / 2;
		double Il = mass * rr * rr / 2;
		double Ir = mass * (rr * rr / 4 - L * L / (6.0 * n * n));
		M3 Q = outer(k.q, k.q);
		M3 I = Il * Q + Ir * (eye() - Q);
		if (sph < 1.01e-6)
			o.vertM = 3 * sph * (Il + std::fabs(Ir));
		for (int i = 0; i < 3; i++)
			for (int j = 0; j < 3; j++)
				o.M[3 + i][3 + j] += I[i][j];
	}
	return o;
}

// ----------------------------------------------------------------- bodies
struct BodyK
{
	V3 r, v, w;
	M3 R;
	V3 U;
};
struct BodyF
{
	V6 F;
	M6 M;
	double scale = 0;
};
inline BodyF
ref_body(const Sys& y, const SBody& b, const BodyK& k)
{
	BodyF o;
	if (b.type != "Free" && b.type != "CoupledPinned")
		return o;
	V3 cg = k.R * b.cg;
	V3 Fg{ 0, 0, y.g * (b.v * y.rho - b.m) };
	o.F.f = Fg;
	o.F.m = cross(cg, Fg);
	M3 I, Ca;
	for (int i = 0; i < 3; i++) {
		I[i][i] = b.I[i];
		Ca[i][i] = b.ca[i] * b.v * y.rho;
	}
	M6 m;
	setblock(m, 0, 0, eye(b.m));
	setblock(m, 1, 1, k.R * I * tr(k.R));
	o.M = shift_mass(cg, m);
	M3 A = k.R * Ca * tr(k.R);
	for (int i = 0; i < 3; i++)
		for (int j = 0; j < 3; j++)
			o.M[i][j] += A[i][j];
	o.F.f -= block(o.M, 0, 0) * cross(k.w, cross(k.w, cg));
	M3 c1, c2;
	for (int i = 0; i < 3; i++)
		c1[i][i] = b.cda[i], c2[i][i] = b.cda[3 + i];
	V3 u = k.U - k.v, w = -k.w;
	o.F.f += 0.5 * y.rho * norm(u) * (k.R * c1 * tr(k.R) * u);
	o.F.m += 0.5 * y.rho * norm(w) * (k.R * c2 * tr(k.R) * w);
	o.scale = norm(Fg) * (1 + norm(cg)) + 0.5 * y.rho * (dot(u, u) * maxabs(c1) + dot(w, w) * maxabs(c2));
	return o;
}
// loads of an attached part given at C, with r = C - ref
inline void
body_add(BodyF& o, V3 r, const V6& F, const M6& M, V3 cent)
{
	o.F.f += F.f + cent;
	o.F.m += F.m + cross(r, F.f);
	o.M = o.M + shift_mass(r, M);
	o.scale += norm(F.f) * (1 + norm(r)) + norm(F.m) + norm(cent);
}
