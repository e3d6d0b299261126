// Independent model of the waves and currents described by the input files
#pragma once
#include "ref.hpp"
#include <complex>

// k tanh(k h) = w^2/g to machine precision
inline double
ref_wavenumber(double w, double g, double h)
{
	if (w == 0)
		return 0;
	double c = w * w * h / g, x = c > 1 ? c : sqrt(c);
	for (int i = 0; i < 200; i++) {
		double t = tanh(x), f = x * t - c, d = t + x * (1 - t * t);
		double n = x - f / d;
		if (std::fabs(n - x) < 1e-15 * x)
			break;
		x = n > 0 ? n : x / 2;
	}
	return x / h;
}

struct WComp
{
	double w, re, im, beta;
};

struct Axis
{
	std::vector<double> v;
	// lower index and factor, clamped
	void loc(double x, size_t& i, double& f) const
	{
		i = 0;
		f = 0;
		if (v.size() < 2 || x <= v[0])
			return;
		if (x >= v.back()) {
			i = v.size() - 2;
			f = 1;
			return;
		}
		while (x > v[i + 1])
			i++;
		f = (x - v[i]) / (v[i + 1] - v[i]);
	}
};

struct Water
{
	int wave = 0, cur = 0;
	bool unify = true, unify_written = false;
	std::vector<WComp> comps; // spectrum
	std::vector<double> elev; // elevation samples
	double dtw = 0;
	int nt = 0;
	Axis gx, gy, gz; // wave grid
	// current tables, [x][y][z][t]
	Axis cx, cy, cz, ct;
	std::vector<V3> cv;
	std::map<std::string, std::string> files;
	double g = 9.81, rho = 1000, havg = 100; // average depth, positive
	DepthFn depth;
	std::vector<std::vector<WKin>> tab; // wave grid [node][time], lazily filled

	V3 cval(size_t a, size_t b, size_t c, size_t t) const
	{
		return cv[((a * cy.v.size() + b) * cz.v.size() + c) * ct.v.size() + t];
	}
	V3 current(V3 p, double t) const
	{
		V3 o;
		if (!cur)
			return o;
		size_t i[4];
		double f[4];
		cx.loc(p.x, i[0], f[0]);
		cy.loc(p.y, i[1], f[1]);
		cz.loc(p.z, i[2], f[2]);
		ct.loc(t, i[3], f[3]);
		for (int m = 0; m < 16; m++) {
			double w = 1;
			size_t k[4];
			for (int d = 0; d < 4; d++) {
				bool up = (m >> d) & 1;
				w *= up ? f[d] : 1 - f[d];
				k[d] = i[d] + up;
			}
			if (w)
				o += w * cval(k[0], k[1], k[2], k[3]);
		}
		return o;
	}
	// linear wave theory for one component: amplitude a, phase th, sine or cosine
	void airy(WKin& o, double a, double th, double w, double k, double beta, double z,
	          bool sine, bool kin = true) const
	{
		double s = sine ? sin(th) : cos(th);   // elevation
		double c = sine ? cos(th) : -sin(th);  // its derivative / w
		o.zeta += a * s;
		if (w == 0)
			o.pd += rho * g * a * s;
		if (!kin || w == 0)
			return;
		double h = havg, e1 = exp(k * z), e2 = exp(-k * (z + 2 * h)), E = exp(-2 * k * h);
		double ch = (e1 + e2) / (1 - E), sh = (e1 - e2) / (1 - E);
		double u = w * a * s * ch, du = w * w * a * c * ch;
		o.U += V3{ u * cos(beta), u * sin(beta), w * a * c * sh };
		o.Ud += V3{ du * cos(beta), du * sin(beta), -w * w * a * s * sh };
		o.pd += rho * g * a * s * (e1 + e2) / (1 + E);
	}
	double stretch(double z, double zeta, double bottom) const
	{
		double s = havg * (z - bottom) / (zeta - bottom) - havg;
		return std::min(s, 0.0);
	}
	// evenly spaced harmonics used by the grids
	std::vector<WComp> harm;
	double dw = 0;
	void build()
	{
		if (wave != 2 && wave != 3)
			return;
		for (double x : gx.v)
			for (double y : gy.v)
				for (double z : gz.v) {
					std::vector<WKin> s(nt);
					for (int i = 0; i < nt; i++) {
						double t = i * dtw;
						for (auto& c : harm) {
							double a = hypot(c.re, c.im);
							if (a == 0)
								continue;
							double k = ref_wavenumber(c.w, g, havg);
							double l = x * cos(c.beta) + y * sin(c.beta);
							airy(s[i], a, c.w * t - k * l + atan2(c.im, c.re), c.w, k, c.beta, z,
							     false);
						}
						if (unify)
							s[i].U += current({ x, y, z }, t);
					}
					tab.push_back(s);
				}
	}
	// tells whether the documented interpolation applies at this time
	bool time_ok(double t) const
	{
		if (wave != 2 && wave != 3)
			return true;
		double q = fmod(t / dtw, nt);
		return q < nt - 1 - 1e-6;
	}
	WKin eval(V3 p, double t) const
	{
		WKin o;
		double bottom = depth(p.x, p.y);
		if (wave == 7) {
			std::vector<double> th, k;
			for (auto& c : comps) {
				double kk = ref_wavenumber(c.w, g, havg);
				double l = p.x * cos(c.beta) + p.y * sin(c.beta);
				k.push_back(kk);
				th.push_back(c.w * t - kk * l + atan2(c.im, c.re));
				WKin d;
				airy(d, hypot(c.re, c.im), th.back(), c.w, kk, c.beta, 0, true, false);
				o.zeta += d.zeta;
			}
			double z = stretch(p.z, o.zeta, bottom), zeta = o.zeta;
			for (size_t i = 0; i < comps.size(); i++)
				airy(o, hypot(comps[i].re, comps[i].im), th[i], comps[i].w, k[i],
				     comps[i].beta, z, true);
			o.zeta = zeta;
			o.pd = 0; // not provided by this mode
		} else if (wave == 2 || wave == 3) {
			size_t i[4];
			double f[4];
			gx.loc(p.x, i[0], f[0]);
			gy.loc(p.y, i[1], f[1]);
			double q = fmod(t / dtw, nt);
			i[3] = (size_t)floor(q);
			f[3] = q - i[3];
			auto mix = [&](bool zonly) {
				WKin r;
				for (int m = 0; m < 16; m++) {
					double w = 1;
					size_t k[4];
					for (int d = 0; d < 4; d++) {
						bool up = (m >> d) & 1;
						w *= up ? f[d] : 1 - f[d];
						k[d] = i[d] + up;
					}
					if (!w)
						continue;
					const WKin& v =
					    tab[(k[0] * gy.v.size() + k[1]) * gz.v.size() + k[2]][k[3] % nt];
					r.zeta += w * v.zeta;
					if (zonly)
						continue;
					r.U += w * v.U;
					r.Ud += w * v.Ud;
					r.pd += w * v.pd;
				}
				return r;
			};
			i[2] = 0;
			f[2] = 0;
			double zeta = mix(true).zeta;
			gz.loc(stretch(p.z, zeta, bottom), i[2], f[2]);
			o = mix(false);
			o.zeta = zeta;
		}
		if (cur && !((wave == 2 || wave == 3) && unify))
			o.U += current(p, t);
		return o;
	}
	// error allowed for the single iteration of the wave number
	WKin scale(V3 p) const
	{
		WKin s;
		double l = hypot(p.x, p.y);
		for (auto& q : { gx, gy })
			for (double v : q.v)
				l = std::max(l, 1.5 * std::fabs(v));
		for (auto& c : wave == 7 ? comps : harm) {
			double a = hypot(c.re, c.im), k = ref_wavenumber(c.w, g, havg);
			double m = a * (1 + k * (l + havg));
			double u = m * c.w / std::min(1.0, k > 0 ? k * havg : 1.0);
			s.zeta += m;
			s.U.x += u;
			s.Ud.x += u * c.w;
			s.pd += rho * g * m;
		}
		for (auto& v : cv)
			s.U.x += norm(v) / cv.size();
		return s;
	}
};

inline void
gen_axis(Gen& g, Axis& a, double lo, double hi, int nmin, int nmax)
{
	int n = g.range(nmin, nmax);
	double x = lo + (hi - lo) * g.range(0, 8) / 32.0;
	for (int i = 0; i < n; i++) {
		a.v.push_back(std::round(x * 64) / 64);
		x += 0.05 + (hi - lo) / n * g.range(1, 8) / 6.0;
	}
}

// tscale: time scale of the unsteadiness (a power of two)
inline Water
gen_water(Gen& g, int wave, int cur, double grav, double rho, double havg, DepthFn depth,
          double tscale)
{
	Water W;
	W.wave = wave;
	W.cur = cur;
	W.g = grav;
	W.rho = rho;
	W.havg = havg;
	W.depth = depth;
	double amp = 0.02 * havg;
	auto spectrum = [&](bool even) {
		int n = g.range(2, 7);
		double w0 = even ? g.range(1, 16) / 16.0 : 0, w = 0;
		std::string o;
		for (int i = 0; i < n; i++) {
			WComp c{ w, 0, 0, 0 };
			bool edge = i == 0 || (even && i == n - 1);
			if (!edge && !g.chance(1, 6)) {
				c.re = amp / n * g.sym(1, 64);
				c.im = amp / n * g.sym(1, 64);
			}
			int nd = 3;
			if (g.coin()) {
				c.beta = even ? 0 : g.sym(6.28, 628);
				nd = 4;
			}
			W.comps.push_back(c);
			o += num(c.w) + " " + num(c.re) + " " + num(c.im) + (nd == 4 ? " " + num(c.beta) : "") +
			     "\n";
			w += even ? w0 * (g.chance(1, 4) && i > 0 ? 2 : 1) : g.range(0, 40) / 16.0 / (g.chance(1, 5) ? 0.25 : 1);
		}
		W.files["wave_frequencies.txt"] = o;
		return w0;
	};
	if (wave == 7)
		spectrum(false);
	if (wave == 2) {
		W.dw = spectrum(true);
		// a common direction, or one per component
		int dirs = g.range(0, 2);
		std::string o;
		double b = g.sym(6.28, 628);
		for (auto& c : W.comps) {
			c.beta = dirs == 0 ? 0 : dirs == 1 ? b : g.sym(6.28, 628);
			o += num(c.w) + " " + num(c.re) + " " + num(c.im) +
			     (dirs ? " " + num(c.beta) : "") + "\n";
		}
		W.files["wave_frequencies.txt"] = o;
		// documented: resampled to the smallest frequency spacing
		int N = (int)std::lround(W.comps.back().w / W.dw) + 1;
		for (int i = 0; i < N; i++) {
			double w = i * W.dw;
			size_t j = 1;
			while (W.comps[j].w < w)
				j++;
			double f = (w - W.comps[j - 1].w) / (W.comps[j].w - W.comps[j - 1].w);
			auto mixv = [&](double a, double b) { return a * (1 - f) + b * f; };
			auto &A = W.comps[j - 1], &B = W.comps[j];
			W.harm.push_back({ w, mixv(A.re, B.re), mixv(A.im, B.im), mixv(A.beta, B.beta) });
		}
		// at least one even spacing equal to dw is needed
		W.nt = 2 * (N - 1);
		W.dtw = 2 * M_PI / W.dw / W.nt;
	}
	if (wave == 3) {
		W.dtw = 1.0 / (2 << g.range(0, 2)); // 1/2, 1/4, 1/8
		int n = g.range(3, 24);
		int nt = n % 2 ? n - 1 : n;
		W.nt = nt;
		W.dw = 2 * M_PI / (nt * W.dtw);
		int sub = g.range(1, 2); // samples of the file per dtWave
		// harmonics below the cut at 0.5 Hz
		for (int i = 0; i < 4; i++) {
			int k = g.range(0, std::max(0, std::min(nt / 2 - 1, (int)(0.45 * nt * W.dtw))));
			W.harm.push_back({ k * W.dw, amp / 4 * g.sym(1, 64), k ? amp / 4 * g.sym(1, 64) : 0, 0 });
		}
		std::string o;
		for (int i = 0; i < (n - 1) * sub + 1; i++) {
			double t = i * W.dtw / sub, z = 0;
			for (auto& c : W.harm)
				z += c.re * cos(c.w * t) - c.im * sin(c.w * t);
			o += num(t) + " " + num(z) + "\n";
		}
		W.files["wave_elevation.txt"] = o;
	}
	if (wave == 2 || wave == 3) {
		std::string o = "--- grid ---\nx y z\nvalues\n";
		for (int d = 0; d < 3; d++) {
			Axis& a = d == 0 ? W.gx : d == 1 ? W.gy : W.gz;
			double lo = d < 2 ? -20 : -havg * 1.1, hi = d < 2 ? 20 : 0;
			int ty = d < 2 ? g.range(0, 2) : g.range(1, 2);
			if (ty == 0) {
				a.v = { 0 };
				o += "0\n0\n";
			} else if (ty == 1) {
				gen_axis(g, a, lo, hi, 1, 4);
				while (d == 2 && a.v.size() > 1 && a.v.back() > 0)
					a.v.pop_back();
				o += "1\n";
				for (double v : a.v)
					o += num(v) + " ";
				o += "\n";
			} else {
				int n = g.range(2, 4);
				double A = lo + g.range(0, 4), B = hi - (d < 2 ? 1 : 0.02 * havg) * g.range(0, 4);
				for (int i = 0; i < n; i++)
					a.v.push_back(i == n - 1 ? B : A + i * ((B - A) / (n - 1)));
				o += "2\n" + num(A) + " " + num(B) + " " + std::to_string(n) + "\n";
			}
		}
		W.files["water_grid.txt"] = o;
	}
	// currents
	if (cur) {
		W.cx.v = W.cy.v = W.ct.v = { 0 };
		gen_axis(g, W.cz, -havg * 1.1, 0.1 * havg, 1, 4);
		if (cur == 5) {
			W.cx.v.clear();
			W.cy.v.clear();
			gen_axis(g, W.cx, -20, 20, 1, 3);
			gen_axis(g, W.cy, -20, 20, 1, 3);
			if (W.cx.v.size() * W.cy.v.size() * W.cz.v.size() == 1)
				W.cx.v.push_back(25);
		}
		if (cur > 1) {
			int n = g.range(1, 4);
			double t = 0;
			for (int i = 1; i < n; i++) {
				// at least one of the intervals is the unit
				t += tscale * (i == 1 ? 1 : g.range(1, 3));
				W.ct.v.push_back(t);
			}
		}
		int dims = cur == 5 ? 3 : g.range(1, 3);
		size_t n = W.cx.v.size() * W.cy.v.size() * W.cz.v.size() * W.ct.v.size();
		for (size_t i = 0; i < n; i++)
			W.cv.push_back({ g.sym(2, 64), dims > 1 ? g.sym(2, 64) : 0.0,
			                 dims > 2 ? g.sym(1, 64) : 0.0 });
		std::string o;
		if (cur == 1) {
			o = "--- currents ---\nsteady profile\nz ux uy uz\n";
			for (size_t i = 0; i < W.cz.v.size(); i++) {
				o += num(W.cz.v[i]);
				for (int d = 0; d < dims; d++)
					o += " " + num(W.cv[i][d]);
				o += "\n";
			}
			W.files["current_profile.txt"] = o;
		} else if (cur == 2) {
			o = "--- currents ---\ndynamic profile\n\n\n";
			if (g.coin())
				o = "--- currents ---\ndynamic profile\n1 2 3\n4 5\n";
			for (double z : W.cz.v)
				o += "  " + num(z);
			o += "\n\n";
			for (size_t t = 0; t < W.ct.v.size(); t++) {
				o += num(W.ct.v[t]);
				for (int d = 0; d < dims; d++)
					for (size_t i = 0; i < W.cz.v.size(); i++)
						o += " " + num(W.cval(0, 0, i, t)[d]);
				o += "\n";
			}
			W.files["current_profile_dynamic.txt"] = o;
		} else {
			o = std::to_string(W.cx.v.size()) + " " + std::to_string(W.cy.v.size()) + " " +
			    std::to_string(W.cz.v.size()) + " " + std::to_string(W.ct.v.size()) + "\n";
			for (auto* a : { &W.cx, &W.cy, &W.cz, &W.ct }) {
				for (double v : a->v)
					o += num(v) + " ";
				o += "\n";
			}
			// rows in any order; the coordinates may be written differently
			int fmt = g.range(0, 2);
			auto co = [&](double v) {
				std::string s = num(v);
				if (fmt == 1 && s.find_first_of(".e") == std::string::npos)
					s += ".0";
				if (fmt == 2 && v == 0)
					s = "-0";
				return s;
			};
			std::vector<std::string> rows;
			for (size_t a = 0; a < W.cx.v.size(); a++)
				for (size_t b = 0; b < W.cy.v.size(); b++)
					for (size_t c = 0; c < W.cz.v.size(); c++)
						for (size_t t = 0; t < W.ct.v.size(); t++) {
							V3 v = W.cval(a, b, c, t);
							rows.push_back(co(W.cx.v[a]) + " " + co(W.cy.v[b]) + " " +
							               co(W.cz.v[c]) + " " + co(W.ct.v[t]) + " " + num(v.x) +
							               " " + num(v.y) + " " + num(v.z) + "\n");
						}
			int rot = g.draw(rows.size());
			for (size_t i = 0; i < rows.size(); i++)
				o += rows[(i + rot) % rows.size()];
			W.files["current_profile_4d.txt"] = o;
		}
	}
	int u = g.range(0, 2);
	W.unify = u != 1;
	W.unify_written = u != 0;
	W.build();
	return W;
}
inline void
use_water(Sys& y, const Water& W, bool external)
{
	if (external)
		y.opts.push_back({ "WaveKin", "1" });
	else if (W.wave)
		y.opts.push_back({ "WaveKin", std::to_string(W.wave) });
	if (W.cur)
		y.opts.push_back({ "Currents", std::to_string(W.cur) });
	if (W.wave == 3)
		y.opts.push_back({ "dtWave", num(W.dtw) });
	if (W.unify_written)
		y.opts.push_back({ "UnifyCurrentGrid", W.unify ? "1" : "0" });
	for (auto& f : W.files)
		y.files[f.first] = f.second;
}
