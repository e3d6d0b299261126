// P19: everything a system takes is given back when it is closed, also when it fails
#include "loads.hpp"
#include "MoorDyn.h"
#include <dirent.h>
#include <malloc.h>
#include <memory>
#include <sys/stat.h>
const char* PROP_ID = "P19";
const char* PROP_RULE =
    "non-trivial: the repeated life of the system reached the integration, or a refused model or "
    "initialisation went through reading the input file";
int PROP_CPU_LIMIT = 60;

// Every allocation of the process goes through these
extern "C"
{
	void* __libc_malloc(size_t);
	void __libc_free(void*);
	void* __libc_calloc(size_t, size_t);
	void* __libc_realloc(void*, size_t);
	void* __libc_memalign(size_t, size_t);
	static long live_n, live_bytes;
	static bool counting;
	void* malloc(size_t n)
	{
		void* p = __libc_malloc(n);
		if (counting && p)
			live_n++, live_bytes += malloc_usable_size(p);
		return p;
	}
	void free(void* p)
	{
		if (counting && p)
			live_n--, live_bytes -= malloc_usable_size(p);
		__libc_free(p);
	}
	void* calloc(size_t a, size_t b)
	{
		void* p = __libc_calloc(a, b);
		if (counting && p)
			live_n++, live_bytes += malloc_usable_size(p);
		return p;
	}
	void* realloc(void* q, size_t n)
	{
		size_t o = q ? malloc_usable_size(q) : 0;
		void* p = __libc_realloc(q, n);
		if (counting && p)
			live_n += q ? 0 : 1, live_bytes += (long)malloc_usable_size(p) - (long)o;
		return p;
	}
	void* memalign(size_t a, size_t n)
	{
		void* p = __libc_memalign(a, n);
		if (counting && p)
			live_n++, live_bytes += malloc_usable_size(p);
		return p;
	}
	void* aligned_alloc(size_t a, size_t n) { return memalign(a, n); }
	int posix_memalign(void** p, size_t a, size_t n)
	{
		*p = memalign(a, n);
		return *p ? 0 : 12;
	}
}

namespace {
struct Use
{
	long n, bytes;
	int fds;
};
int
open_files()
{
	int n = 0;
	DIR* d = opendir("/proc/self/fd");
	if (!d)
		return -1;
	while (readdir(d))
		n++;
	closedir(d);
	return n;
}
} // namespace

void
run_case(Gen& g, Ctx& c)
{
	GenOpt o;
	o.maxlines = 3;
	o.maxseg = 5;
	Loads L;
	L.y = gen_sys(g, o);
	Sys& y = L.y;
	y.scheme = g.pick(std::vector<std::string>{ "rk2", "euler", "leuler", "heun", "rk4", "ab2", "ab4",
	                                            "lab3", "beuler3", "midpoint3", "aca5", "wilson5", "anderson5" });
	y.dtM = stable_dt(y, 0.05);
	y.opts.push_back({ "dtIC", "0.1" });
	y.tmaxic = (g.chance(1, 4) && y.dtM > 4e-5) ? 0.2 : 0;
	if (g.chance(1, 4))
		y.opts.push_back({ "ICgenDynamic", "1" });
	bool external = g.chance(1, 4);
	DepthFn depth = [d = y.depth](double, double) { return -d; };
	double h = y.depth;
	if (g.chance(1, 4)) {
		gen_bathymetry(g, L, -y.depth - 4, -y.depth - 0.5);
		depth = [X = L.bathx, Y = L.bathy, Z = L.bathz](double x, double yy) { return bilinear(X, Y, Z, x, yy); };
		put_file("bath.txt", y.files["bath.txt"]);
		y.opts.back().second = "bath.txt";
		h = 0;
		for (auto& r : L.bathz)
			for (double z : r)
				h -= z / (L.bathx.size() * L.bathy.size());
		c.tag("bathymetry");
	}
	int wave = external ? 0 : g.pick(std::vector<int>{ 0, 0, 7, 2, 3 });
	int cur = g.pick(std::vector<int>{ 0, 0, 1, 2, 5 });
	if (wave || cur)
		L.W = gen_water(g, wave, cur, y.g, y.rho, h, depth, 1);
	use_water(y, L.W, external);
	for (size_t i = 0; i < y.lines.size(); i++)
		if (g.coin()) {
			y.lines[i].out = g.coin() ? "ptv" : "pdVs";
			y.outs.push_back("FairTen" + std::to_string(i + 1));
		}
	for (size_t i = 0; i < y.rods.size(); i++)
		if (g.coin())
			y.rods[i].out = "p";
	Motion m = gen_motion(g, y, 0.4, 0.3, 3.0);
	bool legacy = g.chance(1, 6);
	int log = g.range(0, 3);
	// how this life ends
	int fate = g.weighted({ 6, 2, 2, 1, 1 });
	y.write();
	std::string txt = y.text();
	if (log == 1) {
		size_t p = txt.find("0 writeLog");
		txt[p] = '2';
		put_file(y.path, txt);
	}
	std::string what = "closed after steps";
	if (fate == 1) {
		// anything may be wrong in the file: a row loses or gains something
		std::vector<size_t> at;
		for (size_t i = 0; i < txt.size(); i++)
			if (txt[i] == '\n')
				at.push_back(i);
		size_t k = g.range(3, (int)at.size() - 2);
		size_t b = at[k - 1] + 1, e = at[k];
		std::string row = txt.substr(b, e - b);
		int how = g.range(0, 3);
		if (how == 0)
			row = row.substr(0, row.size() / 2);
		else if (how == 1)
			row = "";
		else if (how == 2)
			row = "77 none " + row;
		else {
			size_t p = g.range(0, row.size());
			row = row.substr(0, p) + "xx" + row.substr(p);
		}
		txt = txt.substr(0, b) + row + txt.substr(e);
		put_file(y.path, txt);
		what = "edited file";
	} else if (fate == 2)
		what = "initialisation without kinematics";
	else if (fate == 3)
		what = "closed without being initialised";
	else if (fate == 4)
		what = "missing file";
	if (fate == 4)
		remove(g.coin() || wave + cur == 0 ? y.path.c_str() : "bath.txt");
	int nsteps = g.range(0, 3);
	double dt = y.dtM * g.range(1, 2);
	bool save = g.chance(1, 3), setters = g.chance(1, 4);
	c.note("%s\n%s, %d steps of %g, legacy %d log %d save %d\n", txt.c_str(), what.c_str(), nsteps, dt,
	       legacy, log, save);
	std::vector<double> x, xd, f(m.d.size() + 1), wr(3 * 4000);
	soft_cpu_limit(5); // edited files may ask for no time step at all
	bool reached = false, created = false, inited = false;
	int rows = 4;
	Use u[8];
	for (int k = 0; k < rows; k++) {
		m.eval(0, x, xd);
		if (legacy) {
			int e = MoorDynInit(fate == 2 ? nullptr : x.data(), fate == 2 ? nullptr : xd.data(), y.path.c_str());
			created = inited = !e;
			double t = 0;
			for (int i = 0; i < nsteps && !e; i++) {
				double d = dt;
				m.eval(t, x, xd);
				e = MoorDynStep(x.data(), xd.data(), f.data(), &t, &d);
				reached = reached || !e;
			}
			MoorDynClose();
		} else {
			MoorDyn s = MoorDyn_Create(y.path.c_str());
			created = s != nullptr;
			if (s) {
				MoorDyn_SetVerbosity(s, MOORDYN_NO_OUTPUT);
				if (log == 2) {
					MoorDyn_SetLogFile(s, "other.log");
					MoorDyn_SetLogLevel(s, MOORDYN_DBG_LEVEL);
				}
				int e = fate == 3 ? 1
				                  : MoorDyn_Init(s, fate == 2 ? nullptr : x.data(), fate == 2 ? nullptr : xd.data());
				inited = !e;
				unsigned nw = 0;
				if (!e && external)
					MoorDyn_ExternalWaveKinInit(s, &nw);
				double t = 0;
				for (int i = 0; i < nsteps && !e; i++) {
					double d = dt;
					m.eval(t, x, xd);
					if (nw && 3 * nw <= wr.size()) {
						MoorDyn_ExternalWaveKinGetCoordinates(s, wr.data());
						MoorDyn_ExternalWaveKinSet(s, wr.data(), wr.data(), t);
					}
					e = MoorDyn_Step(s, x.data(), xd.data(), f.data(), &t, &d);
					reached = reached || !e;
					if (setters && !e) {
						MoorDyn_SetTimeScheme(s, i % 2 ? "rk4" : "lab2");
						MoorDyn_SetTimeScheme(s, "not a scheme");
					}
				}
				if (inited && save) {
					MoorDyn_Save(s, "state.bin");
					MoorDyn_Load(s, "state.bin");
					MoorDyn_Load(s, "nothing.bin");
					size_t n = 0;
					MoorDyn_Serialize(s, &n, nullptr);
				}
				if (inited && log == 3)
					MoorDyn_SaveVTK(s, "sys.vtm");
				MoorDyn_Close(s);
			}
		}
		// the first rounds may leave caches behind
		u[k].fds = open_files();
		u[k].n = live_n;
		u[k].bytes = live_bytes;
		counting = true;
	}
	counting = false;
	c.evals += 3;
	c.tag("fate: " + what);
	c.tag(created ? inited ? reached ? "reached the integration" : "initialised" : "created" : "refused");
	if (legacy)
		c.tag("legacy");
	for (int k = 0; k + 1 < rows; k++)
		if (u[k].fds != u[k + 1].fds)
			c.fail("files", "%d open files after round %d and %d after the next (%s)", u[k].fds, k, u[k + 1].fds,
			       what.c_str());
	if (u[rows - 1].n - u[rows - 2].n > 0 && u[rows - 2].n - u[rows - 3].n > 0)
		c.fail("memory", "%ld blocks (%ld bytes) were not released (%s)", u[rows - 1].n - u[rows - 2].n,
		       u[rows - 1].bytes - u[rows - 2].bytes, what.c_str());
	c.nontrivial(reached || (fate == 1 && !inited) || (fate == 2 && created && !inited));
}
