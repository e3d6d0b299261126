// The Python interpreter, with the module of the repository: moordyn.py is the one of the repository and cmoordyn.cpp
// is compiled into the program
#pragma once
extern "C" PyObject* PyInit_cmoordyn(void);

static PyObject* MOD = nullptr;

static inline void
start(Ctx& c)
{
	if (MOD)
		return;
	PyImport_AppendInittab("cmoordyn", PyInit_cmoordyn);
	PyPreConfig pre;
	PyPreConfig_InitIsolatedConfig(&pre);
	pre.allocator = PYMEM_ALLOCATOR_MALLOC;
	pre.utf8_mode = 1;
	PyConfig cfg;
	PyConfig_InitIsolatedConfig(&cfg);
	cfg.site_import = 0;
	cfg.write_bytecode = 0;
	cfg.install_signal_handlers = 0;
	PyStatus st = Py_PreInitialize(&pre);
	if (!PyStatus_Exception(st))
		st = Py_InitializeFromConfig(&cfg);
	if (PyStatus_Exception(st))
		Py_ExitStatusException(st);
	PyConfig_Clear(&cfg);
	const char* repo = getenv("VH_REPO");
	std::string p = std::string(repo ? repo : "/repo") + "/wrappers/python";
	PyObject* path = PySys_GetObject("path");
	PyObject* q = PyUnicode_FromString(p.c_str());
	PyList_Append(path, q);
	Py_DECREF(q);
	MOD = PyImport_ImportModule("moordyn");
	if (!MOD) {
		PyErr_Print();
		c.fail("import", "the Python module cannot be imported");
	}
}

// what a Python call gave
struct R
{
	bool ok = false;
	std::string exc;   // the class of the exception
	std::string shape; // 6[6] for a 6x6 matrix
	std::vector<double> v;
	PyObject* o = nullptr;
	R() = default;
	R(const R&) = delete;
	R(R&& b) { *this = std::move(b); }
	R& operator=(R&& b)
	{
		std::swap(ok, b.ok);
		std::swap(exc, b.exc);
		std::swap(shape, b.shape);
		std::swap(v, b.v);
		std::swap(o, b.o);
		return *this;
	}
	~R() { Py_XDECREF(o); }
};
static inline bool
flatten(PyObject* o, std::vector<double>& v, std::string& s)
{
	if (PyFloat_Check(o)) {
		v.push_back(PyFloat_AsDouble(o));
		s = "d";
	} else if (PyLong_Check(o)) {
		v.push_back((double)PyLong_AsLongLong(o));
		s = "i";
	} else if (PyTuple_Check(o) || PyList_Check(o)) {
		Py_ssize_t n = PySequence_Size(o);
		std::string sub;
		for (Py_ssize_t i = 0; i < n; i++) {
			PyObject* q = PySequence_GetItem(o, i);
			std::string t;
			bool good = flatten(q, v, t);
			Py_DECREF(q);
			if (!good)
				return false;
			sub = i && t != sub ? "mixed" : t;
		}
		s = std::to_string(n) + "[" + sub + "]";
	} else
		return false;
	return true;
}
static inline PyObject*
lst(const double* d, size_t n, int how = 0)
{
	PyObject* l = how == 1 ? PyTuple_New(n) : PyList_New(n);
	for (size_t i = 0; i < n; i++) {
		PyObject* e = how == 2 && d[i] == std::floor(d[i]) && std::fabs(d[i]) < 1e9 ? PyLong_FromLong((long)d[i])
		                                                                      : PyFloat_FromDouble(d[i]);
		if (how == 1)
			PyTuple_SET_ITEM(l, i, e);
		else
			PyList_SET_ITEM(l, i, e);
	}
	return l;
}

// the references in args are taken
template<class... A>
static R
py(const char* fn, A... args)
{
	R r;
	PyObject* f = PyObject_GetAttrString(MOD, fn);
	PyObject* a = PyTuple_Pack(sizeof...(A), args...);
	if (f && a)
		r.o = PyObject_Call(f, a, nullptr);
	Py_XDECREF(a);
	Py_XDECREF(f);
	(void)std::initializer_list<int>{ (Py_XDECREF(args), 0)... };
	PyObject* e = PyErr_GetRaisedException();
	if (r.o && e)
		r.exc = "SystemError"; // a value and an error
	else if (r.o) {
		r.ok = true;
		if (!flatten(r.o, r.v, r.shape)) {
			r.v.clear();
			r.shape = r.o == Py_None ? "None" : Py_TYPE(r.o)->tp_name;
		}
	} else if (e)
		r.exc = Py_TYPE(e)->tp_name;
	else
		r.exc = "nothing";
	Py_XDECREF(e);
	return r;
}
static inline PyObject* F(double d) { return PyFloat_FromDouble(d); }
static inline PyObject* I(long long i) { return PyLong_FromLongLong(i); }
static inline PyObject* S(const std::string& s) { return PyUnicode_FromString(s.c_str()); }
static inline PyObject* ref(PyObject* o)
{
	Py_INCREF(o);
	return o;
}

