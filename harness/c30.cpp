// C30: the Python extension modules, in an embedded interpreter.
//
// The modules are built by the check from /repo's sources (PBT_MODULES); the laws are the functions of
// c30_laws.py (PBT_LAWS), driven by this engine's generator.
#include <boost/python.hpp>
#include "pbt.hpp"
#include <cstdlib>

namespace bpl = boost::python;
using pbt::Gen;

namespace
{
std::uint64_t draw(Gen &g, std::uint64_t n) { return g.draw(n); }
void label(Gen &g, std::string const &s) { g.label(s); }
void note(Gen &g, std::string const &s) { g.note() << s << "; "; }
bool noting(Gen &g) { return g.notes_on; }

std::string error_text()
{
  PyObject *t, *v, *b;
  PyErr_Fetch(&t, &v, &b);
  PyErr_NormalizeException(&t, &v, &b);
  if (b) PyException_SetTraceback(v, b);
  std::string text = "?";
  try
  {
    bpl::object ex((bpl::handle<>(bpl::borrowed(v))));
    bpl::object f = bpl::import("c30_laws").attr("explain");
    text = bpl::extract<std::string>(f(ex));
  }
  catch (bpl::error_already_set const &) { PyErr_Clear(); }
  Py_XDECREF(t); Py_XDECREF(v); Py_XDECREF(b);
  return text;
}

bpl::object &laws()
{
  static bpl::object *l = 0;
  if (l) return *l;
  setenv("PYTHONDONTWRITEBYTECODE", "1", 1);
  setenv("PYTHONMALLOC", "malloc", 1);
  Py_InitializeEx(0);
  try
  {
    bpl::object main = bpl::import("__main__");
    {
      bpl::scope s(main);
      bpl::class_<Gen, boost::noncopyable>("Gen", bpl::no_init)
        .def("draw", draw).def("label", label).def("note", note).def("noting", noting)
        .def("nontrivial", &Gen::nontrivial).def_readonly("allow_known", &Gen::allow_known);
    }
    bpl::import("sys").attr("path").attr("insert")(0, std::string(getenv("PBT_LAWS")));
    l = new bpl::object(bpl::import("c30_laws"));
  }
  catch (bpl::error_already_set const &) { PyErr_Print(); abort(); }
  return *l;
}

void run(Gen &g, char const *name)
{
  bpl::object f = laws().attr("run");
  std::string failure;
  bool failed = false, discard = false;
  try { bpl::object r = f(name, bpl::ptr(&g)); discard = r.ptr() == Py_False; }
  catch (bpl::error_already_set const &) { failed = true; failure = error_text(); }
  // objects in reference cycles (exception frames) are not kept from case to case
  if (failed) PyGC_Collect();
  if (failed) g.fail(failure);
  if (discard) g.discard();
}
}

#define LAW(name, quick, thorough) PROP(name, quick, thorough) { run(g, #name); }
LAW(block_history, 1500, 30000)
LAW(block_make, 500, 5000)
LAW(block_errors, 400, 3000)
LAW(elementwise_real, 1500, 10000)
LAW(elementwise_complex, 1000, 8000)
LAW(matvec, 700, 6000)
LAW(reductions, 500, 4000)
LAW(cast, 300, 2000)
LAW(clip, 300, 3000)
LAW(freqswap, 300, 3000)
LAW(fft, 400, 4000)
LAW(fftm, 400, 4000)
LAW(conv, 500, 4000)
LAW(corr, 500, 4000)
LAW(fir, 400, 4000)
LAW(iir, 400, 4000)
LAW(window, 100, 600)
LAW(solvers, 700, 6000)
LAW(rand, 100, 2000)
