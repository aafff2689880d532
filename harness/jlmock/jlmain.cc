#include "jlcxx/jlcxx.hpp"
extern "C" void define_julia_module(jlcxx::Module &);
PYBIND11_MODULE(JLNAME, m) {
  jlcxx::Module mod(m);
  define_julia_module(mod);
}
