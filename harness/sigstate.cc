#include <octave/oct.h>
#include <octave/parse.h>
#include <octave/interpreter.h>
#include <octave/Cell.h>
#include <csignal>
#include <dlfcn.h>
// distinct handlers that do nothing
static void h1(int) {}
static void h2(int) {}
static void h3(int) {}
static const int sigs[] = {SIGINT, SIGTERM, SIGABRT, SIGHUP, SIGQUIT, SIGUSR1, SIGUSR2, SIGPIPE};
static Matrix dispositions()
{
  Matrix m(1,8);
  for (int i=0;i<8;i++) { struct sigaction a; sigaction(sigs[i], nullptr, &a); m(i) = (double)(size_t) a.sa_handler; }
  return m;
}
static Matrix ended()
{
  Matrix m(1,5);
  long out[5] = {0,0,0,0,0};
  void (*f)(long *) = (void (*)(long *)) dlsym(RTLD_DEFAULT, "dream_sched_end");
  if (f) f(out);
  for (int i=0;i<5;i++) m(i) = out[i];
  return m;
}
DEFUN_DLD (sigstate, args, nlhs, "sigstate(): dispositions of the signals\n\
sigstate('refill',x,y): write the values of y into the memory of x, which keeps its address\n\
sigstate('handlers',[a b c]): dispositions for SIGINT, SIGTERM, SIGABRT, 2 to 4 for handlers of its own; returns the former\n\
sigstate('mt'): whether the scheduler is there\n\
[status,msg,outs,sched,handlers] = sigstate('call',fn,nout,args): fn under the scheduler; status 1 result, 0 error, 2 interrupted")
{
  if (args.length() == 1)
    return octave_value(dlsym(RTLD_DEFAULT, "dream_sched_begin") != nullptr);
  if (args.length() == 2) {
    const Matrix x = args(1).matrix_value();
    Matrix old(1,3);
    void (*h[])(int) = {SIG_DFL, h1, h2, h3};
    for (int i=0;i<3;i++) {
      size_t a = (size_t) x(i);
      // 1 is SIG_IGN as well: handlers of our own are 2 to 4
      void (*n)(int) = a >= 2 && a <= 4 ? h[a-1] : (void (*)(int)) a;
      old(i) = (double)(size_t) std::signal(sigs[i], n);
    }
    return octave_value(old);
  }
  if (args.length() == 3) {
    if (args(1).is_double_type()) {
      const NDArray x = args(1).array_value(), y = args(2).array_value();
      std::copy(y.data(), y.data()+y.numel(), const_cast<double *>(x.data()));
    } else {
      const FloatNDArray x = args(1).float_array_value(), y = args(2).float_array_value();
      std::copy(y.data(), y.data()+y.numel(), const_cast<float *>(x.data()));
    }
    return octave_value();
  }
  if (args.length() == 4) {
    std::string fn = args(1).string_value(), msg;
    int nout = args(2).int_value(), status = 1;
    Cell c = args(3).cell_value();
    octave_value_list a(c.numel()), r, ret(5);
    Matrix h;
    for (int i=0;i<c.numel();i++) a(i) = c(i);
    void (*f)(void) = (void (*)(void)) dlsym(RTLD_DEFAULT, "dream_sched_begin");
    f();
    try {
      r = octave::feval(fn, a, nout);
      h = dispositions();       // Octave installs its own again when it recovers from an error
      OCTAVE_QUIT;              // an interrupt the function did not see
    } catch (const octave::execution_exception &e) {
      h = dispositions(); status = 0; msg = e.message();
      octave::interpreter::the_interpreter()->recover_from_exception();
    } catch (const octave::interrupt_exception &) {
      h = dispositions(); status = 2; msg = "interrupt";
      octave::interpreter::the_interpreter()->recover_from_exception();
    }
    Matrix m = ended();
    octave_interrupt_state = 0;
    Cell o(1, nout);
    for (int i=0;i<nout && i<r.length() && status==1;i++) o(i) = r(i);
    ret(0) = status; ret(1) = msg; ret(2) = o; ret(3) = m; ret(4) = h;
    return ret;
  }
  return octave_value(dispositions());
}
