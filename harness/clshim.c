/* Lets DREAM's "GPU" code run on the CPU device of the OpenCL runtime installed here (pocl): device type GPU means GPU or CPU. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <CL/cl.h>

static void *next(const char *name)
{
  void *f = dlsym(RTLD_NEXT, name);
  if (!f) { /* libOpenCL was loaded with RTLD_LOCAL (a Python module) */
    void *h = dlopen("libOpenCL.so.1", RTLD_NOW);
    f = h ? dlsym(h, name) : 0;
  }
  return f;
}

static cl_device_type map(cl_device_type t) { return (t & CL_DEVICE_TYPE_GPU) ? (t | CL_DEVICE_TYPE_CPU) : t; }

cl_int clGetDeviceIDs(cl_platform_id p, cl_device_type t, cl_uint n, cl_device_id *d, cl_uint *nd)
{
  cl_int (*f)(cl_platform_id, cl_device_type, cl_uint, cl_device_id *, cl_uint *) = next("clGetDeviceIDs");
  return f ? f(p, map(t), n, d, nd) : CL_DEVICE_NOT_FOUND;
}

cl_context clCreateContextFromType(const cl_context_properties *p, cl_device_type t,
                                   void (CL_CALLBACK *cb)(const char *, const void *, size_t, void *), void *u, cl_int *e)
{
  cl_context (*f)(const cl_context_properties *, cl_device_type,
                  void (CL_CALLBACK *)(const char *, const void *, size_t, void *), void *, cl_int *) = next("clCreateContextFromType");
  if (!f) {
    if (e) *e = CL_DEVICE_NOT_FOUND;
    return 0;
  }
  return f(p, map(t), cb, u, e);
}
