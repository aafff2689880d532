#!/usr/bin/env python3
"""Writes properties.jsonl (single source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, state=state or [],
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe or [], hook_needed=hook)))

SMOKE = ("The existing tests are smoke tests: each calls the function on one fixed parameter set and plots or prints the "
         "result; none of them asserts a value, so they pass for any output that does not raise.")

prop("S01", "Flat apertures: response is the discretised Rayleigh integral",
 "For the unfocused line, rectangular and circular transducers, the impulse response at every observation point is the sum, over the regular grid of surface elements that covers the aperture, of the Rayleigh contribution v*area/(2*pi*r*dt) of each element, placed in the sample nearest to (travel time r/cp - start delay)/dt. "
 "Samples that no element maps to are exactly zero, and the response at a point depends on no other point.",
 ["inputs"], "Every aperture size, element size, sampling period, response length, observation point (on/off axis, either side, in front of or beside the aperture), scalar or per-point start delay, velocity and sound speed, from Octave and from Python.",
 SMOKE,
 ["src/dreamline.cc","src/dreamrect.cc","src/dreamcirc.cc","oct/oct_dreamline.cc","oct/oct_dreamrect.cc","oct/oct_dreamcirc.cc","python/src/py_dreamrect.cc","python/src/py_dreamline.cc","python/src/py_dreamcirc.cc"],
 [("surface-element loop and nearest-sample accumulation","dreamrect_serial, dreamline_serial, dreamcirc_serial")],
 observe=["return value h of dreamline/dreamrect/dreamcirc"])

prop("S02", "Focused flat apertures delay each element by its focusing law",
 "For the focused rectangular and circular transducers every surface element's arrival is shifted by the geometric focusing delay of the chosen method (none, x, y, xy, x+y) and focal depth, relative to the documented aperture reference point, before it is placed in the nearest sample with its Rayleigh weight. "
 "With focusing method none the response is identical to that of the unfocused aperture.",
 ["inputs"], "Every focusing method and focal depth with every geometry, sampling, delay and material parameter set and observation point.",
 SMOKE,
 ["src/dreamrect_f.cc","src/dreamcirc_f.cc","oct/oct_dreamrect_f.cc","oct/oct_dreamcirc_f.cc","python/src/py_dreamrect_f.cc","python/src/py_dreamcirc_f.cc"],
 [("per-element focusing delay","dreamrect_f_serial, dreamcirc_f_serial")],
 observe=["return value h of dreamrect_f/dreamcirc_f"])

prop("S03", "Curved apertures integrate over the true concave or convex surface",
 "For the cylindrical and spherical transducers the response is the sum over surface elements lying on the curved surface of radius |R|, concave (focused) when R is positive and convex (defocused) when R is negative, each with its own area, distance and nearest arrival sample. "
 "Both signs of R and every observation point obey the same rule.",
 ["inputs"], "Every aperture size, radius of curvature of either sign, discretisation, observation point, delay and material parameter set.",
 SMOKE,
 ["src/dreamcylind.cc","src/dreamsphere.cc","oct/oct_dreamcylind.cc","oct/oct_dreamsphere.cc","python/src/py_dreamcylind.cc","python/src/py_dreamsphere.cc"],
 [("curved-surface element loops","dreamcylind_serial (cylind_f/cylind_d), dreamsphere_serial (sphere_f/sphere_d)")],
 observe=["return value h of dreamcylind/dreamsphere"])

prop("S04", "Analytic responses match the closed-form piston solutions",
 "The analytic rectangular response equals, at every sample time, the closed-form spatial impulse response of a rectangular piston; the analytic circular response equals the closed-form response of a circular piston; and the sampled circular response equals that closed form averaged over one sampling interval centred on the sample time, by the trapezoidal rule with the requested number of sub-intervals. "
 "All are proportional to the normal velocity and are zero before the first and after the last arrival from the aperture.",
 ["inputs"], "Every aperture size, observation point (inside and outside the geometric shadow in each coordinate), sampling, delay and material parameter set.",
 SMOKE + " The three analytic functions have no test at all.",
 ["extra_src/rect_sir.cc","extra_src/circ_sir.cc","extra_src/scirc_sir.cc","extra_src/oct_rect_sir.cc","extra_src/oct_circ_sir.cc","extra_src/oct_scirc_sir.cc"],
 [("closed-form evaluation","RectSir::rect_sir_serial, circ_sir, scirc_sir")],
 observe=["return value of rect_sir/circ_sir/scirc_sir"])

prop("S05", "Attenuation replaces each element impulse by its causal lossy pulse",
 "With a positive attenuation coefficient, every surface element contributes, instead of one sample, its Rayleigh weight times the inverse DFT over the response length of the frequency-domain lossy propagation kernel for that element's distance and arrival sample; with coefficient zero the response is exactly the lossless one. "
 "The stand-alone attenuation function returns the same kernel for its observation points.",
 ["inputs"], "Every transducer type with attenuation, every coefficient, response length (odd, even, non-power-of-two), distance and arrival sample.",
 SMOKE,
 ["src/attenuation.cc","include/attenuation.h","include/fft.h","oct/oct_dream_att.cc","src/dreamrect.cc","src/dreamcirc.cc","src/dreamline.cc","src/dreamsphere.cc","src/dreamcylind.cc"],
 [("frequency-domain Green's function and inverse FFT","Attenuation::att"),("alpha dispatch","each threaded front end")],
 observe=["h of every SIR function with alpha>0","dream_att"])

prop("S06", "Out-of-range samples are dropped and reported at the chosen error level",
 "When a surface element's arrival falls outside the response window its contribution is discarded and never stored in this or any other point's response; the call then raises an error at level 'stop', and at 'warn' and 'ignore' it returns the in-range part and a non-zero code that identifies the level, whichever observation point, array element or worker was affected. "
 "When every arrival is inside the window, no error is raised and the code is zero.",
 ["inputs","schedules"], "Every transducer and array function, every error level, every mix of in-range and out-of-range points and elements, every worker count (including one) and worker completion order.",
 SMOKE + " They never leave the window on purpose, never read the error output and never vary the worker count.",
 ["src/dream_error.cc","include/dream_error.h","src/dreamrect.cc","src/dreamsphere.cc","src/dream_arr_rect.cc","src/dream_arr_annu.cc","src/dreamline.cc","src/dreamcirc.cc","src/dreamcylind.cc","src/dreamrect_f.cc","src/dreamcirc_f.cc","src/dream_arr_circ.cc","src/dream_arr_cylind.cc"],
 [("range check","dream_out_of_bounds_err and callers"),("per-thread error merge","Rect::dreamrect etc. after join")],
 state=[dict(name="running",meaning="cleared by the worker that meets a stop-level error",where="src/*.cc"),dict(name="D[].err",meaning="last error of a worker",where="src/*.cc")],
 observe=["second output err, raised error, h"])

prop("A01", "Array responses are the weighted superposition of their elements",
 "For rectangular, circular and cylindrical arrays the response is the sum over all elements of the element's own single-transducer response at the observation point relative to the element centre, advanced or delayed by its focusing and steering delays and scaled by its apodization weight. "
 "It does not depend on the order in which the elements are listed.",
 ["inputs"], "Every number and placement of elements (including z offsets), element geometry, delay, observation point and combination of focusing, steering and apodization.",
 SMOKE,
 ["src/dream_arr_rect.cc","src/dream_arr_circ.cc","src/dream_arr_cylind.cc","src/arr_functions.cc","oct/oct_dream_arr_rect.cc","python/src/py_dream_arr_rect.cc"],
 [("element loop","dream_arr_rect_serial, dream_arr_circ_serial, dream_arr_cylind_serial")],
 observe=["h of dream_arr_*"])

prop("A02", "Focusing and steering delays follow the documented geometric laws",
 "For every element of an array the focusing delay is the difference between the path from the array's outermost extent and the path from that element to the focus for the chosen method (none, x, y, xy, x+y, or the user's own delay for that element), and the steering delay is the plane-wave delay for the chosen angles (none, x, y, xy) referred to the outermost element. "
 "A method the user did not select has no effect on the response.",
 ["inputs"], "Every focusing and steering method, focal depth, pair of angles, user delay vector and array layout.",
 SMOKE,
 ["src/arr_functions.cc","src/dream_arr_rect.cc","src/dream_arr_circ.cc","src/dream_arr_cylind.cc","include/arg_parser.h","include/arg_parser_python.h"],
 [("delay laws","focusing, beamsteering, max_dim_arr"),("method strings","parse_focus_args, parse_steer_args")],
 observe=["arrival samples in h of dream_arr_*"])

prop("A03", "Apodization weights follow the selected window",
 "For every array element the apodization weight is the value of the selected window (user-defined, triangle, Gauss, raised cosine, Hann, Hamming, simply supported, clamped) at the element's distance from the array centre relative to the array's maximum radius, using the user's shape parameter, and one when apodization is off; the response scales accordingly. "
 "The stand-alone apodization-window function returns those same window values on a uniform grid.",
 ["inputs"], "Every window, shape parameter, user weight vector, array layout, from Octave and Python.",
 SMOKE,
 ["src/arr_functions.cc","oct/oct_dream_apodwin.cc","include/arg_parser.h","include/arg_parser_python.h","python/src/py_dream_arr_rect.cc","src/dream_arr_rect.cc","src/dream_arr_annu.cc"],
 [("window formulas","apodization"),("shape parameter and method parsing","parse_apod_args")],
 observe=["h of dream_arr_*","dream_apodwin"])

prop("A04", "Annular arrays sum ring responses at their focusing delays",
 "For annular arrays each ring's response is the difference of the responses of the two concentric discs that bound it (the innermost element being the full disc), and the array response is the sum of the rings weighted by the chosen apodization and delayed by each ring's focusing delay rounded to a sample, whatever the focusing method. "
 "A ring never contributes outside the response window of its own observation point.",
 ["inputs"], "Every odd number of radii, focusing method (none, on-axis focus, user-defined, including delays that move a ring partly or wholly out of the window), apodization and observation point.",
 SMOKE,
 ["src/dream_arr_annu.cc","oct/oct_dream_arr_annu.cc","python/src/py_dream_arr_annu.cc"],
 [("disc-to-ring differencing","resp_annular"),("delayed superposition","superpos_annular"),("ring focusing/apodization","focusing_annular, apodization_annular")],
 observe=["h of dream_arr_annu"])

prop("T01", "Results do not depend on the number of workers or their schedule",
 "For every threaded function the outputs, the error code and the raised error are the same for every worker count allowed by the machine and the DREAM_NUM_THREADS setting and for every order in which the workers run: each observation point or column is computed exactly once, from its own inputs only, and stored in its own place.",
 ["schedules","configurations","inputs"], "Every worker count from one up to and beyond the number of points, every order in which workers start and finish, every number of points/columns including ones the worker count does not divide.",
 "A test sees one schedule on one machine with one worker count, and none compares results across them.",
 ["src/dreamrect.cc","src/dreamsphere.cc","src/dream_arr_rect.cc","extra_src/das.cc","extra_src/fftconv_p.cc","extra_src/oct_conv_p.cc","extra_src/oct_fftconv_ola.cc","extra_src/oct_sum_fftconv.cc","extra_src/rect_sir.cc","extra_src/oct_scirc_sir.cc"],
 [("static partition of points/columns","start/stop computation in each threaded front end"),("join and error merge","each threaded front end")],
 observe=["outputs under controlled worker schedules"])

prop("T02", "An interrupted computation is never returned as a complete result",
 "If an interrupt signal handled by a running computation arrives before its last worker has finished, the call either still returns the complete correct result or raises an error or interrupt message; all its workers have ended when it returns; and the next call, with any arguments, computes its full correct result.",
 ["fault_sequences","schedules"], "Every point in the worker schedule at which the signal can arrive (before, between and after workers), every threaded function, followed by any further calls.",
 "No test delivers a signal.",
 ["src/dreamrect.cc","src/dream_arr_annu.cc","extra_src/das.cc","extra_src/fftconv_p.cc","extra_src/oct_fftconv_p.cc","extra_src/oct_conv_p.cc","extra_src/oct_copy_p.cc","extra_src/oct_circ_sir.cc"],
 [("running flag","abort/is_running/set_running and the check after each point")],
 state=[dict(name="running",meaning="process-wide go flag of a function",where="src/*.cc, extra_src/*.cc")],
 observe=["raised error or result after a signal injected at a chosen worker"])

prop("T03", "A call leaves the session's signal handling as it found it",
 "While a function runs it may handle interrupt, termination and abort signals itself; when the call is over, however it ended - with a result, an out-of-bounds error, a rejected argument, an interrupt - the session's handling of these signals is exactly what it was before the call.",
 ["inputs","histories"], "Every public function of both bindings, every way a call can end (result, warning, out-of-range error, malformed argument, interrupt), in every order in one session.",
 "No test looks at the signal dispositions, before or after a call.",
 ["oct/oct_dreamrect.cc","oct/oct_dreamsphere.cc","src/dreamrect.cc","extra_src/oct_das.cc","extra_src/oct_fftconv_p.cc","extra_src/oct_copy_p.cc","extra_src/oct_rect_sir.cc","python/src/py_dreamrect.cc","python/include/py_das.hpp"],
 [("handler registration and restore","std::signal calls in the gateway functions")],
 state=[dict(name="old_handler*",meaning="handlers found on entry",where="gateway functions")],
 observe=["sigaction of SIGINT, SIGTERM, SIGABRT before and after a call"])

prop("D01", "SAFT sums the two-way-delayed sample of every element for each image point",
 "Monostatic delay-and-sum (SAFT) gives, for every image point, the sum over transducer elements of the data sample at twice the element-to-point travel time plus start delay (two-way, counted in samples and truncated), including exactly the samples that exist; image points are independent of each other and of their order.",
 ["inputs"], "Every element layout, image point set, data matrix (length, values), start delay, sampling frequency and sound speed, in single and double precision.",
 SMOKE,
 ["extra_src/das.cc","include/das.h","extra_src/oct_das.cc","python/src/py_das.cc"],
 [("delay and sample lookup","DAS::das_saft_serial")],
 observe=["return value of das"])

prop("D02", "TFM sums every transmit-receive pair's sample at its bistatic delay",
 "Full-matrix delay-and-sum (TFM) gives, for every image point, the sum over all transmit/receive pairs of the sample of that pair's own trace at the transmit-plus-receive travel time plus the start delay, counted in samples and truncated, and no other sample.",
 ["inputs"], "Every pair of transmit and receive layouts (different sizes included), image points, data, delays, sampling frequencies and sound speeds, in single and double precision.",
 SMOKE,
 ["extra_src/das.cc","include/das.h","extra_src/oct_das.cc","python/src/py_das.cc"],
 [("delay and sample lookup","DAS::das_tfm_serial")],
 observe=["return value of das"])

prop("D03", "Row-column addressed arrays use line distances with finite element ends",
 "For the row-column addressed methods the travel time between an image point and a line element is the distance to the nearest point of that element's finite extent, the extent of the row elements being set by the outermost column positions and vice versa, and the image is the sum over all transmit/receive pairs of the sample at the summed travel times plus the start delay, truncated, for column and for row transmission and for any, including unequal, numbers of rows and columns.",
 ["inputs"], "Every row and column layout (any counts), image point inside and outside the line extents, data, delay, sampling frequency and sound speed.",
 SMOKE + " They use equal row and column counts only.",
 ["extra_src/das.cc","include/das.h","extra_src/oct_das.cc","python/src/py_das.cc"],
 [("segment distance","DAS::das_rca_serial_coltx, das_rca_serial_rowtx")],
 observe=["return value of das"])

prop("D04", "Beamforming calls are independent of every earlier call",
 "The image, error code and raised error of a delay-and-sum call are a function of that call's arguments alone: any history of earlier calls with the same or different method, sizes, geometry, precision, or failed validation leaves no trace in it. "
 "Single- and double-precision calls agree with each other up to single-precision rounding.",
 ["histories","inputs"], "Every sequence of delay-and-sum calls in one session with arbitrary changes of setup between them.",
 "Each test makes a single call in a fresh process.",
 ["extra_src/oct_das.cc","python/include/py_das.hpp","python/src/py_das.cc","include/das.h","extra_src/das.cc"],
 [("cached beamformer object","das_setup_has_changed and the static object in the bindings")],
 state=[dict(name="cached DAS object",meaning="kept between calls for reuse",where="extra_src/oct_das.cc, python/include/py_das.hpp")],
 observe=["return value of das in a session"])

prop("C01", "Parallel convolution equals column-wise linear convolution",
 "The parallel time-domain and FFT convolutions return, for every column of the first matrix, its full-length linear convolution with the corresponding column of the second (or with the single second vector, a row or a column), from Octave and Python, up to rounding.",
 ["inputs"], "Every matrix and vector size (including length one, row vectors, one column, more columns than workers) and content.",
 SMOKE,
 ["extra_src/oct_conv_p.cc","extra_src/conv.cc","extra_src/oct_fftconv_p.cc","extra_src/fftconv.cc","extra_src/fftconv_p.cc","python/include/py_fftconv_p.hpp","include/fft.h"],
 [("column loops and broadcasting","smp_dream_conv, smp_dream_fftconv, FFTConvP"),("kernels","conv, fftconv")],
 observe=["return values of conv_p/fftconv_p"])

prop("C02", "In-place convolution modes assign, add or subtract exactly one result",
 "In the in-place form the given output matrix becomes exactly the convolution ('='), its previous content plus the convolution ('+='), or its previous content minus the convolution ('-='), element by element, and no variable that does not share its storage changes. "
 "An output argument that is not a full double-precision matrix of the right size is rejected and left as it was.",
 ["inputs","histories"], "Every convolution function that has an in-place form, every mode, matrix/vector combination, initial content, repeated application and worker count.",
 SMOKE,
 ["extra_src/oct_conv_p.cc","extra_src/conv.cc","extra_src/oct_fftconv_p.cc","extra_src/fftconv.cc","extra_src/oct_fftconv_ola.cc","extra_src/oct_sum_fftconv.cc"],
 [("ConvMode handling","conv, fftconv, add_fftconv and gateway functions")],
 observe=["the in-place output matrix"])

prop("C03", "Overlap-add convolution is independent of the block length",
 "The overlap-add FFT convolution returns the same column-wise linear convolution as the direct method for every block length from one sample to the length of the signal, for matrix and vector second arguments alike.",
 ["inputs"], "Every signal and filter length, block length from one sample to the signal length (dividing it or not), column count and worker count.",
 SMOKE + " They use one block length.",
 ["extra_src/oct_fftconv_ola.cc","extra_src/fftconv.cc"],
 [("block splitting and overlap accumulation","smp_dream_fftconv_ola")],
 observe=["return value of fftconv_ola"])

prop("C04", "Summed convolution adds the convolutions of every input plane",
 "The summed FFT convolution returns, for every output column, the sum over all inputs of the linear convolution of that input's response column with that input's signal, divided by the length of that convolution as documented; given an output matrix it stores the same values there.",
 ["inputs"], "Every number of inputs, columns, response and signal lengths and contents.",
 SMOKE + " The function has no test.",
 ["extra_src/oct_sum_fftconv.cc","extra_src/fftconv.cc"],
 [("accumulation in the frequency domain","add_fftconv, smp_dream_sum_fftconv")],
 observe=["return value of sum_fftconv"])

prop("C05", "FFT planning wisdom never changes a convolution's result",
 "Passing wisdom previously returned by an FFT convolution function, for the same or another size, or calling the functions in any order and with any sizes in one session, gives the same results as fresh calls; a string that is not wisdom is rejected with an error.",
 ["histories","inputs"], "Every sequence of FFT convolution calls, sizes, and wisdom strings (valid for the size, valid for another size, not wisdom).",
 "Each test starts a fresh process and never passes wisdom.",
 ["include/fft.h","extra_src/oct_fftconv_p.cc","extra_src/oct_fftconv_ola.cc","extra_src/oct_sum_fftconv.cc"],
 [("wisdom import/export","FFT::import_wisdom, FFT::is_wisdom, FFT::get_wisdom")],
 state=[dict(name="FFTW wisdom and plans",meaning="process-global planner state",where="include/fft.h")],
 observe=["results and errors in a session of calls"])

prop("M01", "Sub-matrix copy and add touch exactly the addressed block",
 "The parallel in-place copy and add replace, or increment, exactly the elements of the destination inside the given row and column ranges with the source elements, leave every other element unchanged, and reject ranges that start before one, end before they start or end outside the destination, sources with too few rows or another number of columns, and destinations that are not full double-precision matrices.",
 ["inputs"], "Every destination size, row and column range (proper sub-blocks included), source content and worker count.",
 "The functions have no test.",
 ["extra_src/oct_copy_p.cc","extra_src/oct_add_p.cc"],
 [("column partition and block addressing","smp_dream_copy_p, smp_dream_add_p")],
 observe=["destination matrix after the call"])

prop("V01", "Malformed arguments are rejected without side effects",
 "A call whose arguments have the wrong count, shape or type, or an unknown method, mode or error-level name, reports an error and returns no result; it neither crashes nor corrupts the session: every later valid call gives its correct result.",
 ["inputs","histories"], "Every public function of the Octave and Python bindings, every argument position, every malformed shape and string, interleaved with valid calls.",
 SMOKE + " None passes a bad argument.",
 ["include/arg_parser.h","include/arg_parser_python.h","oct/oct_dreamrect.cc","oct/oct_dream_arr_rect.cc","extra_src/oct_das.cc","extra_src/oct_fftconv_p.cc","python/include/py_das.hpp","python/include/py_fftconv_p.hpp"],
 [("argument checks","ArgParser::check_*/parse_*")],
 observe=["raised errors and subsequent results"])

prop("V02", "Calls are pure: inputs are unchanged and results repeat",
 "No function modifies its input arrays (other than the output matrix of the documented in-place forms), and repeating a call with equal arguments at any later point in a session gives the same results, whatever other DREAM functions were called in between: bit for bit, except for results computed with FFTs, which agree up to rounding.",
 ["histories","inputs"], "Every public function, every interleaving of calls in one session.",
 "Each test makes its calls in a fresh process and never re-reads its inputs.",
 ["oct/oct_dreamrect.cc","python/src/py_dreamrect.cc","src/dreamrect.cc","src/dream_arr_annu.cc","extra_src/das.cc","extra_src/oct_fftconv_p.cc","extra_src/oct_conv_p.cc"],
 [("value semantics of the gateways","gateway functions")],
 observe=["input arrays before/after, repeated outputs"])

prop("B01", "Octave and Python bindings compute the same thing",
 "For every function offered by both bindings, the same arguments give the same response (up to rounding), the same error code and the same accept-or-reject decision, with each optional or selected parameter taken from the documented argument.",
 ["inputs","configurations"], "Every transducer, array, delay-and-sum and convolution function in both bindings and every option they share.",
 "The two test suites run separately and compare nothing.",
 ["include/arg_parser.h","include/arg_parser_python.h","oct/oct_dream_arr_rect.cc","python/src/py_dream_arr_rect.cc","extra_src/oct_das.cc","python/src/py_das.cc","python/src/py_dream_arr_annu.cc"],
 [("argument unpacking","gateway functions of both bindings")],
 observe=["outputs of the two bindings"])

prop("B02", "MATLAB (MEX) gateways give the specified results",
 "Each MATLAB gateway returns, for the arguments its documentation describes, the response, image or convolution the toolbox defines and the documented error code and messages; it refuses malformed arguments (wrong count, shape or class, unknown names) without reading outside the arrays it was given or disturbing later calls, leaves its inputs unchanged and the session's signal handlers as they were.",
 ["inputs","histories"], "Every MEX gateway, every argument class and malformed form, single and double precision, every error level, with valid and malformed calls interleaved in a session.",
 "The gateways are neither built nor tested by the repository's build on this platform.",
 ["include/arg_parser_matlab.h","mex/mex_dreamrect.cc","mex/mex_dream_arr_rect.cc","mex/mex_dream_arr_annu.cc","extra_src/mex_das.cc","extra_src/mex_fftconv_p.cc","extra_src/mex_conv_p.cc","extra_src/mex_rect_sir.cc"],
 [("argument unpacking and checks","mexFunction of each gateway, ArgParser")],
 observe=["outputs, errors, messages, input arrays and signal dispositions of MEX calls"])

prop("B03", "Julia gateways give the specified results",
 "Each Julia gateway returns, for the arguments its documentation describes, the response, image or convolution the toolbox defines, with the documented out-of-bounds behaviour for every error level; it refuses malformed arguments without disturbing later calls, leaves its inputs unchanged and the process's signal handlers as they were.",
 ["inputs","histories"], "Every Julia gateway, every argument and malformed form, single and double precision delay-and-sum, every error level, in sessions.",
 "The gateways are neither built nor tested by the repository's build on this platform.",
 ["include/arg_parser_julia.h","julia/src/jl_dreamrect.cc","julia/src/jl_dream_arr_rect.cc","julia/src/jl_dream_arr_annu.cc","julia/include/jl_das.hpp","julia/src/jl_conv_p.cc","julia/src/jl_fftconv_p.cc"],
 [("argument unpacking and checks","jl_* functions, ArgParser")],
 observe=["outputs, errors, messages, input arrays and signal dispositions of calls"])

prop("G01", "OpenCL transducer responses equal the CPU responses",
 "On the OpenCL device the response functions that offer it (rectangular and circular transducer, analytic rectangle) return, for every observation point, the same response as on the CPU (up to rounding), for any number of observation points, delays, attenuation and response length. Out-of-bounds contributions are dropped as in the CPU path's 'ignore' mode: the error level is documented not to apply on the device.",
 ["inputs","configurations"], "Every geometry, sampling, delay vector, medium, number of observation points (also not a multiple of the work-group size) and response length, in the OpenCL build.",
 "The OpenCL build has no test, and the runtime's devices differ from machine to machine.",
 ["opencl/dreamrect.cl","opencl/dreamcirc.cl","opencl/rect_sir.cl","opencl/cl_dreamrect.cc","opencl/cl_dreamcirc.cc","opencl/cl_rect_sir.cc","oct/oct_dreamrect.cc","extra_src/oct_rect_sir.cc"],
 [("work-item index and sample accumulation","kernels"),("argument transfer","cl_dreamrect, cl_dreamcirc, cl_rect_sir")],
 observe=["response matrix of the OpenCL build with device 'gpu'"])

prop("G02", "OpenCL delay-and-sum equals the delay-and-sum definition",
 "On the OpenCL device delay-and-sum, for arbitrary image points and for the uniform-grid form, gives in both precisions and for every method the image the delay-and-sum definition gives on the CPU (up to rounding): every grid point from minimum to maximum in the documented order, whatever the number of points; calls with inconsistent data and array sizes are rejected, inputs stay unchanged, and repeated or interleaved calls in one session give the same images.",
 ["inputs","histories","configurations"], "Every data size, array, grid, delay form, method and precision, and every sequence of calls in a session of the OpenCL build.",
 "The OpenCL build and das_uni have no test.",
 ["opencl/das_double.cl","opencl/das_float.cl","opencl/das_uni_double.cl","opencl/das_uni_float.cl","opencl/cl_das.cc","opencl/cl_das_uni.cc","include/das.h","include/das_uni.h","extra_src/oct_das.cc","extra_src/oct_das_uni.cc","python/include/py_das.hpp"],
 [("focusing-delay and accumulation kernels","das_tfm, das_saft, das_rca_*"),("object reuse and buffers","das_setup_has_changed, cl_das")],
 state=[dict(name="static DAS/DAS_UNI objects",meaning="device program, buffers, sizes and method of the last call",where="extra_src/oct_das_uni.cc")],
 observe=["images, errors and input arrays in sessions of das and das_uni calls"])

prop("F01", "Water sound speed follows Del Grosso's equation",
 "h2o_soundspeed returns, for every temperature, pressure and salinity (scalars or arrays, taken element by element) and every documented pressure unit in any letter case, the sound speed Del Grosso's 1974 equation gives for them; pressure defaults to one atmosphere, the unit to Pascal (also when it is unknown), salinity to zero.",
 ["inputs"], "Every temperature, pressure, unit and salinity within the equation's range, as scalars or arrays, and every number of optional arguments.",
 "The helper has no test, and a wrong term only shows where its factors (salinity, high pressure) are not zero.",
 ["m_files/h2o_soundspeed.m"],
 [("polynomial terms and unit conversion","h2o_soundspeed")],
 observe=["returned sound speed"])

prop("F02", "Array focusing delays let every element's wave meet at the focus",
 "arr_focus_delays returns one delay per element such that delay plus travel time to the focal point (at the focal depth, at the steering angle from the array's normal through the origin) is the same for all elements and the smallest delay is zero; for a negative depth delay minus travel time from the virtual source is the same for all elements and the smallest delay is zero.",
 ["inputs"], "Every set of element positions (also unordered, or a single element), sound speed, focal depth of either sign and steering angle.",
 "The helper has no test.",
 ["m_files/arr_focus_delays.m"],
 [("focal point, farthest element, sign of the depth","arr_focus_delays")],
 observe=["returned delays"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
