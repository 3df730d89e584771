import json
S="src/"
def P(id,title,statement,over,text,why,files,state,mech,observe):
    return dict(id=id,title=title,statement=statement,
        quantifier=dict(over=over,text=text),why_tests_cant=why,
        anchors=dict(files=[S+f for f in files],state=state,mechanism=mech,observe_at=observe,hook_needed=None))
def M(*pairs): return [dict(name=a,where=S+b) for a,b in pairs]
def ST(*tr): return [dict(name=a,meaning=b,where=S+c) for a,b,c in tr]
L=[]
L.append(P("C01","Forward and backward 3d FFT is the DFT in the requested layout",
 "For every 3d grid whose sides have only the prime factors 2, 3 and 5, every pair of input/output tilings of it over the processes (empty tiles included), every storage permutation and every combination of the collective, exchange and pack options, a forward compute leaves on each process exactly its output tile of the three-dimensional unnormalised DFT (exponent sign -1), stored in the requested axis order; a backward compute takes data in the output layout to the conjugate-sign transform in the input layout. Each of the three axes is transformed exactly once, over complete lines, and every intermediate rearrangement hands the next stage the layout it expects.",
 ["inputs","configurations"],"all grids, process counts, tilings, permutations, option settings, data and both directions",
 "The drivers try a handful of grids, process counts and two tilings; the composition of eight rearrangements with three storage orders must be right for every combination of tile shapes and options.",
 ["fft3d.cpp","fft3d.h","remap3d.cpp","kissfft.h"],
 ST(("in/fast/mid/slow/brick/out extents","the layouts the data passes through","fft3d.h FFT3d"),("remap_prefast..remap_postfast","the rearrangement plans between consecutive layouts","fft3d.h FFT3d")),
 M(("choice of pencil/brick layouts","fft3d.cpp FFT3d::setup"),("forward plans","fft3d.cpp FFT3d::remap_forward_create"),("inverse plans","fft3d.cpp FFT3d::remap_inverse_create"),("pipeline","fft3d.cpp FFT3d::compute"),("1d transforms over lines","fft3d.cpp FFT3d::perform_ffts, setup_ffts")),
 ["FFT3d::compute","fft3d_compute"]))
L.append(P("C02","Backward after forward 3d FFT gives the data back, scaled exactly once",
 "With scaling on, a forward followed by a backward 3d transform returns every value of the input tile to its original value (up to rounding) on every process, also when input and output tiles have different sizes; with scaling off it returns nfast*nmid*nslow times it. Scaling is applied only by the backward transform, to every element of the tile the backward transform delivers and to nothing beyond it, and never in remap-only mode.",
 ["inputs","configurations","histories"],"all grids, tilings with unequal tile sizes, options and sequences of calls",
 "The verification mode of the drivers only reaches layouts in which the two tiles have the same size on each process or the failing cases were dropped from the stable list.",
 ["fft3d.cpp"],
 ST(("norm","1/(nfast*nmid*nslow)","fft3d.h FFT3d"),("normnum","number of elements that scaling touches","fft3d.h FFT3d")),
 M(("scaling","fft3d.cpp FFT3d::scale_ffts"),("when scaling applies","fft3d.cpp FFT3d::compute"),("norm/normnum","fft3d.cpp FFT3d::setup")),
 ["FFT3d::compute"]))
L.append(P("C03","2d FFT is the DFT in the requested layout, and round trips",
 "For every 2d grid with 2/3/5-smooth sides, every pair of tilings, permutation 0 or 1 and every option setting, a forward 2d compute leaves each process its output tile of the unnormalised 2d DFT in the requested axis order, a backward compute takes the output layout to the conjugate-sign transform in the input layout, and with scaling on backward after forward is the identity on every element of the input tile.",
 ["inputs","configurations"],"all grids, process counts, tilings, permutations, option settings, data, directions",
 "Same as for 3d: tests sample a few grids and two tilings per process count.",
 ["fft2d.cpp","fft2d.h","remap2d.cpp"],
 ST(("in/fast/slow/brick/out extents","layouts the data passes through","fft2d.h FFT2d"),("normnum","number of elements that scaling touches","fft2d.h FFT2d")),
 M(("layouts","fft2d.cpp FFT2d::setup"),("plans","fft2d.cpp FFT2d::remap_forward_create, remap_inverse_create"),("pipeline","fft2d.cpp FFT2d::compute"),("scaling","fft2d.cpp FFT2d::scale_ffts")),
 ["FFT2d::compute","fft2d_compute"]))
L.append(P("C04","3d remap delivers every element to exactly the right place",
 "After a 3d remap, for any two tilings of one index space (empty tiles and arbitrary bounds included), any number of values per element, any storage permutation and any collective/pack setting, each process holds in every position of its output tile, in the permuted storage order, all the values the previous owner of that grid point had there, bit for bit. Nothing outside the output tile is written, and the input array is not modified when it is distinct from the output array.",
 ["inputs","configurations","schedules"],"all tilings, process counts, nqty, permute, collective, packflag, message arrival orders and data",
 "The drivers reach remaps only through FFT layouts with two values per element and regular tilings; most overlap shapes and all other nqty are never executed.",
 ["remap3d.cpp","remap3d.h","pack3d.h"],
 ST(("send/recv lists and pack plans","which part of which tile goes to whom and where it sits","remap3d.h Remap3d"),),
 M(("overlap of two tiles","remap3d.cpp Remap3d::collide"),("message plans","remap3d.cpp Remap3d::setup"),("exchange","remap3d.cpp Remap3d::remap"),("copy kernels","pack3d.h")),
 ["Remap3d::remap","remap3d_remap"]))
L.append(P("C05","2d remap delivers every element to exactly the right place",
 "After a 2d remap, for any two tilings of one 2d index space, any number of values per element, permutation 0 or 1 and any collective/pack setting, each process holds in every position of its output tile, in the requested storage order, the values of the previous owner of that grid point, bit for bit. Nothing outside the output tile is written, and a distinct input array is not modified.",
 ["inputs","configurations","schedules"],"all tilings, process counts, nqty, permute, collective, packflag, arrival orders and data",
 "As for the 3d remap; in single precision the 2d memcpy variants are not even run by the suite.",
 ["remap2d.cpp","remap2d.h","pack2d.h"],
 ST(("send/recv lists and pack plans","which part of which tile goes to whom","remap2d.h Remap2d"),),
 M(("overlap of two tiles","remap2d.cpp Remap2d::collide"),("message plans","remap2d.cpp Remap2d::setup"),("exchange","remap2d.cpp Remap2d::remap"),("copy kernels","pack2d.h")),
 ["Remap2d::remap","remap2d_remap"]))
L.append(P("C06","All pack/unpack kernels copy exactly the described block, permuted right",
 "Every pack kernel copies the described sub-block of a tile, in order, into a contiguous buffer, and every unpack kernel copies such a buffer into the described sub-block with the axes rotated as its permutation says; the array, pointer and memcpy families have identical effect in single and in double precision, for every block shape, stride and number of values per element. A kernel reads and writes no element outside the block and the buffer.",
 ["inputs","configurations"],"all block sizes and strides (zero included), values per element, precisions, all 27 kernels",
 "27 near-identical kernels with hand-derived strides; tests run nqty=2 on regular blocks and skip the memcpy family in 2d single precision.",
 ["pack3d.h","pack2d.h"],
 ST(("pack_plan_3d/pack_plan_2d","block shape and strides","pack3d.h, pack2d.h"),),
 M(("kernels","pack3d.h pack_3d_*, unpack_3d_*"),("kernels","pack2d.h pack_2d_*, unpack_2d_*")),
 ["kernels through Remap3d::remap / Remap2d::remap"]))
L.append(P("C07","Every message and collective matches; no remap or setup can hang",
 "In every setup, remap and transform, all processes of the communicator take part in the same collective operations in the same order with the same groups, and every point-to-point message that a process sends is received by its destination with the same length, and conversely. No process can wait for a message or collective that nobody will complete, even if sends are not buffered.",
 ["configurations","schedules"],"all tilings (empty tiles included), process counts, options and message timings",
 "A mismatch needs a particular set of tiles in which one process's view of the overlaps differs from another's; tests only see the tilings they run and eager sends.",
 ["remap3d.cpp","remap2d.cpp","fft3d.cpp","fft2d.cpp"],
 ST(("nsend/nrecv/self, sendcnts/recvcnts","whom this process exchanges how much with","remap3d.h, remap2d.h"),("pgroup/newcomm","processes connected by overlaps","remap3d.h, remap2d.h")),
 M(("symmetric overlap test","remap3d.cpp Remap3d::collide; remap2d.cpp Remap2d::collide"),("receives posted before sends","remap3d.cpp Remap3d::remap"),("group closure","remap3d.cpp Remap3d::setup"),("decisions reduced over all processes","fft3d.cpp FFT3d::setup; fft2d.cpp FFT2d::setup")),
 ["MPI calls"]))
L.append(P("C08","The sizes reported by setup are enough for every transform and remap",
 "The buffer sizes that FFT and remap setup report are enough: no transform or remap with that plan, in either direction, with any option and also in the one-step methods, reads or writes the caller's data arrays beyond fftsize complex elements, or the send and receive buffers (caller supplied or internal) beyond sendsize and recvsize values, and a separate input array beyond the input tile.",
 ["inputs","configurations"],"all grids, tilings, permutations, options, process counts and call kinds",
 "An undersized buffer shows only for layouts where the forgotten stage is the largest one, and then usually as silent heap corruption.",
 ["fft3d.cpp","fft2d.cpp","remap3d.cpp","remap2d.cpp"],
 ST(("fftsize,sendsize,recvsize","reported sizes","fft3d.h, fft2d.h"),),
 M(("maximum over all layouts","fft3d.cpp FFT3d::setup; fft2d.cpp FFT2d::setup"),("maximum over all plans","fft3d.cpp remap_forward_create, remap_inverse_create; same in fft2d.cpp"),("size of one remap","remap3d.cpp Remap3d::setup; remap2d.cpp Remap2d::setup")),
 ["setup return values","memory accesses of compute/remap"]))
L.append(P("C09","Internal process grids use every process and tile the FFT grid exactly",
 "For every number of processes (primes, and more processes than grid planes, included) and every grid, each internal process grid that setup chooses multiplies out to the number of processes, places every process at its own grid position, and the tiles derived from it cover every grid point exactly once, with pencils complete in their own axis.",
 ["inputs","configurations"],"all process counts and grid sizes",
 "Tests use few process counts, at most 12, on few grids.",
 ["fft3d.cpp","fft2d.cpp"],
 ST(("np*/ip*","process grid and position per layout","fft3d.h, fft2d.h"),),
 M(("factor list","fft3d.cpp FFT3d::factor; fft2d.cpp FFT2d::factor"),("minimum-surface process grid","fft3d.cpp FFT3d::procfactors, surfarea; fft2d.cpp FFT2d::procfactors"),("tile bounds","fft3d.cpp FFT3d::setup; fft2d.cpp FFT2d::setup")),
 ["npfast1.. values from the get functions","layouts used by compute"]))
L.append(P("C10","Separate input and output arrays give the same result as in place",
 "compute, only_remaps and only_one_remap give the same output whether input and output are one array or two, in both directions and for every layout and option, and with two arrays the input array keeps its contents.",
 ["inputs","configurations"],"all layouts, directions, options; in==out and in!=out",
 "The test drivers and examples only transform in place.",
 ["fft3d.cpp","fft2d.cpp"],
 ST(("in/out/data","arrays a stage reads and writes","fft3d.cpp FFT3d::compute"),),
 M(("initial copy or remap","fft3d.cpp FFT3d::compute, only_remaps, only_one_remap; same in fft2d.cpp"),("two-stage remap","fft3d.cpp FFT3d::remap; fft2d.cpp FFT2d::remap")),
 ["compute/only_remaps/only_one_remap with distinct arrays"]))
L.append(P("C11","Invalid grids, tiles, precisions and call orders are refused",
 "Creating a plan with a precision that is not the library's, setting it up with a grid side below 2 or with a prime factor other than 2, 3 and 5, with input bounds outside the grid or tiles that do not add up to the grid, or calling compute, the remap methods, setup_memory, tune or a remap out of order (before setup, before the buffers are supplied, twice, or with invalid tuning arguments) stops with an error on every process before any data is touched; a valid request is never refused.",
 ["inputs","histories"],"all argument values and call sequences",
 "The suite runs valid calls only.",
 ["fft3d.cpp","fft2d.cpp","remap3d.cpp","remap2d.cpp","error.cpp"],
 ST(("setupflag,setup_memory_flag","what has been done so far","fft3d.h, fft2d.h, remap3d.h, remap2d.h"),),
 M(("argument checks","fft3d.cpp FFT3d::FFT3d, FFT3d::setup, FFT3d::tune; same in fft2d.cpp"),("prime factor test","fft3d.cpp FFT3d::prime_factorable; fft2d.cpp FFT2d::prime_factorable"),("abort","error.cpp Error::all, Error::one")),
 ["error->all / MPI_Abort"]))
L.append(P("C12","Everything allocated is released exactly once over any life of a plan",
 "Over any legal life of an FFT or remap plan (created and destroyed without setup, set up and used, tuned, with internal or caller-supplied buffers, with any grid whose sides may coincide, in any option setting) every internal allocation, 1d plan and communicator is released exactly once, caller-supplied buffers are never released, and no released or uninitialised object is used.",
 ["histories","configurations"],"all sequences of create, set, setup, setup_memory, compute, tune, destroy and all sides equal or not",
 "Leaks and double frees of shared 1d plans or optional arrays do not show in the drivers' output; early destruction is never tried.",
 ["fft3d.cpp","fft2d.cpp","remap3d.cpp","remap2d.cpp","memory.cpp","kissfft.h"],
 ST(("remap_*, fft_*, sendbuf/recvbuf","owned objects","fft3d.h, fft2d.h"),),
 M(("release","fft3d.cpp deallocate_setup, deallocate_setup_memory, deallocate_remap, deallocate_ffts, ~FFT3d; same in fft2d.cpp"),("release","remap3d.cpp ~Remap3d; remap2d.cpp ~Remap2d")),
 ["allocations and frees"]))
L.append(P("C13","memusage accounts for every buffer and remap structure",
 "After setup the reported memory usage of a plan equals the sum, over all remaps it created, of their bookkeeping arrays (three integers and a plan per outgoing message, four integers, a request and a plan per incoming one, seven integers per group member in collective mode), plus the send and receive buffers exactly when the library allocated them itself.",
 ["configurations"],"all layouts, options, process counts, both memory modes",
 "Nothing in the suite compares the number with anything.",
 ["fft3d.cpp","fft2d.cpp","remap3d.cpp","remap2d.cpp"],
 ST(("memusage","bytes","fft3d.h, fft2d.h, remap3d.h, remap2d.h"),),
 M(("sum over remaps","fft3d.cpp FFT3d::remap_memory, setup; same in fft2d.cpp"),("one remap","remap3d.cpp Remap3d::setup; remap2d.cpp Remap2d::setup")),
 ["memusage, fft3d_get_int64"]))
L.append(P("C14","Tuning ends with a usable plan with the fastest tried settings, everywhere",
 "For any time limit, iteration count, direction and timing flag and any measured times, tune ends with the same settings on every process: the collective and exchange flags of the fastest of the trials that vary them and the pack method of the fastest of the trials that vary it (the initial trial counts only when it is the only one), with a plan set up with exactly these settings that is as usable as after setup, and the caller's memory mode restored. It records at most ten trials (nine when there is no time limit), never indexes the result tables out of range, and the recorded settings, times per transform, trial count and best time are consistent with each other.",
 ["inputs","schedules","configurations"],"all tuning arguments, all timings on every process, all initial settings",
 "The outcome depends on measured times, different on each process; the drivers cannot choose them.",
 ["fft3d.cpp","fft2d.cpp"],
 ST(("ntrial,cflags,eflags,pflags,tfft,..","trial tables of length 10","fft3d.h, fft2d.h"),("cbest,ebest,pbest,besttime","fastest","fft3d.h, fft2d.h")),
 M(("trial schedule","fft3d.cpp FFT3d::tune; fft2d.cpp FFT2d::tune"),("one trial","fft3d.cpp FFT3d::tune_trial; fft2d.cpp FFT2d::tune_trial")),
 ["tune, get functions after tune"]))
L.append(P("C15","C and Fortran interfaces mean exactly the C++ calls",
 "Every C function of the library performs the C++ operation of the same name on the given object with the same arguments in the same order and returns its results; the Fortran variants differ only in taking 1-based tile bounds and a Fortran communicator. Each keyword of the set and get functions writes or reads the setting or result the documentation gives for it and no other, and an unknown keyword changes nothing and returns the documented failure value.",
 ["inputs"],"all argument values and keywords, 2d and 3d FFTs and remaps",
 "Long runs of same-typed int arguments; the drivers use tilings and keywords in which many swaps are invisible, and the remap wrappers are not called at all.",
 ["fft3d_wrap.cpp","fft2d_wrap.cpp","remap3d_wrap.cpp","remap2d_wrap.cpp","fft3d_wrap.f90","fft2d_wrap.f90","remap3d_wrap.f90","remap2d_wrap.f90"],
 ST(("public fields of FFT3d/FFT2d/Remap3d/Remap2d","settings and results","fft3d.h, fft2d.h, remap3d.h, remap2d.h"),),
 M(("C functions","fft3d_wrap.cpp, fft2d_wrap.cpp, remap3d_wrap.cpp, remap2d_wrap.cpp"),("Fortran interfaces","fft3d_wrap.f90, fft2d_wrap.f90, remap3d_wrap.f90, remap2d_wrap.f90")),
 ["fft3d_*, fft2d_*, remap3d_*, remap2d_* functions"]))
L.append(P("C16","The built-in 1d FFT is the DFT for every allowed length",
 "For every length whose prime factors are 2, 3 and 5, the bundled 1d transform computes the unnormalised DFT of its input (over the reals: exponent sign -1 forward, +1 backward), in place or not, reads only its input line and its tables, and writes only its output line.",
 ["inputs"],"all lengths 2^a 3^b 5^c and all data, both directions",
 "Tests sample a few lengths; each radix combination takes its own path through the factor list, twiddle strides and butterflies.",
 ["kissfft.h"],
 ST(("factors","radix/remaining length pairs","kissfft.h kiss_fft_state"),("twiddles","exp(-+2 pi i k/n)","kissfft.h kiss_fft_state")),
 M(("factorisation","kissfft.h kf_factor"),("recursion","kissfft.h kf_work"),("butterflies","kissfft.h kf_bfly2, kf_bfly3, kf_bfly4, kf_bfly5"),("tables","kissfft.h kiss_fft_alloc"),("entry","kissfft.h kiss_fft_stride")),
 ["kiss_fft through compute and only_1d_ffts"]))
L.append(P("C17","The one-step methods do exactly their part of a transform",
 "only_remaps performs precisely the data movement of compute without any arithmetic; the single remaps selected by which = 1..4 (1..3 in 2d), done in pipeline order for a direction, have together the effect of only_remaps, each taking the data from the layout of one stage to that of the next; only_1d_ffts applies the 1d transforms of all axes to the array given and moves nothing; remap-only mode makes compute equal to only_remaps.",
 ["inputs","configurations"],"all layouts, directions, options and data",
 "The drivers call these methods for timing, on zeroes.",
 ["fft3d.cpp","fft2d.cpp"],
 ST(("remap_*","plans of the stages","fft3d.h, fft2d.h"),),
 M(("one-step methods","fft3d.cpp FFT3d::only_1d_ffts, only_remaps, only_one_remap; same in fft2d.cpp")),
 ["only_1d_ffts, only_remaps, only_one_remap"]))
L.append(P("C18","The Python interface means exactly the C calls",
 "Every method of the Python classes FFT3dMPI, FFT2dMPI, Remap3dMPI and Remap2dMPI makes exactly one call of the C function of the same name, on the object of that instance, with the same arguments in the same order, each converted to the C type the function expects for the precision of the instance, and returns the results in order (None where the C call reports nothing, vectors of the length the C call reports). Creating an instance creates one object on the given communicator; an instance is destroyed exactly once, by destroy() or by its deletion, and deleting it after destroy() raises nothing. Data that is not a numpy array and a precision other than 1 or 2 are refused without a C call.",
 ["inputs","histories"],"all argument values, both precisions, communicators passed as int or pointer, NULL results, orders of creating and destroying instances",
 "The drivers use a few calls of the FFT classes with default options and never create a remap; ctypes passes a wrong declaration silently or truncates values only when they are large.",
 ["fftmpi.py"],
 ST(("self.lib, argtypes/restype","ctypes declarations of the C functions","fftmpi.py __init__"),("self.fft, self.rmap","handle of the C object","fftmpi.py")),
 M(("declarations and creation","fftmpi.py __init__ of the four classes"),("methods","fftmpi.py set, get_*, setup, setup_memory, compute, only_*, tune, remap"),("lifetime","fftmpi.py destroy, __del__")),
 ["methods of FFT3dMPI, FFT2dMPI, Remap3dMPI, Remap2dMPI"]))
open("properties.jsonl","w").write("".join(json.dumps(p)+"\n" for p in L))
