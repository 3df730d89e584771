#!/bin/bash
# build.sh SRC OUT CONFIG PROG...   builds replay programs from the sources in SRC
set -e
SRC=$1; OUT=$2; CFG=$3; shift 3
H=$(cd "$(dirname "$0")" && pwd)
mkdir -p $OUT
DEF=""; LIB=""
case $CFG in *single*) DEF="$DEF -DFFT_SINGLE"; LF=-lfftw3f;; *) LF=-lfftw3;; esac
case $CFG in fftw3*) DEF="$DEF -DFFT_FFTW3"; LIB=$LF;; esac
SAN="-fsanitize=address,undefined -fno-sanitize=alignment,null,nonnull-attribute,pointer-overflow -fno-sanitize-recover=undefined"
FL="-std=c++17 -O1 -g $SAN -w -I$H/fakempi -I$SRC $DEF"
for d in 2 3; do grep -ohE "\\b(un)?pack_${d}d_[A-Za-z0-9_]+ *\(" $SRC/pack${d}d.h | tr -d ' (' | sort -u | sed 's/.*/{"&",&},/' > $OUT/kernels$d.inc; done
if [ "$*" = h_py ]; then       # Python interface: plain shared libraries and a launcher
  PF="-std=gnu++14 -O1 -g -fPIC -w -I$H/fakempi -I$SRC $DEF"
  (clang++ ${PF/gnu++14/c++17} -shared -o $OUT/libfmpy.so $H/fakempi/fm.cpp $H/pyrun.cpp -I$H/fakempi -lpthread) & p1=$!
  for d in 2 3; do (for f in fft${d}d remap${d}d memory error fft${d}d_wrap remap${d}d_wrap; do clang++ $PF -c $SRC/$f.cpp -o $OUT/$d-$f.o && objcopy --redefine-sym exit=fm_exit --redefine-sym printf=fm_printf --redefine-sym puts=fm_puts $OUT/$d-$f.o; done
    clang++ -shared -o $OUT/libfft${d}dmpi.so $OUT/$d-*.o $LIB) & eval q$d=$!; done
  wait $p1; wait $q2; wait $q3
  PR=2; case $CFG in *single*) PR=1;; esac
  PY=/opt/veriftools/pyvenv/bin/python
  printf '#!/bin/bash\nexec %s %s/h_py.py %s %s %s "$@"\n' $PY $H $SRC $OUT $PR > $OUT/h_py; chmod +x $OUT/h_py; exit 0
fi
pids=()
run(){ "$@" & pids+=($!); }
lib(){ clang++ ${FL/c++17/gnu++14} -c $SRC/$1.cpp -o $OUT/$1.o && objcopy --redefine-sym exit=fm_exit --redefine-sym printf=fm_printf --redefine-sym puts=fm_puts $OUT/$1.o; }
LOBJ=""
for f in fft3d fft2d remap3d remap2d memory error fft3d_wrap fft2d_wrap remap3d_wrap remap2d_wrap; do
  run lib $f; LOBJ="$LOBJ $OUT/$f.o"; done
run clang++ -std=c++17 -O1 -g -fsanitize=address -w -I$H/fakempi -c $H/fakempi/fm.cpp -o $OUT/fm.o
run clang++ $FL -I$H -c $H/main.cpp -o $OUT/main.o
FOBJ=""; WDEF=""
case " $* " in *" h_wrap "*) if command -v gfortran >/dev/null 2>&1; then WDEF="-DHAVE_F90"
  ftn(){ gfortran -w -O0 -ffree-line-length-none -J$OUT -c "$1" -o "$2"; }
  for m in fft3d fft2d remap3d remap2d; do run ftn $SRC/${m}_wrap.f90 $OUT/${m}_wrapf.o; FOBJ="$FOBJ $OUT/${m}_wrapf.o"; done
  wait ${pids[@]: -4}; run ftn $H/f_wrap.f90 $OUT/f_wrap.o; FOBJ="$FOBJ $OUT/f_wrap.o $(gfortran -print-file-name=libgfortran.so)"; fi;; esac
for p in "$@"; do run clang++ $WDEF ${FL/c++17/gnu++17} -Wno-register -I$H -I$OUT -c $H/$p.cpp -o $OUT/$p.o; done
rc=0; for p in ${pids[@]}; do wait $p || rc=1; done
[ $rc = 0 ] || exit 1
for p in "$@"; do
  L="$LOBJ"; [ $p = h_wrap ] && L="$OUT/fft3d_wrap.o $OUT/fft2d_wrap.o $OUT/remap3d_wrap.o $OUT/remap2d_wrap.o $FOBJ"
  W=""; [ $p = h_fft ] && W="-Wl,--wrap=_ZN9FFTMPI_NS7Remap3d5setupEiiiiiiiiiiiiiiiRiS1_ -Wl,--wrap=_ZN9FFTMPI_NS7Remap2d5setupEiiiiiiiiiiiRiS1_"
  clang++ $SAN $W -o $OUT/$p $OUT/$p.o $OUT/main.o $OUT/fm.o $L $LIB -lpthread & done; wait
