#!/bin/bash
# Builds EDGE (one configuration) and/or EDGE-V from /repo into a directory, without MPI, gmsh, ExprTk and Wykobi libraries:
# small stand-ins are used for these. usage: build.sh <dir> edge|edge_v|both [<equations> <element> <order> <precision> <fused>]
set -e
K=$(cd "$(dirname "$0")" && pwd); R=$(pwd); B=$1; W=$2
mkdir -p $B/o
BASE="-std=c++11 -w -fopenmp -O1 -U_FORTIFY_SOURCE -DPP_USE_OMP -DPP_USE_EASYLOGGING -DELPP_NO_DEFAULT_LOG_FILE -DELPP_THREAD_SAFE -DEIGEN_MAX_STATIC_ALIGN_BYTES=0 -include $B/version.h $DEMO_FLAGS"
SYS="-isystem /usr/include/eigen3 -isystem /usr/include/hdf5/serial"
echo "#define PP_EDGE_VERSION \"demo\"" > $B/version.h
ln -sfn $R/tools/edge_v/src $B/edge_v
{
  echo "/usr/include/easylogging++.cc|$B/o/elpp.o|$BASE"
  echo "$K/gmsh_stub.cpp|$B/o/gmsh.o|$BASE -I$K/include"
  for f in $(cd $R/tools/edge_v/src; find . -name '*.cpp' ! -name '*test.cpp' ! -name '*tests.cpp' ! -name '*Ucvm*'); do
    if [ $f == ./main.cpp ] && [ $W == edge ]; then continue; fi
    P=; if [ $f == ./io/Config.cpp ]; then P=-DPUGIXML_SOURCE; fi
    echo "$R/tools/edge_v/src/$f|$B/o/ev_$(echo $f | tr / _).o|$BASE $P -DPP_USE_METIS -I$K/include -I$R/tools/edge_v -I$R/tools/edge_v/src -I/opt/vp/deps/include $SYS"
  done
  if [ $W != edge_v ]; then
    D="-DPP_N_CRUNS=$7 -DPP_ORDER=$5 -DPP_PRECISION=$6 -DPP_T_ELEMENTS_$(echo $4 | tr a-z A-Z) -DPP_T_KERNELS_VANILLA -DPP_HAS_HDF5 -DPP_T_EQUATIONS_$(echo $3 | tr a-z A-Z)"
    if [ $3 == seismic ]; then D="$D -DPP_N_RELAXATION_MECHANISMS=0"; fi
    if [ $3 != swe ]; then D="$D -DPP_USE_MPI"; fi
    I="-I$K/include -I$B -I$R -I$R/src -I/opt/vp/deps/include $SYS"
    for f in $(cd $R/src; find . -name '*.cpp' ! -name '*test.cpp' ! -name '*tests.cpp' ! -name Gaspi.cpp); do
      case $3$f in swe./parallel/MpiRemix.cpp) continue;; seismic*) ;; *./impl/seismic/*) continue;; esac
      echo "$R/src/$f|$B/o/e_$(echo $f | tr / _).o|$BASE $D $I"
    done
    echo "$R/submodules/visit_writer/visit_writer.cpp|$B/o/vw.o|$BASE $D $I"
    echo "$R/submodules/FastGL/fastgl.cpp|$B/o/fastgl.o|$BASE $D $I"
    echo "$K/pre_$4_$5.cpp|$B/o/pre.o|$BASE"
    echo "$K/mpi_mini.cpp|$B/o/mpi.o|-std=c++11 -O1 -w -I$K/include"
  fi
} > $B/list
tr '\n' '\0' < $B/list | xargs -0 -P 8 -I{} bash -c 'IFS="|" read s o f <<< "{}"; g++ $f -c $s -o $o' 
L="-lpugixml -lmetis /usr/lib/x86_64-linux-gnu/hdf5/serial/libhdf5_hl.so /usr/lib/x86_64-linux-gnu/hdf5/serial/libhdf5.so -lpthread -ldl"
if [ $W != edge ]; then g++ -fopenmp -o $B/edge_v_bin $B/o/ev_*.o $B/o/gmsh.o $B/o/elpp.o $L; fi
if [ $W != edge_v ]; then g++ -fopenmp -o $B/edge_bin $(ls $B/o/*.o | grep -v ev_._main) $L; fi
