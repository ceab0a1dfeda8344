#!/bin/bash
# usage: mpirun.sh <n> <command ..>: runs the command as n ranks; fails if one of them fails
F=$(mktemp); truncate -s 4G $F; export MINI_MPI_FILE=$F MINI_MPI_SIZE=$1; n=$1; shift; p=()
for (( r = 0; r < n; r++ )); do MINI_MPI_RANK=$r "$@" & p+=( $! ); done
c=0; for x in "${p[@]}"; do wait $x || c=1; done
rm -f "$F"; exit $c
