# run.sh name -> build sym + native and run
n=$1; shift
mkdir -p /tmp/w; rm -f /tmp/w/$n.sym /tmp/w/$n.nat /tmp/w/$n.*.json; [ -d /tmp/ov ] || python3 /verif/engine/overlay.py ${R:-/repo}/Bembel /tmp/ov/Bembel
(g++ -std=gnu++20 -w -O1 -D_GLIBCXX_ASSERTIONS -fmax-errors=8 -I/verif/engine -I/tmp/ov -I/usr/include/eigen3 /verif/harness/$n.cpp -o /tmp/w/$n.sym -lz3 -lgmpxx -lgmp -lquadmath 2>&1 | grep -E "error|required from here" | head -20) &
(g++ -std=gnu++20 -w -O1 -D_GLIBCXX_ASSERTIONS -fopenmp -DVC_NATIVE -I/verif/engine -I${R:-/repo} -I/usr/include/eigen3 /verif/harness/$n.cpp -o /tmp/w/$n.nat -lquadmath 2>&1 | grep -E "error|required from here" | head -20) & wait
time /tmp/w/$n.sym /tmp/w/$n.sym.json 8 ${B:-60} 600 20 1 $@
export OMP_NUM_THREADS=1; time /tmp/w/$n.nat /tmp/w/$n.nat.json 8 ${B:-60} 600 20 1 $@
python3 /verif/tools/dev_summ.py /tmp/w/$n.sym.json /tmp/w/$n.nat.json
