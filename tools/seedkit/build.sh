# sourced by demo.sh: kit_build OUTDIR TARGET... builds the solver of /repo in OUTDIR
kit=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
kit_build() {
  local o=$1; shift
  mkdir -p "$o"
  cp -r /usr/include/eigen3 "$o/eigen"
  python3 - "$o/eigen/Eigen/src/Core/StlIterators.h" <<'P'
import sys
f=sys.argv[1]; t=open(f).read()
a=t.index("class pointer_based_stl_iterator")
b=t.index("typedef std::random_access_iterator_tag iterator_category;", a)
t=t[:b]+"typedef typename std::conditional<int(internal::traits<XprType>::InnerStrideAtCompileTime)==1, std::contiguous_iterator_tag, std::random_access_iterator_tag>::type iterator_concept;\n  "+t[b:]
open(f,"w").write(t)
P
  (cd "$o" && cmake -G Ninja "$kit" && ninja "$@") > "$o/log" 2>&1 || { tail -30 "$o/log"; return 1; }
}
