#include "c14_parallel.hh"
PR("solvers, nonoverlapping, double 2",(solving<double,2,false>(c)));;
PR("solvers, nonoverlapping, complex 1",(solving<CD,1,false>(c)));
