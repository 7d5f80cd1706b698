#include "c14_parallel.hh"
PR("solvers, overlapping, double 1",(solving<double,1,true>(c)));;
PR("solvers, overlapping, complex 1",(solving<CD,1,true>(c)));;
PR("solvers, overlapping, double 2",(solving<double,2,true>(c)));;
