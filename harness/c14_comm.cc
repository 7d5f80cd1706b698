#include "c14_parallel.hh"
C14_RULE;
PR("communication, double",(communication<BlockVector<double>,int,true>(c)));;
PR("communication, vector 3",(communication<BlockVector<FieldVector<double,3>>,long,true>(c)));;
PR("communication, complex 2",(communication<BlockVector<FieldVector<CD,2>>,std::size_t,true>(c)));;
PR("communication, std::vector",(communication<std::vector<long>,int,false>(c)));;
PR("index information",badInfo<int>(c));
PR("overlapping operator, double 1",(overlapping<double,1>(c)));;
PR("overlapping operator, complex 2",(overlapping<CD,2>(c)));;
PR("nonoverlapping operator, double 1",(nonoverlapping<double,1>(c)));;
PR("nonoverlapping operator, complex 2",(nonoverlapping<CD,2>(c)));
