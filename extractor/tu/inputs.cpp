// instantiates the reader and the writer of the input file for every problem and for the preparation tools
#include "preprocessor/input_parameters.hpp"
#include "problem/SWE/problem_input/swe_inputs.hpp"
#include "problem/Green-Naghdi/problem_input/gn_inputs.hpp"

template struct InputParameters<SWE::Inputs>;
template struct InputParameters<GN::Inputs>;
template InputParameters<YamlNodeWrapper>::InputParameters(const std::string&);
template void InputParameters<YamlNodeWrapper>::write_to(const std::string&);
