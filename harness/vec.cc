// AST harness: instantiates the fixed size vector class with a distinctive size.
#include <iostream>
#include <string>
using namespace std;
#include "fortranVector.hpp"
#include "switchAdr.hpp"
template class odes::fortranVectorF<1009>;
template class odes::fortranArray<1009>;
