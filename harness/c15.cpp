#include "c15.hpp"
MC_MAIN
