#include "FrictionProblem.hpp"
