#include "pbt_tbb.hpp"
