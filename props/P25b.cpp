#define PBT_SECONDARY
#include <string>
#define TU tu_b
#include "P25_tu.hpp"
