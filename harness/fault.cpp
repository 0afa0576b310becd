#define FAULT_IMPL
#include <string>
#include "../engine/fault.hpp"
