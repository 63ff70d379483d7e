// dReal includes a C++ build of picosat; the installed one is the C library.
#pragma once
extern "C" {
#include <picosat/picosat.h>
}
