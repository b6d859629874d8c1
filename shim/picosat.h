// PicoSAT's own header, with C linkage (the library itself is the real one).
#pragma once
extern "C" {
#include <picosat/picosat.h>
}
