#include <cds/init.h>
#include "sim.h"
namespace cds {
namespace { thread_local int attached = 0; }
void shim_check_attached(const char* what) { if (attached <= 0) { sim::HarnessScope hs; sim::fail("cds-attach", "%s by a thread that is not attached to libcds", what); } }
void threading::Manager::attachThread() { ++attached; }
void threading::Manager::detachThread() { --attached; }
}  // namespace cds
