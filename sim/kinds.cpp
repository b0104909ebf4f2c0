// compiled once per value kind: -DKIND=n
#ifndef SIM_ALLCALLS
#define SIM_ALLCALLS 1
#endif
#include "kinds.hpp"

namespace sim {

#if KIND == 0
co2::pooled_fixedsize_stack & shared_pool() {
    static co2::pooled_fixedsize_stack pool( 131072, 2);
    return pool;
}
#endif

#ifndef SIM_NO_KIND
static KindRegistrar reg( KIND, & maker< KIND, true >, & maker< KIND, false >);
#endif

}
