#ifndef SIM_PROPS_HPP
#define SIM_PROPS_HPP
#include <cstdint>
namespace sim {
int prop_count();
const char * prop_name( int);
uint32_t prop_tags( int);       // the violations this property's check reports
int prop_find( const char *);
}
#endif
