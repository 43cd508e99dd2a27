#include "reliable_multicast.h"
unsigned int sim_max_packet = RMC_MAX_PACKET;
unsigned int sim_max_payload = RMC_MAX_PAYLOAD;
