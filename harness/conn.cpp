// C11: requests and answers of connections under chosen schedules.
#include "connx.h"
PROPERTY(exchange, QUICK(12000), THOROUGH(400000), FREE) { connx::scenario(g, false); }
