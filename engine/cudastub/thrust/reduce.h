#include "thrust/device_ptr.h"
