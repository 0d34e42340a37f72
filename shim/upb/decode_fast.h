#include "upb/shim_core.h"
