#include "../../plat.h"
