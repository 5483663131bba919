#include "../../../plat.h"
