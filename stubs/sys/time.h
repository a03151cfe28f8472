#include "../vstl.h"
