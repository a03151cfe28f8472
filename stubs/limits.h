#include "vstl.h"
