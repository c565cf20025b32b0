#include "user.h"
