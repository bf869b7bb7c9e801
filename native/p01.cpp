#include <memory>
#include "../clients/p01.h"
