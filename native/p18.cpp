#include <memory>
#include "../clients/p18.h"
