#include <memory>
#include "../clients/p02.h"
