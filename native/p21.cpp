#include <memory>
#include "../clients/p21.h"
