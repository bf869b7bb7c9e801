#include <memory>
#include "../clients/p22.h"
