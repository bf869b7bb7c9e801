#include <memory>
#include "../clients/p20.h"
