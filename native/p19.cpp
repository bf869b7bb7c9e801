#include <memory>
#include "../clients/p19.h"
