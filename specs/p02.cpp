#include <memory>
#include "vp.h"
#include "p02.h"
