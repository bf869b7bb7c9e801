#include <memory>
#include "vp.h"
#include "p01.h"
