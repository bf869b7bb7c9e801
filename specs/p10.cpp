#include <memory>
#include "vp.h"
#include "p10.h"
