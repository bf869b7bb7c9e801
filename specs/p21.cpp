#include <memory>
#include "vp.h"
#include "p21.h"
