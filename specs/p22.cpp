#include <memory>
#include "vp.h"
#include "p22.h"
