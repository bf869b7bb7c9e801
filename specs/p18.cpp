#include <memory>
#include "vp.h"
#include "p18.h"
