#include <memory>
#include "vp.h"
#include "p07.h"
