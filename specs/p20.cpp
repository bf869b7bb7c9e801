#include <memory>
#include "vp.h"
#include "p20.h"
