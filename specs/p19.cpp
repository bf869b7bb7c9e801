#include <memory>
#include "vp.h"
#include "p19.h"
