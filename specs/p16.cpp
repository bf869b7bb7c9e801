#include <memory>
#include "vp.h"
#include "p16.h"
