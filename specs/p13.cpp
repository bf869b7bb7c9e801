#include <memory>
#include "vp.h"
#include "p13.h"
#include <macoro/thread_pool.cpp>
