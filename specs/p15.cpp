#include <memory>
#include "vp.h"
#include "p15.h"
#include <macoro/thread_pool.cpp>
