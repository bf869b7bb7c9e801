#include <memory>
#include "vp.h"
#include "p23.h"
#include <macoro/thread_pool.cpp>
