#include <memory>
#include "vp.h"
#include "p12.h"
#include <macoro/thread_pool.cpp>
