#pragma once
#include "sched.hpp"
#include "Mutex.hpp"
#include "Semaphore.hpp"
#include "RingBufferSimple.hpp"
#include "RingBufferGuarded.hpp"
#include "ReiserRT_CoreExceptions.hpp"
#include "ObjectPool.hpp"
#include "BlockPool.hpp"
#include "MessageQueue.hpp"
#include <atomic>
#include <cstdio>
#include <cstring>
#include <deque>
#include <functional>
#include <memory>
#include <set>
#include <stdexcept>
#include <string>
#include <system_error>
#include <vector>
using namespace ReiserRT::Core;
using vs::check;
using vs::fail;
using vs::rnd;
