#pragma once
#include <boost/asio/thread_pool.hpp>
