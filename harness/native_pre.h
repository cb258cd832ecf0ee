// Forced into every natively replayed translation unit: lock operations go to
// the cooperative scheduler of sx_native.cpp so that schedules can be replayed.
#pragma once
#include <pthread.h>
#ifdef __cplusplus
extern "C" {
#endif
int sx_mutex_lock(pthread_mutex_t *);
int sx_mutex_unlock(pthread_mutex_t *);
int sx_mutex_trylock(pthread_mutex_t *);
#ifdef __cplusplus
}
#endif
#define pthread_mutex_lock sx_mutex_lock
#define pthread_mutex_unlock sx_mutex_unlock
#define pthread_mutex_trylock sx_mutex_trylock
