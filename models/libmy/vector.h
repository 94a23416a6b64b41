#ifdef REPLAY
#include_next "libmy/vector.h"
#else
#include "libmy/ubuf.h"
#endif
