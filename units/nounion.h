/* CBMC loses a pointer that is dereferenced straight out of a union (a->u.p->f).
 * The unions of store.h are never used for type punning, so for the verifier
 * their alternatives are laid side by side. */
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include <sys/types.h>
#include <pthread.h>
#include <limits.h>
#include <math.h>
#include "global.h"
#include "hash.h"
#include "hashset.h"
#include "threading.h"
#ifndef VP_NATIVE
#define union struct
#include "store.h"
#undef union
#endif
